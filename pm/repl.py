"""Reference model of a REPL session."""
from . import ev, lex, syn, real
from .val import Unsure, PFatal, METER, rep, FAULTS


class Session:
    """out: expected stdout; events: what must show on stderr, in order."""

    def __init__(self):
        self.out = ""
        self.events = []
        self.units = []
        self.m = None


def run(lines, fmt=None, warnings=False, version=None, help_text=None):
    try:
        return _run(lines, fmt, warnings, version, help_text)
    except (RecursionError, MemoryError):
        raise Unsure("recursion")
    finally:
        METER[0] = -10**15


def _run(lines, fmt, warnings, version, help_text):
    s = Session()
    m = s.m = ev.Machine(fmt, list(lines))
    m.out.append(f"Pip {version}\nType ;help for more information.\n")
    on = warnings
    feed = m.stdin
    done = False
    def stop():
        """End of input or an interrupt at a prompt."""
        if feed and feed[0] in FAULTS and feed[0][1:] not in ("INT", "EOF"):
            raise Unsure("fault at a prompt")
        return not feed or feed[0] in FAULTS

    while not done:
        m.out.append(">> ")
        if stop():
            break
        code = feed.pop(0) + "\n"
        st = None
        bad = False
        while st is None:
            try:
                st = syn.parse(code)
            except (syn.Incomplete, lex.Incomplete):
                m.out.append(".. ")
                if stop():
                    done = True
                    break
                code += feed.pop(0) + "\n"
            except (syn.Bad, lex.Bad):
                bad = True
                break
        if done:
            break
        if bad:
            s.events.append("syntax")
            s.units.append("bad")
            continue
        if code.startswith(";") and code[1:].strip():
            cmd, *rest = code[1:].lower().split()
            s.units.append("command")
            if "quit".startswith(cmd) or "exit".startswith(cmd) or cmd == "x":
                break
            if "help".startswith(cmd):
                m.out.append(help_text + "\n")
            elif "warnings".startswith(cmd):
                new = {(): not on, ("on",): True, ("off",): False}.get(
                    tuple(rest))
                if new is not None:
                    on = new
                    s.events.append("on" if on else "off")
        try:
            for t in st:
                w = m.warned
                try:
                    v = m.statement(t)
                    if v is not None:
                        m.emit(rep(v) + "\n")
                        m.history(v)
                finally:
                    if m.warned > w and on:
                        s.events.append("warn")
                s.units.append("command statement" if v is None else
                               "expression")
        except PFatal as e:
            s.events.append("interrupt" if e.interrupt else "fatal")
            s.units.append("fatal")
            m.depth = 0
    m.out.append("Bye!\n")
    s.out = "".join(m.out)
    return s
