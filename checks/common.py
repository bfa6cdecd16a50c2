"""Judges shared by the properties."""
from pm import real, model, ev
from pm.val import Ra, Sc, Unsure

from .core import Skip, Slow

# messages the interpreter always gives, whatever the -w option
ALWAYS = ("While scanning, ignored ", "Iterating over an infinite Range")
FMT = [None, "p", "P", "s", "S", "n", "l"]


def stderr_rest(err):
    """stderr without the lines that do not depend on -w."""
    return "".join(x for x in err.splitlines(True)
                   if not x.startswith(ALWAYS))


def note(m, rec, end):
    if m is not None:
        for k in m.opseen:
            rec.seen(*k)
        rec.ev("operator applications", sum(m.opseen.values()))
        rec.ev("function calls", m.calls)
        rec.ev("functions built from functions", m.lambdas)
        rec.ev("warnings", m.warned)
    rec.ev("runs ending " + end)


def flags_of(case):
    f = []
    if case.get("fmt"):
        f.append("-" + case["fmt"])
    if case.get("w"):
        f.append("-w")
    if case.get("x"):
        f.append("-x")
    return f


def versions():
    """The version constants are whatever version.py says."""
    v = real.mods()["version"]
    ev.VERS.update(VN=Sc(v.VERSION), VD=Sc(v.COMMIT_DATE))


def expect(case, maxsteps=None):
    if not ev.VERS:
        versions()
    return model.run(case["code"], case.get("args", ()), case.get("fmt"),
                     case.get("stdin", ()), case.get("x", False),
                     maxsteps=maxsteps)


def observe(case, extra=()):
    return real.run_prog(case["code"], case.get("args", ()),
                         flags_of(case) + list(extra), case.get("stdin", ()))


def show(case):
    s = f"code {case['code']!r}"
    for k in ("args", "fmt", "stdin", "w", "x"):
        if case.get(k):
            s += f", {k} {case[k]!r}"
    return s


def compare(case, x, o):
    """Expected x against observed o -> message or None."""
    if o.end == "timeout":
        raise Slow(case["code"])
    if o.end == "budget":
        if case.get("w") and real.DEFAULT_STEPS is None:
            raise Skip("flood of warnings")
        if case.get("w") and x.warned and Ra.huge:
            raise Skip("a warning that may spell out a huge Range")
        return (f"{show(case)}: expected to end after a bounded number of "
                f"steps ({x.end}), but exceeded the step or output budget; "
                f"output starts {o.out[:200]!r}")
    if o.end != x.end:
        return (f"{show(case)}: expected the run to end {x.end!r} with output "
                f"{x.out[:400]!r}, observed {o.end!r} ({o.exc!r}) with output "
                f"{o.out[:400]!r}; stderr {o.err[-300:]!r}")
    if o.out != x.out:
        return (f"{show(case)}: expected output {x.out[:600]!r}, observed "
                f"{o.out[:600]!r}")
    rest = stderr_rest(o.err)
    if o.end == "ok":
        if not case.get("w") and rest:
            return (f"{show(case)}: messages on stderr although warnings are "
                    f"off: {rest[:300]!r}")
        if case.get("w") and bool(rest) != bool(x.warned):
            return (f"{show(case)}: expected "
                    f"{'a warning' if x.warned else 'no warning'}, observed "
                    f"stderr {rest[:300]!r}")
    elif not rest:
        return f"{show(case)}: fatal error without a message on stderr"
    if case.get("stdin") and x.m is not None and x.end == "ok":
        used = len(case["stdin"]) - len(x.m.stdin)
        if o.reads != used:
            return (f"{show(case)}: expected {used} lines of stdin to be "
                    f"read, observed {o.reads}")
    return None


def diff(case, rec):
    """The run's output, ending, warnings and reads are as predicted."""
    x = expect(case)
    o = observe(case)
    r = compare(case, x, o)
    note(x.m, rec, x.end if x.phase == "run" else "in a syntax error")
    return r


def agree(cases, rec, law, norm=lambda t: t):
    """All runs (each predicted to finish) give the same output and ending."""
    first = None
    xs = [expect(c) for c in cases]
    for c, x in zip(cases, xs):
        o = observe(c)
        if o.end == "timeout":
            raise Slow(c["code"])
        if o.end == "budget":
            raise Skip("budget")
        if first is None:
            first = (c, o)
        elif (norm(o.out), o.end) != (norm(first[1].out), first[1].end):
            return (f"{law}: {show(first[0])} gives {first[1].end} "
                    f"{first[1].out[:400]!r} but {show(c)} gives {o.end} "
                    f"{o.out[:400]!r}")
    note(xs[0].m, rec, xs[0].end)
    return None


def each_true(case, rec, law):
    """A program whose every output line is a law instance printing 1."""
    x = expect(case)
    o = observe(case)
    if o.end == "timeout":
        raise Slow(case["code"])
    if o.end != "ok":
        if x.end != "ok":
            raise Skip("fatal")
        return f"{law}: {show(case)} ended {o.end} {o.exc!r}"
    note(x.m, rec, x.end)
    assert x.out and all(v == "1" for v in x.out.split("\n")[:-1]), \
        "the law and the model disagree: " + show(case) + x.out
    lines = o.out.split("\n")
    if not o.out or any(v != "1" for v in lines[:-1]):
        return f"{law}: {show(case)} printed {o.out[:500]!r}"
    return None
