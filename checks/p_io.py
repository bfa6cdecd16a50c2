"""C21 output formats, C22 command line, C23 isolation and determinism,
C30 interrupts."""
import json
import os
import subprocess
import sys
import tempfile

from pm import real, lex, syn, gen, model, repl
from pm.val import Sc, Li, Ra, Pa, NIL, rep, Unsure

from . import core
from .core import kind, Skip, Slow
from .common import (diff, expect, observe, compare, agree, note, show,
                     stderr_rest, FMT)
from .p_state import args, g_whole, repl_line, j_repl

# ---------------------------------------------------------------- C21

ATOMS = ['"a"', '"b c"', "1", "0", "-5", "2.5", '""', "()", "`x+`", ",3",
         "2,5", "1,()", "_", "{a+1}", "{P 1}", "l", "n", "s", "\"\n\"", "p",
         "-`i`", "\"\\\"", "w", "\\\"q\"q\\\"", "'\"", "k", "0,0", "\"é\"",
         "AZ", "$.", "PI", "XA"]


def g_tree(g, d):
    if d == 0 or g.chance(.45):
        a = g.pick(ATOMS)
        return "(-5)" if a == "-5" else "a" if a == "$." else a
    return "[" + ";".join(g_tree(g, d - 1) for _ in range(
        g.pick([0, 1, 2, 2, 3]))) + "]"


SINKS = ["P V", "O V", "P V;O V", "YP V;P y", "YO V;P y", "P ST V", "P V.\"|\"",
         "P \"|\".V", "P #ST V", "P RP V", "PO x", "O P V", "P O V", "P[V V]",
         "P[[V]V]", "x:V;P\\\"<\\x>\\\"", "V", "P#V", "P V J\"-\"", "P V=ST V",
         "P V R\"a\"\"[b]\"", "F i,2{P V}", "P[P V]", "x:[V];P x;x@0:7;P x",
         "P UC V", "P V X 2", "P(ST V)@0", "PX V", "P{V}()", "PBx", "V P V",
         "O[V]O n", "P V N[V 1]", "P V EQ ST V", "I V{P V}", "P x:V", "P$.V",
         "P V WR V", "P(V)^\"a\"", "x:V;PUx1;Px", "P V QU", "P V<\"b\"",
         "P SQ V", "P V TM 1", "P {a}M V", "P ENV"]


def g_format(g):
    parts = []
    for _ in range(g.pick([1, 1, 2])):
        v = g_tree(g, 3) if g.chance(.8) else g.wrap(g.src(g.value(2)))
        parts.append(g.pick(SINKS).replace("V", v))
    parts.append(g.pick(["()", "", g_tree(g, 2), "x"]))
    return {"code": ";".join(parts), "fmt": g.pick(FMT), "args": ["5"],
            "stdin": []}


kind("C21", "formats", 6, g_format, diff)


def g_formed(g):
    """Nested lists of short texts, with a ground truth."""
    def go(d):
        if d == 0 or g.chance(.4):
            return g.pick(["a", "b", "cd", "7", "", "x", "-1"])
        return [go(d - 1) for _ in range(g.pick([0, 1, 2, 3]))]
    t = go(3)
    if isinstance(t, str):
        t = [t]
    return {"tree": t, "fmt": g.pick(FMT), "how": g.r.randrange(4)}


def flat(t):
    return [t] if isinstance(t, str) else [y for x in t for y in flat(x)]


def nota(t):
    if isinstance(t, str):
        return t if t.lstrip("-").isdigit() else f'"{t}"'
    return "[" + ";".join(map(nota, t)) + "]"


def truth_of(t, f):
    """The text of a list in format f, straight from the flag's meaning."""
    def j(x, sep):
        return x if isinstance(x, str) else sep.join(j(y, sep) for y in x)
    if f == "p":
        return nota(t)
    if f == "P":
        return "\n".join(map(nota, t))
    if f == "l":
        return "\n".join(j(x, "") for x in t)
    if f == "S":
        return "\n".join(j(x, " ") for x in t)
    return j(t, {"n": "\n", "s": " ", None: ""}[f])


def j_formed(case, rec):
    t, f = case["tree"], case["fmt"]
    src = nota(t).replace("-1", "v")
    w = truth_of(t, f)
    code, want = [(f"{src}", w + "\n"), (f"P{src};()", w + "\n"),
                  (f"O{src};()", w), (f"x:{src};YP x;O y;()", w + "\n" + w)
                  ][case["how"]]
    o = real.run_prog(code, (), ["-" + f] if f else [])
    if o.end in ("timeout", "budget"):
        raise Slow(code)
    d = max((len(p) for p in [[]] if p), default=0)
    rec.seen("format", f or "-", "empty" if not t else "nested" if any(
        isinstance(x, list) for x in t) else "plain", case["how"], d)
    if o.end != "ok" or o.out != want or o.err:
        return (f"code {code!r} with format {f}: expected {want!r}, observed "
                f"{o.end} {o.out!r} {o.err!r}")
    return None


kind("C21", "nested lists against the flags' meaning", 2, g_formed, j_formed)


# ---------------------------------------------------------------- C22

LONG = {"p": "--repr", "P": "--reprlines", "s": "--space", "S": "--spacelines",
        "n": "--newline", "l": "--lines", "w": "--warnings", "x":
        "--exec-args", "v": "--verbose", "d": "--debug", "r": "--readlines",
        "i": "--stdin", "R": "--repl", "V": "--version"}
CLIARGS = ["5", "abc", "-3", "0", "", "a b", "é日", "'q'", "\"", "-1.5", "x=y",
           "1e3", "[1;2]", "it's", "\\", "  ", "\t", "a\nb", "0x1", "$HOME",
           "5\r", "\ra\r\n", "a\n", "\n", " a", "b ", "\t7\t", "\u00a0", "+5",
           "-", "00", "1_000", "\x1b[1m", "a\x0bb\x0c", "\ufeffa", "\u2028",
           "e\u0301", "\U0001f600", "%s", "{0}", "\\n", "*", "?", "@file",
           "a;b", ";", "#", "&&", "~", "x" * 300, "9" * 60, "İ", "ß", "\x7f"]
XARGS = ["5", "[1;2;3]", "\"abc\"", "1,5", "`a+`", "{a+1}", "2*3", "[]", "()",
         "AZ", "_", "x", "\"a\".5", "1,()", "(", "5 6", "v", "[\"a\";[1]]",
         "5/0", "!", "  ", ""]


def g_cli(g):
    r = g.r
    k = r.random()
    if k < .08:
        return {"mode": "conflict", "argv": g.pick([
            ["-p", "-s"], ["-ps"], ["-e", "1", "-f", "c.pip"], ["-i", "-R"],
            ["-n", "-l", "-e", "1"], ["-e", "1", "-i"], ["-P", "-p", "-e1"],
            ["--bogus"], ["-Q", "-e", "1"], ["-e"], ["-f"], ["-S", "-s"],
            ["--lines", "--newline", "c.pip"], ["-R", "-e", "1"],
            ["-ie", "1"], ["-l", "-P"], ["-sn", "-e", "P 5"]])}
    if k < .12:
        return {"mode": "version", "argv": g.pick([
            ["-V"], ["--version"], ["-V", "-p"], ["-Ve", "P 5"],
            ["-V", "c.pip", "x"], ["-RV"], ["-iV"], ["-V", "-f", "none"]])}
    if k < .15:
        return {"mode": "usage", "argv": g.pick([
            ["-p"], ["-w"], ["--"], ["-r"], ["-xd"], ["-v", "-l"]])}
    if k < .19:
        return {"mode": "nofile", "argv": g.pick([
            ["none.pip"], ["-f", "none.pip"], ["-p", "none.pip", "a"],
            ["-f", ".", "a"], ["--file=none.pip"], ["sub/none", "x"],
            ["-w", "."], ["-f", ""]])}
    spec = {"fmt": g.pick(FMT) if g.chance(.5) else None,
            "w": g.chance(.2), "v": g.chance(.12), "d": g.chance(.05),
            "x": g.chance(.2), "r": g.chance(.2)}
    if k < .25:
        lines = []
        for _ in range(g.pick([1, 2, 4])):
            lines += repl_line(g, ["x", "y", "i", "l"]).split("\n")
        opts = [c for c in "wx" if spec[c]] + (
            [spec["fmt"]] if spec["fmt"] else [])
        return {"mode": "repl", "argv": spell(g, opts + ["R"], []),
                "stdin": lines, "fmt": spec["fmt"], "w": spec["w"]}
    code = (g.program(g.pick([1, 3, 5])) if g.chance(.6) else
            g.pick(SAMPLES) if g.chance(.75) else
            gen.mutate(r, g.program(2)))
    src = g.pick(["e", "f", "pos", "i", "e"])
    n = g.pick([0, 0, 1, 2, 3, 4, 5, 6, 7, 12])
    pool = XARGS if spec["x"] else CLIARGS
    a = [g.pick(pool) if g.chance(.8) else rep(g.num()) for _ in range(n)]
    stdin = [g.pick(["in1", "2", "", "x y", "[1;2]", "-5"]) if g.chance(.7)
             else g.pick([" a", "b ", "c\t", "\td", "e\x0b", "\x0cf\x0c",
                          "g\x1c", "\x1dh\x1e", "\u2028i\u2029", "j\x85",
                          "\x0b", " ", "\ufeffk", "7 ", "\x0c8", "\\n",
                          "\x1f9\x1f", "\u00a0m\u3000"]) for _ in
             range(g.pick([0, 1, 2, 4]))]
    case = {"mode": "prog", "code": code, "spec": spec}
    opts = [c for c in "wvdxr" if spec[c]]
    if spec["fmt"]:
        opts.append(spec["fmt"])
    r.shuffle(opts)
    if src == "i":
        opts.append("i")
        stdin = code.split("\n")
        case["stdin"], case["left"] = stdin, []
    else:
        case["stdin"] = stdin
        case["left"] = stdin
    tail = []
    if src == "e":
        bad = code.startswith("-")
        h = r.randrange(4)
        tail = (["-e", code] if h == 0 and not bad else
                ["-e" + code] if h == 1 and code and code[0] != "=" else
                ["--execute=" + code] if h == 2 or bad else
                ["--execute", code])
        if h == 3 and opts and not bad and g.chance(.5):
            # clustered with the other flags
            tail = ["-" + "".join(opts) + "e", code]
            opts = []
    elif src in ("f", "pos"):
        f = g.pick(["c.pip", "c", "my code.txt", "sub/c.pip", "c.pip",
                    "c.pip ", " c", "sub/ c.pip\t", "\u00fc\u4e2d.PIP", "a'b\"c",
                    "$x;y", "3", "c.pip\n", "*", "~c", "sub/../c", "@c", "c="])
        if f != "c.pip" and src == "f" and g.chance(.3):
            case["decoy"] = "c.pip"
        case["file"] = f
        # text files may have either kind of line ends
        case["crlf"] = "\n" in code and g.chance(.4)
        if src == "f":
            tail = g.pick([["-f", f], ["--file", f], ["-f" + f],
                           ["--file=" + f]])
    if spec["r"]:
        case["given"], case["left"] = list(case["left"]), []
    else:
        case["given"] = a
    pos = ([case["file"]] if src == "pos" else []) + a
    if src == "pos" and not spec["r"]:
        pass
    case["argv"] = spell(g, opts, tail, pos)
    return case


SAMPLES = ["a+b", "P a;Pb;g", "g", "[a b c]", "q", "[q q]", "Pq;W x:q{Px};a",
           "#g", "\\g", "PaPb", "F i g{Pi}", "RPg", "a?b c", "5/0;\"x\"",
           "()", "", "  ", ";only a comment", "P1;V\")\"", "P 1;(v@@)",
           "a.b;P RP a", "[[1;2];[3;4]]", "\"é日\"", "'\n", "P\"a\nb\"",
           "{;x;}5", "gJ\",\"", "f", "L3{Pa}", "a:5;\\a", "x:9;WG;x.\\b",
           "\"", "(", ")", "[1;[2;3];,3]", "U i;i.b", "X5", "-5", "-a",
           "--5", "=", "a@<2", "P$+g;$*g", "q.q;q"]


def spell(g, opts, tail, pos=()):
    """Random but equivalent spelling of options."""
    r = g.r
    out = []
    k = r.random()
    if opts and k < .3:
        out = ["-" + "".join(opts)]
    else:
        for c in opts:
            out.append(LONG[c] if r.random() < .3 else "-" + c)
    groups = [[x] for x in out] + ([tail] if tail else [])
    r.shuffle(groups)
    pre = [y for x in groups for y in x]
    pos = list(pos)
    neg = any(p.startswith("-") for p in pos)
    if neg or r.random() < .2:
        return pre + ["--"] + pos
    # options may also follow all of the positional arguments
    if pos and r.random() < .2:
        return pos + pre
    return pre + pos


def setup_files(case, d):
    for f in {case.get("file"), case.get("decoy")} - {None}:
        os.makedirs(os.path.dirname(os.path.join(d, f)) or d, exist_ok=True)
        with open(os.path.join(d, f), "w", encoding="utf-8",
                  newline="") as h:
            code = case["code"]
            if case.get("crlf"):
                code = code.replace("\n", "\r\n")
            h.write(code if f == case.get("file") else "P \"decoy\"")


def want_cli(case, rec):
    """-> (fmt, model expectation)"""
    s = case["spec"]
    fmt = "p" if s["d"] else s["fmt"]
    if "\r" in case["code"] or any("\r" in x for x in case["stdin"]):
        raise Skip("carriage return")
    given = case["given"]
    x = model.run(case["code"], given, fmt, case["left"], s["x"])
    return fmt, x


def judge_cli(case, rec, out, err, end, how):
    """end: exit status of the process"""
    desc = f"{how} {case['argv']!r}"
    if case.get("stdin"):
        desc += f", stdin {case['stdin']!r}"
    if case.get("file"):
        desc += f", file {case['code']!r}"
    mode = case["mode"]
    rec.seen("cli", mode, how.split()[0], end)
    if mode == "conflict":
        if end != 2 or out or not err:
            return f"{desc}: expected a usage error (status 2), observed " \
                   f"{end} {out!r} {err[-200:]!r}"
        return None
    v = real.mods()["version"]
    if mode == "version":
        w = f"Pip {v.VERSION} (updated {v.COMMIT_DATE})\n"
        if (end, out, err) != (0, w, ""):
            return f"{desc}: expected {w!r}, observed {end} {out!r} {err!r}"
        return None
    if mode == "usage":
        if end != 0 or "-h" not in out or err or out.count("\n") != 1:
            return f"{desc}: expected a hint, observed {end} {out!r} {err!r}"
        return None
    if mode == "nofile":
        if end != 1 or out or not err or "Traceback" in err:
            return f"{desc}: expected an error (status 1), observed " \
                   f"{end} {out!r} {err!r}"
        return None
    if mode == "repl":
        p = real.mods()["pip"]
        x = repl.run(case["stdin"], case["fmt"], case["w"], v.VERSION,
                     p.REPL_HELP_TEXT)
        note(x.m, rec, "session")
        if end != 0 or out != x.out:
            return f"{desc}: expected {x.out!r}, observed {end} {out!r}"
        return None
    s = case["spec"]
    fmt, x = want_cli(case, rec)
    for c in "wvdxr":
        if s[c]:
            rec.seen("flag", c, case["argv"] and how.split()[0])
    rec.seen("flag", fmt or "-")
    rec.seen("source", case.get("file") and "file" or
             ("stdin" if case["left"] != case["stdin"] else "argument"))
    note(x.m, rec, x.end)
    code = case["code"]
    head = ""
    if s["v"] or s["d"]:
        try:
            head = (f"{len(code.encode())} bytes (UTF-8), {len(code)} "
                    "characters\n\n")
        except UnicodeError:
            raise Skip("surrogate")
        try:
            head += " ".join(t.s for t in lex.lex(code)) + "\n\n"
        except lex.Incomplete:
            pass
        if not out.startswith(head):
            return f"{desc}: expected -v to show {head!r}, observed {out!r}"
        if x.phase == "syntax":
            if out != head:
                return f"{desc}: output after a syntax error: {out!r}"
            out = ""
        else:
            body = out[len(head):]
            cut = body.find("]\n\n") + 3
            if cut < 3 or not body.startswith("["):
                return f"{desc}: no parse tree in the -v output {out!r}"
            # the tree itself may contain such text: only its end counts
            if not body.endswith("]\n\n" + x.out):
                return (f"{desc}: expected output {x.out!r} after the "
                        f"verbose messages, observed {out!r}")
            out = x.out
    if end != (0 if x.end == "ok" else 1):
        return f"{desc}: expected to end {x.end}, observed status {end}; " \
               f"output {out!r}; stderr {err[-300:]!r}"
    if out != x.out:
        return f"{desc}: expected output {x.out!r}, observed {out!r}"
    rest = stderr_rest(err)
    if "Traceback" in rest:
        return f"{desc}: Python traceback on stderr: {rest[-300:]!r}"
    if x.end != "ok" and not rest:
        return f"{desc}: fatal error without a message"
    warn = s["w"] or s["d"]
    if x.end == "ok" and bool(rest) != bool(warn and x.warned):
        return f"{desc}: messages on stderr: {rest[:300]!r}, expected " \
               f"{x.warned if warn else 0} warnings"
    return None


def in_dir(case, fn):
    with tempfile.TemporaryDirectory(dir=core.SCRATCH) as d:
        old = os.getcwd()
        os.chdir(d)
        try:
            setup_files(case, d)
            return fn(d)
        finally:
            os.chdir(old)


def status(o):
    if o.end in ("timeout", "budget"):
        raise Slow("cli")
    if o.end == "ok":
        return 0
    if o.end.startswith("exit:"):
        return int(o.end[5:]) if o.end[5:].isdigit() else 1
    return o.end


def decline(case, rec):
    """Raise before running what the model cannot predict."""
    if case["mode"] == "prog":
        want_cli(case, rec)
    elif case["mode"] == "repl":
        repl.run(case["stdin"], case["fmt"], case["w"], "", "")


def j_cli(case, rec):
    decline(case, rec)

    def go():
        old = sys.argv
        sys.argv = ["pip.py"] + case["argv"]
        try:
            real.mods()["pip"].main()
        finally:
            sys.argv = old
    o = in_dir(case, lambda d: real.guarded(go, case.get("stdin", ()))[0])
    return judge_cli(case, rec, o.out, o.err, status(o), "main")


kind("C22", "command lines", 6, g_cli, j_cli, cost=2)
kind("C21", "command lines", 2, g_cli, j_cli, cost=2)


def quote(g, a):
    """Spell an argument for the one-line form."""
    if a == "":
        return g.pick(['""', "''"])
    out, k = "", 0
    while k < len(a):
        n = g.r.randrange(1, 6)
        piece = a[k:k + n]
        forms = []
        if not set(piece) & set("'\" "):
            forms += [piece] * 3
        if "'" not in piece:
            forms.append(f"'{piece}'")
        if '"' not in piece:
            forms.append(f'"{piece}"')
        if not forms:
            continue
        out += g.pick(forms)
        k += n
    return out


def g_argstr(g):
    c = g_cli(g)
    c["line"] = g.pick(["", " ", "  "]) + "".join(
        quote(g, a) + " " * g.pick([1, 1, 2]) for a in c["argv"])
    if g.chance(.5):
        c["line"] = c["line"].rstrip(" ")
    c["entry"] = g.pick(["pip", "run", "list"])
    return c


def j_argstr(case, rec):
    decline(case, rec)
    p = real.mods()["pip"]
    entry = case["entry"]

    def go():
        old = sys.argv
        sys.argv = ["pip.py"]
        try:
            if entry == "pip":
                p.pip(None, case["line"])
            elif entry == "run":
                p.run(None, case["line"])
            else:
                p.pip(argv=list(case["argv"]))
        finally:
            sys.argv = old
    o = in_dir(case, lambda d: real.guarded(go, case.get("stdin", ()))[0])
    st = status(o)
    if st == "fatal" and entry != "run":
        st = 1
    elif st == 0 and entry == "run" and (
            case["mode"] == "nofile" or case["mode"] == "prog" and
            want_cli(case, rec)[1].end != "ok"):
        st = 1                    # run() does not pass the error on
    return judge_cli(case, rec, o.out, o.err, st,
                     f"{entry} argument line {case['line']!r} for")


kind("C22", "argument lines", 3, g_argstr, j_argstr, cost=2)


def g_api(g):
    return {"code": g.program(g.pick([1, 3])) if g.chance(.6) else
            g.pick(SAMPLES),
            "given": [g.pick(CLIARGS + [5, -7, 1.5, 0, [1], None])
                      for _ in range(g.pick([0, 1, 2, 5]))],
            "fmt": g.pick(FMT), "none": g.chance(.2)}


def j_api(case, rec):
    p = real.mods()["pip"]
    f = ["-" + case["fmt"]] if case["fmt"] else []
    a = [] if case["none"] else case["given"]
    x = model.run(case["code"], [str(v) for v in a], None if case["none"]
                  else case["fmt"])

    def go():
        if case["none"]:
            p.run(case["code"])
        else:
            p.run(case["code"], f + ["--"] + a)
    o = real.guarded(go)[0]
    if o.end in ("timeout", "budget"):
        raise Slow(case["code"])
    note(x.m, rec, x.end)
    if o.end != "ok" or o.out != x.out or \
            bool(stderr_rest(o.err)) != (x.end != "ok"):
        return (f"run({case['code']!r}, {a!r}) format {case['fmt']}: expected "
                f"{x.end} {x.out!r}, observed {o.end} {o.out!r} {o.err!r}")
    return None


kind("C22", "called from Python", 2, g_api, j_api)


def g_inter(g):
    c = g_cli(g)
    tries = 0
    while c["mode"] not in ("prog", "repl", "version") or \
            any("\n" in a for a in c["argv"]):
        c = g_cli(g)
        tries += 1
        if tries > 50:
            raise Unsure("no case")
    c["line"] = " ".join(quote(g, a) for a in c["argv"])
    return c


def j_inter(case, rec):
    """Interactive mode: the same options typed at its prompt."""
    p = real.mods()["pip"]
    decline(case, rec)
    if case["mode"] == "prog":
        if case["spec"]["v"] or case["spec"]["d"]:
            raise Skip("verbose")
        # a first positional argument is not a code file here
        if case.get("file") and case["file"] in case["argv"] and not any(
                a in ("-f", "--file") for a in case["argv"]):
            raise Skip("positional file")

    def go():
        old = sys.argv
        sys.argv = ["pip.py"]
        try:
            p.main()
        finally:
            sys.argv = old

    def run(c):
        return in_dir(c, lambda d: real.guarded(
            go, [c["line"]] + c.get("stdin", []))[0])
    o = run(case)
    st = status(o)
    if case["mode"] == "version":
        v = real.mods()["version"]
        if v.VERSION not in o.out or st:
            return f"interactive {case['line']!r}: {o.out!r}"
        rec.seen("interactive", "version")
        return None
    if case["mode"] == "repl":
        x = repl.run(case["stdin"], case["fmt"], case["w"], real.mods()[
            "version"].VERSION, p.REPL_HELP_TEXT)
        note(x.m, rec, "session")
        rec.seen("interactive", "repl")
        if st or not o.out.endswith(x.out):
            return (f"interactive {case['line']!r} then {case['stdin']!r}: "
                    f"expected {x.out!r}, observed {o.end} {o.out!r}")
        return None
    _, x = want_cli(case, rec)
    if x.phase == "syntax" or x.end != "ok":
        raise Skip("fatal")
    # what the mode itself prints does not depend on the program
    blank = dict(case, code="")
    if case["left"] != case["stdin"] and not case.get("given"):
        blank["stdin"] = []
    b = None
    if case.get("file"):
        b = run(blank)
    note(x.m, rec, x.end)
    rec.seen("interactive", "program", bool(case.get("file")))
    if st or not o.out.endswith("\n" + x.out):
        return (f"interactive {case['line']!r} then {case.get('stdin')!r}: "
                f"expected output ending {x.out!r}, observed {o.end} "
                f"{o.out!r} {o.err[-200:]!r}")
    if b is not None and b.end == "ok" and o.out != b.out + x.out:
        return (f"interactive {case['line']!r}: expected {b.out + x.out!r}, "
                f"observed {o.out!r}")
    return None


kind("C22", "interactive mode", 1, g_inter, j_inter, cost=3)


def spawn(argv, stdin, d, env=None, timeout=60):
    e = {"PATH": "/usr/bin:/bin", "PYTHONUTF8": "1", "HOME": d,
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "random",
         "LANG": "C.UTF-8"}
    e.update(env or {})
    try:
        r = subprocess.run([sys.executable, "-B",
                            os.path.join(real.REPO, "pip.py")] + argv,
                           input=stdin, cwd=d, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        raise Slow(str(argv))
    return r


def j_process(case, rec):
    decline(case, rec)
    if any("\0" in a for a in case["argv"]):
        raise Skip("NUL")
    try:
        data = "".join(x + "\n" for x in case.get("stdin", ())).encode()
        [a.encode() for a in case["argv"]]
    except UnicodeError:
        raise Skip("surrogate")
    if case["mode"] == "prog" and case["code"].endswith("\n") and \
            "i" in str(case["argv"]):
        pass
    r = in_dir(case, lambda d: spawn(case["argv"], data, d))
    if r.returncode < 0:
        raise Skip("killed")
    return judge_cli(case, rec, r.stdout.decode("utf-8", "replace"),
                     r.stderr.decode("utf-8", "replace"), r.returncode,
                     "process")


kind("C22", "real processes", 2, g_cli, j_process, cost=50)


# ---------------------------------------------------------------- C23

DIRTY = [
    {"code": "l:[1;2];l PU 3;i:9;s:\"x\";(v@@)"},
    {"code": "{a:5;f 6}3;V\")\"", "fmt": "p"},
    {"code": "x:_;x+:1;_:{9};B:7;z:5;AZ:\"\";XA:`q`;l@3:1"},
    {"code": "WG;PI:3;h:1;w:`,`;p:5;G:8"},
    {"code": "{RE a}5"}, {"code": "(f 1)", "fmt": "S", "w": True},
    {"code": "[\"a\";[1;2]]", "fmt": "P"}, {"code": "5/0", "w": True},
    {"code": "\"abc\"~`b`;P[$0 $` $']"}, {"code": "P 1;\"a\"~`(`"},
    {"code": "\"aXb\"R`x`(-`x`);-`x`~\"X\""}, {"code": ")"}, {"code": "\""},
    {"code": "r:5;r"}, {"code": "$+,5;$.\"ab\";\\+[1;2;3]"},
    {"code": "[a b]:[b a];a:=:b", "args": ["1", "2"]},
    {"code": "F i,3{l AE:i}l", "fmt": "n"}, {"code": "YP 5;y.y"},
    {"code": "q;q", "stdin": ["1"]}, {"code": "u:1;n:2;m:3;o:4;t:5;v:6;k:7"},
    {"code": "{a@0:9}MM[[1;2];[3]]"}, {"code": "PIP"},
]


def g_iso(g):
    kind_ = g.r.randrange(3)
    a = g_whole(g)
    others = []
    for _ in range(g.pick([1, 2, 4])):
        others.append(g.pick(DIRTY) if g.chance(.5) else
                      dict(g_whole(g), fmt=g.pick(FMT)))
    lines = []
    for _ in range(g.pick([2, 4])):
        lines += repl_line(g, ["x", "y", "i", "l"]).split("\n")
    return {"a": a, "others": others, "what": ["prog", "prog", "repl"][kind_],
            "lines": lines, "fmt": g.pick(FMT), "law": 1}


def j_iso(case, rec):
    def a():
        if case["what"] == "repl":
            return real.run_repl(case["lines"], case["fmt"])
        return observe(case["a"])
    # only deterministic programs without floods
    if case["what"] == "prog":
        x = expect(case["a"])
    else:
        x = repl.run(case["lines"], case["fmt"], False, "", "")
    for c in case["others"]:
        expect(c)
    o1 = a()
    ends = []
    for c in case["others"]:
        ends.append(observe(c).end)
    o2 = a()
    ends += [o1.end, o2.end]
    if "timeout" in ends:
        raise Slow("isolation")
    if "budget" in ends:
        raise Skip("flood")
    rec.seen(case["what"], *sorted(set(ends)))
    for c in case["others"]:
        rec.seen("between", c.get("fmt") or "-")
    if o1.key() != o2.key():
        return (f"the same {case['what']} gave different results before and "
                f"after other programs: {o1!r} then {o2!r}; "
                f"{json.dumps(case)[:600]}")
    if case["what"] == "prog":
        note(x.m, rec, x.end)
        return compare(case["a"], x, o2)
    return None


kind("C23", "the same program again", 5, g_iso, j_iso, cost=8)


def seeded(g):
    """A program whose random draws are determined by its seed."""
    s = g.pick([g.src(g.num()), "\"abcde\"", "12345", "[1;2;3]", "`ab`", "1,9",
                "\"\"", "()", "{a}", "98765.4321", "\"Hello World\"", "r",
                "\"" + g.word().s.replace('"', "") + "\"", "-3", "[[];\"q\"]"])
    if s == "r":
        s = "7;r:r"
    draws = ["P RR 10X20", "P RC z", "P RP SH,9", "P r", "P RP RR M,5",
             "P(3 RR 99999)", "P RP RC M[z AZ PA]", "x:SH z;P x", "F i,3{P r}",
             "P r<.5", "z:{RR a};P RP(z 1000000)", "P RP SK_RC M[z z z]",
             "P SH\"hello\"", "L3{O RR 7}", "P RP(RR,9)+1", "P RP{RR99}M\"ab\""]
    code = f"r:{s};" + ";".join(g.pick(draws) for _ in range(g.pick([1, 2, 4])))
    if g.chance(.2):
        code += f";r:{s};" + g.pick(draws)
    if g.chance(.3):
        code = "{" + code + ";P RR 999999}()"
        code = "z:" + code[:-2] + ";(z);(z)"
    return {"code": code, "args": []}


def j_seeded(case, rec):
    """The draws after seeding are the same whatever happened before."""
    outs = []
    for c in [case["a"]] + case["others"] + [case["a"]]:
        if c is not case["a"]:
            expect(c)
        o = observe(c)
        if o.end == "timeout":
            raise Slow("seeded")
        outs.append(o)
    o1, o2 = outs[0], outs[-1]
    rec.ev("seeded programs")
    if o1.key() != o2.key():
        return (f"{show(case['a'])} gave different results before and after "
                f"other programs: {o1!r} then {o2!r}")
    return None


def g_seedmix(g):
    c = g_iso(g)
    c.update(a=seeded(g), what="prog")
    return c


kind("C23", "seeded programs", 2, g_seedmix, j_seeded, cost=6)


def g_seeds(g):
    n = 40
    return {"progs": [g_whole(g) for _ in range(n)], "law": 1,
            "rand": [seeded(g) for _ in range(12)],
            "env": g.pick(["1", "2", "77", "4242", "random"])}


CHILD = r"""
import sys, json
sys.path.insert(0, sys.argv[1])
sys.setrecursionlimit(12000)
from pm import real
cases = json.load(sys.stdin)
res = []
for c in cases:
    o = real.run_prog(c["code"], c["args"], c["flags"], c["stdin"])
    res.append([o.out, o.err, o.end])
json.dump(res, sys.stdout)
"""


def j_seeds(case, rec):
    jobs, wants = [], []
    for c in case["progs"]:
        try:
            x = expect(c)
        except Unsure:
            continue
        f = (["-" + c["fmt"]] if c.get("fmt") else []) + \
            (["-w"] if c.get("w") else []) + (["-x"] if c.get("x") else [])
        jobs.append({"code": c["code"], "args": c.get("args", []),
                     "flags": f, "stdin": c.get("stdin", [])})
        wants.append((c, x))
    for c in case.get("rand", ()):
        jobs.append({"code": c["code"], "args": [], "flags": [], "stdin": []})
        wants.append((c, None))
    outs = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory(dir=core.SCRATCH) as d:
        for env in ({"PYTHONHASHSEED": "0"},
                    {"PYTHONHASHSEED": case["env"], "HOME": d,
                     "PYTHONOPTIMIZE": "1", "LANG": "C", "TZ": "Asia/Tokyo",
                     "COLUMNS": "40"}):
            e = {"PATH": "/usr/bin:/bin", "PYTHONUTF8": "1",
                 "PYTHONDONTWRITEBYTECODE": "1", "VERIF_REPO": real.REPO}
            e.update(env)
            try:
                r = subprocess.run([sys.executable, "-B", "-c", CHILD, here],
                                   input=json.dumps(jobs).encode(), cwd=d,
                                   env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=100)
            except subprocess.TimeoutExpired:
                raise Slow("seeds")
            if r.returncode:
                raise Skip(f"child died {r.stderr[-200:]!r}")
            outs.append(json.loads(r.stdout))
    for (c, x), o1, o2 in zip(wants, *outs):
        if o1[2] in ("timeout", "budget") or o2[2] in ("timeout", "budget"):
            continue
        rec.seen("other process", o1[2], c.get("fmt") or "-")
        if o1[0] != o2[0] or o1[2] != o2[2]:
            return (f"{show(c)} depends on the process: {o1!r} in one, "
                    f"{o2!r} in another with hash seed {case['env']}")
    rec.ev("programs run in two processes", len(wants))
    return None


kind("C23", "other processes and hash seeds", 1, g_seeds, j_seeds, cost=350)


# ---------------------------------------------------------------- C30

INTR = ["x:q", "z:{x:4;q;a};(z 3)", "{P a;q}M,3", "F i,3{P i;q}", "W 1{q}",
        "L 3{x:4;q}", "l:[1;2];l@0:q", "[x y]:[q;2]", "z:{{q}M,2};(z 3)",
        "LR`.`\"ab\"{P$0;q}", "[1 q 2]", "z:{a>0?(f a-1)q};(z 3)", "x+:q",
        "I q{P 5}EL{P 6}", "O q", "P q;P 2", "{q}SK[3;1]", "q;q", "T q{U i}",
        "z:{b:a;q;b};z M,2", "V\"q\"", "x:q.q", "{a.q}MZ\"ab\"", "S i 1{q}",
        "p:{V a};(p \"q\")", "P 1;q;P 2", "$+{q}M,2", "\\\"\\q\\\"",
        "(q)", "x:{q};(x)", "(x q)", "l PU q", "{q}FI,2", "l@q:5",
        "Y q;y", "WG;q", "(q)@0", "q?1 2", "q&5", "y:[q];y", "F i q{P i}"]
LOOK = ["[a b c x y l i $0]", "$_", "{a}5", "a:21;[a b]", "z:{a.b};(z 3 4)",
        "[a b x]", "f", "g", "[$_ $__ $___]", "l", "i", "y", "q", "[x y z]",
        "{[a f g]}7", "x:x+1", "l PU 9;l", "[\\a \\g]", "b:5;b"]


def g_intr(g):
    lines = ["x:1;y:2;l:[1;2;3];a:11;b:12"]
    for _ in range(g.pick([1, 2, 3])):
        s = g.pick(INTR)
        lines += s.split("\n")
        for _ in range(g.pick([1, 2, 3])):
            t = g.pick(["\0INT", "\0INT", "\0INT", "\0MEM", "\0OS", "\0EOF",
                        "\0UNI", "\0VAL",
                        "7", "abc"])
            if t in ("\0MEM", "\0OS", "\0UNI", "\0VAL") and \
                    lines[-1] not in INTR and lines[-1][:1] != "7":
                t = "7"
            lines.append(t)
            if t in ("\0INT", "\0MEM", "\0OS", "\0UNI", "\0VAL"):
                break
        for _ in range(g.pick([1, 2, 4])):
            lines.append(g.pick(LOOK))
    return {"lines": lines, "fmt": g.pick(FMT) if g.chance(.2) else None,
            "w": g.chance(.3), "law": 1}


kind("C30", "sessions", 5, g_intr, j_repl, cost=3)


def g_intr_prog(g):
    g.budget = 4
    body = [g.pick(INTR) if g.chance(.6) else g.stmt(["x", "y", "i", "l"], 1)
            for _ in range(g.pick([1, 2, 4]))]
    k = g.pick(["\0INT", "\0MEM", "\0OS", "\0EOF", "\0UNI", "\0VAL"])
    n = g.r.randrange(0, 4)
    return {"code": "P 0;" + g.join(body) + ";P 9", "args": args(g, 2),
            "stdin": [g.pick(["1", "ab", "0"]) for _ in range(n)] + [k, "5"],
            "fmt": g.pick(FMT), "law": 1}


def j_intr_prog(case, rec):
    bad = diff(case, rec)
    if bad is None:
        rec.seen("fault", case["stdin"][-2][1:])
    return bad


kind("C30", "programs", 4, g_intr_prog, j_intr_prog)


def g_intr_arg(g):
    """Faults while evaluated arguments read input."""
    c = g_intr_prog(g)
    c["x"] = True
    c["args"] = [g.pick(["q", "q.q", "[q;1]", "5", "P q", "x:q", "x", "P 7",
                         "{q}M,2", "V q", "#q", "({q}1)", "y:2"])
                 for _ in range(g.pick([1, 2, 3]))]
    n = g.r.randrange(0, 3)
    c["stdin"] = ["1", "2", "3"][:n] + c["stdin"][-2:]
    return c


kind("C30", "evaluated arguments", 1, g_intr_arg, j_intr_prog)


class Breaking(real.CapIO):
    """A stream whose n-th write is interrupted before it has an effect."""
    left = None
    exc = KeyboardInterrupt
    hit = False

    def write(self, s):
        if self.left is not None:
            self.left -= 1
            if self.left < 0 and not self.hit:
                self.hit = True
                raise self.exc("injected")
        return super().write(s)


def g_wr(g):
    return {"code": g.program(g.pick([2, 4, 6])) + ";P 1;O 2;x",
            "args": args(g, 2), "fmt": g.pick(FMT),
            "at": g.r.randrange(0, 8), "exc": g.pick(["INT", "INT", "OS"]),
            "law": 1}


def j_wr(case, rec):
    x = expect(case)
    if x.phase == "syntax":
        raise Skip("syntax")
    box = []

    def go():
        p = real.mods()["pip"]
        s = Breaking()
        s.left = case["at"]
        s.exc = KeyboardInterrupt if case["exc"] == "INT" else OSError
        sys.stdout = s
        box.append(s)
        try:
            p.pip(case["code"], (["-" + case["fmt"]] if case["fmt"] else []) +
                  ["--"] + case["args"])
        finally:
            pass
    o = real.guarded(go)[0]
    if o.end in ("timeout", "budget"):
        raise Slow(case["code"])
    s = box[0]
    out = s.getvalue()
    note(x.m, rec, "interrupted" if s.hit else x.end)
    if not s.hit:
        if (out, o.end) != (x.out, x.end):
            return f"{show(case)}: expected {x.out!r}, observed {out!r}"
        return None
    rec.seen("write", case["exc"], min(case["at"], 4))
    if o.end != "fatal" or not stderr_rest(o.err) or \
            not x.out.startswith(out):
        return (f"{show(case)}: an {case['exc']} during write {case['at']} "
                f"ended {o.end} {o.exc!r} with output {out!r}, stderr "
                f"{o.err[-200:]!r}; the full output is {x.out!r}")
    return None


kind("C30", "interrupted output", 2, g_wr, j_wr)


SPIN = ["W 1{x+:1}", "({W 1{b+:1}}5)", "z:{T 0{b:[a b]@1}};(z 4)", "L 9X9{i:3}",
        "T 0{l:,5}", "({{W 1{c:a.b}}M,3}8)",
        "z:{a;W 1{$+,9}}M[1;2]", "V\"W 1{s:7}\"", "LR`.`\"ab\"{W 1{h:2}}"]


def g_sig(g):
    return {"spin": g.pick(SPIN), "probe": [g.pick(
        ["[a b c]", "y", "{a.b}5", "a:3;a", "[f g]", "$_", "P y;y+1"])
        for _ in range(3)], "mode": g.pick(["repl", "prog"]),
        "delay": g.r.random() * .15, "pre": g.pick(["P\"go\";", "P \"go\" ;"])}


def j_sig(case, rec):
    """A real SIGINT to a real process that is busy in a loop."""
    import signal
    import time
    env = {"PATH": "/usr/bin:/bin", "PYTHONUTF8": "1",
           "PYTHONDONTWRITEBYTECODE": "1"}
    argv = [sys.executable, "-B", "-u", os.path.join(real.REPO, "pip.py")]
    argv += ["-R"] if case["mode"] == "repl" else \
        ["-e", case["pre"] + case["spin"] + ";P\"no\""]
    with tempfile.TemporaryDirectory(dir=core.SCRATCH) as d:
        p = subprocess.Popen(argv, cwd=d, env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            if case["mode"] == "repl":
                p.stdin.write(f"a:11;y:2\n{case['pre']}{case['spin']}\n"
                              .encode())
                p.stdin.flush()
            got = b""
            end = time.time() + 30
            while not got.endswith(b"go\n") and time.time() < end:
                c = os.read(p.stdout.fileno(), 1)
                if not c:
                    break
                got += c
            if not got.endswith(b"go\n"):
                raise Skip("did not start")
            time.sleep(.15 + case["delay"])
            p.send_signal(signal.SIGINT)
            if case["mode"] == "repl":
                time.sleep(.1)
            out, err = p.communicate("".join(
                x + "\n" for x in case["probe"]).encode()
                if case["mode"] == "repl" else b"", timeout=30)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return (f"SIGINT did not stop {case['spin']!r} in a "
                    f"{case['mode']}: {got + out!r} {err[-300:]!r}")
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
    out, err = (got + out).decode(), err.decode()
    rec.seen("SIGINT", case["mode"], case["spin"])
    desc = f"SIGINT during {case['spin']!r} in a {case['mode']}"
    if "Traceback" in err or not err.strip():
        return f"{desc}: stderr {err[-400:]!r}"
    if case["mode"] == "prog":
        if p.returncode != 1 or out != "go\n":
            return f"{desc}: status {p.returncode}, output {out!r}"
        return None
    m = real.mods()
    # the same session with the loop replaced by a command without effect
    x = repl.run(["a:11;y:2", case["pre"] + "I 0{5}"] + case["probe"], None, False,
                 m["version"].VERSION, m["pip"].REPL_HELP_TEXT)
    want = [x.out]
    if ";(" in case["spin"]:
        # a definition before the loop may or may not have been displayed
        y = repl.run(["a:11;y:2", case["pre"] +
                      case["spin"].split(";(")[0] + ";I 0{5}"] + case["probe"], None, False,
                     m["version"].VERSION, m["pip"].REPL_HELP_TEXT)
        want.append(y.out)
    if p.returncode != 0 or out not in want:
        return f"{desc}: status {p.returncode}, expected {want!r}, observed " \
               f"{out!r}; stderr {err[-200:]!r}"
    return None


kind("C30", "real SIGINT", .5, g_sig, j_sig, cost=250)
