"""C06 REPL, C07 value semantics, C08 calls and scopes, C09 evaluation order,
C10 control flow, C18 built functions, C19 places, C20 destructuring, C23 isolation,
C29 whole programs."""
from pm import real, lex, syn, gen, model, repl, ev
from pm.gen import LVARS
from pm.val import Sc, Li, Ra, Pa, NIL, rep, sc, Unsure

from .core import kind, Skip, Slow
from .common import (diff, expect, observe, compare, agree, note, show,
                     stderr_rest, versions, FMT)

ARGS = ["5", "abc", "-3", "", "1.5", "0", "Hello World", "xyz", "12"]


def args(g, n=None):
    n = g.pick([0, 1, 2, 2, 3, 6]) if n is None else n
    return [g.pick(ARGS) if g.chance(.7) else rep(g.num()) for _ in range(n)]


# ---------------------------------------------------------------- C06

def j_repl(case, rec):
    m = real.mods()
    versions()
    p = m["pip"]
    x = repl.run(case["lines"], case.get("fmt"), case.get("w", False),
                 m["version"].VERSION, getattr(p, "REPL_HELP_TEXT", ""))
    o = real.run_repl(case["lines"], case.get("fmt"), case.get("w", False))
    if o.end == "timeout":
        raise Slow(str(case["lines"]))
    if o.end == "budget":
        raise Skip("flood")
    for a, b in zip([""] + x.units, x.units):
        rec.seen("unit", a, b)
    note(x.m, rec, "session")
    desc = f"REPL session {case['lines']!r}"
    if o.end != "ok":
        return f"{desc}: ended {o.end} ({o.exc!r})"
    if o.out != x.out:
        i = next((k for k in range(min(len(o.out), len(x.out)))
                  if o.out[k] != x.out[k]), min(len(o.out), len(x.out)))
        return (f"{desc}: transcripts differ from character {i}: expected "
                f"...{x.out[max(0, i - 40):i + 200]!r}, observed "
                f"...{o.out[max(0, i - 40):i + 200]!r}; stderr "
                f"{o.err[-200:]!r}")
    # warnings may span lines, so only their presence is judged
    got, other = [], False
    for ln in stderr_rest(o.err).splitlines():
        e = ("syntax" if ln.startswith("Syntax error:") else
             "fatal" if ln.startswith("Fatal error:") else
             "interrupt" if ln.startswith("Execution interrupted") else
             ln[9:] if ln in ("Warnings on", "Warnings off") else None)
        if e:
            got.append(e)
        else:
            other = True
    want = [e for e in x.events if e != "warn"]
    if got != want or ("warn" in x.events and not other) or \
            (not x.events and other):
        return (f"{desc}: expected the messages {x.events} on stderr, "
                f"observed {o.err[-500:]!r}")
    return None


def g_command(g):
    """A session command, shortened, lengthened or with more words."""
    w = g.pick(["quit", "exit", "help", "warnings", "warnings", "x"])
    if g.chance(.35):
        w += g.pick(["er", "x", "s", "!", "1", w, "-", ","])
    else:
        w = w[:g.r.randrange(1, len(w) + 1)]
        if w[0] in "qex" and g.chance(.7):      # mostly go on
            w = w[:-1] + g.pick(["z", "_", "w"])
    w = g.pick([str, str, str.upper, str.title])(w)
    rest = g.pick(["", "", " on", " off", " ON", " Off", " on on", " off now",
                   " o", " on off", "  on", " \ton ", " on;5", ";5", " 1", " ",
                   " off;off", " on please now", " yes"])
    return ";" + g.pick(["", "", " ", "  "]) + w + rest


def repl_line(g, env):
    k = g.r.random()
    if k < .30:
        return g.expr(g.pick([1, 2]), "a", env + ["$_", "$__", "$___"])
    if k < .55:
        g.budget = 2
        return g.stmt(env, 1)
    if k < .62:
        return g.pick([";w", ";warnings on", ";warnings off", ";warn", ";wa on",
                       ";foo", "; a", ";h", ";help", ";w maybe", ";", " ;w",
                       ";W ON", ";wrong"]) if g.chance(.4) else \
            g_command(g)
    if k < .74:
        return g.pick(["5/0", "$_", "[$_ $__ $___]", "1 2 3", "x:$_", "$_+:1",
                       "[1 2]V3", "x:{a+1};(x 5)", "(f 1)", "g", "f", "q",
                       "[a b c d e]", "{RE}", "RP_", "x", "Y 7;y", "()",
                       "I 1{5}", "I 0{5}E 6", "L3O i", "F i,3Pi", "U i",
                       "\\\"\\y\\\"", "P 3", "a:5", "a", "WG", "PO l",
                       "l:[1;2];l PU 3"])
    if k < .84:     # errors
        return g.pick([")", "}", "]", "5+)", "x:]", "{)}", "a b)", "F 5{}",
                       "(v@@)", "X*5", "$", "F[]a 5", "()@@()",
                       "z:{(n@@)};(z 1)", "\"a\"~`(`", "`(`~\"a\"", "$+$",
                       "V\"(\"", "V\")\"", "x:{P 1;V\")\"};(x 3)",
                       "i:9;V\"]\";i:3", "1 V\"{\" 2"])
    if k < .94:     # several lines
        t = g.pick(["[1;2\n3]", "{a+\nb}", "(x\n1)", "\"two\nlines\"",
                    "I 1\nP 5", "x:{\n  a\n}", "L 2\nO 1", "[\n\n]", "`a\nb`",
                    "I 0{\n}E{P 2\n}", "5+\n;6\n7", "\\\"a\nb\\\"",
                    "x?1\n2", "{;\n;}5", "'\n", "{;;\n;};h", "[1\n;h\n2]",
                    "$\n+3,6", "F i\n,3{Oi}", "(\n)",
                    "\"a  \nb \n c\"", "`x \ny`~\"x \ny\"", "' \n", "'  \n5",
                    "#\"a \n b\"", "[1 \n 2]", "\\\"a \n b \\\"",
                    "(\" \n\t\")", "[\"\n\"\" \n \"]", "#\"\n\n\""])
        return t
    return g.mutate_(g.expr(1, "a", env)) if hasattr(g, "mutate_") else \
        gen.mutate(g.r, g.expr(1, "a", env))


def g_repl(g):
    env = ["x", "y", "i", "l"]
    lines = []
    for _ in range(g.pick([2, 4, 6, 9])):
        lines += repl_line(g, env).split("\n")
    if g.chance(.25):
        lines.append(g.pick([";q", ";x", ";exit", ";quit", ";e", ";Q now",
                             ";ex"]))
        if g.chance(.5):
            lines.append("P 1")
    return {"lines": lines, "fmt": g.pick(FMT) if g.chance(.3) else None,
            "w": g.chance(.4)}


kind("C06", "sessions", 5, g_repl, j_repl, cost=3)


def g_recover(g):
    """An error somewhere inside calls and blocks, then state inspection."""
    err = g.pick(["V\")\"", "(\"a\"~`(`)", "V\"{\"", "(1 V\"]\" 2)", "V'("])
    wrap = g.pick(["z:{X;a};(z 3)", "z:{a>0?(f a-1)(X)};(z 3)", "{X}M,3",
                   "F i,3{P i;X}", "x:7;W 1{X}", "I X{5}", "[1 X 2]",
                   "x:X", "x+:X", "$+[1;X]", "z:{b:a;X;b};z M,3",
                   "z:{(a 1)};(z {X})", "p:{V a};(p \")\")", "Y 3;O X",
                   "L 2{x:4;X}", "l:[1;2];l@0:X", "[x y]:[X;2]",
                   "z:{{X}M,2};(z 3)", "LR`.`\"ab\"{P$0;X}",
                   "SKX[3;1]", "{X}SK[3;1]", "z:{X}FI,4"])
    lines = ["x:1;y:2;l:[1;2;3];a:11;b:12", wrap.replace("X", err),
             "[a b c x y l i $0]", "$_", "{a}5", "a:21", "[a b]",
             "z:{a.b};(z 3 4)", "[a b x]", "f", "g", "[$_ $__]"]
    k = g.r.randrange(2, len(lines))
    if g.chance(.5):
        lines.insert(k, wrap.replace("X", err))
    return {"lines": lines[:g.r.randrange(3, len(lines) + 1)],
            "w": g.chance(.3)}


kind("C06", "recovery from errors", 2, g_recover, j_repl, cost=3)


# ---------------------------------------------------------------- C07

VARS = ["x", "y", "l", "m", "a", "b", "z"]


def tiny(g):
    return g.pick(["1", "7", "\"pq\"", "[8;9]", "()", "[[3];4]", "(1,4)",
                   "\"abc\"", "[]", "-2", "5"])


def mutate_stmt(g, vs):
    v, w = g.pick(vs), g.pick(vs)
    i, j = g.pick(["0", "1", "-1", "2", "5", "-3"]), g.pick(["0", "1", "-1"])
    t = tiny(g)
    return g.pick([
        f"{v}:{w}", f"{v}:{w}", f"{v}:[{w};{w}]", f"{v}:[{w};{t};{v}]",
        f"{v}@{i}:{w}", f"{v}@{i}:{t}", f"{v}@{i}@{j}:{t}",
        f"{v}@{i}@{j}:{w}", f"({v} {i} {j}):{t}", f"{v} PU {t}",
        f"{v} PU {w}", f"{v} PB {w}", f"{v} PB {t}", f"PO {v}", f"DQ {v}",
        f"{v} PK {i}", f"{w}:PO {v}", f"{w}:DQ {v}", f"{w}:{v} PK {i}",
        f"{v} AE:{w}", f"{v} AL:{w}", f"{v} PE:{t}", f"{v}.:{t}",
        f"{v}+:{t}", f"{v}@{i}+:{t}", f"{v}@{i} AE:{t}",
        f"{v}@{i} PU {t}", f"PO {v}@{i}", f"{v}::{w}", f"{v}@{i}::{w}@{j}",
        f"{v}@({j},{i}):{t}", f"{v}@<{j}:{t}", f"{v}@({i},()):{w}",
        f"{v}:{w}@{i}", f"{v}:{w}@({j},())", f"{v}:R {w}", f"{v}:{w} RL 2",
        f"{v}:{w}|{t}", f"{v}:1?{w} 0", f"[{v} {w}]:[{w};{v}]",
        f"[{v} {w}]:{g.pick(vs)}", f"F i {v}{{{v} PU i}}"
        if False else f"F i {v}{{{w}@0:i}}", f"F i {v}{{i@0:9;{w} AE:i}}",
        f"(p {v})", f"{w}:(p {v})", f"(p {v}@{i})", f"{w}:(n {v})",
        f"{w}:(n {v})", f"{w}:(t {v})", f"Y {v}", f"{v}:y", f"U {v}@{i}",
        f"{w}:{{a PU 4;a}}M [{v};{v}]", f"{w}:{v}M{{a@0:3;a}}" if False else
        f"{w}:{{a@0:6;a}}M {v}", f"{v}:SN {w}", f"{v}:UQ {w}",
        f"{v}:{w} ZD {t}", f"{v}:{w}RA {i} {t}", f"{v}:{w};{v} PU 5",
        f"({w} 0):{t}", f"{v}@{i}:{v}", f"{v}:[{v}]", f"{v}@0@0@0:{t}",
        f"I {v}{{{w}:{v}}}", f"{v}:(u)", f"u:{v}", f"u:[{v};u]",
        f"{w}:[{v}]@0", f"{w}:($_)", f"{v};{v} PU 1;{w}:$_",
        f"{v}:H {w}", f"{v}:{w}RM 3", f"{v}:{w}WV {w}", f"{v}:V RP {w}",
        f"{v}:{{{w}}}", f"{v}:({v} 0)" if False else f"{v}:{w}CH 2",
    ])


def g_alias(g):
    vs = [g.pick(VARS) for _ in range(g.pick([2, 2, 3, 4]))]
    out = ["p:{a@0:8;a PU b;a AE:6}", "n:{a@0:77;x:a;a PO:1;a}" if False else
           "n:{a@0:77;x:a;x}",
           "t:{l:[1;2;3];l PU a;l@0:l;l}", "u:[1;[2;3]]"]
    for v in set(vs):
        out.append(v + ":" + g.pick([tiny(g), g.src(g.list_(2)),
                                     "[1;[2;[3;4]];\"ab\"]", "(2,6)"]))
    for _ in range(g.r.randrange(2, 10)):
        out.append(mutate_stmt(g, vs))
        if g.chance(.15):
            out.append("P RP[" + " ".join(sorted(set(vs))) + "]")
    out.append("P RP[x y l m a b z u $_ g]")
    out.append("()")
    return {"code": ";".join(out), "args": args(g), "w": g.chance(.2)}


kind("C07", "aliases", 5, g_alias, diff, cost=2)


def g_constants(g):
    """Literals and operands captured in functions keep their value."""
    t = g.pick(["[1;2;3]", "[[1];[2]]", "\"abc\"", "(1,5)", "[x;x]", "x"])
    mut = g.pick(["l@0:9", "l PU 4", "PO l", "l@0 PU 5", "l@1@0:7", "l AE:3",
                  "DQ l", "l@(0,2):[8;8]", "l PB 6", "l@-1+:5", "l::x",
                  "l@0::l@1"])
    shape = g.pick([
        "p:{l:T;MUT;RP l};P(p);P(p);P(p)",
        "p:T AE_;l:(p 1);P RP l;MUT;P RP(p 1);l:T;MUT;P RP(p 2)",
        "F i,3{l:T;MUT;P RP l}",
        "l:T;p:l.._;MUT;P RP(p 1);P RP p",
        "p:{T};l:(p);MUT;P RP(p);P RP p;P RP l",
        "l:T;p:{a AL_};MUT;P RP(l)",
        "p:_ AE T;l:(p 0);MUT;P RP l;P RP(p 0)",
        "l:T;m:[l;l];MUT;P RP m;l:m@0;MUT;P RP m;P RP l",
        "p:{a@0:5;a};l:T;P RP(p l);P RP l;MUT;P RP p M[l;l]",
        "l:T;F j l{MUT;P RP j};P RP l",
        "l:T;W#l{O RP l;PO l;b:l;b PU 3};P RP b",
        "l:T;$u:l;MUT;P RP $u;$u@0:2;P RP l",
        "l:T;P RP({MUT;a}l);P RP l",
        "l:T;x:[l];P RP({a@0@0:5;a}x);P RP x;P RP l",
        "l:T;Yl;MUT;P RP y;y@0:4;P RP l",
        "p:{b:a;MUT;l:b;b};l:T;P RP(p l);P RP l",
        "l:T;Pl;MUT;P RP $_;l;MUT;P RP $_;P RP l",
        "l:T;m:l;m@0:m;MUT;P RP m;m@0@0:1;P RP[l;m]",
        "l:T;p:{g@0:3;a};P RP(p l);P RP l;MUT",
        "z:T;l:z;MUT;P RP z;P RP\\g;\\g@0:4;P RP a;P RP\\a"])
    return {"code": "x:[4;[5;6]];" + shape.replace("T", t).replace(
        "MUT", mut) + ";P RP[x l];()", "args": args(g, 2)}


kind("C07", "constants and parameters", 2, g_constants, diff)


def g_params(g):
    """Parameters, argument lists and program arguments are separate."""
    ty = [g.pick(["[1;2;3]", "[[1;2];3]", "\"abc\"", "[[[4]];5]", "7",
                  "(1,4)", "[[1;2];[3;4]]"]) for _ in range(3)]

    def change(lo, top):
        v = g.pick(lo + lo + top)
        i = g.pick(["0", "1", "-1", "2"])
        j = g.pick(["0", "1", "-1"])
        d = g.pick(["@" + i, "@" + i + "@" + j, "@" + i + "@" + j + "@0"]) \
            if v not in top or g.chance(.2) else "@" + g.pick(
                ["0", "1"]) + "@" + i + g.pick(["", "", "@" + j])
        return g.pick([f"{v}{d}:99", f"{v}{d}:98", f"{v}{d}.:7", f"{v}{d}+:1",
                       f"{v} PU 6", f"PO {v}", f"{v}@0 PU 5", f"DQ {v}",
                       f"{v}@{i}::{v}@{j}", f"{v}@({i},()):[8]",
                       f"{v}:{g.pick(lo + top)}", f"{v} PB {v}",
                       f"{g.pick(lo)}:{v}@{i}", f"{v}@{i}:{g.pick(lo)}"])
    lo, gl = ["a", "b", "c"], ["\\a", "\\b"]
    inner = ";".join(
        change(g.pick([lo, lo, gl]), g.pick([["g"], ["g"], ["\\g"]])) +
        g.pick(["", "", ";P RP[a b c g]", ";P RP[\\a \\b \\g]"])
        for _ in range(g.pick([1, 1, 2, 3])))
    outer = ";".join(change(lo, ["g"]) for _ in range(g.pick([0, 1, 1, 2])))
    show = "P RP[a b c d g];P RP[\\a \\b \\g]"
    call = g.pick(["(p x y z)", "(p x x)", "(p [x y] x)", "p M[x y z]",
                   "p MU[[x y];[y z]]", "p MJ[x y]", "p SK[x y z]", "(p a b)",
                   "(p g)", "(p a g)", "p FI[x y]", "p ME[x y]",
                   "p MZ[x y][y z]", "x Rx p", "(p@0 x y)", "p MC 2",
                   "p FE[x y]", "p MM[[x y];[z]]"])
    wipe = g.pick(["", "", ";WG;" + show, ";WG;" + show + ";" +
                   change(lo, ["g"]) + ";WG;" + show])
    code = (f"p:{{{inner};{show};{g.pick(['a', 'g', 'b', '[a g]'])}}};"
            f"x:{ty[0]};y:{ty[1]};z:{ty[2]};" + outer + ";" + show +
            f";l:({call});P RP l;{g.pick(['l@0@0:55', 'l PU 4', 'l@1@0:5'])};"
            "P RP[x y z];" + show + wipe)
    if g.chance(.5):
        return {"code": code, "args": [g.pick(ty) for _ in range(
            g.pick([1, 2, 3]))], "x": True, "w": g.chance(.1)}
    return {"code": code, "args": args(g, 3), "w": g.chance(.1)}


kind("C07", "parameters and arguments", 3, g_params, diff)


def g_pure(g):
    """Operators that only read leave every variable as it was."""
    t, a, s = g.pick(gen.SIGS)
    if "v" in s or t in (":", "Y"):
        t, a, s = "AE", 2, "qal"
    vs = ["x", "l", "m"]
    tys = (s[:-1] * 2)[:a]
    subs = [g.pick(vs) if g.chance(.7) else g.wrap(g.leaf(y, vs))
            for y in tys]
    e = (t + " " + subs[0] if a == 1 else subs[0] + " " + t + " " + subs[1]
         if a == 2 else f"{subs[0]} {t} {subs[1]} {subs[2]}")
    if g.chance(.2):
        e = g.pick(["$+", "\\$.", "$AE", "#*", "RV*"]) + " (" + e + ")"
    vals = [g.of(tys[0]) if tys[0] not in "bfv" else g.list_(2),
            g.of(tys[-1]) if tys[-1] not in "bfv" else g.list_(2),
            g.list_(2)]
    pre = ";".join(f"{v}:{g.src(w)}" for v, w in zip(vs, vals))
    mut = g.pick(["z@0:9", "z PU 3", "z@0@0:7", "z AE:1", "PO z", "z@-1:l",
                  "z@1 PU 6"])
    return {"code": f"{pre};P RP[x l m];z:({e});P RP[x l m];P RP z;{mut};"
                    f"P RP[x l m];x PU 5;l@0:6;m@1:7;P RP z;()",
            "args": ["5", "abc"]}


kind("C07", "operands are not changed", 3, g_pure, diff)


# ---------------------------------------------------------------- C08

def g_calls(g):
    n = g.r.randrange(0, 6)
    vals = [g.wrap(g.src(g.value(1))) for _ in range(n)]
    if n > 1 and g.chance(.3):
        vals[g.r.randrange(n)] = g.pick(["x", "a", "(p 1)", "{a}", "y"])
    if n and g.chance(.3):      # places, at several depths
        vals[g.r.randrange(n)] = "l" + "".join(
            g.pick(["@0", "@1", "@-1", "@[0 1]", "@>1", "@<1", "@(,2)", "@2",
                    "@\"1\"", "@u"]) for _ in range(g.pick([1, 2, 3, 3, 4])))
    body = g.pick([
        "P RP[a b c d e];P RP g;a", "b:a;c:9;P RP[a b c];x:b;x",
        "a:5;P RP g;g@0:6;P RP a;a", "x AE:a;y:x;#g", "P RP f;a",
        "z:{a.b};P RP(z c b);P RP[a b];a", "a?(f ())1", "#g?(f)0",
        "i+:1;i<4?(f i a b)i", "P RP$_;a;b;P RP[$_ $__ $___];c",
        "F c a{P c};c", "Y a;y", "d:{b:a;a:3;b};P RP(d 7);P RP[a b d@0]",
        "a:a;b:b;l:[a b];(l 0)", "\\a", "P RP[\\a \\b \\g];\\a:4;\\a",
        "{a}M g", "P RP({b:a;b}8);b", "(g@0)", "e:a;d:e;[a b c d e]",
        "I a{b:5}E{b:6};b", "L2{a:a.1};a", "WG;P RP[x a i];a"])
    pre = g.pick(["", "a:70;b:71;c:72;", "x:[];y:3;i:0;", "e:1;d:2;"]) + \
        g.pick(["", "l:[[[1;2];3];[[4;[5;6]];\"seven\"];8,12];"])
    call = g.pick(["(p {})", "(p {})", "({B} {})", "(p {});(p {})",
                   "p:p;(p {})", "[p]@0;(l 0)", "z:p;(z {})", "p M[{}]",
                   "(p@0 {})"]).replace("{B}", "{" + body + "}").replace(
                       "{}", " ".join(vals))
    return {"code": pre + "p:{" + body + "};P RP(" + call + ");"
            "P RP[a b c d e g x y i l $_ $__]" if ";" not in call else
            pre + "p:{" + body + "};" + call + ";P RP[a b c d e g x y i l]",
            "args": args(g), "w": g.chance(.2)}


kind("C08", "arguments and locals", 3, g_calls, diff)

REC = [
    "{a>1?a*(f a-1)1}", "{a<2?a(f a-1)+(f a-2)}", "{b?(f b a%b)a}",
    "{#a?(f a@>1).a@0\"\"}", "{I a>0{P a;(f a-1);P a};a}",
    "{c:a;d:a>0?(f a-1)0;c+d}", "{a>0?(p a-1).a\"\"}",
    "{a<1?[](f a-1)AE a}", "{x+:1;a>0?(f a-1)x}", "{F c,a{P c;b:(f c)};b}",
    "{#a>1?[(f H a)(f S a)]a}", "{a Q\"\"?0 1+(f S a)}",
    "{b:a%2;a<1?[]((f a//2)AE b)}", "{a>0?({(b a-1)}a f)c}",
    "{W a>0{D a;b AE:(f a)};#b}", "{a@<1Q a?a(f a@>1)}",
    "{g@0>0?(f a-1 b).b@0\"\"}", "{a&a+(f a-1)}", "{a=0|(f a-1)}",
    "{a>0?(z a-1)\"p\"}",
    "{a>0?RE(a-1).a\"\"}", "{f:{99}a>0?1+RE(a-1)0}",
    "{f:a;a>0?RE(a-1).f\"\"}", "{b:{7}f:b;I a>0{P(f a);P RE a-1};b:3;P f}",
    "{g:a;a>0?RE(a-1).g\"!\"}", "{a>0?(f a-1).RE a//2\"n\"}",
    "{c:{a>0?RE(a-1).a\"i\"};a.(c 2).c@0}",
    "{f:z;a>0?(f a-1).1 0}", "{p:5;a>0?RE(a-1).p p}",
    "{#a?RE(a@>1).#g RP g}", "{d:a;x:RE M(a>0?[a-1]0);x.d}",
    "{Y f;f:0;a>0?(y a-1)+1f}", "{a>0?[a;b;RE a-1][a;b]}",
]


def g_rec(g):
    p = g.pick(REC)
    z = g.pick(REC + ["{a>0?(p a-1)\"z\"}"])
    n = g.pick(["0", "1", "3", "5", "6", "\"abc\"", "[1;2;3]", "()", "4 2",
                "3 \"xy\"", "12 18", "-1"])
    wrap = g.pick(["P RP(p N)", "a:1;b:2;c:3;P RP(p N);P RP[a b c]",
                   "P RP p M[1;2;3]", "P RP(z N)", "c:(p N).(z N);P c",
                   "F i,3{P RP(p i)}", "q:(p N);x:5;P RP(p x);P x",
                   "P RP[(p N);(p N)]", "d:p;P RP(d N);p:3;P RP(d N)"])
    return {"code": f"p:{p};z:{z};b:0;" + wrap.replace("N", n) +
            ";P RP[a b c d e x i];()", "args": args(g, 2)}


kind("C08", "recursion", 2, g_rec, diff)


def g_higher(g):
    inner = g.pick(["{a+c}", "{b:a;b.x}", "{c:5;a}", "{x:a;a}", "_.x",
                    "{(d a)}", "{a.f}" if False else "{#g}", "{g}", "{V\"a\"}",
                    "{y:b;a}", "{d:{a.a};(d a)}", "{(b a)}" if False else
                    "{a:3;a}", "_", "{i+:a;i}", "{V\"b:8;b\"}", "{c}", "B",
                    "{V RP{a.c}}"])
    op = g.pick(["IN M X", "IN MJ X", "IN FI X", "IN SK X", "$+(IN M X)",
                 "IN MU[[1;2];[3;4]]", "(IN 7)", "IN MZ X", "IN ME X",
                 "IN MC 2", "(IN X 4 5)", "IN MP X", "IN FE X", "IN DK X",
                 "(IN 1)+(IN 2)", "V\"(\".RP(IN).\" 6)\"", "\"ab\"R`.`IN",
                 "3 IN 4", "IN MM[[1;2];[3]]", "(z IN)", "IN"])
    x = g.pick(["[1;2;3]", "\"abc\"", ",3", "[]", "[[1];[2]]"])
    e = op.replace("IN", inner).replace("X", x)
    return {"code": "x:\"-\";y:0;i:1;z:{b:9;(a 3)};"
            "p:{b:a;c:\"C\";d:{a+1};P RP(" + e + ");P RP[a b c];#g};"
            "a:\"A\";c:\"G\";d:{a.\"!\"};P RP(p 6 \"B2\");P RP(" + e + ");"
            "P RP[a b c x y i];()", "args": args(g, 2)}


kind("C08", "functions as arguments", 2, g_higher, diff)


def g_eval(g):
    t = g.pick(["a", "b:4", "b:4;b", "x:a;P x", "P 1;P 2", "", "{a}", "{a;b}",
                "[a b]", "a+", "5 6", "I a{P b}", "L2Oa", "f", "#g", "$_",
                "a;$_", ";a", "a  c", "F i,2{P i}", "(f)", "\"x\"", "'\"",
                "V\"a\"", "Yb", "a:a+1", "a::b", "WG", "()"])
    u = "\\\"" + t.replace("\\", "\\\\") + "\\\""
    pre = g.pick(["p:{c:3;P RP(V U);P RP[a b c x y]};(p 7 8)",
                  "P RP(V U)", "P RP(\"pq\"V U)", "P RP([1;2]V U)",
                  "P RP V[U;\"b\"]", "p:{V a};P RP(p U)",
                  "p:{V a;b};P RP(p U 2)", "V U;V U", "F c,2{P RP V U}",
                  "P RP{V U}M[1;2]", "V U E U" if False else "V U"])
    return {"code": "x:1;" + pre.replace("U", u) + ";P RP[a b c x y i];()",
            "args": args(g, 2)}


kind("C08", "evaluated code", 1, g_eval, diff)


def hist_part(g, d=2):
    """Statements, most of them expressions, that end in a use of history."""
    def stmt():
        k = g.r.random()
        if k < .45 or d <= 0:
            return g.pick(["1", "2", "x", "\"t\"", "a", "[b]", "x+1", "()",
                           "Ux", "x:7", "{a}", "Y4", "$_", "[$_ $__]",
                           "$__.0", "$_+1", "$___", ",3", "`p`", "$_:5",
                           "$__:\"s\"", "1;2;3;4", "a::b"])
        if k < .65:
            return g.pick(["(z 1)", "(z a b)", "z M,2", "x:(z)", "(z $_ $__)",
                           "(z 3).$__", "{1;2;$_}M,2", "({6;7;8;$__}5)",
                           "V\"1;2;$_\"", "[5]V\"6;$__\"", "V\"9\"",
                           "{9;8;7;$___}", "(z 4).$__.$___", "(z 1)+$_"])
        if k < .85:
            return g.pick(["P RP$_", "P RP$__", "P RP$___", "O$_.$__",
                           "P RP[$_ $__ $___]", "P RP[$___ $_]"])
        b = "{" + hist_part(g, 0) + "}"
        return g.pick(["I1" + b, "L2" + b, "F c,2" + b, "I0" + b + "E" + b,
                       "LR`.`12" + b, "W x<3{Ux;" + b[1:]])
    return ";".join(stmt() for _ in range(g.pick([2, 3, 4, 5, 7])))


def g_history(g):
    body = hist_part(g, 1)
    return {"code": "x:1;z:{" + body + ";" + g.pick(["$_", "$__", "$___", "a",
            "[$_ $__ $___]"]) + "};" + hist_part(g) +
            ";P RP[$_ $__ $___ x];" + g.pick(["()", "$_", "$___"]),
            "args": args(g, 2)}


kind("C08", "history values", 2, g_history, diff)


# ---------------------------------------------------------------- C09

def probe(g, e, n):
    """An expression with e's value that records when it is evaluated."""
    return f"(p {n} {e})"


def ANY1(g):
    if g.chance(.3):    # a unary operator made from another one
        m = g.pick(["$", "\\$", "*", "**"])
        if "$" in m:
            return m + g.pick(["+", "-", "*", ".", "AE", "AL", "PE", "|", "&",
                               "<", "=", "MX", "J", "@", "R", "WR", ANY2(g)])
        return g.pick(["-", "!", "#", "RV", "A", "UC", "FL", "SQ"]) + m
    return g.pick([o for o in syn.OPS[1] if o not in ("SH", "RC", "RR", "RE", "r")])


def ANY2(g):
    return g.pick([o for o in syn.OPS[2] if o not in ("RR", ":", "::")])


def ANY3(g):
    return g.pick(list(syn.OPS[3]))


def g_order(g):
    """Operands print a label when they are evaluated."""
    cnt = [0]

    def leaf(ty):
        cnt[0] += 1
        e = g.wrap(g.src(g.of(ty if ty in "nmslNMqraxci" else "n")))
        return f"(p {cnt[0]} {e})"

    def tree(d, ty="n"):
        k = g.r.random()
        if d <= 0 or k < .12:
            return leaf(ty)
        if k < .28:
            return "(" + tree(d - 1) + g.pick(["&", "|"]) + tree(d - 1) + ")"
        if k < .36:
            return "(" + tree(d - 1) + "?" + tree(d - 1) + " " + \
                tree(d - 1) + ")"
        if k < .50:
            n = g.pick([2, 3, 3, 4])
            s = tree(d - 1)
            for _ in range(n - 1):
                s += g.pick(["<", ">", "=", "<=", "!=", ">=", "LT", "Q",
                             "==", "#<"]) + tree(d - 1)
            return "(" + s + ")"
        if k < .58:
            return "[" + ";".join(tree(d - 1) for _ in range(
                g.r.randrange(0, 4))) + "]"
        if k < .66:
            return "({" + g.pick(["a", "b", "a+b", "P a;b", "1"]) + "} " + \
                " ".join(tree(d - 1) for _ in range(g.r.randrange(1, 4))) + \
                ")"
        if k < .70:
            return "(" + tree(d - 1) + " RVA? " + ")" if False else \
                "(" + g.pick(["!", "-", "#", "RP", "AB"]) + tree(d - 1) + ")"
        if k < .76:
            return "(" + tree(d - 1) + g.pick(["\\&", "\\|"]) + \
                tree(d - 1) + ")"
        if k < .79:
            return "(" + tree(d - 1) + "\\?" + tree(d - 1) + " " + \
                tree(d - 1) + ")"
        if k < .84:
            cnt[0] += 1
            return g.pick(["(x:{})", "(x+:{})", "(y:{})", "(l@{}:9)",
                           "(l@{}+:5)", "(l@0+:{})", "(l@{}:(p 99 3))",
                           "(U l@{})", "(l PU {})", "(x::{})",
                           "(-:l@{})", "(l@{}@{}:4)", f"(l@{{}} {ANY2(g)}: "
                           + tree(d - 1) + ")", f"({ANY1(g)}: l@{{}})",
                           f"(l@{{}} {ANY3(g)}: " + tree(d - 1) + " " +
                           tree(d - 1) + ")", f"(l@{{}}@{{}} {ANY3(g)}: " +
                           tree(d - 1) + " " + tree(d - 1) + ")"]).replace(
                               "{}", tree(d - 1))
        t, a, s = g.pick([z for z in gen.SIGS if not set(z[2]) & set("bfv")])
        subs = [tree(d - 1, y) for y in (s[:-1] * 2)[:a]]
        if a == 1:
            return f"({t} {subs[0]})"
        if a == 2:
            return f"({subs[0]} {t} {subs[1]})"
        return f"({subs[0]} {t} {subs[1]} {subs[2]})"
    e = tree(g.pick([1, 2, 2, 3]))
    # the probe writes to a side channel, so that values do not matter
    return {"code": "p:{O a.\" \";b};l:[1;[2;3];4];P RP(" + e +
            ");P RP[x y l];()", "w": g.chance(.15)}


kind("C09", "operands", 5, g_order, diff, cost=2)


def g_order_stmt(g):
    k = [0]

    def p(e):
        k[0] += 1
        return f"(p {k[0]} {e})"
    out = []

    def place(d=1):
        k = g.r.random()
        if d and k < .5:
            return g.pick([f"({p(g.pick('0123'))}?{place(d - 1)} "
                           f"{place(d - 1)})",
                           f"({p(g.pick('01'))}?{place(d - 1)} {p('5')})",
                           f"({place(d - 1)}|{place(d - 1)})",
                           f"({p('1')}&{place(d - 1)})",
                           f"({place(d - 1)})@{p('0')}",
                           f"({p('0')}|{place(d - 1)})"])
        return g.pick(["x", "y", "i", f"l@{p(g.pick('012'))}",
                       f"l@{p('0')}@{p('1')}", "l@1", "l@-1", "(l 1 0)"])
    for _ in range(g.r.randrange(1, 4)):
        n = str(g.r.randrange(0, 4))
        if g.chance(.2):
            out.append(g.pick(["{0}:{1}", "{0}+:{1}", "U{0}", "D{0}",
                               "{0}.:{1}", "x:{0}",
                               "{0} " + ANY2(g) + ":{1}", ANY1(g) + ":{0}",
                               "{0} " + ANY3(g) + ":{1}" + p("\"b\""),
                               "{0} R:{1}" + p("[3]"), "{0} RA:{1}" + p("4"), "{0}::{0}", "{0} AE:{1}",
                               "[x {0}]:[3;{1}]", "{0} PU {1}",
                               "P RP({0}:{1})"]).format(
                place(g.pick([1, 1, 2])), p(g.pick(["7", "[8;9]", "x"]))))
            continue
        out.append(g.pick([
            f"I {p(n)}{{P{p('7')}}}EL{{P{p('8')}}}",
            f"I {p(n)}P{p('7')}EI {p(n)}P{p('8')}EL P{p('9')}",
            f"L {p(n)}{{P{p('7')}}}", f"F i {p(',' + n)}{{P{p('i')}}}",
            f"W (p 50 i)<3{{U i;P{p('i')}}};i:0",
            f"T (p 50 i)>2{{U i;P{p('i')}}};i:0",
            f"LR {p('`.`')} {p('MOO'.join(['', ''])[:0] + chr(34) + 'abc' + chr(34))}{{P{p('$0')}}}",
            f"l@{p(n)}@{p('0')}:{p('[5;6]')}", f"l@{p(n)}+:{p('3')}",
            f"[x l@{p('0')} y]:{p('[1;2;3]')}",
            f"l@{p('0')}::l@{p('1')}", f"(l {p('1')} {p('0')}):{p('5')}",
            f"x:y:{p(n)}", f"x+:y+:{p(n)}", f"x@{p('0')}.:{p('4')}",
            f"P q;P{p('q')};x:q", f"F [x y] {p('[[1;2];[3;4]]')}P{p('x+y')}",
            f"Y{p(n)};P y", f"{{{p('a')}}}M{p(',3')}",
            f"{p('0')}&{p('1')}|{p('2')}", f"z:{{{p('a')}&{p('b')}}};(z 0 1);(z 1 0)",
            f"{{a>{p('b')}}}SK{p('[3;1;2]')}" if False else
            f"{{{p('-a')}}}SK{p('[3;1;2]')}",
            f"\"abc\"R{p('`[ab]`')}{{{p('a')}}}", f"$+{p('[1;2;3]')}",
            f"V{p(chr(34) + 'P 3;P 4' + chr(34))}",
            f"(q).(q)", f"q@0:{p('3')}", f"x:q;q:3;P x;P q",
            f"{{{p('a')}<2}}FI{p(',4')}", f"{{{p('a')}}}MU{p('[[1;2];[3]]')}",
            f"{{{p('a')}}}MJ{p(',3')}", f"{{{p('a+b')}}}MZ{p(',3')}{p('[5;6]')}",
            f"{{{p('a')}}}MC{p('2')}"]))
    return {"code": "p:{O a.\" \";b};l:[[1;2];[3;4];5];i:0;" + "\n;".join(
        out).replace("\n;", ";") + ";P RP[x y l i];()",
        "stdin": g.pick([[], ["in1", "in2", "in3"], ["A"], ["", "B"]])}


kind("C09", "statements", 3, g_order_stmt, diff)


# ---------------------------------------------------------------- C10

def flow(g, d, vs):
    """A structured statement over counters; always terminates."""
    k = g.r.random()
    if d <= 0 or k < .2:
        return g.pick(["O i", "O x", "P \"-\"", "x+:1", "x+:i", "y.:i", "O '.",
                       "l AE:i", "D x", "U x", "P [i x]", "y:x.y", "O x.i"])
    v = g.pick(vs)
    sub = vs[:] if len(vs) == 1 else [w for w in vs if w != v]

    def body():
        b = ";".join(flow(g, d - 1, sub) for _ in range(g.pick([1, 1, 2])))
        return b if ";" not in b and g.chance(.3) and not b.startswith("{") \
            else "{" + b + "}"
    cond = g.pick([v, f"{v}>1", f"{v}%2", "x<3", "0", "1", "\"\"", "\"0\"",
                   "\"a\"", "[]", "[0]", "()", "\"0.0\"", f"{v}=2", "x",
                   "1.5", "\"00\"", "` `", "{0}", "#y", f"!{v}", "-1",
                   "0,0", "0,1", "\" \"", "\"-0\"", ".0"])
    if k < .45:
        s = f"I {cond}" + (";" if g.chance(.1) else "") + " " + body()
        for _ in range(g.pick([0, 0, 0, 1, 1, 2])):
            s += " EI " + g.pick([v, "x>2", "0", "1", f"{v}=1"]) + " " + body()
        if g.chance(.5):
            s += " EL " + body()
        return s
    if k < .60:
        it = g.pick([",3", "\"abc\"", "[4;5]", "[]", "2,5", "\"\"", "[[1];2]",
                     "0,0", "12", "()", "5.5", "R,3", "[1;2;3]@<2", "-3,0",
                     "x", "l", "y", "`ab`", "{a}", "-12"])
        return f"F {v} {it} " + body()
    if k < .70:
        n = g.pick(["0", "1", "2", "3", "-1", "2.7", "\"2\"", "[7;8]", "()",
                    "\"abc\"", ",2", "`a`", "{3}", "\"1x\"", "x%3", "[]",
                    "1.5", "0.9", "\"1e+1\"", "\"2.5e+1\"", "\"3e-1\"",
                    "\"1e2x\"", "\"2e0\"", "\"1E1\"", "\".3e1\"", "\"+3\"",
                    "\" 2\"", "\"2 \"", "\"1_0\"", "\"--2\"", "\"2.\"",
                    "\"2.9.9\"", "\"1e-1\"", "\"٣\"", "\"2\n\"", "`3`"])
        return f"L {n} " + body()
    if k < .80:
        return f"{v}:{g.r.randrange(0, 4)};W {v}" + "{D " + v + ";" + \
            flow(g, d - 1, sub) + "}"
    if k < .86:
        return f"{v}:0;T {v}>{g.r.randrange(0, 3)}" + "{U " + v + ";" + \
            flow(g, d - 1, sub) + "}"
    if k < .865:
        # an empty body: all the work is done by the condition
        e = g.pick(["{}", "{}", "{0}", "{()}", "{;}"])
        n = g.r.randrange(0, 5)
        return g.pick([f"{v}:0;T(U {v})>{n}{e}P {v}",
                       f"{v}:3;W(D {v})>0{e}P {v}", f"{v}:0;W {v}+:1<{n}?1 0{e}"
                       if False else f"{v}:{n};W {v}{{D {v}}}",
                       f"l:[1;0;2];W PO l{e}P RP l", f"l:[0;0;1];T DQ l{e}",
                       f"y:\"\";T(y.:1)=111{e}O y", f"F {v},{n}{e}O {v}",
                       f"L{n}{e}", f"I(U {v})>1{e}EI(U {v})>2{e}EL{e}O {v}",
                       f"LR`.`\"ab\"{e}O$0", f"I {n}>2{e}EL{{P {v}}}"])
    if k < .90:
        # conditions of every kind of value, that change after n rounds
        no = g.pick(["()", "0", "\"\"", "[]", "0.0", "\"0\"", "0,0", "\"-0\"",
                     "[]@9", "V\"\""])
        yes = g.pick(["1", "\"a\"", "[0]", "\" \"", "` `", "{0}", "-1",
                      "0,1", "[()]", ".5", "_", "``", "!()"])
        n = g.r.randrange(0, 4)
        if g.chance(.5):
            return f"{v}:0;T({v}<{n}?{no} {yes})" + "{U " + v + ";" + \
                flow(g, d - 1, sub) + "}"
        return f"{v}:0;W({v}<{n}?{yes} {no})" + "{U " + v + ";" + \
            flow(g, d - 1, sub) + "}"
    if k < .94:
        return "LR" + g.pick(["`.`", "`[ab]`", "`$`", r"`\n`", r"`\s+`",
                              r"`\b`", "`b?$`", "`(?=b)`", r"`\s*$`", "`b*`", "\"a\"", "`(.)(.)`",
                              "``", "`^`", "\"\"", "3"]) + " " + \
            g.pick(["\"abc\"", "\"aabb\"", "\"\"", "123", "[1]", "\"a\nb\"",
                    "`x`", '"ab\n"', '"a\n\n"', '" a "', '"\n"', "n",
                    '"\t b\n b"']) + g.pick(["{O$0;O'|}", "{O$1.$`;" +
                                      flow(g, d - 1, sub) + "}",
                                      "{P[$( $) $0 $$]}"])
    if k < .98:
        return "F[" + g.pick(["x y", "i", "x [y l]", "x y l"]) + "]" + g.pick(
            ["[[1;2];[3;4]]", "[[1;[2;3]];[4;5]]", "\"ab\"", "[1;2]",
             "EN\"ab\"", "[[];[1]]", "ZG2"]) + " " + body()
    return g.pick(["WG", "P x", "{O 5}", "L2{L2O i}"])


def g_flow(g):
    vs = ["i", "j"[:0] + "c", "m"]
    out = [flow(g, g.pick([1, 2, 2, 3]), vs)
           for _ in range(g.pick([1, 1, 2]))]
    code = "x:0;y:\"\";l:[];i:1;c:2;m:3;" + ";".join(out)
    fn = g.chance(.25)
    if fn:
        code = "z:{" + code + ";a};P RP(z 3)"
    return {"code": code + ";P RP[x y l i c m];()", "args": args(g, 1),
            "w": g.chance(.2)}


kind("C10", "nested statements", 4, g_flow, diff)


def g_count(g):
    """Laws: how often a body runs, and where the loop variable ends up."""
    n = g.r.randrange(0, 9)
    v = g.iterable()
    if type(v) is Ra and not v.finite:
        v = Ra(v.lo, (v.lo or 0) + 3)
    s = g.wrap(g.src(v))
    code = g.pick([
        f"x:0;L{n}{{U x}};P x={n}",
        f"x:0;F i{s}{{U x}};P x=#{s}",
        f"l:[];F i{s}{{l AE:i}};F c,#l{{P(l@c)==({s}@c)}};P 1",
        f"x:{n};y:0;W x{{D x;U y}};P(y={n})&x=0",
        f"x:0;T x>={n}{{U x}};P x={n}",
        f"x:0;I {s}{{x:1}}EL{{x:2}};P x=({s}?1 2)",
        f"x:0;W 0{{x:1}};T 1{{x:1}};P !x",
        f"x:0;LR`a`\"banana\"{{U x}};P x=3",
        f"l:[];LR`[an]`\"banana\"{{l AE:$0}};P l==@\"anana\"|J l Q\"anana\"",
        f"x:0;F i,{n}{{F c,i{{U x}}}};P x={n * (n - 1) // 2}",
        f"x:0;F i,{n}I i%2{{U x}}EL{{D x}};P x=({n // 2 - (n - n // 2)})"])
    return {"code": code + ";()", "law": 1}


def j_law(case, rec):
    from .common import each_true
    return each_true(case, rec, "counting law")


kind("C10", "counting laws", 1, g_count, j_law, cost=2)


# ---------------------------------------------------------------- C18

def g_lambda(g):
    """An operator given functions builds the function that applies it."""
    t, a, s = g.pick(gen.SIGS)
    ops = [x for x in gen.SIGS if "v" not in x[2] and "B" in
           syn.OPS[x[1]][x[0]].flags or x[0] in ("<", "=")]
    t, a, s = g.pick(ops)
    n = a
    which = g.r.randrange(1, 2 ** n)
    vals = [g.of(y if y not in "bf" else "q") for y in (s[:-1] * 3)[:a]]
    if "f" in s or "b" in s:
        raise Unsure("function operand")

    def form(k, name):
        return g.pick([name, "{" + name + "}", "_" if name == "a" else "B"])
    subs, direct = [], []
    for k in range(n):
        lit = g.wrap(g.src(vals[k]))
        if which >> k & 1:
            nm = "ab"[k % 2] if n < 3 else "abc"[k]
            subs.append("{" + nm + "}" if g.chance(.5) or nm == "c" else
                        "_" if nm == "a" else "B")
        else:
            subs.append(lit)
        direct.append(lit)
    call = " ".join(g.wrap(g.src(v)) for v in vals)

    def app(x):
        return f"{t} {x[0]}" if n == 1 else f"{x[0]} {t} {x[1]}" \
            if n == 2 else f"{x[0]} {t} {x[1]} {x[2]}"
    e1 = f"P RP(({app(subs)}){'' if False else ' ' + call})"
    e2 = f"P RP({app(direct)})"
    if n == 2 and which == 2:
        # second operand only
        pass
    return {"code": e1 + ";()", "direct": e2 + ";()", "args": ["5", "abc"],
            "law": 1}


def j_lambda(case, rec):
    c1 = case
    c2 = dict(case, code=case["direct"])
    x1, x2 = expect(c1), expect(c2)
    if (x1.out, x1.end) != (x2.out, x2.end):
        bad = compare(c1, x1, observe(c1)) or compare(c2, x2, observe(c2))
        note(x1.m, rec, x1.end)
        return bad
    return compare(c1, x1, observe(c1)) or agree(
        [c1, c2], rec, "a built function against direct application")


kind("C18", "built and direct application", 3, g_lambda, j_lambda, cost=2)


def g_built(g):
    e = g.expr(g.pick([2, 3]), "a", ["_", "_", "B", "_"])
    if "_" not in e and "B" not in e:
        e = "_." + e
    if g.chance(.25):
        e = g.pick(["$+", "\\$.", "#*", "-*", "$AE", "$<", "RV", "!", "#"]) + \
            "(" + e + ")"
    n = g.r.randrange(0, 4)
    vals = " ".join(g.wrap(g.src(g.value(1))) for _ in range(n))
    use = g.pick(["P RP(p V)", "P RP p M[V]", "P RP(p V);P RP(p V)",
                  "P RP p", "P RP(p)FI[V]", "P RP({(a b c)}p V)",
                  "z:p;P RP(z V);P z==p", "P RP SN[V]",
                  "P RP(p+1 V)" if False else "P RP((p.1)V)",
                  "P RP(p SK[V])", "P RP{a.b}MZ p V" if False else
                  "P RP(p MJ[V])"])
    return {"code": f"p:({e});" + use.replace("V", vals) + ";P RP[a b i];()",
            "args": ["5", "abc"], "w": g.chance(.15)}


kind("C18", "functions built from expressions", 4, g_built, diff, cost=2)


def g_blockops(g):
    """Functions as operands of every operator, including the ones that do
    not build functions."""
    t, a, s = g.pick(gen.SIGS)
    fs = ["_", "B", "{a}", "{a+1}", "{P 7;a}", "{b}", "(_+1)", "{x+:1;a}",
          "{}", "{a;b}", "G", "{P 7;x+:1;a}", "{Y a;P y;y+1;b}",
          "{I a{P 3}P 4;a.b}", "{x:[a b];P x@0;x AE:a;x RM a}",
          "{a:5;P a;b:a+1;P b;[a b]}", "{P 1;P 2;P 3}", "{c:a;d:b;[d c $_]}"]
    subs = []
    for y in (s[:-1] * 3)[:a]:
        subs.append(g.pick(fs) if g.chance(.6) else
                    "x" if y == "v" else g.wrap(g.leaf(y, ["x"])))
    e = f"{t} {subs[0]}" if a == 1 else f"{subs[0]} {t} {subs[1]}" \
        if a == 2 else f"{subs[0]} {t} {subs[1]} {subs[2]}"
    if g.chance(.12):
        f = g.pick(fs)
        e = g.pick([f"$+{f}", f"\\$.{f}", f"#*{f}", f"$<{f}", f"-*{f}",
                    f"(1<{f}<3)", f"({f}={f}=x)", f"$AE({f}AE 1)",
                    f"(x<{g.pick(fs)}>{f})", f"({f}+{g.pick(fs)}-{f})"])
    call = " ".join(g.wrap(g.src(g.value(1))) for _ in range(2))
    return {"code": f"x:[1;2];z:({e});P RP z;P RP x;P RP(z {call});"
                    f"P RP x;()", "args": ["5", "abc"]}


kind("C18", "every operator on functions", 3, g_blockops, diff)


# ---------------------------------------------------------------- C19

def index(g, d=1):
    k = g.r.random()
    if k < .55:
        if g.chance(.12):
            return str(g.r.randrange(-25, 26)) if g.chance(.8) else str(
                g.r.randrange(-300, 301))
        return str(g.r.randrange(-5, 7)) if g.chance(.9) else g.pick(
            ["1.5", "\"1\"", "\"x\"", "99", "-99", "()", "2.0", "\"-1\"",
             "100000000000", "`a`", "{1}"])
    if k < .80:
        a, b = g.r.randrange(-5, 7), g.r.randrange(-5, 8)
        return g.pick([f"({a},{b})", f"({a},())", f"((),{b})", f"(,{abs(b)})",
                       f"({a}\\,{b})", f"(R({a},{b}))"])
    if k < .92:
        return "[" + ";".join(index(g, 0) if d else str(
            g.r.randrange(-4, 5)) for _ in range(g.r.randrange(0, 4))) + "]"
    return g.pick(["i", "x", "#l", "y"])


def place(g, vs):
    v = g.pick(vs)
    s = v
    for _ in range(g.pick([0, 1, 1, 1, 2, 2, 3])):
        k = g.r.random()
        i = index(g)
        if i.startswith("-"):
            i = "(" + i + ")" if g.chance(.3) else i
        if k < .75:
            s += "@" + i
        elif k < .85:
            s += g.pick(["@<", "@>"]) + str(
                g.r.randrange(-3, 5) if g.chance(.8)
                else g.r.randrange(-16, 20))
        elif k < .92:
            s = g.pick(["H ", "S ", "@"]) + s if s == v else s
        else:
            s = "(" + s + " " + i + ")" if not s.startswith("(") else s
    return s


def g_places(g):
    vs = ["l", "m", "x", "y"]
    init = {"l": g.pick(["[1;2;3;4]", "[[1;2];[3;[4;5]];\"abc\"]", "[]",
                         g.src(g.list_(2)), "[1]"]),
            "m": g.pick(["(2,7)", "(0,14)", "[(1,4);[8]]", "(-2,2)", "(3,())", "(,4)",
                         g.src(g.list_(2))]),
            "x": g.pick(["\"hello\"", "12345", "\"abcdefghijklmnopq\"", "\"\"", "3.14", "\"é日ü\"",
                         g.src(g.scalar())]),
            "y": g.pick(["()", "5", "`a`", "{a}", "\"ab\""])}
    out = [f"{v}:{t}" for v, t in init.items()] + ["i:1"]
    for _ in range(g.r.randrange(1, 5)):
        p = place(g, vs)
        val = g.pick(["9", "\"Q\"", "[7;8]", "()", "\"\"", "\"WXYZ\"", "[]",
                      "(1,3)", "-1", "x", "l", "m@0", "l@(0,2)"])
        out.append(g.pick([
            f"{p}:{val}", f"{p}:{val}", f"{p}:{val}", f"P RP {p}", f"P RP {p}",
            f"P RP({p})", f"{p}+:1", f"{p}.:{val}", f"{p}AE:{val}",
            f"{p} PU {val}", f"{p} PB {val}", f"PO {p}", f"DQ {p}",
            f"{p} PK {index(g)}", f"U {p}", f"D {p}", f"{p}::{place(g, vs)}",
            f"P RP({p}:{val})", f"P RP({p}+:2)", f"{p}X:2", f"{p}RM:2",
            f"P RP(PO {p})", f"P RP({p} PK {index(g)})", f"-:{p}",
            f"++{p}", f"R:{p}", f"{p}RA:{index(g)} {val}",
            f"P RP({p} RA {index(g)} {val})", f"{p}J:\"-\"",
            f"({p} {index(g)}):{val}", f"P RP({p} {index(g)} {index(g)})",
            f"{p}@{index(g)}:{val}", f"F {g.pick(vs)} [1;2]{{P RP {p}}}",
            f"$+:{p}", f"{p}|:{val}", f"{p}&:{val}", f"{p},:5",
            f"{p}@:{index(g)}", f"l@?:{val}", f"P RP({p}@?{val})",
            f"P RP[{p};{p}]", f"P RP #{p}"]))
    out.append("P RP[l m x y i];()")
    return {"code": ";".join(out), "args": [], "w": g.chance(.25),
            "fmt": g.pick(FMT) if g.chance(.1) else None}


kind("C19", "places", 6, g_places, diff, cost=2)


def g_index(g):
    v = g.pick([g.list_(2), g.range_(.2), g.word(), g.num(), g.list_(1),
                Sc("abcdef"), Li(map(sc, range(5)))])
    s = g.wrap(g.src(v))
    i, j = index(g), index(g)
    e = g.pick([f"{s}@{i}", f"({s} {i})", f"{s}@{i}@{j}", f"({s} {i} {j})",
                f"{s}@<{i}", f"{s}@>{i}", f"H {s}", f"S {s}", f"{s} H {i}",
                f"{s} S {i}", f"@<{s}", f"@>{s}", f"@{s}", f"{s}@({i} {j})"
                if False else f"{s}@[{i};{j}]", f"{i}@{s}",
                f"{s} RA {i} \"Z\"", f"{s} RA {i} [1;2]", f"{s}^@{i}",
                f"{s} RA {i} {{a.1}}",
                f"{s} RA {i} _", f"{s}@{i}|{s}@{j}"])
    return {"code": "x:2;i:-1;y:\"s\";l:[4;5];P RP(" + e + ");()",
            "w": g.chance(.3)}


kind("C19", "reading", 3, g_index, diff)


def g_idx_law(g):
    n = g.r.randrange(1, 7)
    xs = Li(g.pick([g.num, g.word, lambda: g.list_(1)])() for _ in range(n))
    v = xs if g.chance(.6) else Sc("".join(g.pick("abcdef") for _ in range(n)))
    i = g.r.randrange(-2 * n, 2 * n)
    j = g.r.randrange(-n, n + 1)
    if type(v) is Li and g.chance(.2):
        v = Ra(g.r.randrange(-3, 4), None)
        v = Ra(v.lo, v.lo + n)
    s = g.wrap(g.src(v))
    w = g.pick(["9", "\"Q\"", "0"])
    t = f"l:{s};"
    code = g.pick([
        t + f"P(l@{i})==(l@({i}%#l))",
        t + f"P(l@<{abs(j)})==(l@(0,{abs(j)}))",
        t + f"P(l@>{abs(j)})==(l@({abs(j)},()))",
        t + f"m:l;l@{i}:{w};P(l@{i})=={w};P(#l)=#m;"
            f"F c,#l{{I c!={i}%#l{{P(l@c)==(m@c)}}}}",
        t + f"P #(l@<{abs(j)})+#(l@>{abs(j)})=#l",
        t + f"P(H l)==(l@<-1);P(S l)==(l@>1)",
        t + f"x:#l;l PU {w};P(#l)=x+1;P(PO l)==l@0|1;P(#l)=x" if False else
        f"l:[1;2];x:#l;l PU {w};P(#l)=x+1;P(PO l)=={w};P(#l)=x",
        f"l:[1;2;3];l PB {w};P(#l)=4;P(l@-1)=={w};P(DQ l)=={w};P l==[1;2;3]",
        t + f"m:@l;P(m)==(l@0)",
        t + f"F c,#l{{P(l c)==(l@c)}}",
        t + f"P(l@[0;{j}])==[l@0;l@{j}]"])
    return {"code": code + ";()", "law": 1}


kind("C19", "laws of indexing", 1, g_idx_law, j_law, cost=2)


# ---------------------------------------------------------------- C20

def names(g, d=2):
    n = g.long(g.pick([1, 2, 2, 3, 4]), .1)
    out = []
    for _ in range(n):
        if d and g.chance(.25):
            out.append(names(g, d - 1))
        else:
            out.append(g.pick(["x", "y", "a", "b", "l", "m", "i", "l@0",
                               "m@1", "l@-1", "x", "y", "$v", "q", "l@0@1",
                               "l@(0,2)"]))
    return "[" + g.pick([" ", ";"]).join(out) + "]"


def g_destr(g):
    vals = ["[1;2]", "[1;2;3]", "[1]", "[]", "\"ab\"", "\"abc\"", "\"\"",
            "(1,4)", "(5,())", "[[1;2];3]", "[1;[2;3]]", "[[1;2];[3;4]]",
            "()", "7", "12", "{a}", "`ab`", "[x;y]", "[y;x]", "[x y]", "l",
            "[l@1;l@0]", "[m;l]", "[\"pq\";\"rs\"]", "-5", "[[];[1]]",
            "[a b l m]", "(-2,())", ",9", "(3,12)", "[" + ";".join(
                g.src(g.value(1)) for _ in range(g.pick([1, 3, 6, 12]))) + "]",
            "\"abcdefghijkl\""]
    out = ["x:1;y:2;l:[10;[20;21];30];m:[[40];50];i:0"]
    for _ in range(g.pick([1, 1, 2, 3])):
        ns = names(g)
        v = g.pick(vals)
        out.append(g.pick([
            f"{ns}:{v}", f"{ns}:{v}", f"{ns}:{v}",
            f"F {ns.replace(';', ' ')} [{v};{g.pick(vals)}]{{P RP[x y a b l]}}"
            if "@" not in ns and ";" not in ns else f"{ns}:{v}",
            f"x::y", f"l@0::l@2", f"x::l@{g.r.randrange(-4, 5)}",
            f"l::m", f"l@0::m@0", f"l@1@0::x", f"x::x", f"l@0::l",
            f"[x y]::[l m]", f"[x y]::[y x]", f"{ns}::{names(g)}",
            f"[x y]+:{v}", f"[x y].:[3;4]", f"P RP({ns}:{v})",
            f"U [x y]", f"[x y]@0:{v}", f"{v}::x", f"x::{v}", f"q::x",
            f"{ns}+:1", f"[x y]AE:5", f"-:[x y]", f"[x y]X:2",
            f"[[x y] i]:[{v};8]", f"[x [y [a [b]]]]:[1;[2;[3;[4]]]]",
            f"[x y]:R[x y]", f"x:y:{v}", f"[x x]:{v}", f"[l l@0]:[{v};5]",
            f"Y[x y]:{v}", f"[x y l]:q.q", f"a::b", f"\\a::x",
            f"l@(0,2)::x", f"z:{{[a b]:[b a];[a b]}};P RP(z 3 4)",
            f"z:{{a::b;[a b]}};P RP(z 3 4)", f"[a b]:{v}",
            f"[x y]H:2" if False else f"P RP[x y]@1"]))
    out.append("P RP[x y l m i a b $v];()")
    return {"code": ";".join(out), "args": args(g, 2), "w": g.chance(.4),
            "stdin": ["ln1", "ln2"]}


kind("C20", "destructuring and swapping", 5, g_destr, diff)


def g_destr_law(g):
    vs = [g.wrap(g.src(g.value(1))) for _ in range(4)]
    code = g.pick([
        f"x:{vs[0]};y:{vs[1]};x::y;P x=={vs[1]};P y=={vs[0]};x::y;"
        f"P x=={vs[0]}",
        f"[x y i]:[{vs[0]};{vs[1]};{vs[2]}];P x=={vs[0]};P y=={vs[1]};"
        f"P i=={vs[2]}",
        f"l:[{';'.join(vs)}];l@0::l@3;P(l@0)=={vs[3]};P(l@3)=={vs[0]};"
        f"P(l@1)=={vs[1]};P #l=4",
        f"x:{vs[0]};y:{vs[1]};[x y]:[y x];P x=={vs[1]};P y=={vs[0]}",
        f"x:{vs[0]};y:{vs[1]};i:{vs[2]};[x y i]:[i x y];P x=={vs[2]};"
        f"P y=={vs[0]};P i=={vs[1]}",
        f"[x [y i]]:[{vs[0]};[{vs[1]};{vs[2]}]];P x=={vs[0]};P y=={vs[1]};"
        f"P i=={vs[2]}",
        f"F[x y][[{vs[0]};{vs[1]}];[{vs[0]};{vs[1]}]]{{P x=={vs[0]};"
        f"P y=={vs[1]}}}",
        f"l:[{vs[0]};[{vs[1]};{vs[2]}]];x:{vs[3]};l@1@0::x;P x=={vs[1]};"
        f"P(l@1@0)=={vs[3]};P(l@1@1)=={vs[2]};P(l@0)=={vs[0]}"])
    return {"code": code + ";()", "law": 1}


def j_dlaw(case, rec):
    from .common import each_true
    return each_true(case, rec, "law of destructuring")


kind("C20", "laws", 1, g_destr_law, j_dlaw, cost=2)


# ---------------------------------------------------------------- C29

def g_whole(g):
    return {"code": g.program(g.pick([3, 6, 6, 10])), "args": args(g),
            "fmt": g.pick(FMT) if g.chance(.4) else None,
            "w": g.chance(.15), "x": g.chance(.05),
            "stdin": g.pick([[], ["in1", "2"], ["", "x y"]])}


kind("C29", "generated programs", 6, g_whole, diff, cost=2)


def g_expr29(g):
    return {"code": "RP(" + g.expr(g.pick([2, 3, 4]), "a", ["a", "b"]) + ")",
            "args": args(g, 2)}


kind("C29", "generated expressions", 3, g_expr29, diff)
kind("C29", "history values", 1, g_history, diff)


def g_mut29(g):
    t = g.program(g.pick([2, 4]))
    for _ in range(g.pick([1, 1, 2, 3])):
        t = gen.mutate(g.r, t)
    return {"code": t, "args": args(g), "fmt": g.pick(FMT)}


kind("C29", "mutated programs", 2, g_mut29, diff)
