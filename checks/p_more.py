"""C31 variables, C32 numbers and texts, C33 evaluated code."""
import re

from pm import gen, lex, syn, real, repl
from pm.gen import OPS
from pm.val import Sc, Li, NIL, rep, sc, num, toint, Unsure

from .core import kind, Skip, Slow
from .common import diff, expect, agree, note, show, FMT
from .p_state import args, j_repl, ARGS

# ---------------------------------------------------------------- C31

ONE = [c for c in "abcdefghijklmnopstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ"]
KNOWN = ["_", "B", "G", "AZ", "CZ", "PA", "PI", "VN", "VD", "VW", "VY", "XA",
         "XC", "XD", "XI", "XL", "XN", "XU", "XV", "XW", "XX", "XY", "\\a",
         "\\b", "\\c", "\\d", "\\e", "\\g", "\\f"] + list("abcdefghiklmnopst"
                                                         "uvwxyz")
DOLLAR = ["$_", "$__", "$___", "$0", "$1", "$2", "$9", "$$", "$`", "$'", "$(",
          "$)", "$[", "$]"]
CAPS = [a + b for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]


def _isname(t):
    try:
        k = syn.parse(t)
    except Exception:
        return False
    return len(k) == 1 and not any((t in OPS[a]) for a in (1, 2, 3))


FREE = []       # capital names that are neither operators nor predefined
for _c in CAPS:
    if _isname(_c) and _c not in KNOWN and _c not in ("VD", "WG"):
        FREE.append(_c)
GLOBALS = [v for v in "hiklmnopstuvwxyz"] + FREE[:40]


def anyname(g):
    return g.pick([lambda: g.pick(KNOWN), lambda: g.pick(KNOWN),
                   lambda: g.pick(DOLLAR), lambda: g.pick(FREE),
                   lambda: g.pick(["AZ", "PA", "XN", "i", "\\a", "\\f"])])()


def show_vars(g, names):
    return "".join(f"P RP {v};" for v in names)


def use(v):
    return f" {v} "


CHANGE = ["V:5", "V:[1;2]", "V+:1", "V.:\"q\"", "V AE:3", "V:()", "U V", "D V",
          "VPU7", "VPB7", "V@0:9", "V R:`.`\"z\"", "V:{a}", "V X:2", "V:V",
          "V RL:2", "V TM:1", "V UC:()", "VPK0", "POV", "DQV", "Y V",
          "[V]:[8]", "V SWi", "V:`r`", "L2UV", "FV,3{}", "V--:", "++V"]


def change(g, v):
    return g.pick(CHANGE).replace("V", " " + v + " ")


def g_start(g):
    """Names shown at the start, after changes, after WG, in functions."""
    ns = [anyname(g) for _ in range(g.pick([1, 3, 5]))]
    k = g.r.random()
    if k < .3:
        code = show_vars(g, ns)
    elif k < .75:
        ch = [change(g, g.pick(ns) if g.chance(.7) else g.pick(GLOBALS))
              for _ in range(g.pick([1, 2, 4]))]
        pre = ";".join(ch) + ";"
        wipe = g.pick(["WG;", "WG;", "WG;", "({WG}0);", "({WG}0);", "L2WG;",
                       "V\"WG\";", "WG;WG;", "Y3;WG;", "I1WG;"])
        post = g.pick(["", change(g, g.pick(ns)) + ";WG;",
                       change(g, g.pick(GLOBALS)) + ";"])
        code = pre + wipe + post + show_vars(g, ns)
        if g.chance(.3):
            code = "{" + code.rstrip(";") + "}" + g.pick(
                [" 1", "", "M2", " 4 5"]) + ";" + show_vars(g, ns[:2])
            code = "(" + code.replace("};", "});", 1) if code.count(
                "};") else code
    elif k < .9:
        # one variable changed: the others keep their values
        v = g.pick(GLOBALS)
        code = change(g, v) + ";" + show_vars(g, [g.pick(KNOWN)
                                                  for _ in range(6)])
    else:
        code = "({" + show_vars(g, ns) + "}" + g.pick(
            ["", " 7", " 7 8", " 1 2 3 4 5 6"]) + ");" + show_vars(g, ns[:1])
    if g.chance(.3):
        code = g.pick(["\"aXb\"~`(X)(q)?`;", "3;4;"]) + code
    return {"code": code + "()", "args": args(g, g.pick([0, 1, 2, 5, 7])),
            "w": g.chance(.1), "x": False}


kind("C31", "values at start and after WG", 5, g_start, diff)


def g_all(g):
    """Every name of one class at once."""
    ns = g.pick([KNOWN, FREE[:], DOLLAR, ONE[:26], KNOWN])[:]
    g.r.shuffle(ns)
    ns = ns[:30]
    code = "P RP[" + ";".join(ns) + "];"
    if g.chance(.5):
        a = [v for v in ns if v in GLOBALS]
        code += "".join(f"{v}:{i + 200};" for i, v in enumerate(a)) + \
            "P RP[" + ";".join(ns) + "];WG;" + "P RP[" + ";".join(ns) + "];"
    return {"code": code + "()", "args": args(g)}


kind("C31", "all names at once", 1.5, g_all, diff, cost=3)


def g_session(g):
    lines = []
    for _ in range(g.pick([2, 4, 6])):
        v = anyname(g)
        lines.append(g.pick([v, v, change(g, g.pick(GLOBALS)), "WG",
                             f"P RP {v}", "({" + v + "})", "L2"
                             "{" + change(g, g.pick(GLOBALS)) + "}",
                             "{" + change(g, g.pick(GLOBALS)) + ";1/}",
                             "\"aXb\"~`X`", "[" + v + ";" + anyname(g) + "]"]))
    return {"lines": lines, "fmt": None, "w": g.chance(.2)}


kind("C31", "names in a session", 1, g_session, j_repl, cost=3)

# programs over placeholders X1 X2 X3: any three globals will do
RENAME = [
    "X1:3;X2:4;P X1+X2;P[X1 X2]", "X1:[1;2;3];X2:X1;X2@0:9;P RP[X1 X2]",
    "X1:5;L X1{O X1};P X1", "X1:\"ab\";F X2X1{P X2.X2};P RP[X1 X2]",
    "X1:{X2:a+1;X2};X2:0;P(X1 4);P X2", "X1:1;({X1:2}0);P X1;({X1:3}2);P X1",
    "X1:X2:5;P[X1 X2];X1+:1;P[X1 X2]", "X1:7;X2:8;X1SW X2;P[X1 X2]",
    "[X1 X2 X3]:[1;2];P RP[X1 X2 X3]", "X1:,5;P POX1;P RP X1;P DQX1;P RP X1",
    "X1:0;W X1<3{U X1;P X1}", "X1:0;T X1>3{++X1};P X1",
    "X1:{a<1?1a*(X1 a-1)};P(X1 5)",
    "X1:\"hello\";X1R:`l`\"L\";P X1;X1PU\"<\";X1PB\">\";P X1",
    "X1:2;X2:3;P V\"X1*X2\"", "X1:4;P{X1*a}M,3;X1:5;P{X1*a}M,3",
    "X1:10;X1-:3;X1*:2;X1//:4;X1.:\"k\";P X1", "X1:_+1;P(X1 5);P X1M,4",
    "X1:[[1;2];[3;4]];(X1 1 0):8;P RP X1;X2:X1@0;X2@1:7;P RP[X1 X2]",
    "X1:5;X2:{X1:a;X1+1};P(X2 9);P X1", "X1:3;Y X1;P y;P X1",
    "X1:{U X2;X2};X2:0;P[(X1 0)(X1 1)X2]", "X1:6;I X1{P X1}E{P X2};X2:1;P X2",
    "X1:1;X2:2;X3:3;P X1+X2*X3;P(X1+X2)*X3", "F X1,3F X2,2{P[X1 X2]}",
    "X1:\"a,b\";X2:X1^\",\";P RP X2;X3:X2J\"-\";P X3",
    "X1:[3;1;2];P RP SNX1;P RP X1;X2:X1RL2;P#X2", "X1:5;({X1:6;X2:7}0);P RP[X1 X2]",
    "X1:`[a-c]`;P\"abz\"RX1\"-\";P RP X1", "X1:();P X1=();X1PU3;P RP X1",
    "X1:{b:a;X2:b;{b+a}3};P RP(X1 5);P X2", "X1:`.`;LRX1\"xyz\"{X2.:$0.$0};P RP X2", "X1:[];L3X1AE:X1;P RP X1",
    "X1:5;X2:(U X1)+(U X1);P[X1 X2]",
    "X1:{P X2;X2:1};X2:4;(X1 0);P X2", "X1:X2;P RP X1=X2",
    "X1:3;X2:{a:X1;a+:1;a};P(X2 0);P X1", "X1:[4;5;6];X1@1+:10;P RP X1;P RP X1@<2",
    "X1:\"x\";X1X:3;P X1;P X1@1;P X1@>1", "X1:1;{X1:a}M[5;6];P X1",
]


def g_rename(g):
    t = ";".join(g.pick(RENAME) for _ in range(g.pick([1, 1, 2])))
    init = "X1:X2:X3:" + g.pick(["()", "0", "[]", "\"i\"", "3"]) + ";"
    g1 = [v for v in GLOBALS if v not in ("y",)]
    outs = []
    for _ in range(3):
        vs = g1[:]
        g.r.shuffle(vs)
        c = init + t
        for i in (1, 2, 3):
            c = c.replace(f"X{i}", f" {vs[i]} ")
        outs.append(c + ";()")
    return {"codes": outs, "w": g.chance(.1)}


def j_rename(case, rec):
    cs = [{"code": c} for c in case["codes"]]
    r = agree(cs, rec, "the choice of names changes the program")
    return r or diff(cs[0], rec)


kind("C31", "renamed variables", 2, g_rename, j_rename, cost=4)

# ---------------------------------------------------------------- C32

NT = ["12", "-3", "0", "007", "-0", "1.5", "-2.50", ".5", "-.5", "5.", "5.a",
      "1.5.2", "12ab", "ab12", "", " 4", "\t4", "\n4", "4 ", "- 4", "+4", "--4",
      "1e3", "0x1F", "1_0", "1,000", "1 000", "٣", "²", "½", "9007199254740993",
      "123456789012345678901234567890", "0.1", "0.30000000000000004", "1.0",
      "100.00", "-0.0", "0.0", "00.5", "nan", "inf", "-inf", "1/2", "3-4",
      "3+4j", "1e", "1E5", "-", ".", "-.", "..5", "5..", "é5", "5é",
      "99999999999999999999.5", "0.00001", "123456.789", "1.7976931348623157",
      "4.99999999999999999999", "2\n3", "  -7x", "\u00a05", "\u20035", "0b11",
      "000", "-000", "3.", "3.x", "1.50", "-1.0", "1000000000000000000000.0"]


def lit(t):
    """Source of the text t."""
    if '"' not in t:
        return '"' + t + '"'
    return '\\"' + t.replace("\\", "\\\\") + '\\"'




def numtext(g):
    """A text put together from the parts a number can have."""
    return g.pick(["", "", "", " ", "\t", "\n", "\r", "  ", "\u00a0", "\f", "\v",
                   "\x1c", "_", "a", "\u2003\n"]) + g.pick(
        ["", "", "", "-", "-", "+", "--", "- "]) + g.pick(
        ["0", "1", "5", "12", "007", "", "", "٣", "9" * 17, "8" * 25]) + g.pick(
        ["", "", ".", ".5", ".25", ".0", ".50", ".٣", "..5", ".5.5", " .5"]) + \
        g.pick(["", "", "", "e+2", "e-2", "e5", "E+2", "e+", "e", "e+٣", "e-02",
                "e+400"]) + g.pick(["", "", "", " ", "x", "\n", "-1", "e+1"])


# contexts that use the number a text denotes
NUMCTX = ["¤+0", "0+¤", "¤*1", "-¤", "+¤", "¤-1", "¤/4", "¤%7", "¤//2", "AB¤",
          "SG¤", "¤<2", "2<¤", "¤=2", "¤>=1.5", "¤!=0", "¤==¤", "$+[¤;1]",
          "$*[2;¤]", "MX[¤;0]", "MN[¤;0]", "SN[¤;3]", "DN[¤;3]", "¤ AD 3",
          "¤ CM 1", "¤**2", "2**(¤%9)", "HV¤", "HU¤", "DB¤", "SQ¤", "RN¤",
          "|<¤", ">|¤", "RZ¤", "¤|<3", "[¤;¤]+1", "{¤+a}M[1;2]", "({b:¤;U b;b}0)", "({b:¤;b+:1;b}0)", "({b:¤;D b;b}0)", "{a}SK[¤;1;\"0\"]", "SQ(¤)", "MN¤", "¤ FD 10",
          "¤ RN 2", "{a+b}MZ[¤]1", "¤ E 2", "RT AB¤", "1=¤=1", "(¤>1)+(¤<1)"]
# contexts that use the whole number a text starts with
INTCTX = ["\"abc\"@¤", "[4;5;6]@¤", "\"abcdef\"@<¤", "\"abcdef\"@>¤", "\"ab\"X(¤%7)",
          "[1;2]RL(¤%7)", ",(¤%9)", "\\,(¤%9)", "({a:0;L(¤%6)U a;a}0)",
          "\"abcd\"H ¤", "\"abcd\"S ¤", "¤ BA 7", "¤ BO 8", "¤ BX 3", "BN ¤",
          "BL ¤", "(¤%5),9", "(¤%99)TB 2", "CG(¤%4)",
          "ZG(¤%3)", "OG(¤%3)", "EY(¤%4)", "C(¤%90+33)", "[1;2;3;4]CB(¤%5)",
          "\"abcd\"RA ¤\"Z\"", "[1;2;3]^@¤", "\"ab\"RL(¤%5)", "\"xyz\"@[¤;0]", "(10,20)@¤", "(,())@(¤%50)"]
# contexts that use the text itself
TXTCTX = ["¤.\"\"", "#¤", "¤.¤", "¤@0", "RV ¤", "¤=¤", "¤ Q ¤", "RP ¤", "ST ¤",
          "[¤]", "UC ¤", "¤ R\"0\"\"o\"", "¤^\".\"", "¤ J\",\"", "\"1\"N ¤", "¤~`\\d`",
          "¤@?\"5\"", "J[¤;¤]", "SS[¤;\"5\"]", "¤ LT\"5\"", "¤ GE\"1\"", "A ¤",
          "¤ TR\"01\"\"xy\"", "TM ¤", "¤ X 2", "^¤", "¤||\"0\"", "¤@<2", "UQ ¤",
          "[¤]=[¤]", "¤ N[¤]", "¤@-1", "!¤", "¤?1 0", "¤|\"e\"", "¤&\"e\"", "¤ FB 10", "¤<>2", "\"<\".¤.\">\""]

PLACE = ["lit", "var", "arg", "in", "item", "cat", "ret", "char"]


def g_conv(g):
    t = g.pick([g.pick(NT), numtext(g), numtext(g), rep(g.num())]) \
        if g.chance(.85) else \
        "".join(g.pick("0123456789.-+ eax") for _ in range(g.r.randrange(1, 6)))
    if t.startswith('"'):
        t = g.num().s
    c = g.pick(g.pick([NUMCTX, INTCTX, TXTCTX]))
    if -300 < toint(Sc(t)) < 300 and g.chance(.6):
        # the text itself, where it is small enough for a count
        c = re.sub(r"\(¤%\d+(\+\d+)?\)", "¤", c)
    how = g.pick(PLACE)
    case = {"args": [], "stdin": [], "w": g.chance(.1)}
    if how in ("arg", "in") and ("\n" in t or "\0" in t):
        how = "lit"
    pre, name = "", "z"
    if how == "lit":
        name = "(" + lit(t) + ")" if not lit(t).startswith('"') else lit(t)
    elif how == "var":
        pre = "z:" + lit(t) + ";"
    elif how == "arg":
        # \a is global, so functions see it as well
        case["args"] = [t]
        name = "\\a "
    elif how == "in":
        case["stdin"] = [t]
        pre = "z:q;"
    elif how == "item":
        pre = "z:[7;" + lit(t) + "];"
        name = "(z 1)"
    elif how == "cat":
        i = g.r.randrange(0, len(t) + 1)
        name = "(" + lit(t[:i]) + "." + lit(t[i:]) + ")"
    elif how == "ret":
        pre = "z:{" + lit(t) + "};"
        name = "(z 0)"
    else:
        name = "(J[" + ";".join(lit(x) for x in t) + "])"
    return dict(case, code=pre + "P RP(" + c.replace("¤", name) + ");()")


kind("C32", "texts and numbers in every place", 6, g_conv, diff)

LAWCTX = [c for c in NUMCTX if not any(x in c for x in
                                       ("MX", "MN", "SN", "DN", "SK", "=="))]


def g_denotes(g):
    """A text and the number it denotes compute the same."""
    t = g.pick([g.pick(NT), numtext(g), rep(g.num())])
    return {"t": t.strip('"'), "c": [g.pick(LAWCTX) for _ in range(3)],
            "i": [g.pick(INTCTX) for _ in range(2)]}


def j_denotes(case, rec):
    t = case["t"]
    if len(t) > 300:
        raise Skip("long")
    n, k = sc(num(Sc(t))), sc(toint(Sc(t)))
    v = num(Sc(t))
    if v == 0 and "-" in t or "e" in n.s or "n" in n.s or (
            isinstance(v, float) and v == int(v) and abs(v) > 99999):
        raise Skip("no literal")
    for cs, v in ((case["c"], n), (case["i"], k)):
        for c in cs:
            w = n if "%" in c else v
            r = agree([{"code": f"z:{lit(x)};P RP({c.replace('¤', ' z ')});()"}
                       for x in (t, w.s)], rec,
                      "a text and the number it denotes compute differently")
            if r:
                return r
    rec.seen("text", t[:8])
    return None


kind("C32", "a text stands for its number", 2, g_denotes, j_denotes, cost=6)


def g_result(g):
    """A computed number and its text are the same value."""
    e = g.expr(g.pick([1, 2]), "n", [])
    x = g.pick(["P(x.\"\")Q x", "P(x+0)Q x", "P(V x)Q x", "P(V RP x)Q x",
                "P(x=x.\"\")", "P(1*x)Q(x.\"\")", "P#x=#(x.\"\")",
                "P(J x^\"\")Q x", "P RP(x@0)", "P(x-0)Q(+x)", "P -(-x)Q x",
                "P([x]@0)Q x", "P RP(RV RV x)", "P(x+\"\")Q(x-0)",
                "P(ST x)Q(\"\".x)"])
    return {"code": f"x:{e};P RP x;{x};P x.\"\";()", "w": g.chance(.1),
            "fmt": g.pick(FMT) if g.chance(.1) else None}


kind("C32", "numbers and their texts", 3, g_result, diff)

BIGS = ["9007199254740993", "18446744073709551617", "2**64", "3**70", "10**40",
        "EE30", "99999999999", "123456789123456789123456789", "(-(2**65))",
        "7**55-1", "\"100000000000000000000001\"", "(2**53)+1", "SQ(10**17+1)",
        "-99999999999999999999", "1E25", "DB(2**62)", "(10**20)*3"]


def g_exact(g):
    """Whole numbers stay exact through every route."""
    a, b = g.pick(BIGS), g.pick(BIGS + ["3", "7", "-2", "10"])
    e = g.pick(["A+B", "A-B", "A*B", "A//B", "A%B", "A BX B", "A BA B", "HV A",
                "HU A", "DB A", "SQ A", "AB A", "-A", "A|<B", "A>|B", "A RN B",
                "|<A", ">|A", "RZ A", "RN A", "BN A", "BL A", "A=B", "A<B",
                "MX[A;B]", "$+[A;B;1]", "$*[A;B]", "(A)TB 7", "((A)TB 16)FB 16",
                "TD AB A", "FD TD AB A", "J TD AB A", "A.B", "#(A)", "A AD B",
                "A CM B", "\\,3+A", "(A,(A+3))", "{a+1}A", "{x:a;U x;x}A",
                "V(A).\"\"", "RP(A)", "\"\".(A)", "[A]+1", "SG A", "A RZ B",
                "A=(A).\"\"", "(A)Q((A)+0)", "+A", "(A)@0", "RV(A)", "A==A"])
    return {"code": "P RP(" + _fill(e, a, b) + ");()"}


def _fill(e, a, b):
    out, i = "", 0
    while i < len(e):
        c = e[i]
        nxt = e[i + 1:i + 2]
        prv = e[i - 1:i] if i else ""
        if c in "AB" and not (nxt.isalpha() and nxt.isupper()) and not (
                prv.isalpha() and prv.isupper()):
            out += "(" + (a if c == "A" else b) + ")"
        else:
            out += c
        i += 1
    return out


kind("C32", "large whole numbers", 2, g_exact, diff)

# ---------------------------------------------------------------- C33

BODIES = ["a+b", "b:4;b", "x:a;P x;x", "P 1;P 2", "", "{a}", "{a;b}", "[a b]",
          "a+", "5 6", "I a{P b}", "L2Oa", "#g", "a;i", ";a", "a  c", "(a",
          "F i,2{P i}", "\"x\"", "\"x", "V\"a\"", "Yb", "a:a+1;a", "a::b;a", "WG",
          "()", "P q", "x:q;x.x", "\"a b\"R`.`{a.a}", "z:{a*2};(z 4)", "z:3",
          "; comment\na", "a ; c", "{c:a;c}M,3", "1/0", "C(-1)", "(\"", "}",
          "a}b", "5}6", "$+g", "a@0:5;a", "[a b]:[1 2];a.b", "l:,3;l@1:9;l",
          "W i<3{Ui};i", "T i>2 Ui", "a?b c", "a&P3", "k:\"K\";[1 2]Jk", "$_",
          "1;2;$__", "(f 0)", "\"ab\"~`b`;$`", "P$0", "_+1", "{g}", "'a", "`(`",
          "I0{1}E{2}", "EL3", "LR`.`\"ab\"{P$0}", "a:3P a", "P a P b", "UcU c;c",
          "\\a", "\\g", "n", "RP{a+b}", "x:{x+a};(x 2)", "fx", "PI", "P p"]


def code_of(g):
    c = code_of1(g)
    if g.chance(.12):
        c = g.pick(["", "", " ", "\n", "\t"]) + c + g.pick(
            [" ", "\n", "\t", ".' ", ";' ", ".'\n", ";'", "\r", "' ", "'\t ",
             " ; c", "\x0c", "\n\n", ";", ".\"\n\"", " \\"])
    return c


def code_of1(g):
    k = g.r.random()
    if k < .5:
        return g.pick(BODIES)
    if k < .62:
        return g.pick(BODIES) + ";" + g.pick(BODIES)
    if k < .72:
        return gen.mutate(g.r, g.pick(BODIES) + ";" + g.pick(BODIES))
    if k < .9:
        return g.program(g.pick([1, 2, 3]), depth=1)
    return g.expr(2, "a", ["a", "b"])


HOW = ["V S", "P RP(V S)", "P 5;V S", "x:V S;P RP x", "P RP(S V[A])",
       "P RP(S V B)", "P RP([A]V{T})", "P RP({T}V[A])", "V S;V S",
       "p:{c:3;P RP(V S);P RP[a b c x]};(p A);P RP[a b x]",
       "p:{V S;P RP[a b]};(p A)", "P RP V[S;U]", "P RP{V a}M[S;U]",
       "F c,2{P RP V S}", "V \1V S\1", "P RP({V S}A)", "p:{T};V p;P RP[a b]",
       "p:{T};P RP(V p);P RP(p A)", "p:{T};P RP(pV[A])", "P RP(V\1{T}\1)",
       "I V S{P 1}E{P 2}", "W(Ui)<3{V S}", "[V S;V U]", "V S.U", "P RP(V S)+1",
       "L2V S", "P RP V RP{T}", "P RP((V\1{T}\1)A)", "y:S;P RP(V y);P#y",
       "P(V S)=(V S)", "{V S;a}M[A]", "P RP(S V S)",
       "(V S):5", "p:S;pV:[A];P RP p", "p:[S;U];P RP Vp", "P RP(()V S)",
       "P RP(S V())", "P RP(S V\1xy\1)", "P RP(S V,3)", "V()", "V`a`", "V\1\1"]


def quoted(t):
    """The text t as an argument that is a literal of some shape."""
    return lit(t)


def g_code(g):
    s, u = code_of(g), code_of(g)
    if '\0' in s or len(s) > 400 or len(u) > 400:
        s = u = "a"
    k = g.r.random()
    case = {"args": args(g, g.pick([0, 1, 2, 2, 3])), "w": g.chance(.1),
            "stdin": g.pick([[], ["in1", "2"], ["", "x y"]])}
    av = " ".join("(" + g.expr(0, "a") + ")" for _ in range(g.pick([0, 1, 2, 3])))
    bv = g.src(g.value(1))
    h = g.pick(HOW)
    if k < .75:
        h2 = ""
        i = 0
        # inside \1..\1 the text is quoted once more
        parts = h.split("\1")
        for n, p in enumerate(parts):
            q = ""
            for j, c in enumerate(p):
                q += ({"S": lit(s), "U": lit(u), "A": av, "B": bv,
                       "T": s}.get(c, c)) if not (
                    p[j - 1:j].isupper() and c.isupper() and
                    p[j - 1:j + 1] in ("RP", "AE")) and p[j:j + 2] not in (
                    "Ui",) else c
            h2 += lit(q) if n % 2 else q
        code = h2
    elif k < .85 and "\n" not in s:
        case["args"] = [s] + case["args"]
        code = g.pick(["P RP(V a)", "V a", "P RP({V a}a)", "V\\a",
                       "P RP(aV[b c])", "P RP(V a.b)", "P RP V[a b]"])
    elif k < .95 and "\n" not in s:
        case["stdin"] = [s] + case["stdin"]
        code = g.pick(["P RP(V q)", "V q", "P 1;V q;V q", "y:q;P RP(yV[a b])",
                       "{V a}q"])
    else:
        code = "x:" + lit(s[:len(s) // 2]) + ";x.:" + lit(s[len(s) // 2:]) + \
            ";P RP(V x);V x"
    pre = g.pick(["", "x:1;", "b:9;", "\"pq\"~`q`;", "7;8;", "P 3;"])
    return dict(case, code=pre + code + ";" + g.pick(
        ["P RP[a b c x y i l z]", "P RP[$_ $__ x]", "P RP[$0 $`]", "P RP g",
         "P 4"]) + g.pick([";()", "", ";V\"a\""]))


kind("C33", "evaluated code", 5, g_code, diff)


def g_inplace(g):
    """Code and the evaluation of its text: side by side."""
    s = code_of(g)
    if len(s) > 400:
        s = "a"
    a = g.pick(["A", "P RP[A]", "x:A", "{A}(7)", "I 1{A}", "L2{A}", "[1;A]",
                "(A)+1", "z:{A};(z 1 2)", "A;A", "{A}M,2", "P 1;A"])
    return {"a": a.replace("A", "(" + s + ")"),
            "b": a.replace("A", "(V" + lit(s) + ")"),
            "end": ";P RP[a b c x y i l z];()", "args": args(g, 2),
            "stdin": ["in1", "2", "3"]}


def j_inplace(case, rec):
    """An expression and the evaluation of its text at the same point."""
    cs = [{"code": case[k] + case["end"], "args": case["args"],
           "stdin": case["stdin"]} for k in "ab"]
    x, y = expect(cs[0]), expect(cs[1])
    if x.phase == "run" and (x.out, x.end) == (y.out, y.end):
        r = agree(cs, rec, "evaluating the text differs from the code itself")
        if r:
            return r
    return diff(cs[0], rec) or diff(cs[1], rec)


kind("C33", "text against code in place", 2, g_inplace, j_inplace, cost=4)


def g_bad(g):
    """Code that cannot run: all of it is rejected, what came before stays."""
    t = gen.mutate(g.r, code_of(g))
    for _ in range(g.pick([0, 1, 2])):
        t = gen.mutate(g.r, t)
    if len(t) > 400 or "\0" in t:
        t = "("
    h = g.pick(["P 1;x:5;V\1;P 2", "p:{P a;b:V\1;P b};(p 3);P 4",
                "P 1;\1V[7];P 2", "{P a;V\1}M[5;6]", "x:\1;P#x;V x;P 9",
                "P 1;I V\1{P 3};P 4", "O 1;O 2;P V\1;P 3"])
    return {"code": h.replace("\1", lit(t)) + ";()", "args": args(g, 2),
            "w": g.chance(.1)}


kind("C33", "code that cannot run", 2, g_bad, diff)


def g_replcode(g):
    """Evaluated code in a session: errors leave the session usable."""
    lines = []
    for _ in range(g.pick([2, 4, 6])):
        s = code_of(g).replace("\n", ";")
        if len(s) > 200:
            s = "a"
        lines.append(g.pick(["V" + lit(s), "x:V" + lit(s), "x", "({V a;b}" +
                             lit(s) + " 3)", "[a b c x y z i]", "$_", "$__",
                             lit(s) + "V[1;2]", "{V a}M[" + lit(s) + ";\"1\"]",
                             "p:" + lit(s), "V p", "pV[4]"]))
    return {"lines": lines, "fmt": None, "w": g.chance(.2)}


kind("C33", "in a session", 1, g_replcode, j_repl, cost=4)


# ------------------------------------------------ sizes past the model's reach

SIZES = [255, 500, 511, 999, 1000, 1023, 2000, 2047, 4095, 5000, 8191, 9999,
         10000, 16383, 20000]


def size(g, big=True):
    if big and g.chance(.02):
        return g.pick([32768, 65536, 100003]) + g.r.randrange(0, 3)
    return g.pick(SIZES) + g.r.randrange(0, 3)


def tri(n):
    return n * (n - 1) // 2


def g_turns(g):
    n = size(g)
    k = g.r.randrange(2, 9)
    code, out = g.pick([
        (f"L{n}{{U x}};P x", n),
        (f"L{n}Ux;P x", n),
        (f"L,{n}{{U x}};P x", n),
        (f"x:[2]RL{n};L x{{U i}};P i", n),
        (f"F c,{n}{{x+:1}};P x;P c", f"{n}\n{n - 1}"),
        (f"F c RV,{n}{{U x}};P x;P c", f"{n}\n0"),
        (f"F c(\"a\"X{n}){{U x}};P x", n),
        (f"F[c d]EN,{n}{{x+:d-c;U i}};P x;P i", f"0\n{n}"),
        (f"x:0;W x<{n}{{U x;U y}};P x-y", 0),
        (f"x:0;W x<{n}{{U x;U y}};P y", n),
        (f"x:0;T x>={n}{{U x}};P x", n),
        (f"x:{n};W D x{{U y}};P y", n - 1),
        (f"LR`.`(\"ab\"X{n}){{U x}};P x;P$0", f"{2 * n}\nb"),
        (f"F c,{n}{{I c%{k}{{U x}}EL{{U y}}}};P x+y;P y",
         f"{n}\n{(n + k - 1) // k}"),
        (f"F c,{n}{{F d,{k}{{U x}}}};P x" if n < 3000 else
         f"F c,{n}{{U x}};P x", n * k if n < 3000 else n),
        (f"f:{{U x;a}};F c,{n}{{(f c)}};P x", n),
        (f"F c,{n}{{l PU c}};P#l", n) if n < 3000 else (f"L{n}Ux;P x", n),
    ])
    return {"code": code.replace(";P", ";P ", 0) + ";()", "want": f"{out}\n",
            "law": 1}


def g_long(g):
    n = size(g, False)
    k = g.r.randrange(1, 40)
    code, out = g.pick([
        (f"P#RV,{n}", n), (f"P(RV,{n})@0", n - 1), (f"P#UQ RV,{n}", n),
        (f"P#([1]RL{n})", n), (f"P#(\"ab\"X{n})", 2 * n),
        (f"P(SN RV,{n})@{k}", k), (f"P(DN,{n})@0", n - 1),
        (f"P#((,{n})<>{k})", -(-n // k)), (f"P#((RV,{n})<>{k})", -(-n // k)),
        (f"P#(CH(,{n}){k})" if False else f"P#((,{n})CH{k})", k),
        (f"P#FL[,{n};,{n}]", 2 * n), (f"P#FA[[,{n}];,{n}]", 2 * n),
        (f"P#PZ,{n}", 2 * n - 1), (f"P#RF,{n}", 2 * n),
        (f"P#((\"a,\"X{n})^\",\")", n + 1), (f"P#(J,{n})", len("".join(
            map(str, range(n))))), (f"P#((,{n})J\" \")", len(" ".join(
                map(str, range(n))))),
        (f"P({n - 1}N,{n})", 1), (f"P((,{n})@?{n - 1})", n - 1),
        (f"P((RV,{n})@?0)", n - 1), (f"P#((0X{n})@*0)", n),
        (f"P(,{n})@(-1)", n - 1), (f"P(RV,{n})@({n + k})", n - 1 - k),
        (f"P(MX,{n})", n - 1), (f"P(MN RV,{n})", 0),
        (f"P#Z[,{n};,{n}]", n), (f"P#((,{n})WV(,{n}))", 2 * n),
        (f"P#@((,{n})UW 2)", (n + 1) // 2), (f"P#EN,{n}", n),
        (f"P#((,{n})AL(,{k}))", n + k), (f"P#((,{n})AE{k})", n + 1),
        (f"P#((,{n})H{n - k})", n - k), (f"P#((,{n})S{n - k})", n - k),
        (f"P#SS,{n}", n), (f"P#UC(\"ab\"X{n})", 2 * n),
        (f"P#((\"ab\"X{n})R\"a\"\"\")", n), (f"P#((\"ab\"X{n})R`b`\"cd\")", 3 * n),
        (f"P#((\"ab\"X{n})TR\"a\"\"c\")", 2 * n),
        (f"P#((\"ab\"X{n})RM\"a\")", n), (f"P({n}CG 1)@{n - 1}@0", f"{n - 1}0")
        if False else (f"P#({n}CG 1)", n), (f"P#({n}ZG 2)", n),
        (f"P#(2OG{n})@1", n), (f"P#((,{n})RM{k})" if False else
                               f"P#((,{n})^@{k})", 2),
        (f"P#((\"ab\"X{n})@`b`)", n), (f"P#((\"ab\"X{n})@<{n})", n),
        (f"x:(\"ab\"X{n});x@{n}:\"zz\";P#x", 2 * n + 1),
        (f"l:RV,{n};l@{k}:\"q\";P#l;P(l@?\"q\")", f"{n}\n{k}"),
        (f"l:,{n};l PU 5;P#l;P(PO l)", f"{n + 1}\n5"),
        (f"l:,{n};l PB 5;P#l;P(DQ l)", f"{n + 1}\n5"),
    ])
    return {"code": code + ";()", "want": f"{out}\n", "law": 1}


def g_meta_long(g):
    n = size(g, False)
    k = g.r.randrange(1, 9)
    code, out = g.pick([
        (f"P$+,{n}", tri(n)), (f"P#\\$+,{n}", n), (f"P(\\$+,{n})@(-1)", tri(n)),
        (f"P$-,{n}", -tri(n)), (f"P$+RV,{n}", tri(n)),
        (f"P#$.,{n}", len("".join(map(str, range(n))))),
        (f"P#-*,{n}", n), (f"P(-*,{n})@(-1)", 1 - n), (f"P#UC*(\"ab\"X{n})",
                                                      2 * n),
        (f"P$+-*,{n}", -tri(n)), (f"P#SQ*RV,{n}", n), (f"P$#>[,{n};,2]", 1),
        (f"P$+({k}*,{n})", k * tri(n)), (f"P$|(0X{n})", 0),
        (f"P$&(1X{n})", 1), (f"l:RV,{n};l+:{k};P$+l", tri(n) + n * k),
        (f"P$AE,{n}|0", None), (f"P$<,{n}", 1), (f"P$=(2X{n})", 1),
        (f"x:RV,{n};$+:x;P x", tri(n)), (f"P#(R(,{n})+R,{n})|0", None),
        (f"P$+((RV,{n})+(RV,{n}))", 2 * tri(n)), (f"P#((RV,{n})+(RV,{k}))", n)])
    if out is None:
        code, out = f"P$+,{n}", tri(n)
    return {"code": code + ";()", "want": f"{out}\n", "law": 1}


def g_high_long(g):
    n = size(g, False)
    k = g.r.randrange(1, 9)
    odd = n // 2
    code, out = g.pick([
        (f"P#({{a}}M,{n})", n), (f"P$+({{a*{k}}}M,{n})", k * tri(n)),
        (f"P({{a}}MS,{n})", tri(n)), (f"P#({{a%2}}FI,{n})", odd),
        (f"P#(_%2 FI,{n})", odd), (f"P#({{a}}MJ,{n})", len("".join(map(
            str, range(n))))), (f"P#({{[a b]}}MZ(,{n})(,{n}))", n),
        (f"P#({{a+b}}ME,{n})", n), (f"P$+({{a+b}}ME,{n})", 2 * tri(n)),
        (f"P#({{a-b}}MP,{n})", n - 1), (f"P({{-a}}SK,{n})@0", n - 1),
        (f"P({{-a}}DK,{n})@0", 0), (f"P#({{a}}MM[,{n};,{n}])", 2),
        (f"P#({{[a;a]}}MF,{n})", 2 * n), (f"P#({{a+b}}MU EN,{n})", n),
        (f"P#({{b}}FE,{n})", n - 1), (f"P#({{a<b}}FU EN(1,{n}))", n - 1),
        (f"P#((\"ab\"X{n})R`a`{{U i;i}});P i", None),
        (f"P#({{a}}MC{min(n, 99)})", min(n, 99)),
        (f"P#(`a`MR(\"ab\"X{n}){{a}})", n)])
    if out is None:
        code = f"P#((\"ab\"X{n})R`a`{{U i;1}});P i"
        out = f"{2 * n}\n{n}"
    return {"code": code + ";()", "want": f"{out}\n", "law": 1}


def j_long(case, rec):
    o = real.run_prog(case["code"], cpu=60)
    if o.end == "timeout":
        raise Slow(case["code"])
    rec.seen("size", case["code"].split("{")[0][:12])
    rec.ev("runs ending " + o.end)
    if o.end != "ok" or o.out.rstrip("\n") != case["want"].rstrip("\n"):
        return (f"{show(case)}: expected {case['want'][:200]!r}, observed "
                f"{o.out[:200]!r} ending {o.end} {o.exc!r}")
    return None


kind("C10", "many turns", .8, g_turns, j_long, cost=400)
kind("C14", "long sequences", .5, g_long, j_long, cost=60)
kind("C16", "folds of many", .6, g_meta_long, j_long, cost=90)
kind("C17", "functions over many", .6, g_high_long, j_long, cost=150)
