"""C11 arithmetic, C12 comparisons and truth, C13 strings and regexes, C14 restructuring,
C15 itemwise application, C16 meta-operators, C17 higher-order operators,
C24 warnings, C25 error containment, C26 Ranges, C27 random operators."""
from pm import real, lex, syn, gen, model
from pm.syn import OPS
from pm.val import Sc, Li, Ra, Pa, NIL, rep, sc, Unsure

from .core import kind, Skip, Slow
from .common import (diff, expect, observe, compare, agree, note, show,
                     stderr_rest, each_true, FMT)

EXTRA = [("SE", 1, "nn"), ("CS", 1, "nn"), ("CT", 1, "nn"), ("ST", 1, "as"),
         ("RP", 1, "as"), ("\\!", 1, "an")]
SIGS = gen.SIGS + [x for x in EXTRA if x not in gen.SIGS]
CMP = ["<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE", "NE",
       "#=", "#<", "#>", "~="]
SIGS += [(o, 2, "ccn") for o in CMP[:12]] + [(o, 2, "qqn") for o in
                                             CMP[12:15]] + [("~=", 2, "sxn")]


def table(text):
    """'+2 -2 #1' -> signatures"""
    want = set()
    for t in text.split():
        want.add((t[:-1], int(t[-1])))
    out = [x for x in SIGS if (x[0], x[1]) in want]
    missing = want - {(x[0], x[1]) for x in out}
    assert not missing, missing
    return out


NUMERIC = table("+2 -2 *2 /2 %2 //2 AD2 BA2 BO2 BX2 AT2 |<2 >|2 RZ2 RN2 **2 "
                "E2 EE2 RT2 FB2 TB2 TD2 FD2 +1 -1 /1 %1 HV1 HU1 DB1 SQ1 **1 "
                "E1 EE1 RT1 EX1 LN1 LB1 LD1 SI1 CO1 TA1 AT1 RD1 DG1 BN1 BL1 "
                "|<1 >|1 RZ1 RN1 AB1 SG1 FB1 TB1 TD1 FD1 SE1 CS1 CT1 CM2 "
                "A1 C1 MX1 MN1")
EXACT = table("+2 -2 *2 /2 %2 //2 AD2 BA2 BO2 BX2 |<2 >|2 RZ2 RN2 **2 FB2 "
              "TB2 TD2 FD2 HV1 HU1 DB1 SQ1 BN1 BL1 |<1 >|1 RZ1 RN1 AB1 SG1 "
              "TD1 FD1 %1 -1 EE1 E2")
STRING = table(".2 .1 K1 X1 X2 RM2 DC2 ||2 |>2 <|2 TM2 ||1 |>1 <|1 TM1 LC1 "
               "UC1 SC1 TC1 IC1 WR2 ~2 R3 TR3 MR3 ^2 ^1 J1 J2 JW2 A1 C1 N2 "
               "@?2 @*2 ~=2 ZJ1 RF1 PZ1 R1 CH2 <>2 ^@2 AE2")
SEQ = table("RV1 R1 RF1 PZ1 QR1 QP1 Z1 ZD1 ZJ1 Z2 ZD2 ZJ2 H1 S1 H2 S2 WV1 WV2 "
            "UW1 UW2 CP1 CP2 CG1 CG2 ZG1 ZG2 OG1 OG2 EY1 ^1 ^2 ^@2 <>1 <>2 "
            "CH1 CH2 RL2 AE2 AL2 PE2 CB2 SN1 SS1 DN1 DS1 UQ1 EN1 PM1 FL1 FA1 "
            "#1 J1 J2 RA3 @?2 @*2 N2 NI2 MX1 MN1 @<2 @>2 @2 RM2 TR3")
PLACE = table("PU2 PB2 PK2 PO1 DQ1 U1 D1 ++1 --1")
HIGH = table("M2 MC2 ME2 MJ2 MM2 MP2 MS2 MU2 MF2 FI2 FN2 FE2 FU2 FX2 FJ2 SK2 "
             "DK2 MR3 MZ3 R3 FI1 FN1 FU1 FX1 FJ1 RA3")
BINARY = [x for x in SIGS if x[1] == 2]
UNARY = [x for x in SIGS if x[1] == 1]


def args_src(g, tys, nested=0):
    out = []
    for y in tys:
        v = g.of(y) if y not in "bfv" else None
        if v is None:
            out.append("x" if y == "v" else g.block(2 if y == "f" else 1, []))
            continue
        for _ in range(nested):
            if g.chance(.35):
                v = Li([v] + [g.of(y) for _ in range(g.r.randrange(0, 3))])
        out.append(g.wrap(g.src(v)))
    return out


def app(t, subs):
    if len(subs) == 1:
        return f"{t} {subs[0]}"
    if len(subs) == 2:
        return f"{subs[0]} {t} {subs[1]}"
    return f"{subs[0]} {t} {subs[1]} {subs[2]}"


def op_gen(tab, wild=.15, deep=.25, post=""):
    def go(g):
        t, a, s = g.pick(tab)
        tys = s[:-1]
        if g.chance(wild):
            tys = "".join(g.pick("aasnlqrxif") for _ in range(a))
        elif a > 1 and "v" not in tys and g.chance(.1):
            tys = list(tys)
            g.r.shuffle(tys)
        if g.chance(deep):
            subs = []
            for y in tys:
                if y in "bfv":
                    subs += args_src(g, y)
                else:
                    subs.append(g.wrap(g.expr(1, y, [])))
        else:
            subs = args_src(g, tys, 1 if g.chance(.2) else 0)
        e = app(t, subs)
        return {"code": "x:[3;[4;5];\"xyz\"];P RP(" + e + ")" + post + ";()",
                "w": g.chance(.2),
                "fmt": g.pick(FMT) if g.chance(.05) else None}
    return go


# ---------------------------------------------------------------- C11

kind("C11", "numeric operators", 4, op_gen(NUMERIC), diff)

EDGE = ["0", "1", "-1", "2", "-2", "0.0", "-0.0", "0.5", "-0.5", "1.5", "-1.5",
        "2.5", "-2.5", "3", "-3", "7", "-7", "10", "9007199254740993",
        "-9007199254740993", "1000000000000000000000", "0.1", "0.3", "1.0",
        "100.0", "1e5", "\"\"", "\"abc\"", "\"12ab\"", "\"-3x\"", "\"1.2.3\"",
        "\".5\"", "\"-.5\"", "\"5.\"", "\"+5\"", "\" 7\"", "\"00012\"", "\"--4\"",
        "()", "[]", "[1;2]", "123456789.123456789", "3.999999999999",
        "36", "37", "16", "255", "256", "-255", "\"zz\"", "\"FF\"", "\"-ff\"",
        "4", "5", "6", "8", "9", "99999999999999999999.5", "(2,5)", "(3,())",
        "\"1e3\"", "\"0x10\"", "\"1_000\"", "\"٣\"", "\"-\"", "\"12\n\"",
        "1/3", "2/4", "10/5", "1E20", "2E-3", "2E100"]


def g_edge(g):
    t, a, s = g.pick(NUMERIC)
    subs = []
    for _ in range(a):
        v = g.pick(EDGE)
        subs.append(v if v[0] in "\"[(" else "(" + v + ")")
    return {"code": f"P RP({app(t, subs)});()", "w": g.chance(.3)}


kind("C11", "edge values", 4, g_edge, diff)


def struct_num(g):
    """A number with a structure that random ones seldom have."""
    r, k = g.r, g.r.random()
    if k < .05:
        # next to nothing
        return float(f"{r.randrange(1, 99)}e-{r.randrange(4, 40)}") \
            * g.pick([1, -1])
    if k < .3:
        n = r.randrange(2, g.pick([10, 100, 2000, 10 ** 9, 10 ** 20])) \
            ** r.randrange(2, 9)
        if g.chance(.4):
            n += g.pick([-1, 1, -2, 2])
    elif k < .4:
        n = r.randrange(1, 100) * 10 ** r.randrange(0, 40)
    elif k < .55:
        n = r.randrange(2 ** r.randrange(1, 160))
    elif k < .65:
        n = int(g.pick("123456789") * r.randrange(1, 30))
    elif k < .75:
        n = r.randrange(0, 200)
    elif k < .87:
        n = r.randrange(0, 4000) / 2 ** r.randrange(1, 9)
    else:
        n = float(f"{r.randrange(0, 100)}.{r.randrange(0, 1000)}")
    return -n if g.chance(.3) else n


def struct_src(n):
    s = repr(n) if isinstance(n, float) else str(n)
    if "e" in s:
        s = f'"{s}"'
    return f"({s})"


def g_struct(g):
    """Numbers with a structure, the second made from the first."""
    t, a, s = g.pick(NUMERIC)
    n = struct_num(g)
    subs = [struct_src(n)]
    for _ in range(a - 1):
        m = struct_num(g)
        k = g.r.random()
        if isinstance(n, int) and k < .5 and n:
            d = g.r.randrange(1, 60)
            m = g.pick([d, -d, 2 * d, n, -n, n * d, n // d or 1, n * d // 2,
                        n + d, n - d])
            if g.chance(.3):
                subs[0] = struct_src(n * d)
            elif g.chance(.3):
                # Halfway between two multiples of m
                m = 2 * d
                subs[0] = struct_src(g.pick([-1, 1]) * d * (2 * n + 1))
        elif isinstance(n, float) and k < .5:
            d = g.r.randrange(1, 60)
            m = g.pick([d, -d, d / 4, d / 8, n, -n, 2 * n, n / 2, n + d, .1])
        subs.append(struct_src(m))
    if a > 1 and g.chance(.3):
        subs.reverse()
    return {"code": f"P RP({app(t, subs)});()", "w": g.chance(.1)}


kind("C11", "numbers with a structure", 4, g_struct, diff)


def g_numlaw(g):
    def n(k=0):
        v = g.int_() if k == 0 else g.r.randrange(1, k)
        return f"({v})" if v < 0 else str(v)
    a, b, c = n(), n(), n()
    d = n(40) if g.chance(.7) else f"({-g.r.randrange(1, 40)})"
    base = str(g.r.randrange(2, 37))
    x = g.pick([a, f"({g.num().s})"])
    code = g.pick([
        f"P({a}//{d})*{d}+({a}%{d})=={a}",
        f"P({a}+{b})==({b}+{a})", f"P({a}*{b})==({b}*{a})",
        f"P({a}+{b})+{c}==({a}+({b}+{c}))",
        f"P({a}*{b})*{c}==({a}*({b}*{c}))",
        f"P({a}*({b}+{c}))==({a}*{b}+{a}*{c})",
        f"P({a}-{b})=={a}+(-{b})", f"P(-(-{a}))=={a}",
        f"P({a}BX{b}BX{b})=={a}", f"P({a}BA{b})+({a}BO{b})=={a}+{b}",
        f"P(BN BN{a})=={a}", f"P(AB{a})*(SG{a})=={a}",
        f"P({a}AD{b})==(AB({a}-{b}))", f"P({a}CM{b})==(SG({a}-{b}))",
        f"P({a}TB{base})FB{base}=={a}",
        f"P(TD AB{a})==({{a}}M AB{a})",
        f"P(FD TD AB{a})==(AB{a})",
        f"P(HV(DB{a}))=={a}&(HU(DB{a}))=={a}",
        f"P(HV{a})+(HU{a})=={a}", f"P(SQ{a})==({a}*{a})",
        f"P(DB{a})==({a}+{a})", f"P(|<{x})<={x}", f"P(>|{x})>={x}",
        f"P(AB(RZ{x}))<=(AB{x})", f"P(AB((RN{x})-{x}))<=0.5",
        f"P({x}|<{d})%{d}=0", f"P({x}>|{d})%{d}=0",
        f"P({a}|<{d})==({a}-({a}%{d}))" if not d.startswith("(") else
        f"P({a}RN 1)=={a}",
        f"P(2**{n(60)})*1>=2", f"P({n(9)}**3)==($*{n(9)}RL 3)*0|1",
        f"P(+{x})={x}", f"P({a}={b})+({a}<{b})+({a}>{b})=1",
        f"P(BL AB{a})=#((AB{a})TB2)*(0!={a})",
        f"P(U x)==1" if False else f"x:{a};U x;D x;P x=={a}",
        f"x:{a};x+:{b};P x==({a}+{b});x-:{b};P x=={a}",
        f"P$+[{a};{b};{c}]=({a}+{b}+{c})",
        f"P(MX[{a};{b};{c}])>=(MN[{a};{b};{c}])",
        f"P(A(C{n(1000)}))>0"])
    return {"code": code + ";()", "law": 1}


def j_nlaw(case, rec):
    x = expect(case)
    if x.end != "ok" or any(t != "1" for t in x.out.split("\n")[:-1]):
        return diff(case, rec)
    return each_true(case, rec, "law of arithmetic")


kind("C11", "laws of arithmetic", 2, g_numlaw, j_nlaw, cost=2)


# ---------------------------------------------------------------- C12

TRUTH = ["0", "1", "\"\"", "\"0\"", "\"0.0\"", "\".0\"", "\"00\"", "\"-0\"",
         "\"a\"", "\" \"", "[]", "[0]", "[[]]", "()", "0,0", "1,1", "0,1",
         "2,()", "`0`", "`a`", "``", "{0}", "{}", "_", "0.0", "-0.0", "0.5",
         "-1", "\"0 \"", "\"0a\"", "\"0.\"", "\".\"", "\"-\"", "\"0.00\"",
         "\"000\"", "\"0.01\"", "\"٠\"", "[()]", "[\"\"]", "5-5", "\"\n\"",
         "(5,3)", "\"0x0\"", "\"0e5\"", "0b", "\"..\"", "\"-0.0\""]


def cmp_value(g):
    return g.pick([g.src(g.num()), g.src(g.word()), g.pick(EDGE),
                   g.pick(TRUTH), g.src(g.value(2)), g.src(g.nums()),
                   g.src(g.range_()), g.src(g.pattern()),
                   g.src(Li(g.scalar() for _ in range(2)))])


def g_compare(g):
    k = g.r.random()
    v = [g.wrap(cmp_value(g)) for _ in range(5)]
    if g.chance(.3):
        v[1] = v[0]
    if g.chance(.3):
        xs = [g.value(1) for _ in range(g.r.randrange(0, 3))]
        v[0] = g.src(Li(xs))
        v[1] = g.src(Li(xs + [g.value(1)] * g.chance(.5)))
    elif g.chance(.3):
        v[:2] = map(g.src, g.twins())
    ops = CMP + ["==", "CM", "N", "NI"]
    if k < .45:
        o = g.pick(ops)
        e = f"{v[0]} {o} {v[1]}"
    elif k < .65:
        o = [g.pick(CMP) for _ in range(4)]
        e = f"{v[0]} {o[0]} {v[1]} {o[1]} {v[2]}"
        if g.chance(.4):
            e += f" {o[2]} {v[3]}"
        if g.chance(.2):
            e += f" {o[3]} {v[4]}"
    elif k < .75:
        xs = ";".join(v[:g.r.randrange(0, 5)])
        e = f"{g.pick(['$', chr(92) + '$'])}{g.pick(CMP)}[{xs}]"
    elif k < .80:
        e = g.pick(["M", "N", "MX", "MN", "SN", "SS", "DN", "DS", "UQ"]) + \
            " [" + ";".join(v[:g.r.randrange(0, 5)]) + "]"
    elif k < .9:
        t = g.pick(TRUTH)
        t = g.wrap(t)
        e = g.pick([f"!{t}", f"{t}?1 2", f"{t}|3", f"{t}&3", f"({t}\\|3)",
                    f"({t}\\&3)", f"(\\!{t})", f"({t}\\?1 2)", f"!!{t}",
                    f"{t}&{v[0]}|{v[1]}", f"{{a}}FI[{t}]", f"{{a}}FN[{t}]",
                    f"({t}={t})", f"{t}=0", f"({t}N[{t}])"])
    else:
        o = g.pick(["<", ">", "=", "LT", "Q", "#<", "<="])
        e = f"({v[0]} {o} {{a}}) " if False else \
            f"(({{a}}{o}{v[0]}){v[1]})"
    return {"code": "P RP(" + e + ");()", "w": g.chance(.2),
            "args": ["5", "abc"]}


kind("C12", "comparisons, chains and truth", 6, g_compare, diff)


def g_longchain(g):
    """Chains of up to ten links that hold, or fail at one link."""
    m = g.pick([2, 3, 4, 5, 6, 7, 8, 10])
    k = g.pick(["num", "num", "str", "list", "range"])
    i, up = 0, g.chance(.5)
    parts, ops = [], []
    bad = g.r.randrange(1, m * 2)
    for j in range(m + 1):
        if j:
            c = g.pick(["<", "=", "<", "="])
            if c == "<":
                i += 1
            if not up and c == "<":
                c = ">"
            o = {"<": ["<", "<=", "!="], ">": [">", ">=", "!="],
                 "=": ["=", "<=", ">="]}[c]
            if j == bad:
                o = {"<": [">", "=", ">="], ">": ["<", "=", "<="],
                     "=": ["<", ">", "!="]}[c]
            o = g.pick(o)
            if k == "str" or g.chance(.1):
                o = {"<": "LT", ">": "GT", "=": "Q", "<=": "LE", ">=": "GE",
                     "!=": "NE"}[o]
            ops.append(o)
        v = i if up else 10 - i
        t = {"num": str(v), "str": '"' + "abcdefghijklm"[v] * 2 + '"',
             "list": f"[1;{v}]", "range": f"({v},{v + 3})"}[k]
        parts.append(g.pick([t, t, t, f"(f {t})"]) if k != "range" else t)
    e = parts[0] + "".join(f" {o} {p}" for o, p in zip(ops, parts[1:]))
    return {"code": "f:{O\".\"O a a};P RP(" + e + ");()"}


kind("C12", "long chains", 1, g_longchain, diff)
kind("C09", "long chains", 1, g_longchain, diff)


def g_truthctl(g):
    t = g.wrap(g.pick(TRUTH) if g.chance(.6) else cmp_value(g))
    if t[0] in "_{":
        t = "[" + t + "]"        # operators on a function build functions
    return {"code": f"x:{t};I x{{P 1}}EL{{P 0}};P!!x;P(x?1 0);P(x&1)|0;i:0;"
                    f"W x&i<1{{U i}};P i;i:0;T x|i>0{{U i}};P 1-i;"
                    f"P#({{x}}FI[9]);P 1-#({{x}}FN[9]);P!(\\!x);P(x\\?1 0);()",
            "law": 1}


def j_truth(case, rec):
    x = expect(case)
    o = observe(case)
    bad = compare(case, x, o)
    if bad:
        return bad
    lines = set(o.out.split()) if x.end == "ok" else {"-"}
    note(x.m, rec, x.end)
    if x.end == "ok" and len(lines) != 1:
        return (f"{show(case)}: the constructs that test a value disagree "
                f"about whether it is true: {o.out.split()}")
    return None


kind("C12", "truth is the same everywhere", 1, g_truthctl, j_truth, cost=2)


def g_cmplaw(g):
    v = [g.wrap(cmp_value(g)) for _ in range(2)]
    if g.chance(.4):
        v[1] = v[0]
    elif g.chance(.4):
        v = [g.src(x) for x in g.twins()]
    a, b = v
    code = g.pick([
        "P(({a}={b})+({a}!={b}))=1", "P(({a} Q {b})+({a} NE {b}))=1",
        "P(({a}<{b})=({b}>{a}))", "P(({a}<={b})=({b}>={a}))",
        "P(({a} LT {b})=({b} GT {a}))", "P(({a} LE {b})=({b} GE {a}))",
        "P(({a}={b})=({b}={a}))", "P(({a} Q {b})=({b} Q {a}))",
        "P(({a}=={b})=({b}=={a}))", "P(({a} CM {b})+({b} CM {a}))=0|1",
        "P(!({a}<{b})|!({b}<{a}))", "P(!({a} LT {b})|!({b} LT {a}))",
        "P(!({a}=={b})|(({a} Q {b})|1))", "P({a}==({a}))|1",
        "P(({a}<{b}<{a})=0)", "P(({a} #< {b})=({b} #> {a}))",
        "P(({a}N{b})>0)+(({a}NI{b})>0)=1",
        "P(({a}<={b})=(({a}<{b})|({a}={b})))|1",
        "P(({a}<{b}={b})=(({a}<{b})&({b}={b})))"])
    return {"code": "P 1;" + code.replace("{a}", a).replace("{b}", b) + ";()",
            "law": 1}


kind("C12", "laws of comparison", 2, g_cmplaw, j_nlaw, cost=2)


# ---------------------------------------------------------------- C13

kind("C13", "string operators", 4, op_gen(STRING, post=";P RP[$0 $1 $2 $$ $` "
                                          "$' $( $) $[ $]]"), diff)

TXT = ["", "a", "abc", "banana", "Hello World", "aAbB", "x1y22z333", "a.b.c",
       "aaa", "  sp  ", "éÉß", "line1\nline2\n", "tEsT", "[a]", "\\d",
       "don't o'neil", "a-b_c", "abcabc", "ab ab ab", "123", "-12.50", "日本語",
       "\t x\t", "ǅ", "ﬁ", "İi", "aXbXc", "((", "*+?", "mississippi"]
RX = gen.PATS + [("(a)(b)?", 0), ("(?=a)", 0), ("(x)|(a)", 0), ("[^a]", 0),
                 ("(.)(?=\\1)", 0), ("a{2}", 0), ("^", 8), ("$", 8), ("$", 0),
                 ("\\W+", 0), ("(?i)A", 0), ("b|an|a", 0), ("(\\d)(\\d)?", 0),
                 ("A", 2), (".", 16), ("(?P<n>a)", 0), ("[.]", 0), ("aX?", 2),
                 ("(?:a|b)c?", 0), ("\\s", 0), ("an", 0), ("(an)+", 0),
                 ("(.)?" * 7, 0), ("(.)?" * 8, 0), ("(.)" * 9 + "?", 0),
                 ("(.)?" * 9, 0), ("(.)?" * 10, 0), ("(.)?" * 12, 0),
                 ("((((((((((((a)|b)))))))))))?.", 0)]


def g_regex(g):
    s = g.src(Sc(g.pick(TXT))) if g.chance(.75) else g.src(g.word())
    if g.chance(.08):
        s = "[" + s + ";" + g.src(Sc(g.pick(TXT))) + "]"
    p = g.src(Pa(*g.pick(RX))) if g.chance(.8) else g.src(
        Sc(g.pick(["a", "", "an", ".", "b", "(", "\\", "X", " ", "aa", "[a]"])))
    if g.chance(.07):
        p = "[" + p + ";" + g.src(Pa(*g.pick(RX))) + "]"
    r = g.pick(["\"Z\"", "\"\"", "\"\\1\"", "\"$0\"", "\"&\"", "\"\\\\\"", "5",
                "{a}", "{b}", "_.\"-\"", "{a.b.c}", "{UC a}", "{#g}", "()",
                "[1;2]", "{P $0;$1}", "{$`.$'}", "{[a b]}", "{$(.$)}",
                "\"\\g<0>\"", "`q`", "UC_", "{()}", "(1,3)", "{a RL 2}",
                "{\"a\"~`a`;$0}", "[\"x\";\"y\"]", "\"&&\"", "{$$}", "#_"])
    e = g.pick([f"{s} R {p} {r}", f"{s} R {p} {r}", f"{p} ~ {s}", f"{s} ~ {p}",
                f"{s} ~= {p}", f"{p} ~= {s}", f"{s} RM {p}", f"{s} ^ {p}",
                f"{s} @? {p}", f"{s} @* {p}", f"{p} N {s}", f"{p} NI {s}",
                f"{s} || {p}", f"{s} |> {p}", f"{s} <| {p}", f"{p} MR {s} {r}",
                f"{r} MR {s} {p}", f"{s} MR {r} {p}", f"{s} MR {p} {r}",
                f"{s} MR {s} {r}",
                f"{p} . {p}", f"{p} X 3", f"K {p}", f". {p}", f"{p}.{s}",
                f"{s}.{p}", f"X {s}", f"(X {s}) ~ {s}", f"K {s}", f"+ {p}",
                f"# {p}", f"({p}).\"x?\"", f"{p} = {p}", f"{s} TR {s} {s}",
                f"[{s};{p}]", f"{p} J {s}", f"{s} <> {p}", f"{p}|{s}",
                f"{p} RL 2", f"{s} N {p}", f"$.[{p};{s};{p}]",
                f"{s} @ ({s} @? {p})", f"{s} X {p}", f"- {p}", f"AB {p}"])
    loop = ""
    if g.chance(.15):
        loop = f"LR{p} {s}{{P RP[$0 $1 $( $) $` $']}};"
    more = " $3 $4 $5 $6 $7 $8 $9" if g.chance(.3) else ""
    return {"code": f"P RP({e});{loop}P RP[$0 $1 $2 $$ $` $' $( $) $[ $]"
                    f"{more}];()",
            "w": g.chance(.15)}


kind("C13", "regular expressions", 5, g_regex, diff)


FALSY = ['""', "0", "()", "[]", "0,0", "{}", "``", '"a"', '"b1"', "[0]",
         '["";"a"]', "12", "[()]", ",3", "`a`", '"0"', "[[]]", '"aXb"', "{a}",
         "1,()"]


def g_rxlist(g):
    """A pattern applied to lists that hold all kinds of items."""
    l = "[" + ";".join(g.pick(FALSY) for _ in range(g.r.randrange(0, 5))) + "]"
    p = g.src(Pa(*g.pick(RX)))
    e = g.pick([f"{l}@{p}", f"{p}@{l}", f"{l} R{p}\"-\"", f"{l} RM{p}",
                f"{l} ^{p}", f"{l}@?{p}", f"{l}@*{p}", f"{p}N{l}", f"{l}N{p}",
                f"{l}~{p}", f"{p}~{l}", f"{l}~={p}", f"{l}||{p}",
                f"{l}|>{p}", f"{l}<|{p}", f"{l}.{p}", f"{p}MR{l}{{#a}}",
                f"{l}MR{p}{{#a}}", f"{l}R{p}{{#a}}", f"{l}@{l}", f"{p}J{l}",
                f"{l}J{p}", f"{l}R{l}\"-\"", f"{l}R{p}{l}", f"{l}RM{l}",
                f"{l}TR{l}\"-\"", f"{l}@[{p};{p}]", f"{l}UW{p}",
                f"{l}^@{p}", f"{l}={p}", f"{p} NI{l}", f"{l} NI{p}"])
    return {"code": f"P RP({e});P RP[$0 $1 $2 $$ $` $']", "w": g.chance(.2)}


kind("C13", "a pattern and lists of all kinds of items", 2, g_rxlist, diff)


def composed(g):
    """A regular expression with groups and back-references, some flags, and
    a text near to what it matches."""
    groups, txt, done = [0], [], []

    def atom(d):
        k = g.r.random()
        if d and k < .35:
            groups[0] += 1
            i = "(" + alt(d - 1) + ")"
            done.append(groups[0] if i.count("(") == 1 else 0)
            return i
        if k < .5 and done and (done[-1] or g.chance(.1)):
            txt.append(txt[0] if txt else "a")
            return "\\" + str(done[-1] or g.r.randrange(1, 3)) + \
                g.pick(["", "", "(?:)"])
        if k < .6:
            c = g.pick(["[ab]", ".", "\\w", "\\s", "[^a]", "\\d", "(?:ab)",
                        "\\b", "^", "$", "(?=b)", "\\.", "\\`", "[\\]a]"])
            txt.append(g.pick(["a", "b", "1", " ", "\n", "A", ".", "`", "]"]))
            return c
        if k < .66:
            txt.append("\\")
            return "\\\\"
        c = g.pick("aaabbcA1")
        txt.append(c if g.chance(.8) else c.swapcase())
        return c

    def alt(d):
        return "|".join("".join(
            atom(d) + (g.pick(["?", "*", "+", "{2}", "*?", "?"])
                       if g.chance(.15) else "")
            for _ in range(g.pick([1, 1, 2, 2, 3])))
            for _ in range(g.pick([1, 1, 1, 1, 2])))
    if g.chance(.12):
        n = g.pick([9, 10, 11, 12, 13])
        p = "".join("(" + g.pick(["a", "b", "c", ".", "[a-c]", "b?"]) + ")"
                    for _ in range(n)) + "\\" + str(
            g.pick([n, n, 10, 1, 9]) if n >= 10 else g.pick([9, 1, n]))
        t = "".join(g.pick("abc") for _ in range(n))
        t += g.pick([t[-1], t[0], t[min(9, n - 1)], t[0] + "0"])
    else:
        p = alt(2)
        t = "".join(txt)[:14]
    if g.chance(.3):
        t = g.pick(["x", "\n", "", t]) + t + g.pick(["", "\n", t, "y"])
    fl = 0
    for f in (2, 8, 16, 256):
        if g.chance(.22):
            fl |= f
    return Pa(p, fl), Sc(t[:30])


def g_composed(g):
    p, s = composed(g)
    q, t = composed(g)
    r = "".join(g.pick(["&", "\\&", "\\\\&", "\\\\\\&", "\\1", "\\2",
                        "\\\\", "[", "]", "x", "\\\\1", "\\g<all>", "&&",
                        "\\10", "\\12", "\\n", "$1", "0", "\\`"])
                for _ in range(g.pick([1, 2, 3, 4])))
    if r.endswith("\\") and not r.endswith("\\\\"):
        r += "\\"
    rr = g.pick([g.src(Pa(r)), g.src(Pa(r)), g.src(Sc(r)), "{a.b}", "{[g]}"])
    e = g.pick([f"s R p {rr}", f"s R p {rr}", "s ~ p", "p ~ s", "s ~= p",
                "s ^ p", "s @? p", "s @* p", "p N s", "s RM p", "s || p",
                "s |> p", "s <| p", f"p MR s {{[a b]}}", "(p . y) ~ s",
                "p . y", "y . p", "p , y", "p + y", "y + p", "(p , y) ~ s",
                "(p + y) ~ s", "(y , p) ~ t", "(A p) , (- y)", "p , y , p",
                "y * 2", "p * 3", "(p * 2) ~ s", "C y", "(C p) + y", "+ p", "K p", "K y",
                "p X 2", "- p", ". p", ", p", "A p", "- - p", ". , p", "p RL 2",
                "X[p;y]", "[p;y]", f"s R [p;y] {rr}", "s ^ [p;y]", "s RM [p;y]",
                "[s;t] R p \"z\"", "p = y", "(, . p) ~ s", "(. p) ~ t",
                f"t R p {rr}", "s ~ y", "(p|y)", "X p", "p.t", "t.p"])
    again = g.pick(["", "", ";x:p;P RP x;P RP(x~s)", ";P RP(p~s)",
                    f";LRp s{{P RP[$0 $$ $[ $]]}}", ";l:[p;y];P RP(l@0~s)",
                    ";V RP p;P RP((V RP p)~s)"])
    return {"code": f"p:{g.src(p)};y:{g.src(q)};s:{g.src(s)};t:{g.src(t)};"
                    f"P RP({e}){again};P RP[$0 $1 $2 $$ $( $) $[ $] $9];()",
            "w": g.chance(.1)}


kind("C13", "composed patterns", 4, g_composed, diff)


def g_text(g):
    s = g.src(Sc(g.pick(TXT))) if g.chance(.6) else g.src(g.word())
    t = g.src(Sc(g.pick(["", "a", "ab", "abc", "an", " ", "X", "xyz", "AEIOU",
                         "aa", "-", "é"])))
    n = g.pick(["0", "1", "2", "3", "-1", "-2", "1.5", "\"2\"", "\"x\"", "()",
                "[1;2]", "100"])
    e = g.pick([f"{s} TM {n}", f"{s} X {n}", f"{n} X {s}", f"{s}.{t}",
                f"{s} WR {t}", f"{s} DC {t}", f"{s} RM {t}", f"{s} || {t}",
                f"{s} |> {t}", f"{s} <| {t}", f"{s} TR {t} {s}",
                f"{s} TR {t} {t}", f"{s} R {t} {n}", f"{s} ^ {t}", f"^ {s}",
                f"{s} J {t}", f"{t} J {s}", f"[{s};{t};{n}] J {t}",
                f"[{s};{t}] JW {t}", f"{s} JW {t}", f"A {s}", f"C {n}",
                f"A* {s}", f"C* ,{n}", f"{s} N {t}", f"{t} N {s}",
                f"{s} @? {t}", f"{t} @? {s}", f"{s} @* {t}", f"{s} #= {t}",
                f"{s} LT {t}", f"UC {s}", f"LC {s}", f"SC {s}", f"TC {s}",
                f"IC {s}", f"|| {s}", f"|> {s}", f"<| {s}", f"TM {s}",
                f"RV {s}", f"{s} RL {n}", f"{s} CH {n}", f"{s} <> {n}",
                f"# {s}", f"{s}+{t}", f"{s}*{n}", f"{s} UW {n}",
                f"{s} WV {t}", f"{s} Z {t}", f"{s} ZJ {t}", f"ZJ {s}",
                f"UC [{s};[{t}]]", f"{s}.[{t};[{n}]]", f"[{s};{t}] X {n}",
                f"[{s};{t}].[{t};{n};{s}]", f"({s} R {t} {{UC a}})",
                f"{s} FB 16", f"{s} SK {{a}}" if False else f"SS [{s};{t};{n}]",
                f"\\\"<\\x>\\\"", f"ST {s}", f"RP {s}", f"{s} N [{t};{s}]",
                f"{t} PE {s}", f"{s} AE {t}", f"RF {s}", f"PZ {s}",
                f"{s} ^@ {n}", f"{s} ^@ [1;2]", f"{s} @ {n}", f"QR {s}"])
    return {"code": f"x:{s};P RP({e});()", "w": g.chance(.2)}


kind("C13", "text", 4, g_text, diff)

ALPHABETS = ["ab", "a", "aA", "\u00e9\u00c9e", "\u00dfsS\u1e9e", "\u01c6\u01c5\u01c4",
             "\u0131i\u0130I", "\u03c3\u03c2\u03a3", "0\u06631", "\n\r\t ", "\u65e5\u672c",
             ".^$|?*+(", "()[]{}", "\\\\&1", "e\u0301E", "\u00a0 \u2003", "120", "_0a",
             "-1.5", "\U0001f600x", "\x1c \x0b", "aAbB"]
SHAPE = table(".2 X2 RM2 DC2 ||2 |>2 <|2 TM2 ||1 |>1 <|1 TM1 LC1 UC1 SC1 TC1 "
              "IC1 WR2 R3 TR3 ^2 ^1 J2 JW2 A1 N2 @?2 @*2 ZJ1 RF1 PZ1 R1 CH2 "
              "<>2 UQ1 SS1 RV1 NI2 RP1 ST1 LT2 GT2 Q2 #=2 Z2 WV2 FB2 H2 "
              "S2 #1 X1 K1 +2 *2 -1 @2 AE2 FB1 +1 //2")


def g_alphabet(g):
    """Operands that share a small alphabet: cases, overlaps, specials."""
    al = g.pick(ALPHABETS)

    def text(hi):
        n = g.r.randrange(0, hi)
        if g.chance(.3):        # periodic, for overlaps
            u = "".join(g.pick(al) for _ in range(g.r.randrange(1, 4)))
            return (u * 9)[:n]
        return "".join(g.pick(al) for _ in range(n))

    def part(d, hi):
        k = g.r.random()
        if d and k < .2:
            return "[" + ";".join(part(d - 1, hi) for _ in range(
                g.r.randrange(0, 4))) + "]"
        if k < .26:
            return g.pick(["()", "0", "1", "2", "(-1)", ",3", "X" + g.src(
                Sc(text(3)))])
        return g.src(Sc(text(hi)))
    t, a, s = g.pick(SHAPE)
    if t in ("N", "NI", "@?", "@*") and g.chance(.5):
        # a nested List of things to look for
        subs = ["[" + ";".join(part(g.pick([0, 1, 2]), 3) for _ in range(
            g.r.randrange(0, 4))) + "]", g.src(Sc(text(12)))]
        subs = subs if t in ("N", "NI") else subs[::-1]
    elif a == 1:
        subs = [part(2, 12)]
    else:
        subs = [part(2 if g.chance(.3) else 1, g.pick([12, 12, 5]))] + [
            part(1 if g.chance(.6) else 2, 4) for _ in range(a - 1)]
        if s[1] in "ni" and g.chance(.8):
            subs[1] = dense_num(g)
    if g.chance(.06):
        g.r.shuffle(subs)
    return {"code": f"P RP({app(t, [g.wrap(x) for x in subs])});()",
            "w": g.chance(.2)}


kind("C13", "operands of one alphabet", 5, g_alphabet, diff)


def g_repl3(g):
    """R and TR with every shape of what to replace and what with."""
    al = g.pick(["ab", "abc", "aA", "a.", "abcde", "01", "\n a"])
    s = "".join(g.pick(al) for _ in range(g.r.randrange(0, 9)))
    q = lambda t: g.src(Sc(t))
    ch = lambda: g.pick(al)

    def item(d):
        return g.pick([
            q(ch()), q(ch()), q(ch() + ch()), "\"\"", "()", q("xy"), q("\\1"),
            str(ord(ch())), "97", "8364", "65.5", "0", "-1", q("&"), q("\\"),
            "`" + g.pick(["a", "b", ".", "(a)", "[ab]", "(.)(.)", "x*"]) + "`",
            "(97,99)", "[]", "{UC a}" if d else "()", "[" + q(ch()) + "]"])

    def many(d):
        k = g.r.random()
        if k < .5:
            return "[" + ";".join(item(d) for _ in range(
                g.pick([0, 1, 2, 2, 3, 3, 4]))) + "]"
        if k < .75:
            return q("".join(g.pick(al + "xyz") for _ in range(
                g.pick([0, 1, 2, 2, 3, 4]))))
        if k < .85:
            return g.pick(["(97,100)", "(48,)", "(120,)", "(),5", "(98,97)",
                           "R(97,100)"])
        return item(d)
    subj = g.pick([q(s)] * 4 + ["[" + q(s) + ";" + q(ch()) + "]", "97,99",
                                "`" + "ab" + "`", "()", "120120"])
    if g.chance(.5):
        old = many(0) if g.chance(.3) else g.pick([
            q("".join(g.r.sample(al, g.r.randrange(1, len(al) + 1)))),
            "[" + ";".join(str(ord(c)) for c in al) + "]",
            "[" + ";".join(q(c) for c in al) + "]"])
        e = f"({subj} TR {old} {many(0)})"
    else:
        e = f"({subj} R {many(0)} {many(1)})"
    return {"code": f"P RP {e};()", "w": g.chance(.2)}


kind("C13", "replacement and transliteration", 3, g_repl3, diff)


def g_textlaw(g):
    s = g.src(Sc(g.pick(TXT))) if g.chance(.6) else g.src(g.word())
    t = g.src(Sc(g.pick(["a", "b", "an", " ", "X", "ab", ".", "é"])))
    n = g.r.randrange(0, 5)
    code = g.pick([
        "P({s}^{t})J{t} Q{s}", "P(J(^{s}))Q{s}", "P(RV RV{s})Q{s}",
        "P(#({s}.{t}))=(#{s})+#{t}", "P(#({s} X {n}))={n}*#{s}",
        "P(SC SC UC{s})Q UC{s}|1", "P(C*(A*{s}))Q(^{s})|({s} Q\"\")",
        "P(J(C*(A*{s})))Q{s}", "P({s} RM{t})Q({s} R{t}\"\")",
        "P({s} R X{t}\"q\")Q({s} R{t}\"q\")", "P#({s}@*{t})=#({s}^{t})-1",
        "P(({t}N{s})>0)=(({s}@?{t})!=())|({s}Q\"\")",
        "P({s} TM 0)Q{s}", "P({s} TR{t}{t})Q{s}",
        "P((LC LC{s})Q LC{s})&((UC UC{s})Q UC{s})",
        "P(|>(<|{s}))Q(||{s})", "P({t}WR{s})Q({s}.{t}.{s})",
        "P(#RF{s})=2*#{s}-(#{s}>0)|1", "P({s} R`.`_)Q{s}|1",
        "P$.(^{s})Q{s}|({s}Q\"\")", "P(({s}.{t})@?{t})<=#{s}"])
    return {"code": "P 1;" + code.replace("{s}", s).replace("{t}", t).replace(
        "{n}", str(n)) + ";()", "law": 1}


kind("C13", "laws of text", 2, g_textlaw, j_nlaw, cost=2)


# ---------------------------------------------------------------- C14

kind("C14", "sequence operators", 5, op_gen(SEQ, wild=.12), diff)


def seq(g):
    k = g.r.random()
    if k < .3:
        return Li(sc(g.r.randrange(0, 9)) for _ in range(g.r.randrange(0, 8)))
    if k < .45:
        return Sc("".join(g.pick("abcABC12 ") for _ in range(
            g.r.randrange(0, 8))))
    if k < .6:
        lo = g.r.randrange(-3, 4)
        return Ra(g.pick([None, lo]) if lo == 0 else lo,
                  lo + g.r.randrange(-1, 8))
    if k < .75:
        n = g.r.randrange(0, 4)
        return Li(Li(sc(g.r.randrange(0, 9)) for _ in range(
            n if g.chance(.7) else g.r.randrange(0, 4)))
            for _ in range(g.r.randrange(0, 4)))
    if k < .85:
        return Li(Sc("".join(g.pick("abc") for _ in range(
            g.r.randrange(0, 4)))) for _ in range(g.r.randrange(0, 4)))
    return g.iterable()


def g_seq(g):
    s, t = g.src(seq(g)), g.src(seq(g))
    n = g.pick(["0", "1", "2", "3", "4", "-1", "-2", "-5", "7", "1.5", "()",
                "[1;2]", "[]", "(1,3)", "\"2\"", "2.9", "[0;1]", "[2;-1]"])
    v = g.src(g.value(1))
    ops1 = [x[0] for x in SEQ if x[1] == 1]
    o = g.pick(ops1)
    e = g.pick([f"{o} {s}", f"{o} {s}", f"{o} {s}", f"{s} Z {t}",
                f"{s} ZD {t}", f"{s} ZD {v}", f"{s} ZJ {t}", f"{s} WV {t}",
                f"WV[{s};{t}]", f"Z[{s};{t}]", f"{s} UW {n}", f"{s} CH {n}",
                f"{s} <> {n}", f"{s} CP {t}", f"{s} CP {n}", f"{s} CB {n}",
                f"{s} RL {n}", f"{s} ^@ {n}", f"{s} H {n}", f"{s} S {n}",
                f"{s} @< {n}", f"{s} @> {n}", f"{s} @ {n}", f"{s} AE {t}",
                f"{s} AL {t}", f"{s} PE {t}", f"{v} PE {s}", f"{s} RM {t}",
                f"{s} RM {v}", f"{v} N {s}", f"{v} NI {s}", f"{s} @? {v}",
                f"{s} @* {v}", f"{s} J {t}", f"{s} J {v}", f"{s} JW {v}",
                f"{n} CG {n}", f"{n} ZG {n}", f"{n} OG {n}", f"EY {n}",
                f"CG {n}", f"ZG {n}", f"OG {n}", f"{s} RA {n} {v}",
                f"{s} TR {t} {t}", f"{s} ^ {v}", f"{s} # {t}" if False else
                f"#{s}", f"$AL[{s};{t}]", f"$Z[{s};{t}]", f"{o}{o} {s}",
                f"{o}[{s};{t};{v}]", f"{s} CH [{n};{n}]", f"{s} == {t}",
                f"{s} #< {t}", f"{t} N {s}", f"[{s};{t};{s}] RM {s}",
                f"{s} @* {t}", f"[{s};{t}] @? {t}", f"UQ[{s};{t};{s}]",
                f"SN[{t};{s}]", f"M[{s};{t}]"])
    return {"code": f"P RP({e});()", "w": g.chance(.2)}


kind("C14", "shapes and boundaries", 5, g_seq, diff)


LINEOPS = table("ZJ1 ZJ1 ZJ1 ZJ2 Z1 R1 RV1 QR1 QP1 RF1 PZ1 ^1 ^2 H1 S1 CH2 <>2 "
                "UW2 WV2 UQ1 SS1 DS1 EN1 J2 ^@2 FL1 FA1 ZD1 ZD2 RM2 @2 @?2")


def g_lines(g):
    """Blocks of text: empty and uneven lines, every kind of line end."""
    ends = g.pick(["\n"] * 6 + ["\n\r", "\r", "\f\n", "\x0b\n", "\x85\n",
                                "\u2028\n", "\x1c\n", "\n\n\n\t"])

    def text():
        out = ""
        for _ in range(g.r.randrange(0, 6)):
            out += "".join(
                g.pick("abc 12") for _ in range(g.pick([0, 0, 1, 2, 3, 5])))
            out += g.pick(ends)
        return out[:-1] if g.chance(.5) else out

    def arg():
        k = g.r.random()
        if k < .6:
            return g.src(Sc(text()))
        if k < .8:
            return "[" + ";".join(g.src(Sc(text())) for _ in range(
                g.r.randrange(0, 4))) + "]"
        return "(" + g.src(Sc(text())) + "^n)"
    t, a, s = g.pick(LINEOPS)
    subs = [arg()]
    if a > 1:
        subs.append(g.pick(["n", dense_num(g), arg(), '"\n"', "s"]))
    return {"code": f"P RP({app(t, subs)});()", "w": g.chance(.1)}


kind("C14", "texts of lines", 2, g_lines, diff)


def dense_seq(g, kinds="slrm"):
    """A sequence of 0 to 14 distinct items."""
    n = g.r.randrange(0, 15)
    k = g.pick(kinds)
    if k == "s":
        s = g.pick(["abcdefghijklmn", "0123456789ABCD", "nml kji hgfed",
                    "aabbccddeeffgg", "12345678901234"])
        return Sc(s[:n])
    if k == "r":
        lo = g.r.randrange(-5, 6)
        return Ra(lo, lo + n)
    if k == "m":
        return Li(g.pick([Sc("xyzuvw"[:i % 7]), sc(i), Li([sc(i)]), Ra(i, 9),
                          NIL]) for i in range(n % 9))
    return Li(sc(i * g.pick([1, 1, 10])) for i in range(n))


def dense_num(g, deep=1):
    """A parameter from a small dense set, of any type that can serve."""
    k = g.r.random()
    i, j = g.r.randrange(-9, 16), g.r.randrange(-9, 16)
    if k < .02:
        return g.pick(["31", "32", "33", "63", "64", "65", "99", "100", "101",
                       "127", "128", "129", "200", "255", "256", "257",
                       "(-100)", "(-64)", "(-257)", "(90,110)", "(-3,100)"])
    if k < .5:
        return str(i) if i >= 0 else f"({i})"
    if k < .6:
        return g.pick([f"{abs(i)}.{g.pick([25, 5, 75, 9, 1])}",
                       f"(-{abs(i)}.{g.pick([25, 5, 75, 9, 1])})",
                       f"\"{i}\"", f"\"{i}x\"", f"({i}/{abs(j) + 1})"])
    if k < .88:
        return g.pick([f"({i},{j})", f"({abs(i)},{abs(j)})", f"({i},())",
                       f"(,{j})", f"({abs(i % 4)},{i % 4 + abs(j)})"])
    if deep:
        return "[" + ";".join(dense_num(g, 0)
                              for _ in range(g.r.randrange(0, 4))) + "]"
    return "()"



def g_dense(kinds, ops):
    def go(g):
        s = g.src(dense_seq(g, kinds))
        n = dense_num(g)
        o = g.pick(ops)
        if o in ("CB", "PM"):
            s = g.src(dense_seq(g, kinds)) + "@<5"
            e = f"({s}) CB {n}" if o == "CB" else f"PM({s})"
        elif o == "RA":
            v = g.pick([g.src(g.value(1)), g.src(dense_seq(g, kinds)), "()"])
            e = f"{s} RA {n} {v}"
        elif o == "TR":
            u = g.src(dense_seq(g, "s"))
            e = g.pick([f"{s} TR {u} {n}", f"{s} TR {n} {u}",
                        f"{s} TR {u} {s}", f"{s} TR {n} {n}"])
        elif o == "#":
            e = f"#({s}{g.pick(ops[:5])}{n})"
        elif o == "CG":
            e = f"{n} {g.pick(['CG', 'ZG', 'OG'])} {g.pick(["2", n])}"
        elif o == "TM" and g.chance(.5):
            a, b = g.r.randrange(-2, 7), g.r.randrange(-2, 7)
            e = f"{s} TM {g.pick([f'({a},{b})', f'({a},())', f'((),{b})', f'[{a};{b}]', f'(,{a})', f'({a},0)', f'(0,{a})'])}"
        elif o in ("PK", "PU"):
            e = f"(l:{s};P RP(l {o} {n});P RP l;l)"
            return {"code": e[1:-1] + ";()", "w": g.chance(.1)}
        else:
            p = g.pick(["", "", "", "", "*", ":"])
            e = f"{s} {o}{p} {n}" if p != ":" else f"{n} {o} {s}"
        return {"code": f"P RP({e});()", "w": g.chance(.15)}
    return go


kind("C13", "parameters from a dense set", 3,
     g_dense("s", ["CH", "<>", "^@", "TM", "X", "TM", "RL", "@<", "@>", "TR",
                   "FB", "^", "RM", "N"]), diff)
kind("C14", "parameters from a dense set", 3,
     g_dense("slrm", ["CH", "<>", "^@", "UW", "H", "S", "@<", "@>", "@", "RL",
                      "RA", "#", "CB", "PM", "CG", "PK", "PU", "EY", "CP",
                      "RM", "N", "@?", "@*"]), diff)


def g_twins(g):
    """Searching, removing and deduplicating among items of equal content."""
    v, w = map(g.src, g.twins())
    u = g.src(g.value(1))
    xs = [v, w, u, g.pick([v, w, u])]
    g.r.shuffle(xs)
    xs = "[" + ";".join(xs[:g.r.randrange(0, 5)]) + "]"
    e = g.pick([f"UQ{xs}", f"{xs} RM {v}", f"{v} N {xs}", f"{v} NI {xs}",
                f"{xs} @? {w}", f"{xs} @* {w}", f"{xs} @* [{v};{w}]",
                f"{xs} @? [{v};{w}]", f"{xs} ^ {v}", f"{xs} J {v}",
                f"{xs} RM {w}", f"SN{xs}", f"SS{xs}", f"DN{xs}", f"DS{xs}",
                f"MX{xs}", f"MN{xs}", f"{v} RM {w}", f"{v} N {w}",
                f"{v} @? {w}", f"{v} @* {w}", f"{xs} @< {v}", f"{xs} @> {v}",
                f"({{a}} SK {xs})", f"({{a}} DK {xs})", f"{v} CM {w}",
                f"{xs} == {xs}", f"$={xs}", f"$=={xs}", f"$Q{xs}",
                f"{v} #= {w}", f"{v} #< {w}", f"#UQ{xs}", f"{xs} R {v} {w}",
                f"FL{xs}", f"FA{xs}", f"{xs} S {v}", f"{xs} TM {v}"])
    return {"code": f"P RP({e});()", "w": g.chance(.2)}


kind("C14", "items of equal content", 2, g_twins, diff)


def g_inplace(g):
    s, v = g.src(seq(g)), g.src(g.value(1))
    out = [f"l:{s}"]
    n = g.pick(["0", "1", "-1", "2", "9", "()", "[0;1]", "(0,2)"])
    for _ in range(g.r.randrange(1, 6)):
        out.append(g.pick([f"l PU {v}", f"l PB {v}", "P RP PO l", "P RP DQ l",
                           f"P RP(l PK {n})", "PO l", "DQ l", "l PU l",
                           f"P RP(l PU {v})", f"P RP(l PB {v})", "P RP l",
                           f"l AE:{v}", f"l@0 PU {v}", "P RP(PO l@0)",
                           f"[l;l]PU {v}", f"P RP({s} PU {v})",
                           f"P RP PO {s}", f"P RP DQ {s}", f"R:l", f"l RM:{v}",
                           f"l AL:{s}", f"P RP({s} PK {n})", "P#l"]))
    return {"code": ";".join(out) + ";P RP l;()", "w": g.chance(.2)}


kind("C14", "push, pop and pick", 2, g_inplace, diff)


def g_seqlaw(g):
    v = seq(g)
    if type(v) is Ra and not v.finite:
        v = Ra(v.lo, (v.lo or 0) + 4)
    s = g.src(v)
    n = g.r.randrange(1, 5)
    k = g.r.randrange(0, 6)
    code = g.pick([
        "P(RV RV{s})==({s}AL[])|(RV RV{s})=={s}", "P(#RV{s})=#{s}",
        "P(SN(RV{s}))=={b}" .replace("{b}", "(SN{s})") + "|1",
        "P#({s}AE 5)=#{s}+1", "P#({s}PE 5)=#{s}+1",
        "P#({s}AL[8;9])=#{s}+2", "P#({s}RL{n})={n}*#{s}",
        "P#(PM{s}@<4)=($*(1,1+#({s}@<4)))|({s}Q\"\")",
        "P#EN{s}=#{s}", "P($AL({s}CH{n}))==({s}AL[])|1",
        "P(#$AL({s}<>{n}))=#{s}|(#{s}=0)",
        "P$+(#*({s}<>{n}))=#{s}|(#{s}=0)", "P$+(#*({s}CH{n}))=#{s}|(#{s}=0)",
        "P$+(#*({s}UW{n}))=#{s}", "P(#({s}CH{n}))={n}|(#{s}=0)",
        "P(#({s}CH-{n}))={n}|(#{s}=0)", "P(#({s}CH({n}+{k})))=({n}+{k})|(#{s}=0)",
        "P$+(#*({s}^@{k}))=#{s}",
        "P#UQ{s}<=#{s}", "P(UQ UQ{s})==(UQ{s})",
        "P(#({s}@<{k}))+(#({s}@>{k}))=#{s}|({k}>#{s})",
        "P#({s}CP{s})=(#{s})*#{s}", "P(#SN{s})=#{s}&(#DS{s})=#{s}",
        "P(WV({s}UW{n}))==({s}AL[])|1", "P#(WV[{s};{s}])=2*#{s}|({s}Q\"\")",
        "P#({s}Z{s})=#{s}", "P#(RF{s})<=2*#{s}",
        "P#(PZ{s})=(2*#{s})-(#{s}>0)",
        "l:{s}AL[];l PU 7;P(PO l)=7;P#l=#{s};l PB 6;P(DQ l)=6;P#l=#{s}",
        "P({s}^@{k}|1)|1", "P#({s}CB 2)=#{s}*(#{s}-1)/2",
        "P(Z Z({s}CP[1;2]))==({s}CP[1;2])|(#{s}=0)",
        "P(#FL[{s};[1;[2]]])=#({s}.\"\")+2|1",
        "P(SN SN{s})==(SN{s})", "P(RV SN{s})==(DN{s})|1",
        "P(EY{n})==(Z EY{n})", "P#({n}CG{k})={n}&#({n}ZG{k})={n}",
        "F c,#{s}{P(RV{s}@c)==({s}@(-1-c))}",
        "F c,#{s}{P((EN{s})@c)==[{s}@c;c]|((EN{s})@c)==[c;{s}@c]}",
        "F c{s}{P({s}@?c)<#{s}}"])
    return {"code": "P 1;" + code.replace("{s}", g.wrap(s)).replace(
        "{n}", str(n)).replace("{k}", str(k)) + ";()", "law": 1}


kind("C14", "conservation laws", 3, g_seqlaw, j_nlaw, cost=2)


# ---------------------------------------------------------------- C15

ITEMWISE = [x for x in SIGS if "L" in OPS[x[1]][x[0]].flags]


def deep_arg(g, y, d):
    if d and g.chance(.5):
        return Li(deep_arg(g, y, d - 1) for _ in range(g.r.randrange(0, 4)))
    if g.chance(.12):
        a = g.r.randrange(-2, 5)
        return Ra(a, a + g.r.randrange(0, 4))
    return g.of(y)


def g_item(g):
    t, a, s = g.pick(ITEMWISE)
    subs = [g.wrap(g.src(deep_arg(g, y, g.pick([0, 1, 1, 2, 3]))))
            for y in s[:-1]]
    return {"code": f"P RP({app(t, subs)});()", "w": g.chance(.25)}


kind("C15", "nested operands", 5, g_item, diff)


def g_itemlaw(g):
    t, a, s = g.pick(ITEMWISE)
    fl = OPS[a][t].flags
    n = g.r.randrange(0, 4)
    m = g.pick([n, n, g.r.randrange(0, 4)])
    ty = s[:-1]

    def el(y):
        return g.of(y) if g.chance(.8) else Li(
            g.of(y) for _ in range(g.r.randrange(0, 3)))
    xs = [g.wrap(g.src(el(ty[0]))) for _ in range(n)]
    if a == 1:
        whole = f"{t} [{';'.join(xs)}]"
        parts = [f"({t} {x})" for x in xs]
    else:
        how = g.pick("lrb")
        if how == "b":
            ys = [g.wrap(g.src(el(ty[1]))) for _ in range(m)]
            k = min(n, m)
            whole = f"[{';'.join(xs)}] {t} [{';'.join(ys)}]"
            parts = [f"({x} {t} {y})" for x, y in zip(xs, ys)] + xs[k:] + \
                ys[k:]
        else:
            xs = [g.wrap(g.src(el(ty[0 if how == "l" else 1])))
                  for _ in range(n)]
            o = g.of(ty[1 if how == "l" else 0])
            if type(o) in (Li, Ra):
                o = g.scalar()
            o = g.wrap(g.src(o))
            if how == "l":
                whole = f"[{';'.join(xs)}] {t} {o}"
                parts = [f"({x} {t} {o})" for x in xs]
            else:
                whole = f"{o} {t} [{';'.join(xs)}]"
                parts = [f"({o} {t} {x})" for x in xs]
    return {"code": f"P RP({whole});()",
            "direct": f"P RP[{';'.join(parts)}];()", "law": 1}


def j_itemlaw(case, rec):
    c2 = dict(case, code=case["direct"])
    x1, x2 = expect(case), expect(c2)
    if x1.out != x2.out or x1.end != x2.end:
        assert "LV" in "LV", ""
        return compare(case, x1, observe(case)) or \
            compare(c2, x2, observe(c2))
    return agree([case, c2], rec, "operator on a list against operator on "
                 "each item")


kind("C15", "list against each item", 4, g_itemlaw, j_itemlaw, cost=2)


def g_rangeitem(g):
    t, a, s = g.pick([x for x in ITEMWISE if "G" in OPS[x[1]][x[0]].flags
                      or x[0] in ("+", "-")])
    lo = g.r.randrange(-3, 5)
    hi = lo + g.r.randrange(0, 5)
    li = "[" + ";".join(str(k) for k in range(lo, hi)) + "]"
    other = g.wrap(g.src(deep_arg(g, s[0], 1)))
    if a == 1:
        f = lambda r: f"{t} {r}"
    elif g.chance(.5):
        f = lambda r: f"{r} {t} {other}"
    else:
        f = lambda r: f"{other} {t} {r}"
    if a == 3:
        raise Unsure("ternary")
    flat = g.pick(["{a}M", "{a}M", "RP"])
    ex = lambda r: f"z:({f(r)});P RP(#z);P RP({{RP a}}M z);()"
    return {"code": ex(f"({lo},{hi})"), "direct": ex(li), "law": 1}


kind("C15", "Range against List", 2, g_rangeitem, j_itemlaw, cost=2)


# ---------------------------------------------------------------- C16

def g_meta(g):
    k = g.r.random()
    if k < .6:
        t, a, s = g.pick(BINARY)
        if "v" in s or t == ":" or "b" in s or "f" in s or t == "PK":
            t, a, s = g.pick(NUMERIC[:20])
        if a != 2:
            t, s = "-", "nnn"
        y = s[0]
        m = g.pick(["$", "\\$"])
        n = g.pick([0, 1, 2, 3, 3, 4, 5])
        arg = g.pick(["[" + ";".join(g.wrap(g.src(g.of(
            y if i == 0 else s[1]))) for i in range(n)) + "]"] * 4 +
            [g.wrap(g.src(g.of(g.pick("Nqrsac")))), g.wrap(g.src(g.range_()))])
        e = f"{m}{t}{g.pick(['', '', '', '*', ':'])} {arg}"
        if ":" in e.split()[0][-1:]:
            e = f"{m}{t}: l"
    elif k < .85:
        t, a, s = g.pick([x for x in UNARY if x[0] not in ("*",)])
        y = s[0]
        n = g.pick([0, 1, 2, 3])
        arg = g.pick(["[" + ";".join(g.wrap(g.src(g.of(y if y not in "v"
                                                       else "n")))
                                     for _ in range(n)) + "]"] * 3 +
                     [g.wrap(g.src(g.of(g.pick("Nqrsac"))))])
        e = f"{t}* {arg}"
        if t + "*" in lex.OPS:
            e = f"{t} * {arg}"
    else:
        t, a, s = g.pick([x for x in BINARY if x[0] not in (":", "::")])
        r = g.wrap(g.src(g.of(s[1] if s[1] not in "bfv" else "n")))
        pl = g.pick(["x", "l", "l@0", "l@1", "x@0", "l@5", "[x y]", "5",
                     "l@(0,2)", "u"])
        e = g.pick([f"{pl}{t}:{r}", f"{t}:{pl}" if t in OPS[1] else
                    f"{pl}{t}:{r}", f"({pl}{t}:{r}).\"!\"",
                    f"{pl}{t}:{r}{g.pick(['+', '.', ','])}2",
                    f"${t}:l", f"-*:l", f"x:y{t}:{r}"])
        if g.chance(.45):
            # every modifier with an assignment, on every kind of place
            pl = g.pick(["x", "l", "l@0", "l@1", "l@-1", "l@0@1", "l@<2",
                         "l@(0,2)", "l@>1", "(l 0)", "[x y]", "(0?x l@0)",
                         "[x l@0]", "a", "u@0", "5", "[1;2]", "m", "m@0@0"])
            u = g.pick([x for x in UNARY if x[0] not in ("*",)])[0]
            b = g.pick(BINARY)[0]
            b = b if b not in (":", "::") else "+"
            e = g.pick([f"{u}*:{pl}", f"{u}*:{pl}", f"${b}:{pl}",
                        f"\\${b}:{pl}", f"${b}*:{pl}", f"\\${b}*:{pl}",
                        f"{u}:{pl}", f"({u}*:{pl}).1", f"y:{u}*:{pl}",
                        f"{pl}{b}:{pl}", f"{pl}{b}:y{b}:{r}"])
    lst = g.src(g.list_(1)) if g.chance(.4) else "[" + ";".join(
        g.src(g.list_(g.pick([1, 1, 2]))) for _ in range(
            g.pick([1, 2, 3]))) + "]"
    pre = f"x:{g.src(g.scalar())};y:4;l:{lst};m:[[[1;2];3]];"
    return {"code": pre + f"P RP({e});P RP[x y l m a];()", "w": g.chance(.2),
            "args": ["5", "abc"]}


kind("C16", "fold, scan, map and assign", 6, g_meta, diff)


def g_foldlaw(g):
    """A fold against the explicit nesting it stands for."""
    cand = [x for x in BINARY if x[0] not in (":", "::", "V", "PU", "PB", "PK",
                                              "E" * 3) and "v" not in x[2]
            and "b" not in x[2] and "f" not in x[2] and x[0] not in CMP]
    t, a, s = g.pick(cand)
    op = OPS[2][t]
    n = g.r.randrange(1, 5)
    y = s[0]
    xs = [g.wrap(g.src(g.of(y if i == 0 else s[1]))) for i in range(n)]
    lst = "[" + ";".join(xs) + "]"

    def nest(xs):
        if op.assoc == "R":
            e = xs[-1]
            for x in reversed(xs[:-1]):
                e = f"({x} {t} {e})"
        else:
            e = xs[0]
            for x in xs[1:]:
                e = f"({e} {t} {x})"
        return e
    if g.chance(.5):
        c, d = f"${t} {lst}", nest(xs)
    else:
        c = f"\\${t} {lst}"
        d = "[" + ";".join(nest(xs[i:] if op.assoc == "R" else xs[:i + 1])
                           for i in range(n)) + "]"
    return {"code": f"P RP({c});()", "direct": f"P RP({d});()", "law": 1}


kind("C16", "fold against nesting", 3, g_foldlaw, j_itemlaw, cost=2)


def g_maplaw(g):
    t, a, s = g.pick([x for x in UNARY if "v" not in x[2] and x[0] not in
                      ("Y", "P", "O")])
    xs = [g.wrap(g.src(g.of(s[0] if s[0] not in "bf" else "a")))
          for _ in range(g.r.randrange(0, 5))]
    m = t + " *" if t + "*" in lex.OPS else t + "*"
    return {"code": f"P RP({m} [{';'.join(xs)}]);()",
            "direct": f"P RP[{';'.join('(' + t + ' ' + x + ')' for x in xs)}];"
                      "()", "law": 1}


kind("C16", "map against each item", 1, g_maplaw, j_itemlaw, cost=2)


# ---------------------------------------------------------------- C17

def g_high(g):
    t, a, s = g.pick(HIGH)
    subs = []
    for y in s[:-1]:
        if y in "bf":
            subs.append(g.pick([g.block(2 if y == "f" else 1, []),
                                g.block(3, []), "{P a;b}", "{i+:1;i}", "_",
                                "(_+1)", "{a}", "{a.b}", "#_", "{a%2}",
                                "{a>1}", "{[a b]}", "{g}", "{}", "{l AE:a;0}",
                                "{#g}", "B", "{[a;a]}", "{()}", "5", "\"f\"",
                                "[_;#_]", "{a<b}"]))
        else:
            if g.chance(.12):
                subs.append("[" + ";".join(g.pick(FALSY) for _ in range(
                    g.r.randrange(0, 5))) + "]")
                continue
            v = g.pick([seq(g), seq(g), g.of(y if y != "v" else "q")])
            subs.append(g.wrap(g.src(v)))
    if len(subs) > 1 and g.chance(.25):
        if g.chance(.4):
            subs[0], subs[-1] = subs[-1], subs[0]
        else:
            g.r.shuffle(subs)
    e = app(t, subs)
    return {"code": f"x:0;i:0;l:[];P RP({e});P RP[x i l];()",
            "w": g.chance(.2)}


kind("C17", "operators that take functions", 6, g_high, diff)


def g_highlaw(g):
    v = seq(g)
    if type(v) is Ra and not v.finite:
        v = Ra(v.lo, (v.lo or 0) + 4)
    s = g.wrap(g.src(v))
    f = g.pick(["{a.1}", "{[a]}", "{a}", "{#a}", "{a+1}", "{a Q 1}"])
    p = g.pick(["{a%2}", "{a>2}", "{1}", "{0}", "{#a}", "{a Q\"a\"}", "{a}"])
    law = g.pick([
        "P#({f}M{s})=#{s}", "P(#({p}FI{s}))+(#({p}FN{s}))=#{s}",
        "F c,#{s}{P(({f}M{s})@c)==({f}({s}@c))}",
        "P({f}M{s})==({f}M({s}AL[]))|({s}Q\"\")",
        "P#({f}SK{s})=#{s}&#({f}DK{s})=#{s}",
        "P({f}MJ{s})Q J({f}M{s})", "P({p}FX{s})==({p}FI EN{s})|1",
        "F c({p}FI{s}){P!!({p}c)}", "F c({p}FN{s}){P!({p}c)}",
        "P#({p}FX{s})=#({p}FI{s})", "F c({p}FX{s}){P!!({p}({s}@c))}",
        "P({a}FI{s})==(FI{s})", "P(MS{s})|1" if False else
        "P#({[a b]}ME{s})=#{s}",
        "P({b.a}ME{s})|1", "P({a}SK{s})==(SN{s})",
        "P({a}DK{s})==(DN{s})|1", "l:[];{l AE:a}M{s};P#l=#{s}",
        "P({a.b}MZ{s}{s})==({a.a}M{s})|1", "P({f}MF{s})==(FL({f}M{s}))|1",
        "x:0;{x+:1;a}SK{s};P x=#{s}", "x:0;{x+:1;a}FI{s};P x=#{s}",
        "x:0;{x+:1;a}MU[{s}];P x=1", "x:0;{U x}MZ{s}{s};P x=#{s}",
        "x:0;{U x}MP{s};P x=(0|#{s}-1)*(#{s}>0)|1",
        "P(\"ab\"M\"x\")|1",
        "x:0;{U x}ME{s};P x=#{s}", "x:0;{U x}MJ{s};P x=#{s}",
        "x:0;{U x}MF{s};P x=#{s}", "x:0;{U x}FX{s};P x=#{s}",
        "x:0;{U x}FE{s};P x=#{s}", "x:0;{U x}FJ{s};P x=#{s}",
        "x:0;{U x}MC 3;P x=9", "x:0;{U x}MM[{s}];P x=#{s}",
        "x:0;{U x}MS{s};P x=#{s}"])
    code = law
    for k, w in (("{f}", f), ("{p}", p), ("{s}", s)):
        code = code.replace(k, w)
    return {"code": "P 1;" + code + ";()", "law": 1}


kind("C17", "laws", 2, g_highlaw, j_nlaw, cost=2)


# ---------------------------------------------------------------- C24

def g_any(g, soup=.2):
    k = g.r.random()
    if k < .45:
        code = g.program(g.pick([2, 4, 7]))
    elif k < 1 - soup:
        t, a, s = g.pick(SIGS)
        subs = [g.wrap(g.leaf(g.pick("aaanqslrbfxi"), ["x", "l"]))
                for _ in range(a)]
        if "v" in s:
            subs[0] = g.pick(["x", "l", "l@0", "l@9", "q", "5", "[x y]",
                              "u@1"])
        code = "x:5;l:[1;\"a\";[2]];z:(" + app(t, subs) + ");P RP[x l z]"
    else:
        code = g.program(g.pick([2, 4]))
        for _ in range(g.pick([1, 2])):
            code = gen.mutate(g.r, code)
    return {"code": code, "args": g.pick([[], ["5"], ["5", "abc"]]),
            "fmt": g.pick(FMT) if g.chance(.3) else None,
            "stdin": g.pick([[], ["in1", "2"]])}


def j_warn(case, rec):
    x = expect(case)
    a = observe(dict(case, w=False))
    b = observe(dict(case, w=True))
    if "timeout" in (a.end, b.end):
        raise Slow(case["code"])
    if "budget" in (a.end, b.end):
        raise Skip("flood")
    note(x.m, rec, x.end)
    rec.seen("warned" if x.warned else "silent", x.end)
    if (a.out, a.end, a.reads) != (b.out, b.end, b.reads):
        return (f"{show(case)}: -w changes the program: without it {a.end} "
                f"{a.out[:400]!r} ({a.reads} lines read), with it {b.end} "
                f"{b.out[:400]!r} ({b.reads} lines read)")
    ra, rb = stderr_rest(a.err), stderr_rest(b.err)
    if a.end == "ok" and ra:
        return f"{show(case)}: stderr although -w is off: {ra[:300]!r}"
    if x.end == a.end == "ok" and bool(rb) != bool(x.warned):
        return (f"{show(case)}: -w should report "
                f"{'a problem' if x.warned else 'nothing'}, stderr is "
                f"{rb[:300]!r}")
    if a.end == "fatal" and (not ra or ra not in rb):
        return (f"{show(case)}: the fatal error message {ra[:300]!r} differs "
                f"under -w: {rb[:300]!r}")
    return None


kind("C24", "with and without -w", 5, g_any, j_warn, cost=2)


def g_opts(g):
    c = g_any(g)
    c["flags"] = [f for f in ("-v", "-x", "-r") if g.chance(.5)]
    c["args"] = [g.pick(["5", "1/0", "abc", "[1;2]", "P 3", "LD0", "x@9", "q",
                         "()", "U 5", "x:7", "", "1+[]_"])
                 for _ in range(g.pick([0, 1, 2]))]
    c["stdin"] = g.pick([[], ["5", "1/0"], ["LN 0", "\"a\""], ["2"]])
    return c


def j_opts(case, rec):
    """-w next to the other options."""
    f = case["flags"]
    r = "-r" in f
    x = expect(dict(case, args=case["stdin"] if r else case["args"],
                    stdin=[] if r else case["stdin"], x="-x" in f))
    a = observe(dict(case, w=False, x=False), f)
    b = observe(dict(case, w=False, x=False), f[:1] + ["-w"] + f[1:])
    if "timeout" in (a.end, b.end):
        raise Slow(case["code"])
    if "budget" in (a.end, b.end):
        raise Skip("flood")
    ra, rb = stderr_rest(a.err), stderr_rest(b.err)
    rec.seen("options", *f, a.end, bool(rb))
    if (a.out, a.end, a.reads) != (b.out, b.end, b.reads):
        return (f"{show(case)}, options {f}: -w changes the program: without "
                f"it {a.end} {a.out[:400]!r}, with it {b.end} {b.out[:400]!r}")
    if a.end == "ok" and ra:
        return (f"{show(case)}, options {f}: stderr although -w is off: "
                f"{ra[:300]!r}")
    if x.end == a.end == "ok" and bool(rb) != bool(x.warned):
        return (f"{show(case)}, options {f}: -w should report "
                f"{'a problem' if x.warned else 'nothing'}, stderr is "
                f"{rb[:300]!r}")
    if a.end == "fatal" and (not ra or ra not in rb):
        return (f"{show(case)}, options {f}: the fatal error message "
                f"{ra[:300]!r} differs under -w: {rb[:300]!r}")
    return None


kind("C24", "with other options", 1.5, g_opts, j_opts, cost=2)


# ---------------------------------------------------------------- C25

def g_hostile(g):
    k = g.r.random()
    if k < .25:
        t = gen.soup(g.r, g.r.randrange(1, 16))
    elif k < .5:
        t = g.program(g.pick([2, 4, 7]))
        for _ in range(g.r.randrange(1, 5)):
            t = gen.mutate(g.r, t)
    elif k < .62:
        t = "".join(chr(g.r.randrange(32, 127))
                    for _ in range(g.r.randrange(1, 24)))
    else:
        return g_any(g, 0)
    return {"code": t, "args": g.pick([[], ["5"], ["5", "abc"]]),
            "fmt": g.pick(FMT) if g.chance(.3) else None,
            "stdin": g.pick([[], ["in1", "2"]])}


HUGE = ("infinite", "huge", "many", "long", "step", "work", "output", "deep",
        "recursion", "memory")


def j_contained(case, rec):
    """However it goes wrong: a fatal error with a message, or a warning."""
    predicted = None
    try:
        x = expect(case)
        predicted = x.end
        note(x.m, rec, x.end)
    except Unsure as e:
        if any(h in str(e) for h in HUGE):
            raise Skip(str(e))
    o = observe(case)
    if o.end == "timeout":
        if predicted:
            raise Slow(case["code"])
        raise Skip("time")
    if o.end == "budget":
        raise Skip("flood")
    rec.ev("observed " + o.end)
    rec.seen("observed", o.end, (o.exc or "").split(":")[0][:25]
             if o.end == "fatal" else "")
    if o.end not in ("ok", "fatal"):
        return (f"{show(case)}: the interpreter itself failed: {o.end} "
                f"{o.exc!r}")
    if o.end == "fatal":
        rest = stderr_rest(o.err)
        lines = rest.rstrip("\n").split("\n")
        if len(lines) < 2 or "atal error" not in rest or not (
                "terminated" in lines[-1] or "aborted" in lines[-1]):
            return (f"{show(case)}: fatal error without an explanation on "
                    f"stderr: {rest[-300:]!r}")
    if "Traceback" in o.err:
        return f"{show(case)}: Python traceback on stderr: {o.err[-300:]!r}"
    if predicted and o.end != predicted:
        return f"{show(case)}: expected to end {predicted}, observed {o.end}"
    return None


kind("C25", "hostile programs", 5, g_hostile, j_contained)


def g_fatal(g):
    """A fatal error after some output: what came before is kept."""
    err = g.pick(["V\")\"", "\"a\"~`(`", "V\"{\"", "(`*`~\"b\")",
                  "V\"\\\"", "x@0@0@0:()" if False else "V'["])
    n = g.r.randrange(0, 4)
    pre = ";".join(f"P {g.src(g.scalar())}" for _ in range(n))
    shape = g.pick(["{PRE};{E};P 9", "{{PRE};{E}}M,3;P 9", "F i,2{{PRE};{E}}",
                    "z:{{PRE};a?(f a-1){E}};(z 3)", "O 5;{PRE};P 7.{E}",
                    "I 1{{PRE};{E}}P 9", "W 1{{PRE};{E}}", "[P 3;{E};P 4]",
                    "\"ab\"R`.`{{PRE};{E}}", "L2{{PRE};x:{E}}",
                    "{a}SK[P 1;{E}]", "(P 1)+({E})", "l:[P 1;2];l@({E}):5",
                    "{PRE};{P a;{E}}MU[[1;2]];P 9"])
    return {"code": shape.replace("{PRE}", pre or "P 1").replace(
        "{E}", err).replace("{{", "{").replace("}}", "}"), "w": g.chance(.3)}


def j_fatal(case, rec):
    x = expect(case)
    o = observe(case)
    return compare(case, x, o) or j_contained(case, rec)


kind("C25", "fatal errors keep earlier output", 1, g_fatal, j_fatal, cost=2)


def g_descent(g):
    """Calls nested some dozens deep keep their output and their locals."""
    n = g.r.randrange(15, 110)
    p = g.pick(["{Pa;a<N?(f a+1)0}", "{Oa;b:a;a<N?RE(a+1).b 0}",
                "{a<N?1+(f a+1)0}", "{Ia<N{P a;(f a+1);O a}P b}",
                "{c:a*2;Ia<N{(p a+1)};O c.\" \"}", "{a<N?[a;(f a+1)]()}",
                "{Fc[a+1]{Ia<N{(f c)}};O a}", "{a<N?({Oa;(b a+1)}a f)E}",
                "{b:a;a<N?$+({f:p;(p a+1)}M[a])1}", "{a<N?V\"(f a+1).a\"\"\"}",
                "{O a;L 1{a<N?(f a+1)0}}", "{Wa<N{U a;O a;b:(f N);}a}",
                "{x:a;a<N?(p a+1)E;Ox-a}", "{a<N?(f a+1)a;P $_}",
                "{g@0<N?(f g@0+1)#g;O#g}", "{a<N?(f a+1)(E)}"]).replace(
                    "E", g.pick(["5/0;3", "V\")\"", "\"a\"~`(`", "0", "E9",
                                 "q", "x"])).replace("N", str(n))
    return {"code": f"x:7;p:{p};P 1;P RP(p 0);P[x a b];()", "w": g.chance(.3),
            "args": ["5"], "stdin": ["l1"]}


def j_descent(case, rec):
    x = expect(case)
    o = observe(case)
    rec.seen("descent", case["code"][5:20], x.end)
    return compare(case, x, o) or j_contained(case, rec)


kind("C25", "nested calls", 1, g_descent, j_descent, cost=12)


def g_deeprec(g):
    n = g.pick([50, 200, 1000, 100000])
    p = g.pick(["z:{a?(f a-1)7}", "z:{a?1+(f a-1)0}", "z:{(f a)}",
                "z:{a?(z a-1)\"x\"}", "z:{a?({(z b)}a a-1)0}",
                "l:[];L N{l:[l]}", "p:1;L N{p:{p}}", "z:{{(f a)}M[a]}",
                "z:{V\"(z a)\"}", "x:\"\";L N{x.:\"(\"};V x",
                "x:\"\";L N{x.:\"-\"};V x.5", "l:[1];L N{l@0:l}"])
    return {"code": p.replace("N", str(min(n, 1500))) + f";P RP(z {n})",
            "args": []}


def j_deeprec(case, rec):
    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)     # as in a normal run
    try:
        o = observe(case)
    finally:
        sys.setrecursionlimit(old)
    if o.end in ("timeout", "budget"):
        raise Skip("time")
    rec.seen("deep", case["code"][:12], o.end)
    if o.end not in ("ok", "fatal") or (o.end == "fatal" and not o.err):
        return f"{show(case)}: ended {o.end} {o.exc!r} stderr {o.err[-200:]!r}"
    return None


kind("C25", "runaway recursion", .3, g_deeprec, j_deeprec, cost=40)


# ---------------------------------------------------------------- C26

def g_range(g):
    """Every operator on Ranges, finite and infinite."""
    t, a, s = g.pick(SIGS)
    subs = []
    pos = g.r.randrange(a)
    for i, y in enumerate(s[:-1]):
        if i == pos and y not in "bfv":
            r = g.range_(.3)
            v = r if g.chance(.8) else Li([r, g.of("n")])
            subs.append(g.wrap(g.src(v)))
        elif y == "v":
            subs.append("x")
        elif y in "bf":
            subs.append(g.block(1, []))
        else:
            subs.append(g.wrap(g.src(g.of(g.pick(y + y + "r")))))
    e = app(t, subs)
    if g.chance(.15):
        e = g.pick(["$+", "\\$+", "$.", "-*", "#*", "$<", "$MX" if False
                    else "$*"]) + " " + subs[0]
    return {"code": f"x:{g.src(g.range_(.2))};P RP({e});P RP x;()",
            "w": g.chance(.2)}


kind("C26", "operators on Ranges", 5, g_range, diff)


def g_ranlist(g):
    """A finite Range and the List of its items are interchangeable."""
    lo = g.r.randrange(-4, 6)
    hi = lo + g.pick([-2, -1, 0, 0, 1, 2, 3, 5])
    r = f"({lo},{hi})" if not (lo == 0 and g.chance(.5)) else f"((),{hi})"
    li = "[" + ";".join(str(k) for k in range(lo, hi)) + "]"
    i, j = index_(g), index_(g)
    v = g.wrap(g.src(g.pick([g.num(), g.value(1), sc(g.r.randrange(-4, 9))])))
    f = g.pick(["{a*2}", "{a.b}", "{a%2}", "_", "{a>1}", "{[a;b]}", "{-a}"])
    n = g.pick(["0", "1", "2", "3", "-1", "-2", "7"])
    e = g.pick([
        "#X", "X@{i}", "(X {i})", "(X {i} {j})", "X@<{n}", "X@>{n}", "H X",
        "S X", "X H {n}", "X S {n}", "@X", "@<X", "@>X", "{v}N X", "{v}NI X",
        "X@?{v}", "X@*{v}", "RV X", "RF X", "PZ X", "X AE{v}", "X AL{v}",
        "X AL X", "X PE{v}", "{v}AL X", "{v}AE X", "J X", "X J{v}", "X JW{v}",
        "X RL{n}", "X CH{n}", "X<>{n}", "X UW{n}", "X WV X", "X Z X", "X Z{v}",
        "X ZD X", "EN X", "UQ X", "SN X", "SS X", "DN X", "DS X", "PM(X@<3)",
        "X CB 2", "X CP X", "FL X", "FL[X;X]", "FA[X;[X]]", "MX X", "MN X",
        "$+X", "$*X", "\\$+X", "$.X", "$-X", "\\$-X", "$AE X", "-*X", "#*X",
        "{f}M X", "{f}ME X", "{f}MJ X", "{f}MP X", "{f}MS X", "{f}MF X",
        "{f}MM[X]", "{f}FI X", "{f}FN X", "{f}FE X", "{f}FX X", "{f}FJ X",
        "{f}SK X", "{f}DK X", "{f}MZ X X", "{f}MU[X;X]", "X RM{v}",
        "X RA{n}{v}", "X^@{n}", "X^{v}", "X*{v}", "X/3", "X%2", "X//2",
        "X X 2", "{v}*X", "-X", "AB X", "SG X", "X.{v}", "X BA 3", "X*X",
        "X<X", "X<3", "X=X", "X LT X" if False else "X#=X", "X#<{v}", "X#>{v}",
        "!X", "X?1 2", "X|5", "X&5", "X MX" if False else "M X", "FI X",
        "TB X" if False else "FD X", "X FD 10", "ST(X AE 1)", "WV[X;X]", "Z[X;X]",
        "[X;X]Z X", "CP[X;X]", "X PK" if False else "QR[X]", "^X", "X TR X X",
        "({f} X)", "{#a}X", "X TD 2", "X,3", "5-X*1", "X**2", "RT SQ X",
        "X AD 2", "X CM X" if False else "DB X", "HV X", "X MX 2"
        if False else "X-0*X"])
    for k, w in (("{i}", i), ("{j}", j), ("{v}", v), ("{f}", f), ("{n}", n)):
        e = e.replace(k, w)
    flat = "z:({});P RP({{(#a).RP a}}(z));" if False else None
    # compare as lists: a Range result prints like the List of its items
    show_ = "z:(E);y:{a N[]};I z==z{};P RP({RP a}M z)" if False else ""
    c = "x:X;z:(E);P RP(z AL[])".replace("E", e.replace("X", "x"))
    c = "x:XX;z:(" + e.replace("X", "x") + ");P RP[z@0;z@-1;#z];P RP z*1;" \
        "P RP({a}M z);P J z;P RP(x AL[]);F i x{O i};()"
    if e in ("X", ):
        raise Unsure("x")
    return {"code": c.replace("XX", r), "direct": c.replace("XX", li),
            "law": 1}


def index_(g):
    return g.pick(["0", "1", "-1", "2", "-2", "5", "-5", "(0,2)", "(1,-1)",
                   "(-2,())", "[0;1]", "[-1;0;0]", "(2,9)", "((),3)", "[]",
                   "(1,1)", "(3,1)", "[[0];1]"])


kind("C26", "Range against List", 4, g_ranlist, j_itemlaw, cost=2)


def g_inf(g):
    lo = g.r.randrange(-4, 6)
    r = f"({lo},())"
    n = str(g.r.randrange(0, 30))
    k = str(g.r.randrange(0, 5))
    s = g.wrap(g.src(g.pick([g.list_(1), g.word(), g.nums()])))
    e = g.pick([f"{r}@{n}", f"({r} {n})", f"{r}@({k},{n})", f"{r}@<{n}",
                f"{r}@>{n}", f"{r}@({n},())", f"H {r}", f"S {r}", f"{n}N{r}",
                f"(-{n})N{r}", f"{r} Z {s}", f"{s} Z {r}", f"#{r}",
                f"{r}+{n}", f"{r}-{n}", f"{n}+{r}", f"{r}@[{n};{k}]",
                f"{r}=={r}", f"{r}#>{s}", f"{s}#<{r}", f"{r}?1 2", f"!{r}",
                f"{r}@(-{n})", f"@{r}", f"{r}@0", f"[{r}]", f"RP{r}",
                f"{r} PK {n}", f"x:{r};x@{k}", f"x:{r};[y i]:x;[y i]",
                f"({r}@>{n})@{k}", f"({r}@({k},{n}))@-1", f"{r}@>{n}@<{k}",
                f"{s}MZ{r}{{a.b}}" if False else f"{{a.b}}MZ{r}{s}",
                f"{{a.b}}MZ{s}{r}", f"x:{r};DQ x" if False else f"x:{r};x@0",
                f"{r} NI [{r}]", f"{r}N[{r};5]", f"{n}.5 N{r}",
                f"(-{k}.5)N{r}", f"({lo}-.5)N{r}", f"({lo}-.25)NI{r}", f"({lo}+.5)N{r}", f"\"a\"N{r}",
                f"{r}|5", f"{r}&5", f"$+{r}", f"{r} Q {r}", f"{r}={r}",
                f"{r}<{n}", f"Z[{r};{s}]", f"Z[{s};{r};{r}]"])
    pre, _, last = e.rpartition(";") if e.startswith("x:") else ("", "", e)
    return {"code": (pre + ";" if pre else "") + f"P RP({last});P RP[x y i];()",
            "w": g.chance(.3)}


kind("C26", "infinite Ranges", 3, g_inf, diff)


def g_member(g):
    """Numbers at and around the ends of Ranges."""
    r = g.r
    lo = r.randrange(-4, 5)
    hi = g.pick([None, lo + r.randrange(-2, 6), lo + r.randrange(-2, 6)])
    ra = f"({lo},{'()' if hi is None else hi})"
    if lo == 0 and hi is not None and g.chance(.6):
        ra = f"(,{hi})"
    n = []
    ends = [lo, lo, lo - 1, lo + 1, 0]
    if hi is not None:
        ends += [hi, hi, hi - 1, hi + 1]
    for _ in range(4):
        b = g.pick(ends) + g.pick([0, 0, .5, -.5, .25, .9, -.1, -.9, .001,
                                   -.001, -.999])
        t = f"{b:.4f}".rstrip("0").rstrip(".") if b != int(b) else str(int(b))
        n.append(g.pick([f"({t})", f'"{t}"', f'"{t}"', f'"{t}0"' if "." in t
                         else f'"{t}.0"', f'"{t}x"', f'"{t}e0"', f'"0{t}"',
                         f'"+{t}"', f'" {t}"', f'"{t} "', f"[{t}]"]))
    e = g.pick(["{a N b}", "{a NI b}", "{b@?a}", "{b@*a}", "{b RM a}",
                "{b@a}" if hi else "{a N b}", "{b FB a}" if hi else "{a NI b}",
                "{a N b}", "{b R a \"x\"}" if hi else "{a N b}",
                "{b^a}" if hi else "{a N b}", "{b@a}", "{a#=b}", "{a=b}",
                "{a==b}", "{a<b}" if hi is not None else "{a N b}"])
    return {"code": ";".join(f"P RP({e}{x}{ra})" if not x.startswith("(") else
                             f"x:{x};P RP({e}x{ra})" for x in n),
            "w": g.chance(.3)}


kind("C26", "membership around the ends", 2, g_member, diff)


def g_infany(g):
    """An infinite Range as any operand of any operator.

    What would go on for ever is not predicted (and not run).
    """
    t, a, _ = g.pick(gen.SIGS)
    at = g.r.randrange(a)
    subs = []
    for i in range(a):
        if i == at or g.chance(.15):
            lo = g.r.randrange(-4, 6)
            subs.append(g.pick([f"({lo},())", f"({lo},())", "(0,())",
                                f"[5;({lo},())]", f"[({lo},())]",
                                f"(({lo},())@>2)"]))
        else:
            subs.append(g.pick([
                "()", "[]", '""', "0", "1", "2", "(-1)", "5", "1.5", '"ab"',
                "[1;2]", "(,3)", "(2,5)", "`\\d`", "`b`", '["ab";"c"]',
                "[[1;2];[3]]", "[();1]", "{a}", "{a<3}", '"abcdefghij"',
                "12345678", "[3;1;2]", '"3"', "[0]", "(-3)"]))
    e = app(t, subs)
    if g.chance(.2):
        e = e.replace(subs[at], "x", 1)
        return {"code": f"x:{subs[at]};P RP({e});P RP x;()",
                "w": g.chance(.3)}
    return {"code": f"P RP({e});()", "w": g.chance(.3)}


kind("C26", "an infinite Range as any operand", 4, g_infany, diff)


def g_inflaw(g):
    lo = g.r.randrange(-4, 6)
    n = g.r.randrange(0, 40)
    k = g.r.randrange(0, 9)
    r = f"({lo},())"
    code = g.pick([
        f"P({r}@{n})={lo + n}", f"P({r}@>{n}@{k})={lo + n + k}",
        f"P({n}N{r})={'1' if n >= lo else '0'}",
        f"P(#({r}@<{n}))={n}", f"P({r}@({k},{k + n}))==({lo + k},{lo + k + n})",
        f"P({r}+{n})==({lo + n},())", f"x:0;l:{r}@<{n};F i l{{x+:i}};P x=$+l",
        f"P#({r}Z(,{n}))={n}", f"x:0;F i{r}@<{n}{{U x}};P x={n}",
        f"[x y]:{r};P x={lo}&y={lo + 1}"])
    return {"code": "P 1;" + code + ";()", "law": 1}


kind("C26", "laws of infinite Ranges", 1, g_inflaw, j_nlaw, cost=2)
