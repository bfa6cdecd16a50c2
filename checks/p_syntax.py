"""C01 tokens, C02 precedence, C03 function source, C04 value source, C05 syntax errors."""
import re

from pm import real, lex, syn, gen, optable, model
from pm.val import Sc, Li, Ra, Pa, NIL, rep, Unsure

from .core import kind, Skip, Slow
from .common import (diff, expect, observe, compare, agree, note, show,
                     stderr_rest)


# ---------------------------------------------------------------- C01

def shown_tokens(code, wrap):
    """The token line -v prints for code, without executing it."""
    text = "(\n" + code + "\n(" if wrap else code
    try:
        toks = [t.s for t in lex.lex(text)]
    except lex.Incomplete:
        toks = None
    if toks is not None:
        try:
            syn.parse(text)
        except (syn.Incomplete, syn.Bad, RecursionError):
            pass
        else:
            raise Skip("would run")
    o = real.run_prog(text, (), ["-v"])
    return text, toks, o


def j_tokens(case, rec):
    text, toks, o = shown_tokens(case["code"], True)
    if o.end in ("timeout", "budget"):
        raise Slow(text)
    head = f"{len(text.encode('utf-8'))} bytes (UTF-8), {len(text)} characters\n\n"
    want = head if toks is None else head + " ".join(toks) + "\n\n"
    if toks is None:
        rec.seen("unterminated literal")
    else:
        for t in set(lex.lex(text)):
            rec.seen(t.k, t.s if t.k in ("Operator", "Symbol", "Command")
                     else "")
    if o.end != "fatal":
        return f"tokens of {text!r}: expected a syntax error, got {o.end}"
    if o.out != want:
        return (f"tokens of {text!r}: expected -v to show {want!r}, "
                f"observed {o.out!r}")
    return None


ODD = ["$", "\\", "\\$", "'", "\"", "`", "\\\"", "{;", ";}", "  ", "\n;", ";",
       "\n", " ", "\t", "EI", "EL", "PIP", "$_", "$__", "$___", "$____",
       "$a1_b", "$12", "$(", "$[", "$'", "$`", "\\a", "\\h", "\\g", "j", "5.",
       ".5", "5.5.5", "1..2", "007", "é", "日", "\\\\", "\\\"a\\\"", "\\\"\\\\\\\"",
       "`\\``", "'\n", "' ", "';", "''", "{;;}", "ABC", "AB", "ABCD", "APIP",
       "PIPA", "I", "EII", "\r", "\u3000", "²", "٣", "0"]


def g_soup(g):
    r = g.r
    k = r.random()
    if k < .35:
        t = "".join(g.pick(ODD) if r.random() < .5 else
                    g.pick(gen.SOUP) for _ in range(r.randrange(1, 9)))
    elif k < .6:
        t = gen.soup(r, r.randrange(1, 14))
    elif k < .75:
        t = "".join(chr(r.randrange(32, 127))
                    for _ in range(r.randrange(1, 16)))
    elif k < .85:
        t = "".join(g.pick("ABCEILPITRWFGSZ") for _ in range(
            r.randrange(1, 9))) + g.pick(["", " a", "5", "\"x\"", "*"])
    else:
        t = g.program(3)
        for _ in range(r.randrange(1, 4)):
            t = gen.mutate(r, t)
    return {"code": t}


kind("C01", "token line", 5, g_soup, j_tokens)

SEPS = [" ", "\n", "\t", "{; x ;}", "  y'\"\n", "\n; z {\"`\n", " \n ",
        "{;;}", "{;\n;\n;}", "   \n", "\n\n;a\n  ;b\n"]


def g_spaced(g):
    p = g.program(g.pick([1, 2, 3]))
    try:
        toks = lex.lex(p)
    except lex.Incomplete:
        raise Unsure("lex")
    out = ""
    for t in toks:
        sep = g.pick(SEPS) if g.chance(.5) else " "
        if t.s == ";" and ("\n" in sep or "  " in sep):
            sep = " "
        out += t.s + "\0" + sep
    # no separator is put before a semicolon that would start a comment
    parts = out.split("\0")
    text = parts[0]
    for q in parts[1:]:
        text += q
    return {"code": p, "code2": text, "law": 1}


def j_spaced(case, rec):
    a, b = case["code"], case["code2"]
    try:
        ta, tb = lex.lex(a), lex.lex(b)
    except lex.Incomplete:
        raise Skip("lex")
    if ta != tb:
        raise Skip("separator before ;")
    for t in set(ta):
        rec.seen("spaced", t.k)
    c = {"code": a, "args": ["5", "abc"]}
    d = {"code": b, "args": ["5", "abc"]}
    return agree([c, d], rec, "whitespace and comments between tokens")


kind("C01", "whitespace and comments", 2, g_spaced, j_spaced, cost=2)

LITCH = ["a", "b", "\\", "\\\\", "\\a", "\\AB", "\\\\a", "'", "`", ";", "\n",
         "{;", "  ", "é", "\\n", "_", "\\_", "\\1", "{", "}", "\\ZZZ"]


def g_literal(g):
    k = g.r.randrange(6)
    body = "".join(g.pick(LITCH) for _ in range(g.r.randrange(0, 5)))
    if k == 0:
        t = '"' + body.replace('"', "") + '"'
    elif k == 1:
        t = '\\"' + body + g.pick(["", '"', '\\\\']) + '\\"'
    elif k == 2:
        t = "'" + g.pick(list("ab'\"`;\\ \n{}[]()5éE"))
    elif k == 3:
        t = g.pick(["0", "00", "007", "5", "5.0", "5.50", "0.5", "00.10",
                    "123456789012345678901234567890", "1.000", "12.34.56",
                    "5..7", "3.x"])
    elif k == 4:
        t = "`" + body.replace("`", "\\`") + "`"
    else:
        t = "[" + " ".join(g.pick(["'x", "5", '"s"', "a", "()", "1.5", "''",
                                   "PI", "AZ@2", "-3", "`a`", "'\"", "i",
                                   "$_", "$foo_1", "\\a"])
                           for _ in range(g.r.randrange(0, 5))) + "]"
    pre = "a:\"A\";ZZ:\"Q\";$foo_1:9;"
    return {"code": pre + g.pick(["", "P ", "RP ", "#"]) + t +
            g.pick(["", "", ".'!", " RM 5", ";a", " a"]),
            "args": ["5", "x"], "fmt": g.pick([None, "p"])}


kind("C01", "literals", 2, g_literal, diff)


# ---------------------------------------------------------------- C02

PURE2 = ["+", "-", "*", "/", "%", "**", "//", ".", ",", "<", ">", "=", "<=",
         ">=", "!=", "|", "&", "?", "@", "X", "J", "AE", "AL", "LT", "GT",
         "Q", "NE", "#<", "#=", "#>", "==", "<>", "TB", "FB", "RL", "RM",
         "BA", "BO", "BX", "CM", "N", "NI", "RN", "H", "S", "@<", "@>", "\\,",
         "PE", "Z", "CH", "~=", "TM", "MX", "AT", "E", "CG", "UW", "CP", "^"]
PURE1 = ["-", "+", "!", "#", "/", "AB", "SG", "RV", "A", "C", "LC", "UC", "$+",
         "$*", "\\$+", "$.", "-*", "#*", "RP", "ST", ",", "J", "SQ", "U", "M",
         "$<", "$-", "$**", "\\$-", "RV*", "HV", "BN", "**", "E", "MX", "MN"]
ALL2 = [o for o in syn.OPS[2]]
ALL1 = [o for o in syn.OPS[1]]
ALL3 = [o for o in syn.OPS[3]]


def flat(g, ops2, ops1, leaves, n, tern=.06, asg=.08):
    """An expression without parentheses."""
    out = []

    def operand():
        s = ""
        while g.chance(.28):
            s += g.pick(ops1) + (":" if g.chance(.05) else "") + " "
        return s + g.pick(leaves)
    out = operand()
    for _ in range(n):
        if g.chance(tern):
            o = g.pick(["?", "?", "\\?", g.pick(ALL3)])
            if g.chance(max(.1, asg)):
                o = g.pick(ALL3) + ":"
            out += f" {o} {operand()} "
            out += g.pick(["", "; "]) + operand()
            continue
        o = g.pick(ops2)
        if g.chance(asg):
            o += ":"
        out += f" {o} {operand()}"
    return out


def g_shape(g):
    ops2 = ALL2 if g.chance(.6) else PURE2
    ops2 = ops2 if g.chance(.6) else [g.pick(ops2) for _ in range(3)]
    ops1 = ALL1 + ["$+", "\\$-", "-*", "$.*"]
    leaves = ["a", "b", "x", "5", "\"s\"", "()", "[a;b]", "_", "{a}", "(a b)",
              "(a)"]
    if g.chance(.15):
        # operators of the lowest level next to each other
        ops2 = [":", ":", "::", g.pick(ALL2) + ":", g.pick(ALL2) + ":",
                g.pick(ALL2)]
        e = flat(g, ops2, [g.pick(ops1)], leaves, g.r.randrange(1, 6), .3, .2)
    else:
        e = flat(g, ops2, ops1, leaves, g.r.randrange(1, 6))
    return {"code": "P RP{" + e + "}"}


def j_shape(case, rec):
    x = expect(case)
    if x.phase == "syntax":
        raise Skip("not an expression")
    for o in ops_in(syn.parse(case["code"])):
        rec.seen("op", o.text, o.arity, "assign" if o.assign else "")
    return compare(case, x, observe(case))


def ops_in(t):
    if isinstance(t, syn.Op):
        yield t
    elif isinstance(t, tuple):
        for x in t:
            yield from ops_in(x)


kind("C02", "grouping shown by the function's source", 5, g_shape, j_shape)


def g_value(g):
    leaves = ["a", "b", "i", "x", "5", "2", "3", "\"ab\"", "7", "o", "t", "v",
              "l", "c"]
    arith = ["+", "-", "*", "%", "//", "**", "<", ">", "=", "!=", "&", "|",
             ".", ",", "?", "-", "-", "/", "<=", "BX", "@", "#=", "AE"]
    ops2 = [o for o in (arith if g.chance(.6) else PURE2) if o != "?"]
    if g.chance(.15):
        leaves = ["x", "l", "c", "a", "i", "x", "2", "\"ab\"", "l"]
        e = g.pick(["x", "l", "c"]) + " " + g.pick([":", "+:", ".:"]) + " " + \
            flat(g, [":", g.pick(arith) + ":", "+:", ".:", g.pick(ops2)],
                 ["-", "#"], leaves, g.r.randrange(1, 4), .3, .1)
    else:
        e = flat(g, ops2, PURE1 if g.chance(.4) else ["-", "!", "#", "+"],
                 leaves, g.r.randrange(2, 6), tern=.1)
    pre = f"x:{g.src(g.num())};l:{g.src(g.nums())};c:{g.src(g.num())};"
    return {"code": pre, "e": e, "args": ["5", str(g.r.randrange(1, 9))]}


def j_value(case, rec):
    e = case["e"]
    try:
        st = syn.parse(e)
    except (syn.Incomplete, syn.Bad):
        raise Skip("syntax")
    if len(st) != 1:
        raise Skip("statements")
    full = "(" + syn.uexpr(st[0]) + ")"
    tail = ";P RP z;P RP[a b i x l c]"
    cs = [{"code": case["code"] + "z:(" + t + ")" + tail,
           "args": case["args"]} for t in (e, full)]
    # both as predicted, hence equal to each other
    x = expect(cs[0])
    y = expect(cs[1])
    if (x.out, x.end) != (y.out, y.end):
        raise Skip("explicit grouping not equivalent in the model")
    for o in ops_in(st):
        rec.seen("op", o.text, o.arity, "assign" if o.assign else "")
    return compare(cs[0], x, observe(cs[0])) or \
        agree(cs, rec, "explicit parentheses")


kind("C02", "explicit parentheses", 4, g_value, j_value, cost=2)


# ---------------------------------------------------------------- C03

def g_func(g):
    k = g.r.random()
    if k < .35:
        body = "{" + g.program(g.pick([1, 2, 3]), ("a", "b"), 2) + "}"
    elif k < .6:
        body = "{" + g.expr(3, "a", ["a", "b"]) + "}"
    elif k < .85:
        body = "(" + g.expr(3, "a", ["_", "_", "B"]) + ")"
    else:
        ops2 = ALL2 if g.chance(.5) else PURE2
        body = "{" + flat(g, ops2, ALL1 + ["$+", "\\$-"],
                          ["a", "b", "5", "-5", "a: :", "b:", "(-007)", "'x", "';", "' ", "`a`",
                           "\"s \"", "()", "[]", "_", "(1;2)"],
                          g.r.randrange(1, 5)) + "}"
    if g.chance(.2):
        body = g.pick(["$+", "-*", "\\$.", "#", "RV"]) + body
    if g.chance(.15):
        body = body + " " + g.pick(["+", ".", "J", "AE", "M", ","]) + " " + \
            g.src(g.value())
    return {"code": body, "args": ["5", "abc"],
            "call": [g.src(g.value()), g.src(g.value())]}


def j_func(case, rec):
    code = "p:" + case["code"] + ";P RP p;()"
    c = dict(case, code=code)
    x = expect(c)
    if x.end != "ok":
        raise Skip("does not build")
    o = observe(c)
    bad = compare(c, x, o)
    if bad:
        return bad
    if not x.out.rstrip("\n").endswith("}"):
        raise Skip("not a function")
    call = " ".join("(" + t + ")" for t in case["call"])
    probe = ";P RP[a b i x y l z];P RP(p " + call + ");P RP[a b i x y l z]"
    last = x.out[:-1]
    # the source text is everything this program printed after its own prints
    m2 = expect(dict(case, code="p:" + case["code"] + ";P 7;()"))
    pre = m2.out[:-2]
    last = last[len(pre):]
    if not (last.startswith("{") or "{" in last):
        raise Skip("not a function")
    if "Bl" not in [type(v).__name__ for v in (x.m.g.get("p"),)]:
        raise Skip("not a function")
    # 1. evaluating the source gives a function with the same source
    law = "p:" + case["code"] + ";t:V RP p;u:V RP t;P 8;P RP t;" \
        "P RP u;()"
    c3 = dict(case, code=law)
    x3 = expect(c3)
    o3 = observe(c3)
    if o3.end == "timeout":
        raise Slow(law)
    bad = compare(c3, x3, o3)
    if bad:
        return bad
    rec.seen("source", *sorted({o.text for o in ops_in(
        (x.m.g["p"].st, x.m.g["p"].ret))})[:2])
    parts = o3.out.rpartition("8\n")[2]
    half = len(parts) // 2
    if x3.end != "ok" or parts[:half] != parts[half:] or not parts:
        return (f"{show(c3)}: evaluating a function's source should give a "
                f"function with an equivalent source that evaluates to "
                f"itself; observed {o3.end} {o3.out[-400:]!r}")
    # 2. it behaves the same, except that embedded values in the source of a
    # resulting function are spelled as literals or as expressions
    return agree([dict(case, code="p:" + case["code"] + probe),
                  dict(case, code="p:" + case["code"] + ";p:V RP p" + probe)],
                 rec, "a function and the function of its source",
                 lambda t: re.sub("[ ()]", "", t) if "{" in t else t)


kind("C03", "source of a function", 1, g_func, j_func, cost=4)


AMBIG = ["-a", "-5", "(-5)", "!a", "#a", ",5", "a", "b", "5", "_", "x",
         "(a)", "[a]", "{a}", "()", "$+a", "\"s\"", "'x", "@a", "a@0", "-b+1",
         "a:5", "`p`", ".5", "@>a", "J*a", "V a", "\\\"e\\\"", "/a", "a<b",
         "a?b 5", "(f a b)", "([a b c]1)", "B", "%a", "*a", "~a", "+a",
         "a R b a", "?a", "<a", "H a", "a.b.a"]


def g_shape(g):
    """Every construct, with any number of parts of every form."""
    def e(d=1):
        if d and g.chance(.15):
            return shape(d - 1)
        return g.pick(AMBIG) if g.chance(.7) else \
            "(" + g.expr(1, "a", ["a", "b"]) + ")"

    def many(lo, hi):
        n = g.r.randrange(lo, hi + 1)
        return (g.pick([";", "; ", " ;"]) if g.chance(.6) else " ").join(
            e() for _ in range(n))

    def names(d=2):
        return "[" + " ".join(
            names(d - 1) if d and g.chance(.25) else
            g.pick(["a", "b", "x", "y", "i", "c", "z"])
            for _ in range(g.r.randrange(1, 5))) + "]"

    def block(d):
        k = g.r.random()
        if k < .25:
            return " " + stmt(d - 1)
        return "{" + ";".join(stmt(d - 1)
                              for _ in range(g.r.randrange(0, 4))) + "}"

    def stmt(d):
        k = g.r.random()
        if d <= 0 or k < .3:
            return e(0) + g.pick([";", ""])
        if k < .45:
            return "I " + e() + block(d) + g.pick(["", " EL" + block(d)])
        if k < .55:
            return "F " + g.pick(["a", "x", names(), names()]) + g.pick(
                [" ", ";"]) + e() + block(d)
        if k < .65:
            return g.pick("WTL") + " " + e() + block(d)
        if k < .72:
            return "LR " + e() + ";" + e() + block(d)
        if k < .76:
            return "WG" if g.chance(.4) else "P " + e()
        return shape(d)

    def shape(d):
        k = g.r.random()
        if k < .25:
            return "(" + g.pick(["a", "f", "b", "[a b]", "{b}", e(0)]) + \
                " " + many(1, 6) + ")"
        if k < .4:
            return "[" + many(0, 7) + "]"
        if k < .5:
            n = g.r.randrange(2, 7)
            return "(" + "".join(
                e(0) + g.pick(["<", "=", ">=", "!=", "Q", "LT", "#=", "=="])
                for _ in range(n)) + e(0) + ")"
        if k < .6:
            return '\\"' + "".join(g.pick(["\\a", "\\b", "x", " ", "\\\\",
                                          "\\AZ", ";", "{", "\\g", "'"])
                                  for _ in range(g.r.randrange(0, 7))) + '\\"'
        if k < .8:
            return "{" + ";".join(stmt(d) for _ in range(
                g.r.randrange(0, 6))) + "}"
        if k < .9:
            return "(" + e(0) + g.pick(["?", " R", " RA", " ZD"]) + " " + \
                e(0) + ";" + e(0) + ")"
        return "(" + e(0) + g.pick(["&", "|", "+", ".", " V", "AE", "M", ":",
                                    "+:", "@", "^", "//", "AL:"]) + \
            e(0) + ")"

    return {"code": g.pick(["{", "{", "{", "-{", "$+{"]) + ";".join(
        stmt(g.pick([1, 2, 3])) if g.chance(.6) else shape(2)
        for _ in range(g.pick([1, 1, 2, 3]))) + "}",
        "args": ["5", "abc"],
        "call": [g.src(g.value()), g.src(g.value())]}


kind("C03", "every construct", 1, g_shape, j_func, cost=4)


# ---------------------------------------------------------------- C04

def odd_text(g):
    if g.chance(.12):
        # something close to a number
        return Sc(g.pick(["", "-", "-", "--", "+", " "])
                  + g.pick(["", "0", "00", "7", "007", "12"])
                  + g.pick(["", ".", ".0", ".5", ".50", ".05", ".00001"])
                  + g.pick(["", "", "", " ", "e5", "\n", "0" * 20]))
    return Sc("".join(g.pick(["\"", "\\", "'", "`", "a", "\n", " ", "\\\"",
                              ";", "  ", "{;", "\\a", "\\\\", "é", "0", "-",
                              ".", "_", "\\n"])
                      for _ in range(g.r.randrange(0, 6))))


def any_value(g, depth=3):
    k = g.r.random()
    if depth and k < .35:
        return Li(any_value(g, depth - 1)
                  for _ in range(g.r.randrange(0, 5)))
    if k < .5:
        return odd_text(g)
    if k < .6:
        return g.pattern()
    if k < .65:
        return Pa("".join(g.pick(["a", "\\`", "\\\\", "b", ".", "[\"]", "\\d",
                                  "(x)", "'"])
                          for _ in range(g.r.randrange(0, 5))),
                  g.pick([0, 0, 2, 8, 10, 16, 26, 256, 258, 282]))
    if k < .72:
        return g.range_()
    if k < .78:
        return NIL
    return g.scalar()


def badpat(v):
    if type(v) is Li:
        return any(badpat(x) for x in v.t)
    if type(v) is not Pa:
        return False
    if re.search(r"(?<!\\)(?:\\\\)*\\`", v.raw) or v.raw.endswith("\\"):
        return True
    return False


def g_val(g):
    v = any_value(g)
    return {"code": "x:" + g.src(v) + ";P RP x;y:V RP x;P 8;P x==y;"
            "P(RP x)Q RP y;P RP y;()", "args": [],
            "skip": badpat(v)}


def j_val(case, rec):
    if case.get("skip"):
        raise Skip("pattern no literal can express")
    x = expect(case)
    o = observe(case)
    r = compare(case, x, o)
    if r:
        return r
    note(x.m, rec, x.end)
    a, _, b = o.out.partition("\n8\n1\n1\n")
    if x.end == "ok" and a + "\n" != b:
        return (f"{show(case)}: evaluating the notation of a value does not "
                f"give the value back: {o.out[-300:]!r}")
    return None


kind("C04", "notation of values", 3, g_val, j_val)


def g_input_val(g):
    """Values that come out of operators rather than literals."""
    e = g.expr(2, "a", ["a", "b"])
    return {"code": "x:(" + g.wrap(e) + ");P 8;P RP x;P RP V RP x;()", "law": 1,
            "args": [str(g.int_()), g.word().s]}


def j_input_val(case, rec):
    if not case["code"].endswith(";P 8;P RP x;P RP V RP x;()"):
        raise Skip("not this law")
    x = expect(case)
    if x.end != "ok":
        raise Skip("fatal")
    v = x.m.g["x"]
    if "Bl" in repr(type(v)) or badpat(v) or has_block(v):
        raise Skip("function, or pattern no literal can express")
    o = observe(case)
    r = compare(case, x, o)
    if r:
        return r
    note(x.m, rec, x.end)
    t = o.out.split("8\n", 1)
    want = rep(v) + "\n"
    if not o.out.endswith(want + want):
        return (f"{show(case)}: evaluating the notation of a value does not "
                f"give the value back: {o.out[-300:]!r}")
    return None


def has_block(v):
    if type(v) is Li:
        return any(has_block(x) for x in v.t)
    return type(v).__name__ == "Bl"


kind("C04", "notation of results", 2, g_input_val, j_input_val)


def g_print_p(g):
    v = any_value(g)
    return {"code": g.pick(["P x", "x", "O x", "ST x", "[x;x]"]).replace(
        "x", g.src(v)), "fmt": "p"}


kind("C04", "notation under -p", 1, g_print_p, diff)


# ---------------------------------------------------------------- C05

def classify(text):
    try:
        syn.parse(text)
        return "valid"
    except (syn.Incomplete, lex.Incomplete):
        return "incomplete"
    except (syn.Bad, lex.Bad):
        return "bad"
    except RecursionError:
        raise Skip("recursion")


def g_syntax(g):
    r = g.r
    k = r.random()
    if k < .4:
        t = g.program(g.pick([1, 2, 3]))
    elif k < .6:
        t = gen.mutate(r, g.program(g.pick([1, 2, 3])))
    elif k < .8:
        t = gen.soup(r, r.randrange(1, 8))
    else:
        t = "".join(g.pick(ODD) if g.chance(.3) else g.pick(gen.SOUP)
                    for _ in range(r.randrange(1, 8)))
    if r.random() < .3:
        t = t[:r.randrange(len(t) + 1)]
    return {"code": t}


def j_syntax(case, rec):
    """In the REPL: incomplete input prompts for more, bad input is a syntax
    error, valid input (here: a function literal) is evaluated."""
    t = "x:{" + case["code"] + "\n}"
    if "\n" in case["code"].rstrip("\n") or "\r" in t:
        t = "x:{" + case["code"] + "\n}"
    want = classify(t + "\n")
    lines = t.split("\n")
    # the REPL decides after every line
    seen, acc, n = [], "", 0
    for ln in lines:
        acc += ln + "\n"
        n += 1
        c = classify(acc)
        if c != "incomplete":
            break
    if c == "valid" and (n < len(lines) or not closed(acc)):
        raise Skip("would run other code")
    o = real.run_repl(lines[:n])
    if o.end in ("timeout", "budget"):
        raise Slow(t)
    rec.seen("REPL", c, n > 1)
    body = o.out.split("information.\n", 1)[-1]
    prompts = ">> " + ".. " * (n - 1)
    if o.end != "ok":
        return f"REPL given {lines[:n]!r} ended {o.end} {o.exc!r}"
    if c == "incomplete":
        ok = body == prompts + ".. Bye!\n" and not stderr_rest(o.err)
    elif c == "bad":
        ok = body == prompts + ">> Bye!\n" and stderr_rest(o.err) != ""
    else:
        ok = body.startswith(prompts) and body.endswith("\n>> Bye!\n") and \
            not body.startswith(prompts + "..") and \
            not body.startswith(prompts + ">>") and not stderr_rest(o.err)
    if not ok:
        return (f"REPL given {lines[:n]!r}: {c} input expected, observed "
                f"{body!r} with stderr {o.err!r}")
    if c == "bad" or c == "incomplete":
        p = real.run_prog(acc, (), ["-v"])
        if p.end != "fatal" or not stderr_rest(p.err):
            return (f"program {acc!r} is {c}: expected a fatal error before "
                    f"execution, observed {p.end}")
    return None


def closed(text):
    """text is exactly one statement x:{...}"""
    st = syn.parse(text)
    return len(st) == 1 and st[0][0] == "op" and st[0][1].text == ":" and \
        st[0][2][1][0] == "block"


kind("C05", "three kinds of input", 4, g_syntax, j_syntax, cost=2)


BITS = ["(", ")", "[", "]", "{", "}", ";", "EL", ":", "$", "\\$", "*", "a",
        "5", "-", "+", "?", "R", "F", "I", "W", "L", "LR", "T", "WG", "_", ",",
        "<", "()", "\"s\"", "'c", "\"", "`", "{;", ";}", "\\\"", "@"]


SKELETONS = ["F [ a b ] c { d }", "F [ a [ b c ] ] 5 x", "F a b { c }",
             "F a ; b c", "I a { b } EL { c }", "I a b EL c", "I a { b }",
             "I a I b c EL d", "W a { b ; c }", "T a b", "L 5 { a }",
             "LR `a` b { c }", "LR a ; b c", "WG ; a", "( a b c )", "( a )",
             "[ a ; b c ]", "[ ]", "( )", "a ? b c", "a R b c",
             "$ + a", "\\$ + a", "$ + : a", "- * a", "- * : a", "a + : b",
             "a R : b c", "{ a ; b }", "{ }", "a < b < c", "a - b",
             "a @ 0 : 5", "( a b ) : 5", "[ a b ] : c", "a : : b",
             "$ + * a", "a ; ; b", "\"s\" . 's", "\\\"a\\\"", "- ( a )"]
CLOSERS = [")", "]", "}", "(", "[", "{", ";", "EL", "EI", ":", "5"]


def g_edit(g):
    """Code one or two tokens away from valid code, or the start of it."""
    if g.chance(.6):
        toks = g.pick(SKELETONS).split()
        if g.chance(.2):
            i = g.r.randrange(len(toks))
            if toks[i] in ("a", "b", "c", "d"):
                toks[i:i + 1] = g.pick(SKELETONS).split()
        i = g.r.randrange(len(toks))
        b = g.pick(CLOSERS if g.chance(.6) else BITS)
        k = g.r.random()
        if k < .4:
            toks[i] = b
        elif k < .8:
            toks.insert(i + 1, b)
        elif k < .9:
            del toks[i]
        else:
            toks = toks[:i + 1]
        if g.chance(.3):
            toks += g.pick([[";"], [";", "a"], ["a"], ["}"], ["P", "a"]])
        return {"code": " ".join(toks), "as": g.r.randrange(3)}
    t = g_shape(g)["code"]
    if g.chance(.5):
        t = t[t.index("{") + 1:-1]
    try:
        toks = [k.s for k in lex.lex(t)]
    except (lex.Incomplete, lex.Bad):
        return {"code": t}
    if len(toks) > 30:
        i = g.r.randrange(len(toks) - 20)
        toks = toks[i:i + 20]
    for _ in range(g.pick([0, 1, 1, 2])):
        i = g.r.randrange(len(toks) + 1)
        k = g.r.random()
        if k < .3:
            del toks[i:i + g.pick([1, 1, 2])]
        elif k < .6:
            toks[i:i + 1] = [g.pick(BITS)]
        elif k < .85:
            toks.insert(i, g.pick(BITS))
        else:
            toks[i:i + 2] = toks[i:i + 2][::-1]
    if g.chance(.25):
        toks = toks[:g.r.randrange(len(toks) + 1)]
    return {"code": " ".join(toks), "as": g.r.randrange(3)}


def j_edit(case, rec):
    """Code that cannot run is rejected before anything happens, wherever it
    is met; code that can run is accepted."""
    t = case["code"]
    c = classify(t)
    how = case.get("as", 0)
    rec.seen("edited", c, how)
    if c == "valid":
        # accepted: as a function that is not called
        try:
            if not closed("x:{" + t + "\n}") or len(
                    syn.parse("x:{" + t + "\n};5")) != 2:
                raise Skip("closes the block")
        except (syn.Incomplete, lex.Incomplete, syn.Bad, lex.Bad):
            raise Skip("closes the block")
        o = real.run_prog("x:{" + t + "\n};5", ())
        if o.end in ("timeout", "budget"):
            raise Slow(t)
        if o.end != "ok" or o.out != "5\n":
            return (f"function {{{t}}}: runnable code expected, observed "
                    f"{o.end} {o.out!r} {o.err!r}")
        return None
    if how == 0:
        o = real.run_prog("P 1;" + t if not t.startswith(":") else t, ())
        want = ""
        if classify("P 1;" + t) != c:
            raise Skip("joined")
    elif how == 1:
        if classify(t + "\n") != c:
            raise Skip("joined")
        o = real.run_prog("P 1;Va;P 2", (t,))
        want = "1\n"
    else:
        if "\n" in t or classify(t + "\n") != c:
            raise Skip("lines")
        if t.startswith(";"):
            raise Skip("command")
        o = real.run_repl([t])
        if o.end in ("timeout", "budget"):
            raise Slow(t)
        body = o.out.split("information.\n", 1)[-1]
        if c == "incomplete":
            ok = body == ">> .. Bye!\n" and not stderr_rest(o.err)
        else:
            ok = body == ">> >> Bye!\n" and stderr_rest(o.err) != ""
        return None if ok else (
            f"REPL given {t!r}: {c} input expected, observed {body!r} with "
            f"stderr {o.err!r}")
    if o.end in ("timeout", "budget"):
        raise Slow(t)
    if o.end != "fatal" or o.out != want or not stderr_rest(o.err):
        return (f"{'evaluated text' if how else 'program'} {t!r} is {c}: "
                f"expected a fatal error and output {want!r}, observed "
                f"{o.end} {o.out!r} {o.err[-200:]!r}")
    return None


kind("C05", "edits of every construct", 4, g_edit, j_edit, cost=2)


def g_prefix(g):
    p = "x:{" + g.program(g.pick([1, 2, 3, 4])) + "}"
    return {"code": p, "cut": g.r.random()}


def j_prefix(case, rec):
    """Every proper prefix (by tokens) of a valid unit is incomplete, and
    typing the unit in pieces gives what typing it at once gives."""
    t = case["code"]
    if classify(t) != "valid" or not closed(t):
        raise Skip("not valid")
    toks = [k.s for k in lex.lex(t)]
    if any("\n" in k for k in toks):
        raise Skip("newline in a literal")
    depth = [0]
    for k in toks:
        depth.append(depth[-1] + (k == "{") - (k == "}"))
    if depth[-1] or 0 in depth[3:-1]:
        raise Skip("the function ends before the last token")
    n = 3 + int(case["cut"] * (len(toks) - 3))
    a = " ".join(toks[:n])
    b = " ".join(toks[n:])
    if n >= len(toks) or b.startswith(";"):
        raise Skip("cut")
    o1 = real.run_repl([" ".join(toks), "RP x"])
    o2 = real.run_repl([a, b, "RP x"])
    if "timeout" in (o1.end, o2.end):
        raise Slow(t)
    rec.seen("cut before", lex.lex(t)[n].k, "after", lex.lex(t)[n - 1].k)
    b1 = o1.out.split("information.\n", 1)[-1]
    b2 = o2.out.split("information.\n", 1)[-1]
    if b2 != b1.replace(">> ", ">> .. ", 1) or o1.err != o2.err:
        return (f"REPL: {a!r} then {b!r} should continue one input; at once: "
                f"{b1!r}, in pieces: {b2!r} stderr {o2.err!r}")
    return None


kind("C05", "prefixes and continuation", 3, g_prefix, j_prefix, cost=3)


def g_deep(g):
    n = g.pick([20, 300, 3000, 30000])
    o = g.pick(["(", "[", "{", "-", "#", "(a ", "a?", "[a;", "a+(", "I a{",
                "$+[", "!", "a:", "F a", "W a", "{a;"])
    t = o * n + g.pick(["", "5", "a", "5"])
    if g.chance(.5):
        t += {"(": ")", "[": "]", "{": "}"}.get(o[-1] if o[-1] in "([{" else
                                                 o[0], "") * g.pick([n, n - 1, 1])
    return {"code": t}


def j_deep(case, rec):
    o = real.run_prog(case["code"], (), [])
    if o.end in ("timeout", "budget"):
        raise Skip("time")
    rec.seen("deep", case["code"][:3], o.end)
    if o.end not in ("ok", "fatal"):
        return f"deeply nested code {case['code'][:30]!r}...: {o.end} {o.exc}"
    if o.end == "fatal" and not o.err:
        return f"deeply nested code {case['code'][:30]!r}...: no message"
    return None


kind("C05", "deep nesting", .3, g_deep, j_deep, cost=60)
