"""C27 random operators, C28 the value types as a library."""
import contextlib
import io
import re

from pm import real, model, val, gen
from pm.val import (Sc, Li, Ra, Pa, NIL, rep, tostr, truth, num, toint, items,
                    size, get_int, get_slice, BadIndex, InfiniteLen, Unsure)

from .core import kind, Skip, Slow
from .common import FMT, diff

# ---------------------------------------------------------------- C27


def rrun(code, args=(), flags=()):
    o = real.run_prog(code, args, flags)
    if o.end in ("timeout", "budget"):
        raise Slow(code)
    return o


def g_member(g):
    k = g.pick(["rr1", "rr2", "rc", "sh", "r", "rrlist", "seed", "rc1"])
    c = {"k": k, "n": g.pick([3, 8, 20])}
    if k == "rr1":
        c["hi"] = g.pick([1, 2, 3, 10, 100, 10**20, 7])
        c["spell"] = g.pick(["", ".5", "\"", "z"])
    elif k == "rr2":
        c["lo"] = g.pick([0, 5, -3, 1, -10**20, 99, 7])
        c["hi"] = c["lo"] + g.pick([1, 2, 3, 10, 10**21])
    elif k in ("rc", "sh", "rc1"):
        v = g.pick([Sc("abc"), Sc("a"), Li([Sc("x"), Li([Sc("1")]), NIL]),
                    Ra(None, 5), Ra(3, 9), Ra(-2, 2), Li([Sc("5")]),
                    Sc("hello"), g.iterable(), Li([Sc("a"), Sc("a")])])
        if type(v) is Ra and not v.finite or size(v) == 0 or size(v) > 60:
            v = Sc("abc")
        c["v"] = g.src(v)
    elif k == "rrlist":
        c["his"] = [g.pick([1, 2, 5, 9]) for _ in range(g.pick([1, 2, 4]))]
    elif k == "seed":
        c["s"] = g.pick(["5", "\"abc\"", "1.5", "[1;2]", "\"\"", "0", "v",
                         "\"5\"", "()", ",3", "1000000007"])
        c["body"] = rand_body(g)
        c["pre"] = g.pick(["", "r;", "RR9;", "x:SH,9;", "r:77;r;", "RC,50;"])
    c["law"] = 1
    return c


def rand_body(g):
    out = []
    for _ in range(g.pick([1, 2, 4])):
        out.append(g.pick(["P r", "P RR 1000", "P SH,9", "P RC\"abcdefghij\"",
                           "P 5RR 900", "L 5{P RR 99}", "P RR[9;99;999]",
                           "P SH\"abcdefgh\"", "P r.r", "x:r;P x;P x",
                           "F i SH,4{P i.RR 50}", "P{r}M,3", "P{RR 77}M,3",
                           "P MX(SH,30)@0", "P RC SH,30", "({RR a}99)",
                           "P[r r]", "Y RC,99;P y"]))
    return ";".join(out)


def j_member(case, rec):
    k, n = case["k"], case["n"]
    rec.seen("random", k)
    if k == "r":
        o = rrun(f"L {n}{{x:r;P x;P x=x;P x<1;P x>=0;P x}}")
        ls = o.out.split("\n")[:-1]
        if o.end != "ok" or len(ls) != 5 * n:
            return f"reading r: {o!r}"
        draws = [ls[i] for i in range(0, 5 * n, 5)]
        for i in range(0, 5 * n, 5):
            if ls[i + 1:i + 4] != ["1"] * 3 or ls[i] != ls[i + 4]:
                return f"r is not in 0..1 or not kept: {ls[i:i + 5]}"
        if len(set(draws)) < n - 1:
            return f"readings of r repeat: {draws}"
        rec.ev("draws", n)
        return None
    if k in ("rr1", "rr2", "rrlist"):
        if k == "rr1":
            lo, hi = 0, case["hi"]
            e = {"": str(hi), ".5": f"({hi}.5)", '"': f'"{hi}"',
                 "z": f'"{hi}z"'}[case["spell"]]
            if case["spell"] == ".5" and hi > 10**9:
                e = str(hi)
            e = "RR " + e
            rng = [(lo, hi)]
        elif k == "rr2":
            lo, hi = case["lo"], case["hi"]
            e = f"({lo})RR({hi})"
            rng = [(lo, hi)]
        else:
            e = "RR[" + ";".join(map(str, case["his"])) + "]"
            rng = [(0, h) for h in case["his"]]
        o = rrun(f"L {n}{{P RP({e})}}")
        ls = o.out.split("\n")[:-1]
        if o.end != "ok" or len(ls) != n:
            return f"{e}: {o!r}"
        for ln in ls:
            nums = re.findall(r"-?\d+", ln)
            if (ln if k != "rrlist" else ln[1:-1]) != ";".join(nums) or \
                    len(nums) != len(rng) or not all(
                        a <= int(x) < b for x, (a, b) in zip(nums, rng)):
                return f"{e} gave {ln}, outside of {rng}"
        rec.ev("draws", n)
        if hi_big(rng) and n >= 8 and len(set(ls)) < 3:
            return f"{e} gave the same {n} times: {ls}"
        return None
    if k in ("rc", "sh", "rc1"):
        v = case["v"]
        if k == "sh":
            # as a multiset: counts of each item agree both ways
            t = (f"x:{v};z:x;L {n}{{y:SH x;P#y=#x;P(RP y)N(RP x)>=0;"
                 "P$&{($+{b Q a}M y)=($+{b Q a}M x)|1}M x;P RP y;P RP x}")
            x = model.run(f"P RP({v});F i {v}{{P RP i}}")
            want = x.out.split("\n")[:-1]
            o = rrun(f"x:{v};L {n}{{y:SH x;P\"-\";P RP x;F i y{{P RP i}}}}")
            parts = o.out.split("-\n")[1:]
            if o.end != "ok" or (len(parts) != n and "-" not in v):
                return f"SH {v}: {o!r}"
            if "-" in v or "\n" in v:
                raise Skip("separator")
            for p in parts:
                ls = p.split("\n")[:-1]
                if ls[:1] != want[:1]:
                    return f"SH changed its operand {v}: {ls[0]}"
                if sorted(ls[1:]) != sorted(want[1:]):
                    return f"SH {v} gave {ls[1:]}, not a permutation"
            rec.ev("draws", n)
            return None
        x = model.run(f"P RP({v});F i {v}{{P RP i}}")
        if "\n" in v:
            raise Skip("newline")
        want = x.out.split("\n")[:-1]
        o = rrun(f"x:{v};L {n}{{P RP RC x;P RP x}}")
        ls = o.out.split("\n")[:-1]
        if o.end != "ok" or len(ls) != 2 * n:
            return f"RC {v}: {o!r}"
        for i in range(0, 2 * n, 2):
            if ls[i] not in want[1:]:
                return f"RC {v} gave {ls[i]}"
            if ls[i + 1] != want[0]:
                return f"RC changed its operand {v}: {ls[i + 1]}"
        rec.ev("draws", n)
        return None
    s, body = case["s"], case["body"]
    a = rrun(f"r:{s};{body};()")
    mid = rrun(case["pre"] + "L 3{P RR 10X20}")
    b = rrun(f"{case['pre']}r:{s};{body};()")
    if a.end != "ok" or a.out != b.out or b.end != "ok":
        return (f"seeding with {s}: {body!r} printed {a.out!r} and then, after "
                f"the same seed again, {b.out!r}")
    c = rrun(f"r:\"another seed\";{body};P RR 10X20;P RR 10X20;()")
    d = rrun(f"r:{s};{body};P RR 10X20;P RR 10X20;()")
    if c.end == d.end == "ok" and c.out == d.out:
        return f"two different seeds gave the same numbers: {c.out!r}"
    e = rrun("P RR 10X20")
    f = rrun("P RR 10X20")
    if mid.out.split()[:1] == e.out.split() == f.out.split():
        return f"unseeded runs repeat: {mid.out!r} {e.out!r} {f.out!r}"
    rec.ev("seedings", 3)
    return None


def hi_big(rng):
    return rng[0][1] - rng[0][0] > 10**6


kind("C27", "draws and seeds", 5, g_member, j_member, cost=3)


def g_cover(g):
    return {"k": g.pick(["rr", "rr2", "rc", "sh", "shs", "rcr", "bias"]),
            "law": 1, "n": g.pick([2, 3, 4, 5])}


def j_cover(case, rec):
    """Every outcome is reachable (misses have a chance below 1e-15)."""
    k, n = case["k"], case["n"]
    code, want = {
        "rr": (f"L 300{{P RR {n}}}", [str(i) for i in range(n)]),
        "rr2": (f"L 300{{P 7RR {7 + n}}}", [str(7 + i) for i in range(n)]),
        "rc": (f"L 300{{P RC\"{'abcde'[:n]}\"}}", list("abcde"[:n])),
        "rcr": (f"L 300{{P RC(3,{3 + n})}}", [str(3 + i) for i in range(n)]),
        "sh": ("L 400{P SH[1;2;3]}", ["123", "132", "213", "231", "312",
                                      "321"]),
        "shs": ("L 400{P SH\"abc\"}", ["abc", "acb", "bac", "bca", "cab",
                                       "cba"]),
        "bias": ("x:0;L 400{x+:r<.5};P x>120&x<280", ["1"])}[k]
    if k == "bias":
        code = "x:0;L 400{x+:r<0.5};P(x>120&x<280)"
    o = rrun(code)
    ls = o.out.split("\n")[:-1]
    rec.seen("outcomes", k, n)
    rec.ev("draws", len(ls))
    if o.end != "ok" or set(ls) != set(want):
        return (f"{code}: outcomes {sorted(set(ls))}, expected all of "
                f"{want} and nothing else; {o.end} {o.err[-200:]!r}")
    # no outcome is several times as frequent as another
    if k != "bias":
        c = [ls.count(w) for w in want]
        if max(c) > 6 * min(c) + 40:
            return f"{code}: very uneven counts {c}"
    return None


kind("C27", "all outcomes occur", 1, g_cover, j_cover, cost=25)


def g_spread(g):
    n = g.pick([g.r.randrange(8, 40), g.r.randrange(40, 300),
                g.r.randrange(300, 3000)])
    k = g.pick(["rr", "rr", "rr2", "rc", "rcl", "rct", "sh", "sh", "shl",
                "sht", "big", "big2"])
    if k in ("rr", "rr2", "rc") and g.chance(.2):
        n *= 1000
    if k.startswith("big"):
        n = g.pick([2 ** g.r.randrange(20, 200), 10 ** g.r.randrange(6, 50),
                    3 ** g.r.randrange(30, 99)]) + g.pick([0, 0, 1, 7])
    if k.startswith("sh"):
        n = min(n, 700)
    return {"k": k, "n": n, "law": 1, "lo": g.r.randrange(-50, 50),
            "at": g.pick([0, 0, n - 1, n - 1, n // 2, g.r.randrange(n)])}


def j_spread(case, rec):
    """Draws reach every part of their set (misses: less than 1e-13)."""
    k, n, lo, at = case["k"], case["n"], case["lo"], case["at"]
    s = "".join(chr(0x4e00 + i) for i in range(n)) if k in ("rct", "sht") \
        else ""
    l = f"({lo})" if lo < 0 else str(lo)
    code = {"rr": f"RR {n}", "rr2": f"({l}RR {lo + n})-{l}",
            "rc": f"RC,{n}", "rcl": f"RC RV,{n}", "rct": f"(A RC\"{s}\")-19968",
            "sh": f"(SH,{n})@?{at}", "shl": f"(SH RV,{n})@?{at}",
            "sht": f"(SH\"{s}\")@?\"{s[at:at + 1]}\"", "big": f"RR {n}",
            "big2": f"({l}RR {lo + n})-{l}"}[k]
    o = rrun(f"L 160{{P {code}}}")
    ls = o.out.split("\n")[:-1]
    rec.seen("spread", k, len(str(n)))
    rec.ev("draws", len(ls))
    if o.end != "ok" or len(ls) != 160:
        return f"{code}: {o.end} {o.exc} {len(ls)} draws"
    v = [int(x) for x in ls]
    if min(v) < 0 or max(v) >= n:
        return f"{code}: outside: {min(v)}..{max(v)}"
    for m in (2, 3, 4):
        if len({x % m for x in v}) < m:
            return f"{code}: in 160 draws only {({x % m for x in v})} mod {m}"
        if len({x * m // n for x in v}) < m:
            return (f"{code}: 160 draws reach only parts "
                    f"{({x * m // n for x in v})} of {m}: {v[:40]}")
    return None


kind("C27", "every part is reached", 1, g_spread, j_spread, cost=12)


def g_randbad(g):
    return {"code": g.pick(["RR 0", "RR -5", "5RR 5", "5RR 3", "RC[]",
                            "RC\"\"", "RC 0,0", "RR`a`", "RC`ab`", "SH`ab`",
                            "RR()", "RC()", "SH()", "SH[]", "SH\"\"",
                            "5RR()", "()RR 5", "[]RR 5", "RR[]", "SH 5,5",
                            "RR,3", "(RC _)[7]", "(SH _)[7]", "(_RR 6)5",
                            "(RR _)1", "`a`RR 5", "RC 1,()", "RR \"x\""]),
            "n": g.pick([1, 3])}


RANDBAD = {"SH[]": "[]", "SH\"\"": '""', "SH 5,5": "[]", "RR[]": "[]",
           "[]RR 5": "[]", "RR`a`": "()", "RC`ab`": "()", "SH`ab`": "()",
           "RR()": "()", "RC()": "()", "SH()": "()", "5RR()": "()",
           "`a`RR 5": "()", "(RC _)[7]": "7", "(SH _)[7]": "[7]",
           "(_RR 6)5": "5", "(RR _)1": "0"}


def j_randbad(case, rec):
    e = case["code"]
    w = RANDBAD.get(e)
    c = e
    if e[0] == "(" and e[1] != ")":
        c = "(" + e.replace(")", ") ", 1) + ")"
    o = rrun(f"P 1;x:({c});P RP x;()")
    rec.seen("edge", e, o.end)
    if w is not None:
        if o.end != "ok" or o.out != f"1\n{w}\n":
            return f"{c}: expected {w}, observed {o!r}"
    elif e == "()RR 5":
        if o.end != "ok" or not re.fullmatch(r"1\n[0-4]\n", o.out):
            return f"{c}: {o!r}"
    elif e == "RR,3":
        # RR 0 has no possible result
        if o.end != "fatal":
            return f"{c}: {o!r}"
    elif o.end != "fatal" or o.out != "1\n" or not o.err:
        return f"{c}: expected a fatal error, observed {o!r}"
    return None


kind("C27", "nothing to choose from", .2, g_randbad, j_randbad)


# ---------------------------------------------------------------- C28

def py(v):
    """Model value -> real object."""
    t = real.mods()["ptypes"]
    if type(v) is Sc:
        return t.Scalar(v.s)
    if type(v) is Li:
        return t.List([py(x) for x in v.t])
    if type(v) is Ra:
        return t.Range(v.lo, t.nil if v.hi is None else v.hi)
    if type(v) is Pa:
        return t.Pattern(v.raw, v.fl)
    return t.nil


def same(r, v):
    return repr(r) == rep(v)


def jval(v):
    """Model value -> JSON (so that cases can be replayed)."""
    if type(v) is Sc:
        return v.s
    if type(v) is Li:
        return [jval(x) for x in v.t]
    if type(v) is Ra:
        return {"lo": v.lo, "hi": v.hi}
    if type(v) is Pa:
        return {"raw": v.raw, "fl": v.fl}
    return None


def unj(j):
    if isinstance(j, str):
        return Sc(j)
    if isinstance(j, list):
        return Li([unj(x) for x in j])
    if j is None:
        return NIL
    return Ra(j["lo"], j["hi"]) if "lo" in j else Pa(j["raw"], j["fl"])


EDGE = [Sc(""), Sc("0"), Sc("00"), Sc("-0"), Sc("a"), Sc("0.0"), Sc("aaa"),
        Li(), Li([Li()]), Li([Sc("0")]), Ra(0, 0), Ra(None, 0), Ra(0, 5),
        Ra(None, 5), Ra(5, 3), Ra(-3, 2), Ra(None, None), Ra(4, None),
        Pa("", 0), Pa("a", 0), Pa("a", 2), NIL, Li([Ra(0, 3)]),
        Li([Ra(None, 3)]), Li([NIL]), Sc("1"), Sc("1.0"), Sc(" 1"),
        Li([Sc("1"), Sc("2"), Sc("1")]), Sc("abcabc"), Ra(-5, None)]


def val_of(g, want=None):
    for _ in range(20):
        v = g.pick(EDGE) if g.chance(.5) else (
            g.value(2) if g.chance(.5) else g.iterable())
        if type(v) is val.Bl or "Bl(" in repr(v):
            continue
        if want is None or type(v) in want:
            return v
    return Sc("ab")


def g_pair(g):
    a = val_of(g)
    b = a if g.chance(.3) else val_of(g)
    if type(a) is Ra and g.chance(.3):
        b = Ra({None: 0, 0: None}.get(a.lo, a.lo), a.hi)
    elif g.chance(.25):
        a, b = g.twins()
    return {"a": jval(a), "b": jval(b), "i": g.r.randrange(-8, 9),
            "s": g.pick([None, 0, 1, -1, 2, 5, -4, 9]),
            "e": g.pick([None, 0, 1, -1, 3, 7, -4, 12]), "law": 1}


def huge(v):
    return type(v) is Ra and (abs(v.lo or 0) > 500 or abs(v.hi or 0) > 500) \
        or type(v) is Li and any(map(huge, v.t))


def quiet(f):
    """Iterating over an infinite Range writes a notice."""
    def g(case, rec):
        with contextlib.redirect_stderr(io.StringIO()):
            return f(case, rec)
    return g


@quiet
def j_pair(case, rec):
    from pm.ops import veq, in_range
    A, B = unj(case["a"]), unj(case["b"])
    a, b, a2 = py(A), py(B), py(A)
    ta, tb = type(A).__name__, type(B).__name__
    rec.seen("pair", ta, tb, veq(A, B))
    if huge(A) or huge(B):
        raise Skip("huge")
    d = f"values {rep(A)} and {rep(B)}: "
    t = real.mods()["ptypes"]

    def inf(v):
        return type(v) is Ra and not v.finite
    if not (same(a, A) and same(b, B)):
        return d + f"repr gives {a!r} and {b!r}"
    # equality, hash, copies
    if (a == b) != veq(A, B) or (b == a) != (a == b) or (a != b) == (a == b):
        return d + f"== gives {a == b} and {b == a}, != gives {a != b}"
    if a != a2 or hash(a) != hash(a2):
        return d + "an equal construction is not equal"
    if a == b and hash(a) != hash(b):
        return d + f"equal but hashes differ: {hash(a)} {hash(b)}"
    c = a.copy()
    if c != a or repr(c) != repr(a) or type(c) is not type(a) or \
            hash(c) != hash(a):
        return d + f"copy() gives {c!r}"
    if bool(a) != truth(A):
        return d + f"bool() gives {bool(a)}"
    if hasattr(a, "isEmpty") and type(A) is not Sc and type(A) is not Pa:
        if a.isEmpty() == truth(A):
            return d + f"isEmpty() gives {a.isEmpty()}"
    if a.isFinite() == inf(A):
        return d + f"isFinite() gives {a.isFinite()}"
    for f in [None, "p", "P", "s", "S", "n", "l"]:
        t.List.outFormat = f
        try:
            s = str(a)
        finally:
            t.List.outFormat = None
        if s != tostr(A, f):
            return d + f"str() in format {f} gives {s!r}"
    if type(A) is Sc:
        if int(a) != toint(A) or a.toNumber() != num(A) or \
                type(a.toNumber()) is not type(num(A)):
            return d + f"numeric value {a.toNumber()!r}, int {int(a)}"
    if type(A) in (Sc, Li, Ra):
        if inf(A):
            try:
                len(a)
                return d + "an infinite Range has a length"
            except ValueError:
                pass
            it = iter(a)
            got = [next(it) for _ in range(4)]
            w = [Sc(str(A.first + k)) for k in range(4)]
        else:
            got, w = list(a), items(A)
            if len(a) != len(w) or len(got) != len(w):
                return d + f"len {len(a)}, iterated {len(got)}"
        if len(got) != len(w) or not all(map(same, got, w)):
            return d + f"iteration gives {got!r}"
        # membership
        m = (veq_in(A, B) if type(A) is Li else
             B.s in A.s if type(A) is Sc and type(B) is Sc else
             in_range(B, A) if type(A) is Ra else False)
        if (b in a) != m:
            return d + f"'in' gives {b in a}, expected {m}"
        # indexing
        i = case["i"]
        e = r = None
        try:
            e = get_int(A, i)
        except BadIndex:
            e = "IndexError"
        for idx in (i, t.Scalar(i)):
            try:
                r = a[idx]
            except IndexError:
                r = "IndexError"
            if e == "IndexError" or r == "IndexError":
                if r != e:
                    return d + f"item {i}: {r!r}, expected {e!r}"
            elif not same(r, e):
                return d + f"item {i}: {r!r}, expected {rep(e)}"
        s, q = case["s"], case["e"]
        e = get_slice(A, s, q)
        for idx in (slice(s, q), t.Range(s, t.nil if q is None else q)):
            r = a[idx]
            if not same(r, e):
                return d + f"slice {s}:{q}: {r!r}, expected {rep(e)}"
        if repr(a) != rep(A):
            return d + f"indexing changed the value to {a!r}"
    return None


def veq_in(A, B):
    from pm.ops import veq
    return any(veq(x, B) for x in A.t)


kind("C28", "pairs of values", 4, g_pair, j_pair)


def g_search(g):
    A = val_of(g, (Sc, Li, Ra))
    if type(A) is Sc:
        k = g.r.randrange(0, max(1, len(A.s)))
        B = Sc(A.s[k:k + g.pick([0, 1, 1, 2])]) if g.chance(.7) else \
            Sc(g.pick(["a", "z", "", "1"]))
    elif type(A) is Li and A.t and g.chance(.7):
        B = g.pick(A.t)
    else:
        B = g.pick([Sc(str(g.r.randrange(-6, 9))), Sc("2.5"), Sc("a"), NIL,
                    Sc(" 2"), Sc("2x"), Li(), Sc("3.0")])
    return {"a": jval(A), "b": jval(B), "i": g.r.randrange(-6, 6), "law": 1}


@quiet
def j_search(case, rec):
    from pm.ops import veq, in_range
    A, B, i = unj(case["a"]), unj(case["b"]), case["i"]
    if huge(A):
        raise Skip("huge")
    a, b = py(A), py(B)
    d = f"{rep(A)} searched for {rep(B)}: "
    fin = not (type(A) is Ra and not A.finite)
    if type(A) is Ra:
        i = max(i, -len(a) if fin else 0)
    # positions, straight from the definition
    if type(A) is Sc:
        pos = [k for k in range(len(A.s) - len(B.s) + 1)
               if A.s[k:k + len(B.s)] == B.s] if type(B) is Sc else None
        cnt = A.s.count(B.s) if type(B) is Sc else None
    elif type(A) is Li:
        pos = [k for k, x in enumerate(A.t) if veq(x, B)]
        cnt = len(pos)
    else:
        pos = [toint(B) - A.first] if in_range(B, A) and \
            num(B) == toint(B) else []
        cnt = int(in_range(B, A))
        if type(B) is not Sc:
            pos = None
    rec.seen("search", type(A).__name__, type(B).__name__,
             "no" if pos is None else min(len(pos), 2))
    try:
        r = a.index(b, i)
    except ValueError:
        r = "ValueError"
    except TypeError:
        r = "TypeError"
    # as for native sequences, a negative start counts from the end
    lo = max(0, i + len(a)) if i < 0 else i
    w = "TypeError" if pos is None else next((k for k in pos if k >= lo),
                                             "ValueError")
    if r != w:
        return d + f"index from {i} gives {r!r}, expected {w!r}"
    n = a.count(b)
    if cnt is None:
        if repr(n) != "()":
            return d + f"count gives {n!r}"
    elif n != cnt:
        return d + f"count gives {n!r}, expected {cnt}"
    if pos is not None and type(A) is not Ra and (b in a) != bool(pos):
        return d + f"'in' and index disagree: {b in a} {pos}"
    if not same(a, A) or not same(b, B):
        return d + "searching changed a value"
    return None


kind("C28", "searching", 2, g_search, j_search)


def g_hist(g):
    ops = []
    for _ in range(g.pick([3, 6, 10])):
        k = g.pick(["append", "extend", "set", "copy", "new", "scset",
                    "rset", "bad", "build"])
        ops.append([k, g.r.randrange(0, 4), g.r.randrange(0, 4),
                    g.r.randrange(-4, 6), jval(val_of(g)),
                    [jval(val_of(g)) for _ in range(g.pick([0, 1, 2]))],
                    g.pick(["list", "tuple", "map", "List", "Range", "Scalar",
                            "gen", "self"])])
    return {"ops": ops, "law": 1}


@quiet
def j_hist(case, rec):
    """A history of mutations on a pool of Lists against Python lists."""
    t = real.mods()["ptypes"]
    pool = [t.List(), t.List([t.Scalar("a")]), t.List(), t.List()]
    ref = [[], [Sc("a")], [], []]
    d = []
    for k, i, j, n, v, vs, how in case["ops"]:
        V, VS = unj(v), [unj(x) for x in vs]
        if huge(V) or any(map(huge, VS)):
            raise Skip("huge")
        d.append([k, i, j, n, rep(V), how])
        desc = f"after {d}: "
        rec.seen("history", k, how if k in ("extend", "build") else "")
        L = pool[i]
        if k == "append":
            o = py(V)
            L.append(o)
            ref[i].append(V)
        elif k in ("extend", "build"):
            vs_, src = VS, [py(x) for x in VS]
            if how == "tuple":
                src = tuple(src)
            elif how == "map":
                src = map(lambda x: x, src)
            elif how == "gen":
                src = (x for x in src)
            elif how == "List":
                src = t.List(src)
            elif how == "Range":
                src, vs_ = t.Range(n, n + 3), [Sc(str(n + q)) for q in
                                               range(3)]
            elif how == "Scalar":
                if k == "build":
                    src, vs_ = range(2), [Sc("0"), Sc("1")]
                else:
                    src, vs_ = t.Scalar("xy"), [Sc("x"), Sc("y")]
            elif how == "self":
                src, vs_ = pool[j], list(ref[j])
            if k == "extend":
                L.extend(src)
                ref[i] = ref[i] + list(vs_)
            else:
                pool[i] = t.List(src)
                ref[i] = list(vs_)
        elif k == "set":
            if not ref[i]:
                try:
                    L[n] = py(V)
                    return desc + "assigned an item of an empty List"
                except (IndexError, ZeroDivisionError):
                    continue
            L[n] = py(V)
            ref[i][n % len(ref[i])] = V
        elif k == "copy":
            pool[j] = L.copy()
            ref[j] = list(ref[i])
            if i == j:
                pass
        elif k == "new":
            pool[j] = t.List(L)
            ref[j] = list(ref[i])
        elif k == "rset":
            # copies are independent on all levels
            if ref[i] and type(ref[i][-1]) is Li and ref[i][-1].t:
                c = L.copy()
                c[-1][0] = t.Scalar("changed")
        elif k == "scset":
            s = t.Scalar("abc")
            c = s.copy()
            c[n] = "Q" if n % 2 else t.Scalar("Q")
            w = list("abc")
            w[n % 3] = "Q"
            if str(c) != "".join(w) or str(s) != "abc":
                return desc + f"Scalar item assignment: {c!r} {s!r}"
        elif k == "bad":
            for f in (lambda: L.append(5), lambda: L.append("x"),
                      lambda: L.append([]), lambda: L.extend([1]),
                      lambda: L.extend(5),
                      lambda: L.extend([t.Scalar(1), 2]),
                      lambda: L.extend(t.Pattern("a")),
                      lambda: t.List(5), lambda: t.List("abc"),
                      lambda: L.extend(t.nil)):
                try:
                    f()
                    return desc + "an invalid operand was accepted: " + \
                        f"{L!r}"
                except TypeError:
                    pass
            try:
                L.extend(t.Range(1, t.nil))
                return desc + "extended with an infinite Range"
            except ValueError:
                pass
        for p, r in zip(pool, ref):
            if repr(p) != rep(Li(r)) or len(p) != len(r):
                return desc + f"a List is {p!r}, expected {rep(Li(r))}"
        if sum(len(r) for r in ref) > 300:
            raise Skip("long")
    return None


kind("C28", "histories of mutations", 2, g_hist, j_hist, cost=2)


def g_conv(g):
    return {"x": g.pick([0, 1, -1, 5, 2.0, 2.5, -0.5, 1e20, 1e-7, 1e16, True,
                         False, 10**30, -3.0, 1.5e300, 0.1, 123456789.125,
                         "abc", "", "5", "007"]),
            "s": g.pick(["5", "-5", "5.5", ".5", "5.", "5e3", "5e+3", " 5",
                         "5 ", "\n-7x", "--5", "+5", "1e-3", "1_000", "٣",
                         "0x10", "inf", "nan", "-", ".", "", "-.5", "5.5.5",
                         "1e5", "- 5", "\t12\n", "-0", "-0.0", "1.e+2",
                         "00012", "99999999999999999999", "1e+400"]),
            "law": 1}


def j_conv(case, rec):
    t = real.mods()["ptypes"]
    x = case["x"]
    s = t.toPipType(x)
    w = (str(int(x)) if isinstance(x, (bool, int)) else
         str(int(x)) if isinstance(x, float) and str(x).endswith(".0") else
         str(x))
    rec.seen("conversion", type(x).__name__, case["s"])
    if str(s) != w or str(t.Scalar(x)) != w or s != t.Scalar(w):
        return f"Scalar of {x!r} is {s!r}"
    q = case["s"]
    a, b = t.Scalar(q), Sc(q)
    if a.toNumber() != num(b) or int(a) != toint(b) or bool(a) != truth(b):
        return f"Scalar {q!r}: {a.toNumber()!r} {int(a)} {bool(a)}"
    for o, e in (([1, "a"], None), (range(3, 6), "(3,6)"), (None, "()"), ([], "[]")):
        if e and repr(t.toPipType(o)) != e:
            return f"toPipType({o!r}) is {t.toPipType(o)!r}"
    if t.Nil() is not t.nil or t.nil.copy() is not t.nil:
        return "nil is not unique"
    return None


kind("C28", "conversions", 1, g_conv, j_conv)


BITS = ["a", "b", "1", "2", '"x"', "`a`", "a+1", "a+2", "a-1", "a.b", "(a b)",
        "[a]", "[a;b]", "_", "i:1", "i:2", "x:1", "{a}", "{b}", "()", "#a",
        "I a{1}", "I a{2}", "I a{1}EL{2}", "F i,2{a}", "F x,2{a}", "L 2{a}",
        "W a{b}", "P a", "O a", "a@0", "a@1", "$+a", "$*a", "a+*b", "a-*b",
        "S a", "H a", "1.0", '"1"', "01", "a?b 1", "a?b 2", "SWAP a b", "yEA:1"]


def g_fneq(g):
    """Functions that differ in one place or in none."""
    n = g.pick([0, 1, 1, 2, 2, 3])
    p = [g.pick(BITS) for _ in range(n)]
    q = list(p)
    k = g.r.random()
    if q and k < .5:
        q[g.r.randrange(n)] = g.pick(BITS)
    elif k < .6:
        q.insert(g.r.randrange(n + 1), g.pick(BITS))
    elif q and k < .7:
        del q[g.r.randrange(n)]
    elif k < .75:
        g.r.shuffle(q)
    a, b = ("{" + g.pick([";", "; ", "\n"]).join(v) + g.pick(["", "", ";"])
            + "}" for v in (p, q))
    e = g.pick(["x==y", "x==y", "#UQ[x y x]", "x N[1 y]", "[1 y x]@?x",
                "x NI[y]", "[x]==[y]", "[x y]RM x", "[x y]RM[y]", "x==x",
                "(x 5)", "UQ[[x][y]]", "[1 x]==[1 y]", "[y x y]@*x",
                "x=y", "x!=y", "[x]=[y]", "[y 1]R x 3", "x==(y)", "!x",
                "[x]N[[y]]", "[x y 1]^x", "y TR[x y]\"ab\"", "UQ[y y x x]"])
    return {"code": f"x:{a};y:{b};P RP({e});[x y]", "fmt": "p", "w": g.chance(.2)}


kind("C28", "equal and different functions", 2, g_fneq, diff)
