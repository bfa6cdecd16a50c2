"""Workload generators: values, expressions, programs, token soup.

Everything is derived from a random.Random, so a case is replayable from its
text alone and a run from its seed.
"""
import random

from . import val
from .syn import OPS
from .val import Sc, Li, Ra, Pa, NIL, rep, sc

INTS = [0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24,
        25, 31, 32, 36, 37, 50, 64, 99, 100, 127, 128, 255, 256, 1000, 1001]
BIG = [2**31, 2**32 + 1, 2**53, 2**53 + 1, 2**53 - 1, 2**63, 2**64 - 1,
       10**15, 10**16 + 1, 10**18 + 7, 10**20, 10**25 + 3, 3**50, 123456789,
       98765432109876543210]
FLOATS = ["0.5", "1.5", "2.5", "3.5", "0.25", "1.0", "2.0", "10.0", "0.1",
          "3.14159", "2.75", "100.5", "0.0", "0.001", "7.25", "1.75", "12.125"]
WORDS = ["", "a", "b", "ab", "abc", "Hello", "World", "foo bar", "aaa",
         "banana", "x,y,z", "A1b2", "  pad  ", "tEsT", "mississippi", "zz",
         "a b  c", "line1\nline2", "\t", "~!", "()", "[]", "a.b*c", "\\d",
         "12ab", "-5x", "3.7", "-2.5", "007", "0", "00", "0.0", "1e3", ".5",
         "-", "é", "ß", "İ", "日本", "don't", "o'neil's", "q\"uote",
         "\\", "a\\b", "`", "\n", "0\n", "xyzzy", "1010", "ff", "7f", "ZZ"]
ALPHA = "abcABC012 .-+xyz,_"
PATS = [("a", 0), ("[a-z]", 0), (r"\d+", 0), (r"\w", 0), (".", 0),
        ("(.)(.)", 0), ("(a)|b", 0), ("a*", 0), ("^a", 0), ("b$", 0),
        (r"\s+", 0), ("", 0), ("x?", 0), ("(a+)(b*)", 0), ("[aeiou]", 2),
        ("L", 2), ("^.", 8), (".+", 16), (r"\w+", 256), ("é", 2),
        ("(?:ab)+", 0), (r"(\w)\1", 0), ("l+", 0), ("an", 0), ("a|", 0),
        (r"\b", 0), ("z", 0), ("(b)?a", 0), (r"\.", 0), ("`", 0)]

GVARS = list("hiklmnopstuvwxyz")
LVARS = list("abcde")
UP_CONST = ["AZ", "CZ", "PA", "PI", "VW", "VY", "XA", "XC", "XD", "XI", "XL",
            "XN", "XU", "XV", "XW", "XX", "XY"]


class G:
    def __init__(self, rng):
        self.r = rng

    # ---- values
    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def int_(self):
        k = self.r.random()
        if k < .62:
            n = self.pick(INTS)
        elif k < .85:
            n = self.r.randrange(0, 30)
        elif k < .93:
            n = self.r.randrange(0, 100000)
        else:
            n = self.pick(BIG) + self.r.randrange(-2, 3)
        if self.chance(.25):
            n = -n
        return n

    def num(self):
        if self.chance(.8):
            return sc(self.int_())
        if self.chance(.7):
            t = self.pick(FLOATS)
            return Sc("-" + t if self.chance(.3) else t)
        return sc(round(self.r.uniform(-50, 50), self.r.randrange(1, 6)))

    def small(self):
        return sc(self.r.randrange(0, 7))

    def word(self):
        k = self.r.random()
        if k < .6:
            return Sc(self.pick(WORDS))
        if k < .9:
            n = self.r.randrange(0, 9 if self.chance(.85) else 40)
            return Sc("".join(self.pick(ALPHA) for _ in range(n)))
        n = self.r.randrange(0, 5)
        return Sc("".join(chr(self.pick([self.r.randrange(32, 127),
                                         self.r.randrange(160, 1500),
                                         0x1F600 + self.r.randrange(60)]))
                          for _ in range(n)))

    def scalar(self):
        return self.num() if self.chance(.55) else self.word()

    def list_(self, depth=2, of=None):
        n = self.pick([0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6])
        if depth < 2 or of:
            n = self.long(n, .06)
        f = of or (lambda: self.value(depth - 1))
        return Li(f() for _ in range(n))

    def long(self, n, p=.06):
        """n, or now and then a size that ordinary cases do not reach."""
        return self.r.randrange(5, 24) if self.chance(p) else n

    def nums(self):
        return self.list_(of=self.num)

    def strs(self):
        return self.list_(of=self.word)

    def matrix(self):
        r, c = self.r.randrange(0, 4), self.r.randrange(1, 4)
        ragged = self.chance(.25)
        f = self.num if self.chance(.7) else self.scalar
        return Li(Li(f() for _ in range(
            self.r.randrange(0, 4) if ragged else c)) for _ in range(r))

    def range_(self, inf=.12):
        a = self.r.randrange(-4, 9)
        lo = None if self.chance(.25) else a
        if self.chance(inf):
            hi = None
        else:
            hi = (lo or 0) + self.long(
                self.pick([-2, 0, 0, 1, 1, 2, 3, 4, 5, 7]))
        if lo is None and hi is None:
            lo = a
        return Ra(lo, hi)

    def pattern(self):
        if self.chance(.85):
            return Pa(*self.pick(PATS))
        return Pa("".join(self.pick(["a", "b", ".", "*", "(b)", "[a-c]", "+",
                                     "|", "c", r"\d"])
                          for _ in range(self.r.randrange(1, 5))),
                  self.pick([0, 0, 2, 8, 16, 256]))

    def value(self, depth=2):
        k = self.r.random()
        if depth > 0 and k < .30:
            return self.list_(depth)
        if k < .38:
            return self.range_()
        if k < .43:
            return self.pattern()
        if k < .47:
            return NIL
        return self.scalar()

    def same(self, v, p=.5):
        """v with some parts spelled as another value of the same content."""
        if type(v) is Ra and v.finite and self.chance(p):
            if self.chance(.6):
                return Li(Sc(str(i)) for i in range(v.first, v.hi)[:20])
            return Ra(None if v.lo == 0 else v.lo, v.hi if v.size()
                      else v.first)
        if type(v) is Li:
            t = [self.same(x, p) for x in v.t]
            ns = [int(x.s) for x in t if type(x) is Sc and x.s.isdigit()
                  and x.s == str(int(x.s))]
            if len(ns) == len(t) and ns and self.chance(p) and \
                    ns == list(range(ns[0], ns[0] + len(ns))):
                return Ra(ns[0], ns[-1] + 1)
            return Li(t)
        if type(v) is Sc and v.s and self.chance(p / 2):
            if v.s.isdigit():
                return Sc(self.pick(["0" + v.s, v.s + ".0", v.s + "."]))
            if self.chance(.3):
                return Sc(v.s.swapcase())
        return v

    def twins(self):
        """Two nested values of (nearly) the same content."""
        k = self.r.random()
        v = (self.value(2) if k < .3 else
             Li(self.pick([self.range_, self.nums, self.scalar,
                           lambda: self.value(2)])()
                for _ in range(self.r.randrange(1, 4))) if k < .8 else
             self.range_())
        w = self.same(v)
        return (v, w) if self.chance(.5) else (w, v)

    def iterable(self):
        k = self.r.random()
        if k < .45:
            return self.list_(2)
        if k < .6:
            return self.nums()
        if k < .72:
            return self.range_()
        return self.word()

    def of(self, ty):
        f = {
            "n": self.num, "m": self.small, "s": self.word, "l": self.list_,
            "N": self.nums, "M": self.matrix, "q": self.iterable,
            "r": self.range_, "p": self.pattern, "a": self.value,
            "S": self.strs, "c": self.scalar,
        }.get(ty)
        if f:
            return f()
        if ty == "e":
            return sc(self.pick([0, 1, 2, 3, 4, 5, -1, -2, 10]))
        if ty == "x":
            return self.word() if self.chance(.4) else self.pattern()
        if ty == "i":
            k = self.r.random()
            if k < .7:
                return sc(self.r.randrange(-6, 9))
            if k < .85:
                return self.range_(.2)
            if k < .95:
                return Li(sc(self.r.randrange(-4, 6))
                          for _ in range(self.r.randrange(0, 4)))
            return self.value(1)
        if ty == "B":       # base
            return sc(self.pick([2, 2, 3, 8, 10, 16, 36, 7, 1, 0, -2, 37]))
        if ty == "d":       # digits text
            b = self.r.randrange(1, 7)
            return Sc(("-" if self.chance(.2) else "") + "".join(
                self.pick("0011223456789abzAZ.") for _ in range(b)))
        raise KeyError(ty)

    def src(self, v):
        """Source text denoting value v."""
        return "(" + rep(v) + ")" if val.rep(v).startswith("-") else rep(v)

    # ---- expressions
    def leaf(self, ty, env):
        """env: names that may be used as variables."""
        if ty == "b":
            return self.block(1, env)
        if ty == "f":
            return self.block(2, env)
        if ty == "v":
            return self.pick(env or ["y"])
        if env and self.chance(.45):
            return self.pick(env)
        if self.chance(.04):
            return self.pick(GVARS + UP_CONST)
        return self.src(self.of(ty))

    def block(self, arity, env, depth=1):
        names = LVARS[:max(arity, 1)]
        if self.chance(.35):
            e = self.expr(depth, self.pick("nsaq"), ["_", "_", "B"][:3 if
                          arity > 1 else 2])
            if "_" in e or "B" in e:
                return "(" + e + ")"
        pre = ""
        if self.chance(.12):
            pre = self.pick(["P a;", "U i;", "Y a;", "b:a;", "i+:a;",
                             "l AE:a;"])
        return "{" + pre + self.expr(depth, self.pick("nsaq"),
                                     names + names[:1]) + "}"

    def expr(self, depth, ty="a", env=()):
        env = list(env)
        if depth <= 0 or self.chance(.18):
            return self.leaf(ty, env)
        if ty in "bf":
            return self.block(1 if ty == "b" else 2, env, depth - 1)
        if ty == "v":
            return self.leaf(ty, env)
        k = self.r.random()
        if k < .06:
            n = self.long(self.r.randrange(0, 4), .03)
            return "[" + ";".join(self.expr(depth - 1, ty, env)
                                  for _ in range(n)) + "]"
        if k < .10:
            return "(" + self.block(1, env, depth - 1) + " " + \
                self.expr(depth - 1, ty, env) + ")"
        if k < .15:
            return self.meta(depth, env)
        if k < .18:
            return "(" + self.expr(depth - 1, "q", env) + " " + \
                self.expr(depth - 1, "i", env) + ")"
        if k < .22:
            return self.chain(depth, env)
        cand = BYRES.get(ty) if self.chance(.75) else None
        text, arity, sig = self.pick(cand or SIGS)
        return self.opexpr(text, arity, sig, depth, env)

    def opexpr(self, text, arity, sig, depth, env, wild=.15):
        tys = sig[:-1]
        if self.chance(wild):
            tys = "a" * arity
        sub = [self.expr(depth - 1, t, env) for t in tys]
        sub = [self.wrap(s) for s in sub]
        sp = " "
        if arity == 1:
            e = text + sp + sub[0]
        elif arity == 2:
            e = sub[0] + sp + text + sp + sub[1]
        else:
            e = sub[0] + sp + text + sp + sub[1] + sp + sub[2]
        return "(" + e + ")" if self.chance(.6) else e

    def wrap(self, s):
        return s if self.chance(.25) or s[:1] in "([{\"'" or len(s) == 1 \
            else "(" + s + ")"

    def chain(self, depth, env):
        n = self.long(self.pick([2, 2, 2, 3, 4]), .03)
        ops = ["<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE",
               "NE", "#=", "#<", "#>", "~="]
        ty = self.pick("nnsaq")
        out = self.wrap(self.expr(depth - 1, ty, env))
        for _ in range(n - 1):
            o = self.pick(ops)
            t = "x" if o == "~=" else ty
            out += " " + o + " " + self.wrap(self.expr(depth - 1, t, env))
        return "(" + out + ")"

    def meta(self, depth, env, what=None):
        what = what or self.pick(["fold", "fold", "scan", "map"])
        if what == "map":
            cand = [x for x in SIGS if x[1] == 1]
            text, _, sig = self.pick(cand)
            m = "*"
        else:
            cand = FOLDABLE
            text, _, sig = self.pick(cand)
            m = "$" if what == "fold" else "\\$"
        k = self.pick([0, 1, 2, 3, 3, 4])
        if self.chance(.2):
            arg = self.expr(depth - 1, self.pick("Nqr"), env)
        else:
            arg = "[" + ";".join(self.expr(depth - 2, sig[0], env)
                                 for _ in range(k)) + "]"
        if self.chance(.1):
            m = self.pick(["$*", "\\$*", "**" if what != "map" else "*"])
        return m + text + " " + self.wrap(arg)

    # ---- programs
    def program(self, size=6, env=("a", "b"), depth=2):
        """A multi-statement program with state, calls and control flow."""
        self.budget = size
        env = list(env)
        out = []
        while self.budget > 0:
            out.append(self.stmt(env, depth))
        if self.chance(.6):
            out.append(self.expr(depth, "a", env))
        return self.join(out)

    def join(self, stmts):
        out = ""
        for s in stmts:
            if out and not out.endswith("}"):
                out += self.pick([";", ";", "; ", "\n;"])
            elif out:
                out += self.pick(["", " ", "\n"])
            out += s
        return out

    def body(self, env, depth):
        n = self.long(self.pick([1, 1, 2, 2, 3]), .02)
        return "{" + self.join([self.stmt(env, depth)
                                for _ in range(n)]) + "}"

    def newvar(self, env):
        v = self.pick(["x", "y", "i", "l", "p", "c", "d", "z", "a", "b", "m"])
        if v not in env:
            env.append(v)
        return v

    def stmt(self, env, depth):
        self.budget -= 1
        k = self.r.random()
        d = depth
        if k < .16:
            e = self.expr(d, "a", env)
            return self.newvar(env) + ":" + self.wrap(e)
        if k < .22:
            op = self.pick(["+", "-", "*", ".", "AE", "AL", "PE", "X", "%",
                            ",", "@", "H", "S", "|", "&", "J", "RM", "BX"])
            return self.pick(env) + op + ":" + self.wrap(
                self.expr(d - 1, "n", env))
        if k < .28:
            return self.pick(env) + "@" + self.wrap(
                self.expr(d - 1, "i", env)) + ":" + self.wrap(
                self.expr(d - 1, "a", env))
        if k < .42:
            return self.pick(["P", "P", "O", "Y", "YP", "YO"]) + " " + \
                self.expr(d, "a", env)
        if k < .46:
            return self.pick(["U", "D", "++", "--"]) + self.pick(env)
        if k < .50:
            return self.pick(["PO", "DQ"]) + " " + self.pick(env)
        if k < .54:
            return self.pick(env) + self.pick([" PU ", " PB "]) + self.wrap(
                self.expr(d - 1, "a", env))
        if k < .58:
            x, y = self.pick(env), self.pick(env)
            return x + "::" + y
        if k < .62:
            n = self.pick([1, 2, 2, 3])
            names = " ".join(self.newvar(env) for _ in range(n))
            return "[" + names + "]:" + self.wrap(self.expr(d, "q", env))
        if self.budget <= 0 or k < .68:
            return self.expr(d, "a", env)
        if k < .76:
            s = "I " + self.wrap(self.expr(d, "a", env)) + self.body(env,
                                                                     d - 1)
            if self.chance(.6):
                s += self.pick(["E", "EL"]) + self.pick(
                    [self.body(env, d - 1),
                     "I " + self.wrap(self.expr(d - 1, "n", env)) +
                     self.body(env, d - 1)])
            return s
        if k < .84:
            v = self.pick(["i", "x", "c", "[x y]", "l@0"])
            it = self.wrap(self.expr(d, "q", env))
            if v[-1] in "ixc" and v not in env:
                env.append(v)
            return "F" + v + it + self.body(env, d - 1)
        if k < .88:
            return "L" + self.wrap(self.pick(
                ["3", "2", self.expr(d, "m", env)])) + self.body(env, d - 1)
        if k < .92:
            v = self.pick(["i", "m", "x"])
            body = self.body(env, d - 1)
            return self.pick([
                f"{v}:{self.r.randrange(0, 5)};W {v}{{D{v};{body[1:]}",
                f"{v}:0;W(U{v})<{self.r.randrange(1, 5)}{body}",
                f"{v}:0;T {v}>{self.r.randrange(0, 4)}{{U{v};{body[1:]}"])
        if k < .95:
            f = self.pick(["z", "x", "q" if self.chance(.1) else "p"])
            return f + ":" + "{" + self.join(
                [self.stmt(env[:] + ["a", "b"], d - 1)
                 for _ in range(self.pick([1, 1, 2]))] +
                [self.expr(d - 1, "a", ["a", "b"])]) + "};(" + f + " " + \
                " ".join(self.wrap(self.expr(d - 1, "a", env))
                         for _ in range(self.pick([0, 1, 2]))) + ")"
        if k < .97:
            return "LR" + self.wrap(self.src(self.pattern())) + " " + \
                self.wrap(self.src(self.word())) + self.pick(
                ["{P$0}", "{O$0;O$(}", "{l AE:$$}", "{x:$`.$'}"])
        return self.pick(["WG", "P q", "x:q", "P\\g", "P\\a", "P g", "$_",
                          "P $0", "Y _", "I i{(f i-1)}", "P$__"])


# (text, arity, "operand types" + result type)
_S = """
+ nnn|- nnn|* nnn|/ nnn|% nnn|// nnn|AD nnn|BA nnn|BO nnn|BX nnn|AT nnn
CM aan|CM nnn|\\< nnn|>\\ nnn|RZ nnn|RN nnn|** nen|E nen|EE nen|RT nen
FB dBn|TB nBs|, mmr|\\, mmr|, nnr|TD nBN|FD NBn
+ 1nn|- 1nn|/ 1nn|% 1nn|HV 1nn|HU 1nn|DB 1nn|SQ 1nn|** 1nn|E 1nn|EE 1en|RT 1nn
EX 1nn|LN 1nn|LB 1nn|LD 1nn|SI 1nn|CO 1nn|TA 1nn|AT 1nn|RD 1nn|DG 1nn|BN 1nn
BL 1nn|\\< 1nn|>\\ 1nn|RZ 1nn|RN 1nn|U 1vn|D 1vn|++ 1vn|-- 1vn|# 1qn|A 1sn
C 1ms|AB 1nn|SG 1nn|FB 1dn|TB 1ns|, 1mr|\\, 1mr|TD 1nN|FD 1Nn
. sss|. aas|. 1ps|K 1ps|X 1sp|X sms|RM qca|DC sss|\\\\ sss|\\> sss|<\\ sss
TM sms|\\\\ 1ss|\\> 1ss|<\\ 1ss|TM 1ss|LC 1ss|UC 1ss|SC 1ss|TC 1ss|IC 1ss
WR sss|~ sxs|R1 1qq|RV 1qq|RF 1qq|PZ 1qq|QR 1Mq|QP 1Mq|Z 1Ml|ZD 1Ml|ZJ 1Ml
H 1qq|S 1qq|WV 1Ml|UW 1ql|CP 1Ml|CG 1mM|ZG 1mM|OG 1mM|EY 1mM|^ 1sl|<> 1ql
CH 1ql|J 1Ss|^ sxl|^@ qil|@? qcn|@* qcN|<> qml|CH qml|J lss|JW lss|RL qml
Z qql|ZD qql|ZJ qql|H qmq|S qmq|WV qql|UW qml|CP qql|CP qml|CG mmM|ZG mmM
OG mmM|AE qal|AL qql|PE qal|PU vaa|PB vaa|PK via|PO 1va|DQ 1va|CB qml|CB Nml
MX 1Nn|MN 1Nn|SN 1Nl|SS 1Sl|DN 1Nl|DS 1Sl|UQ 1ll|EN 1ql|PM 1ql|FL 1Ml
FA 1ll|RP 1as|ST 1as|N aqn|NI aqn|\\! 1an|\\& aaa|\\O aaa|! 1an|& aaa
O2 aaa|== aan|== ccn|@ qia|@ qma|@< qmq|@> qmq|@ 1qa|@< 1qq|@> 1qq
M bqq|M bqq|MC bmM|ME fql|MJ bqs|MM bMl|MP fql|MS bqn|MU fMl|MF bql|FI bql
FN bql|FE fql|FU fMl|FX bqN|FJ bqs|SK bql|DK bql|FI 1ql|FN 1ql|FU 1Ml|FX 1qN
FJ 1qs|V 1ca|M 1Nn|N 1Nn
RA3 qia a|TR3 sss s|R3 sxs s|R3 qaa q|MR3 xfs l|MR3 ssf l|MR3 sxf l|MR3 fss l|MR3 sfs l|MZ3 fqq l|?3 aaa a|\\?3 aaa a
: vaa|Y 1aa
"""


def _sigs():
    out = []
    for item in _S.replace("\n", "|").split("|"):
        item = item.strip()
        if not item:
            continue
        t, s = item.split(" ", 1)
        s = s.replace(" ", "")
        arity = 2
        if s.startswith("1"):
            arity, s = 1, s[1:]
        t = t.replace("\\\\", "||").replace("\\>", "|>").replace(
            "<\\", "<|").replace(">\\", ">|").replace("\\<", "|<")
        t = {"\\O": "\\|", "O2": "|", "R1": "R"}.get(t, t)
        if t.endswith("3"):
            arity, t = 3, t[:-1]
        if t not in OPS[arity]:
            raise AssertionError(f"gen table: {item!r} -> {t!r}/{arity}")
        if len(s) != arity + 1:
            raise AssertionError(f"gen table: {item!r} {s!r}")
        out.append((t, arity, s))
    return out


SIGS = _sigs()
BYRES = {}
for _x in SIGS:
    BYRES.setdefault(_x[2][-1], []).append(_x)
_groups = {"q": "qlNMsr", "a": "nsqlaN", "l": "lNM", "x": "sp", "c": "ns",
           "N": "N", "i": "nN", "S": "l", "d": "s", "B": "n"}
for _k, _v in _groups.items():
    BYRES[_k] = [x for t in _v for x in BYRES.get(t, []) if len(t) == 1]
for _k in "mer":
    BYRES.pop(_k, None)
BYRES["r"] = [x for x in SIGS if x[2][-1] == "r"]
FOLDABLE = [x for x in SIGS if x[1] == 2 and x[0] not in (":", "PU", "PB",
                                                          "PK", "V")]
FOLDABLE += [(t, 2, "nnn") for t in
             ("<", ">", "=", "<=", ">=", "!=", "LT", "Q", "NE")]
_have = {(t, a) for t, a, _ in SIGS}
MISSING = [(o, a) for a in (1, 2, 3) for o in OPS[a] if (o, a) not in _have]

SOUP = (["a", "b", "x", "i", "l", "_", "AZ", "PI", "PIP", "$_", "$0", "$$",
         "\\a", "\\g", "()", "(", ")", "[", "]", "{", "}", ";", "5", "12",
         "3.5", "\"s\"", "'c", "`p`", "\\\"e\\\"", "\n", " ", "I", "E", "EL",
         "F", "W", "T", "L", "LR", "WG", ":", "::", "$+", "\\$+", "*#", "$*",
         "+:", "O", "P"] +
        [o for a in (1, 2, 3) for o in OPS[a]])


def soup(r, n):
    return "".join(SOUP[r.randrange(len(SOUP))] +
                   (" " if r.random() < .3 else "") for _ in range(n))


def mutate(r, text):
    """A small edit of program text."""
    if not text:
        return soup(r, 2)
    k = r.random()
    i = r.randrange(len(text))
    j = min(len(text), i + r.randrange(1, 4))
    if k < .3:
        return text[:i] + text[j:]
    if k < .5:
        return text[:i]
    if k < .8:
        return text[:i] + SOUP[r.randrange(len(SOUP))] + text[i:]
    q = r.randrange(len(text))
    return text[:i] + text[j:q] + text[i:j] + text[max(q, j):]
