"""Operator semantics of the reference evaluator."""
import math
import re
from fractions import Fraction

from . import syn
from .syn import OPS
from .val import (Sc, Li, Ra, Pa, Bl, NIL, ONE, ZERO, EMPTY, ITER, V, Unsure,
                  PFatal, BadIndex, InfiniteLen, LIMIT, A, IC, ML, DA,
                  sc, num, toint, truth, items, size, tostr, rep,
                  get_int, get_slice, set_item)


class LV:
    """Assignable place: base name (or tuple of LVs) plus index path."""
    __slots__ = ("base", "path", "ev")

    def __init__(self, base, path=(), ev=None):
        self.base, self.path, self.ev = base, path, ev

    def sub(self, idx):
        if isinstance(self.base, tuple):
            return LV(cyc(self.base, idx), (), None)
        return LV(self.base, self.path + (idx,), self.ev)

    def copy(self):
        if isinstance(self.base, tuple):
            return LV(tuple(x.copy() for x in self.base), self.path, self.ev)
        return LV(self.base, self.path, self.ev)


def cyc(seq, idx):
    """Cyclic int index / slice of a Python tuple."""
    n = len(seq)
    if isinstance(idx, int):
        if n == 0:
            raise BadIndex
        return seq[idx % n]
    if n == 0:
        return seq
    a, b = idx
    a = 0 if a is None else a
    b = n if b is None else b
    if a < 0:
        a += n
    if b < 0:
        b += n
    if b - a > 5000:
        raise Unsure("huge slice")
    return tuple(seq[k % n] for k in range(a, b))


# ---- regexes -----------------------------------------------------------

_inset = re.compile(r"\[[^\]]*\\[1-9]")


def compile_raw(p):
    try:
        r = re.compile(p.raw, p.fl)
    except re.error:
        try:
            re.compile("(?P<all>" + p.raw + ")", p.fl)
        except re.error:
            raise PFatal("bad regex")
        except RecursionError:
            raise Unsure("regex")
        raise Unsure("odd regex")
    except (OverflowError, RecursionError):
        raise Unsure("regex")
    if _inset.search(p.raw) or "(?(" in p.raw or "(?P<all" in p.raw \
            or "(?i" in p.raw or "(?s" in p.raw or "(?m" in p.raw \
            or "(?a" in p.raw or "(?x" in p.raw or "(?u" in p.raw \
            or "(?L" in p.raw or re.search(r"\\[1-9]\d\d", p.raw) \
            or re.search(r"\(\?(?!:|=|!|<)", p.raw):
        raise Unsure("odd regex")
    if re.search(r"[*+?}]\+", p.raw) or re.search(r"\(\?>", p.raw):
        raise Unsure("possessive")
    return r


def finditer(p, s):
    if len(s) > 3000:
        raise Unsure("long subject")
    return list(compile_raw(p).finditer(s))


def escape_pattern(v):
    return wrap(Pa(re.escape(v.s)))


def wrap(p):
    return Pa(f"(?:{p.raw})", p.fl) if len(p.raw) > 1 else p


def group_count(p):
    return compile_raw(p).groups


def pylist(v):
    """Items of a finite iterable; Python refuses infinite ones loudly."""
    if type(v) is Ra and not v.finite:
        raise PFatal("infinite")
    return items(v)


def guard_bits(n):
    if isinstance(n, int) and n.bit_length() > 12000:
        raise Unsure("huge integer")
    return n


def bound(n):
    """Positive-direction repeat count guard."""
    if n > 20000 or n < -2**62:
        raise Unsure("huge count")
    return max(n, 0)


def is_list(v):
    return type(v) is Li or type(v) is Ra


def kinds(*pairs):
    return all(type(v) in (k if isinstance(k, tuple) else (k,))
               for v, k in pairs)


class Ops:
    """Operator semantics.  self is the Machine."""

    # ---------------------------------------------------------- arithmetic
    def _num1(self, v, f):
        if type(v) is not Sc:
            return self.nope()
        return sc(f(num(v)))

    def _num2(self, a, b, f):
        if type(a) is not Sc or type(b) is not Sc:
            return self.nope()
        return sc(f(num(a), num(b)))

    def op_ABS(self, v):
        return self._num1(v, abs)

    def op_ABSOLUTEDIFF(self, a, b):
        return self._num2(a, b, lambda x, y: abs(x - y))

    def op_ADD(self, a, b):
        if type(a) is Ra and type(b) is Sc:
            a, b = b, a
        if type(a) is Sc and type(b) is Ra:
            n = num(a)
            if n != toint(a):
                return Li(self.op_ADD(a, x) for x in items(b))
            n = toint(a)
            return Ra(b.first + n, None if b.hi is None else b.hi + n)
        if type(a) is Pa and type(b) is Pa:
            return pconcat(wrap(a), wrap(b))
        return self._num2(a, b, lambda x, y: x + y)

    def op_SUB(self, a, b):
        if type(a) is Ra and type(b) is Sc:
            n = toint(b)
            if num(b) != n:
                return Li(self.op_SUB(x, b) for x in items(a))
            return Ra(a.first - n, None if a.hi is None else a.hi - n)
        if type(a) is Sc and type(b) is Ra:
            return Li(self.op_SUB(a, x) for x in items(b))
        return self._num2(a, b, lambda x, y: x - y)

    def op_MUL(self, a, b):
        if type(a) is Sc and type(b) is Pa:
            a, b = b, a
        if type(a) is Pa and type(b) is Sc:
            p = wrap(a)
            return Pa(p.raw + "{" + str(toint(b)) + "}", p.fl)
        return self._num2(a, b, lambda x, y: x * y)

    def op_DIV(self, a, b):
        if not kinds((a, Sc), (b, Sc)) or num(b) == 0:
            return self.nope()
        return sc(num(a) / num(b))

    def op_INTDIV(self, a, b):
        if not kinds((a, Sc), (b, Sc)) or num(b) == 0:
            return self.nope()
        return sc(num(a) // num(b))

    def op_MOD(self, a, b=Sc("2")):
        if not kinds((a, Sc), (b, Sc)) or num(b) == 0:
            return self.nope()
        return sc(num(a) % num(b))

    def op_INVERT(self, v):
        if type(v) is not Sc or num(v) == 0:
            return self.nope()
        return sc(1 / num(v))

    def op_NEG(self, v):
        if type(v) is Pa:
            return Pa(v.raw, v.fl ^ IC)
        return self._num1(v, lambda x: -x)

    def op_POS(self, v):
        if type(v) is Ra:
            return v
        if type(v) is Pa:
            p = wrap(v)
            return Pa(p.raw + "+", p.fl)
        return self._num1(v, lambda x: x)

    def op_DOUBLE(self, v):
        return self._num1(v, lambda x: x * 2)

    def op_HALVE(self, v):
        return self._num1(v, lambda x: x // 2 if isinstance(x, int)
                          else math.floor(x / 2))

    def op_HALVEUP(self, v):
        return self._num1(v, lambda x: -(-x // 2) if isinstance(x, int)
                          else math.ceil(x / 2))

    def op_SQUARE(self, v):
        return self._num1(v, lambda x: guard_bits(x) * x)

    def _pow(self, x, y):
        if isinstance(x, int) and isinstance(y, int):
            if abs(x) > 1 and abs(x).bit_length() * abs(y) > 12000 and y > 0:
                raise Unsure("huge power")
        return x ** y

    def op_POW(self, a, b=None):
        if b is None:
            a, b = Sc("2"), a
        if not kinds((a, Sc), (b, Sc)):
            return self.nope()
        x, y = num(a), num(b)
        if x == 0 and y < 0:
            if isinstance(y, int) and y.bit_length() > 1020:
                raise Unsure("exponent beyond float")
            return self.nope()
        if x < 0 and y != y // 1:
            if isinstance(y, float) and (y in (math.inf, -math.inf)
                                         or y != y):
                raise Unsure("inf exponent")
            return self.nope()
        if x < 0 and isinstance(y, float) and abs(y) == math.inf:
            raise Unsure("inf exponent")
        return sc(self._pow(x, y))

    def op_POWEROFTEN(self, a, b=None):
        if b is None:
            a, b = ONE, a
        if not kinds((a, Sc), (b, Sc)):
            return self.nope()
        return sc(num(a) * self._pow(10, num(b)))

    def op_SQRT(self, v):
        if type(v) is not Sc or num(v) < 0:
            return self.nope()
        return sc(num(v) ** 0.5)

    def op_ROOT(self, a, b):
        if not kinds((a, Sc), (b, Sc)):
            return self.nope()
        x, y = num(a), num(b)
        if x == 0:
            return self.nope()
        if y < 0 and int(1 / x) != 1 / x:
            return self.nope()
        if y == 0 and 1 / x < 0:
            return self.nope()
        return sc(y ** (1 / x))

    def op_EXPONENTIAL(self, v):
        return self._num1(v, math.exp)

    def _log(self, v, f):
        if type(v) is not Sc or num(v) <= 0:
            return self.nope()
        return sc(f(num(v)))

    def op_NATURALLOG(self, v):
        return self._log(v, math.log)

    def op_BINARYLOG(self, v):
        return self._log(v, math.log2)

    def op_DECIMALLOG(self, v):
        return self._log(v, math.log10)

    def op_SINE(self, v):
        return self._num1(v, math.sin)

    def op_COSINE(self, v):
        return self._num1(v, math.cos)

    def op_TANGENT(self, v):
        return self._num1(v, math.tan)

    def op_SECANT(self, v):
        return self._num1(v, lambda x: 1 / math.cos(x))

    def op_COSEC(self, v):
        return self._num1(v, lambda x: 1 / math.sin(x))

    def op_COTAN(self, v):
        return self._num1(v, lambda x: 1 / math.tan(x))

    def op_ARCTAN(self, a, b=None):
        if b is None:
            return self._num1(a, math.atan)
        return self._num2(a, b, math.atan2)

    def op_RADIANS(self, v):
        return self._num1(v, lambda x: x / 180 * math.pi)

    def op_DEGREES(self, v):
        return self._num1(v, lambda x: x / math.pi * 180)

    def op_SIGN(self, v):
        return self._num1(v, lambda x: (x > 0) - (x < 0))

    def op_INC(self, v):
        return self._bump(v, "+")

    def op_DEC(self, v):
        return self._bump(v, "-")

    def _bump(self, v, sym):
        r = self.apply(OPS[2][sym], [self.rv(v), ONE])
        if isinstance(v, LV):
            self.assign(v, r)
            return v
        self.warn()
        return r

    def _int1(self, v, f):
        if type(v) is not Sc:
            return self.nope()
        return sc(f(toint(v)))

    def _int2(self, a, b, f):
        if not kinds((a, Sc), (b, Sc)):
            return self.nope()
        return sc(f(toint(a), toint(b)))

    def op_BITLENGTH(self, v):
        return self._int1(v, lambda n: len(bin(abs(n))) - 2 if n else 0)

    def op_BITWISENOT(self, v):
        return self._int1(v, lambda n: -n - 1)

    def op_BITWISEAND(self, a, b):
        return self._int2(a, b, lambda x, y: x & y)

    def op_BITWISEOR(self, a, b):
        return self._int2(a, b, lambda x, y: x + y - (x & y))

    def op_BITWISEXOR(self, a, b):
        return self._int2(a, b, lambda x, y: x + y - 2 * (x & y))

    def _round(self, a, b, exact, fl):
        """exact(n, p) for integers, fl(x, p) otherwise; p == 1 is whole."""
        if b is None:
            p = 1
        elif type(b) is Sc:
            p = abs(num(b))
        else:
            p = None
        if type(a) is not Sc or p is None:
            return self.nope()
        if p == 0:
            return a
        x = num(a)
        if isinstance(x, int) and isinstance(p, int):
            return sc(exact(x, p))
        return sc(fl(x, p))

    def op_FLOOR(self, a, b=None):
        return self._round(
            a, b, lambda n, p: n // p * p,
            lambda x, p: math.floor(x) if p == 1 else math.floor(x / p) * p)

    def op_CEIL(self, a, b=None):
        return self._round(
            a, b, lambda n, p: -(-n // p) * p,
            lambda x, p: math.ceil(x) if p == 1 else math.ceil(x / p) * p)

    def op_ROUNDZERO(self, a, b=None):
        return self._round(
            a, b, lambda n, p: (n // p if n >= 0 else -(-n // p)) * p,
            lambda x, p: math.trunc(x) if p == 1 else math.trunc(x / p) * p)

    def op_ROUNDNEAREST(self, a, b=None):
        def exact(n, p):
            if p == 1:
                math.remainder(n, 1)
                return n
            q, r = divmod(n, p)
            if 2 * r > p or (2 * r == p and q % 2):
                q += 1
            return q * p

        def fl(x, p):
            if p == 1:
                d = x - math.floor(x)
                return math.floor(x) if 0 < math.remainder(x, 1) and d <= 0.5 \
                    else math.ceil(x)
            return x - math.remainder(x, p)
        return self._round(a, b, exact, fl)

    # ------------------------------------------------------- base systems
    DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

    def op_TOBASE(self, v, b=Sc("2")):
        if type(b) is not Sc:
            return self.nope()
        b = toint(b)
        if not 2 <= b <= 36 or type(v) is not Sc:
            return self.nope()
        n = toint(v)
        s = "".join(self.DIGITS[d] for d in digits(abs(n), b)) or "0"
        return Sc("-" + s if n < 0 else s)

    def op_FROMBASE(self, v, b=Sc("2")):
        if type(b) is not Sc:
            return self.nope()
        b = toint(b)
        if not 2 <= b <= 36 or type(v) is not Sc:
            return self.nope()
        s = v.s
        if s == "":
            return ZERO
        if re.fullmatch(r"[+-]?[0-9A-Za-z]+", s) and not re.match(
                r"[+-]?0[bBoOxX]", s):
            sign = -1 if s[0] == "-" else 1
            n = 0
            for c in s.lstrip("+-").upper():
                d = self.DIGITS.index(c)
                if d >= b:
                    return self.nope()
                n = n * b + d
            return sc(sign * n)
        try:
            return sc(int(s.replace("_", " "), b))
        except ValueError:
            return self.nope()

    def op_TODIGITS(self, v, b=None):
        if is_list(v):
            return Li(self.op_TODIGITS(x, b) for x in items(v))
        if b is None:
            b = Sc("2")
        if type(b) is not Sc:
            return self.nope()
        b = toint(b)
        if b < 2 or type(v) is not Sc:
            return self.nope()
        n = toint(v)
        s = -1 if n < 0 else 1
        return Li(sc(s * d) for d in digits(abs(n), b))

    def op_FROMDIGITS(self, v, b=None):
        if b is None:
            b = 2
        elif type(b) is Sc:
            b = num(b)
        else:
            return self.nope()
        if type(v) not in ITER:
            return self.nope()
        total = 0
        for e, d in enumerate(reversed(items(v))):
            if type(d) is not Sc:
                return self.nope()
            total += num(d) * self._pow(b, e)
        return sc(total)

    # ------------------------------------------------------------- ranges
    def op_RANGE(self, a, b):
        if kinds((a, (Sc, type(NIL))), (b, (Sc, type(NIL)))):
            return Ra(None if a is NIL else toint(a),
                      None if b is NIL else toint(b))
        if kinds((a, Pa), (b, Pa)):
            a, b = wrap(a), wrap(b)
            return Pa(a.raw + "|" + b.raw, a.fl | b.fl)
        return self.nope()

    def op_RANGETO(self, v):
        if type(v) is Pa:
            return Pa(v.raw, v.fl ^ ML)
        if v is NIL or type(v) is Sc:
            return Ra(None, None if v is NIL else toint(v))
        return self.nope()

    def op_INCLRANGE(self, a, b):
        if kinds((a, (Sc, type(NIL))), (b, (Sc, type(NIL)))):
            return Ra(None if a is NIL else toint(a),
                      None if b is NIL else toint(b) + 1)
        return self.nope()

    def op_INCLRANGETO(self, v):
        if v is NIL or type(v) is Sc:
            return Ra(1, None if v is NIL else toint(v) + 1)
        return self.nope()

    # -------------------------------------------------------- comparisons
    def op_NOT(self, v):
        return sc(not truth(v))

    def op_OBJEQUAL(self, a, b):
        return sc(veq(a, b))

    def numcmp(self, a, b):
        """-1, 0, 1, or None if the two are not ordered."""
        if kinds((a, Sc), (b, Sc)):
            x, y = num(a), num(b)
            if x != x or y != y:
                raise Unsure("nan")
            return (x > y) - (x < y)
        if kinds((a, Ra), (b, Ra)):
            if a.first != b.first:
                return 1 if a.first > b.first else -1
            x = math.inf if a.hi is None else a.hi
            y = math.inf if b.hi is None else b.hi
            return (x > y) - (x < y)
        if is_list(a) and is_list(b):
            xs, ys = self._pairs(a, b)
            for x, y in zip(xs, ys):
                c = self.numcmp(x, y)
                if c:
                    return c
            n = math.inf if type(a) is Ra and not a.finite else size(a)
            m = math.inf if type(b) is Ra and not b.finite else size(b)
            return (n > m) - (n < m)
        return None

    @staticmethod
    def _pairs(a, b):
        n = min(size(v) for v in (a, b) if type(v) is Li or v.finite)
        return [items(v) if type(v) is Li or v.finite
                else [sc(v.first + k) for k in range(n)] for v in (a, b)]

    def op_NUMLESS(self, a, b):
        return sc(self.numcmp(a, b) == -1)

    def op_NUMGREATER(self, a, b):
        return sc(self.numcmp(a, b) == 1)

    def op_NUMLESSEQ(self, a, b):
        c = self.numcmp(a, b)
        return sc(veq(a, b) if c is None else c <= 0)

    def op_NUMGREATEREQ(self, a, b):
        c = self.numcmp(a, b)
        return sc(veq(a, b) if c is None else c >= 0)

    def numeq(self, a, b):
        if kinds((a, Sc), (b, Sc)):
            return num(a) == num(b)
        if kinds((a, Ra), (b, Ra)):
            return veq(a, b)
        if is_list(a) and is_list(b):
            if any(type(v) is Ra and not v.finite for v in (a, b)):
                return False
            xs, ys = items(a), items(b)
            return len(xs) == len(ys) and all(map(self.numeq, xs, ys))
        return veq(a, b)

    def op_NUMEQUAL(self, a, b):
        return sc(self.numeq(a, b))

    def op_NUMNOTEQUAL(self, a, b):
        return sc(not self.numeq(a, b))

    def op_NUMCMP(self, a, b):
        return sc(self.numcmp(a, b) or 0)

    def strcmp(self, a, b):
        if kinds((a, Sc), (b, Sc)):
            return (a.s > b.s) - (a.s < b.s)
        if kinds((a, Li), (b, Li)):
            for x, y in zip(a.t, b.t):
                c = self.strcmp(x, y)
                if c:
                    return c
            return (len(a.t) > len(b.t)) - (len(a.t) < len(b.t))
        return None

    def op_STRLESS(self, a, b):
        return sc(self.strcmp(a, b) == -1)

    def op_STRGREATER(self, a, b):
        return sc(self.strcmp(a, b) == 1)

    def op_STRLESSEQ(self, a, b):
        c = self.strcmp(a, b)
        return sc(veq(a, b) if c is None else c <= 0)

    def op_STRGREATEREQ(self, a, b):
        c = self.strcmp(a, b)
        return sc(veq(a, b) if c is None else c >= 0)

    def streq(self, a, b):
        if kinds((a, (Sc, Pa)), (b, (Sc, Pa))):
            return tostr(a) == tostr(b)
        if kinds((a, Li), (b, Li)):
            return len(a.t) == len(b.t) and all(map(self.streq, a.t, b.t))
        return veq(a, b)

    def op_STREQUAL(self, a, b):
        return sc(self.streq(a, b))

    def op_STRNOTEQUAL(self, a, b):
        return sc(not self.streq(a, b))

    def _len(self, v):
        return math.inf if type(v) is Ra and not v.finite else size(v)

    def op_LEN(self, v):
        if type(v) not in ITER or self._len(v) == math.inf:
            return self.nope()
        return sc(size(v))

    def _lencmp(self, a, b, f):
        if type(a) not in ITER or type(b) not in ITER:
            return self.nope()
        return sc(f(self._len(a), self._len(b)))

    def op_LENEQUAL(self, a, b):
        return self._lencmp(a, b, lambda x, y: x == y)

    def op_LENLESS(self, a, b):
        return self._lencmp(a, b, lambda x, y: x < y)

    def op_LENGREATER(self, a, b):
        return self._lencmp(a, b, lambda x, y: x > y)

    def op_FULLMATCH(self, s, r):
        if type(s) is Pa and type(r) is Sc:
            s, r = r, s
        elif type(r) is Sc:
            r = escape_pattern(r)
        if is_list(s) and type(r) is Pa:
            for x in items(s):
                if not truth(self.op_FULLMATCH(r, x)):
                    return ZERO
            return ONE
        if type(s) is Sc and type(r) is Pa:
            m = compile_raw(r).fullmatch(s.s)
            if m:
                self.regex_vars(m)
                return ONE
            return ZERO
        self.warn()
        return ZERO

    def op_IN(self, x, c):
        if is_list(x) and type(c) is Sc:
            return Li(self.op_IN(y, c) for y in items(x))
        if type(x) is Pa and type(c) is Sc:
            n = 0
            for m in finditer(x, c.s):
                self.regex_vars(m)
                n += 1
            return sc(n)
        if x is NIL and type(c) in (Sc, Ra):
            return NIL
        if type(c) is Sc and type(x) is not Sc:
            return EMPTY      # nothing sensible to count
        if type(c) is Sc:
            return sc(c.s.count(x.s))
        if type(c) is Li:
            return sc(sum(veq(x, y) for y in c.t))
        if type(c) is Ra:
            return sc(in_range(x, c))
        return ZERO

    def op_NOTIN(self, x, c):
        if is_list(x) and type(c) is Sc:
            return Li(self.op_NOTIN(y, c) for y in items(x))
        if type(x) is Pa and type(c) is Sc:
            return sc(not compile_raw(x).search(c.s))
        if type(c) is Sc:
            return sc(not (type(x) is Sc and x.s in c.s))
        if type(c) is Li:
            return sc(not any(veq(x, y) for y in c.t))
        if type(c) is Ra:
            return sc(not in_range(x, c))
        return ONE

    # ------------------------------------------------------ logic / control
    def op_OR(self, a, b):
        v = self.rv(a)
        return v if truth(v) else self.rv(b)

    def op_AND(self, a, b):
        v = self.rv(a)
        return self.rv(b) if truth(v) else v

    def op_IFTE(self, c, a, b):
        return self.ev(a if truth(self.rv(c)) else b)

    def op_RVALOR(self, a, b):
        return a if truth(a) else b

    def op_RVALAND(self, a, b):
        return b if truth(a) else a

    def op_RVALIFTE(self, c, a, b):
        return a if truth(c) else b

    def op_ASSIGN(self, lv, v):
        return self.do_assign(lv, v)

    def op_SWAP(self, a, b):
        va, vb = self.rv(a), self.rv(b)
        for l, v in ((a, vb), (b, va)):
            if isinstance(l, LV):
                self.assign(l, v)
            else:
                self.warn()
        return a

    def op_YANK(self, v):
        self.assign(LV("y"), v)
        return LV("y")

    def op_OUTPUT(self, v):
        if v is not NIL:
            self.emit(self.str(v))
        return v

    def op_PRINT(self, v):
        return self.print_(v)

    def op_YANKOUTPUT(self, v):
        self.op_OUTPUT(v)
        return self.op_YANK(v)

    def op_YANKPRINT(self, v):
        self.print_(v)
        return self.op_YANK(v)

    def op_EVAL(self, code, args=None):
        if args is not None and type(args) is Bl:
            code, args = args, code
        if type(code) is Sc:
            try:
                code = self.to_block(syn.parse(code.s + "\n"))
            except (syn.Incomplete, syn.Bad):
                raise PFatal("syntax in eval")
        if type(code) is not Bl:
            return self.nope()
        if args is None:
            for s in code.st:
                self.statement(s)
            return self.ev(code.ret)
        if type(args) is Bl:
            raise PFatal("block as argument list")
        return self.call(code, items(args))

    def op_RECURSE(self, v):
        fn = self.scopes[-1].fn
        if fn is None:
            raise PFatal("no current function")
        return self.call(fn, [v])

    def op_REPR(self, v):
        return Sc(rep(v))

    def op_STR(self, v):
        return Sc(self.str(v))

    # ------------------------------------------------------------- indexing
    def op_AT(self, a, i=None):
        if isinstance(i, LV):
            i = self.rv(i)
        if type(i) is Sc:
            idx = toint(i)
        elif type(i) is Ra:
            idx = (i.lo, i.hi)
        elif i is None:
            idx = 0
        elif type(i) in (Li, Pa):
            idx = None
        else:
            return self.nope()
        if isinstance(a, LV):
            if idx is not None:
                try:
                    r = a.sub(idx)
                except BadIndex:
                    return self.nope()
                if isinstance(a.base, tuple) and isinstance(r.base, LV):
                    return r.base
                return r
            a = self.rv(a)
        if type(i) is Pa and type(a) is Sc:
            out = []
            for m in finditer(i, a.s):
                out.append(self.regex_vars(m)[0])
            return Li(out)
        if type(i) is Pa and is_list(a):
            return Li(self.op_AT(x, i) for x in items(a))
        if type(i) is Li and type(a) in ITER:
            return Li(self.op_AT(a, x) for x in i.t)
        if type(a) not in ITER:
            return self.nope()
        if self._len(a) == 0:
            return self.nope()
        if idx is None:
            raise PFatal("index")
        return get_int(a, idx) if isinstance(idx, int) \
            else get_slice(a, *idx)

    def _cut(self, a, i, make, default):
        """Shared by the four slicing operators."""
        if i is None:
            i = default
        elif isinstance(i, LV):
            i = self.rv(i)
        if type(i) is Sc and isinstance(a, LV):
            return a.sub(make(toint(i)))
        if is_list(i):
            a = self.rv(a)
            return Li(self._cut(a, x, make, default) for x in items(i))
        if type(i) is Sc and type(a) in ITER:
            return get_slice(a, *make(toint(i)))
        return self.nope()

    def op_LEFTOF(self, a, i=None):
        return self._cut(a, i, lambda n: (None, n), Sc("-1"))

    def op_RIGHTOF(self, a, i=None):
        return self._cut(a, i, lambda n: (n, None), ONE)

    def op_PREFIX(self, a, i=None):
        return self._cut(a, i, lambda n: (None, n), Sc("-1"))

    def op_SUFFIX(self, a, i=None):
        return self._cut(a, i, lambda n: (-n, None) if n else (0, 0),
                         Sc("-1"))

    # ------------------------------------------------- in-place list edits
    def _store(self, place, new, result):
        """Write back new unless place is a list of places."""
        if isinstance(place, LV):
            if not isinstance(place.base, tuple):
                self.assign(place, new)
        else:
            self.warn()
        return result

    def op_POP(self, p):
        v = self.rv(p)
        if type(v) not in ITER or self._len(v) == 0:
            return self.nope()
        if type(v) is Ra:
            return self._store(p, Ra(v.first + 1, v.hi), sc(v.first))
        if type(v) is Li:
            return self._store(p, Li(v.t[1:]), v.t[0])
        return self._store(p, Sc(v.s[1:]), Sc(v.s[0]))

    def op_DEQUEUE(self, p):
        v = self.rv(p)
        if type(v) not in ITER or self._len(v) in (0, math.inf):
            return self.nope()
        if type(v) is Ra:
            return self._store(p, Ra(v.lo, v.hi - 1), sc(v.hi - 1))
        if type(v) is Li:
            return self._store(p, Li(v.t[:-1]), v.t[-1])
        return self._store(p, Sc(v.s[:-1]), Sc(v.s[-1]))

    def op_PICK(self, p, i):
        i = self.rv(i)
        if type(i) is not Sc:
            return self.nope()
        i = toint(i)
        v = self.rv(p)
        if type(v) not in ITER or self._len(v) == 0:
            return self.nope()
        n = self._len(v)
        if n == math.inf:
            if i:
                return self.nope()
            return self._store(p, Ra(v.first + 1, None), sc(v.first))
        i %= n
        if type(v) is Ra and i == 0:
            return self._store(p, Ra(v.first + 1, v.hi), sc(v.first))
        if type(v) is Sc:
            return self._store(p, Sc(v.s[:i] + v.s[i + 1:]), Sc(v.s[i]))
        xs = items(v)
        return self._store(p, Li(xs[:i] + xs[i + 1:]), xs[i])

    def _push(self, p, x, front):
        x = self.rv(x)
        v = self.rv(p)
        if is_list(v):
            new = self.op_PREPENDELEM(v, x) if front \
                else self.op_APPENDELEM(v, x)
        elif type(v) in (Sc, Pa):
            x = Sc(self.str(x))
            new = self.op_CAT(x, v) if front else self.op_CAT(v, x)
        elif v is NIL:
            new = Li([x])
        else:
            new = v
        if isinstance(p, LV) and not isinstance(p.base, tuple):
            self.assign(p, new)
            return p
        if not isinstance(p, LV):
            self.warn()
        return new

    def op_PUSH(self, p, x):
        return self._push(p, x, True)

    def op_PUSHBACK(self, p, x):
        return self._push(p, x, False)

    # ------------------------------------------------------- list building
    def _aslist(self, v):
        if type(v) in (Sc, Pa) or v is NIL:
            return [v]
        if is_list(v):
            return pylist(v)
        return None

    def op_APPENDELEM(self, a, b):
        xs = self._aslist(a)
        return self.nope() if xs is None else Li(xs + [b])

    def op_PREPENDELEM(self, a, b):
        xs = self._aslist(a)
        return self.nope() if xs is None else Li([b] + xs)

    def op_APPENDLIST(self, a, b):
        xs, ys = self._aslist(a), self._aslist(b)
        if xs is None or ys is None:
            return self.nope()
        return Li(xs + ys)

    def op_REPEATLIST(self, a, n):
        if type(n) is not Sc:
            return self.nope()
        xs = self._aslist(a)
        if xs is None:
            return self.nope()
        return Li(xs * self._times(xs, n))

    @staticmethod
    def _times(xs, n):
        n = toint(n)
        bound(n * len(xs))
        if abs(n) >> 62:
            raise Unsure("huge count")
        return max(n, 0)

    def op_CHOP(self, v, n=Sc("2")):
        if is_list(n):
            return Li(self.op_CHOP(v, x) for x in items(n))
        if type(v) not in ITER or type(n) is not Sc:
            return self.nope()
        k = num(n)
        if k == 0:
            return self.nope()
        if type(k) is float and not math.isfinite(k):
            raise Unsure("infinitely many chunks")
        return self._chunks(v, Fraction(size(v)) / Fraction(k))

    def op_GROUP(self, v, n=Sc("2")):
        if is_list(n):
            return Li(self.op_GROUP(v, x) for x in items(n))
        if type(v) not in ITER or type(n) is not Sc:
            return self.nope()
        k = num(n)
        if k == 0:
            return self.nope()
        if type(k) is float and math.isfinite(k):
            # adding up a fraction may or may not be exact
            out = self._chunks(v, Fraction(k))
            if out != self._chunks(v, k):
                raise Unsure("rounding of chunk sizes")
            return out
        return self._chunks(v, k)

    def _chunks(self, v, jump):
        n = size(v)
        out = []
        if jump == 0 and n:
            raise Unsure("zero jump")
        at = 0 if jump > 0 else n
        while (at < n if jump > 0 else at > 0):
            if len(out) > 3000:
                raise Unsure("many chunks")
            if jump > 0:
                lo, hi = math.floor(at), math.floor(min(at + jump, n))
            else:
                lo, hi = math.ceil(max(at + jump, 0)), math.ceil(at)
            out.append(get_slice(v, lo, hi))
            at += jump
        return Li(out)

    def op_ENUMERATE(self, v):
        if type(v) not in ITER or self._len(v) == math.inf:
            return self.nope()
        return Li(Li([sc(i), x]) for i, x in enumerate(items(v)))

    def op_FLATTEN(self, v):
        if not is_list(v):
            return v
        out = []
        for x in items(v):
            out += items(x) if is_list(x) else [x]
        return Li(out)

    def op_FLATTENALL(self, v):
        if not is_list(v):
            return v
        out = []
        for x in items(v):
            out += self.op_FLATTENALL(x).t if is_list(x) else [x]
        return Li(out)

    def op_REVERSE(self, v):
        if type(v) not in ITER or self._len(v) == math.inf:
            return self.nope()
        if type(v) is Sc:
            return Sc(v.s[::-1])
        return Li(items(v)[::-1])

    def op_REFLECT(self, v):
        if type(v) not in ITER or self._len(v) == math.inf:
            return self.nope()
        if type(v) is Sc:
            return Sc(v.s + v.s[::-1])
        xs = items(v)
        return Li(xs + xs[::-1])

    def op_PALINDROMIZE(self, v):
        if type(v) not in ITER or self._len(v) == math.inf:
            return self.nope()
        if type(v) is Sc:
            return Sc(v.s + v.s[:-1][::-1])
        xs = items(v)
        return Li(xs + xs[:-1][::-1])

    def op_QUADREFLECT(self, v):
        r = self.op_REFLECT(v)
        return NIL if r is NIL else Li(map(self.op_REFLECT, items(r)))

    def op_QUADPALINDROMIZE(self, v):
        r = self.op_PALINDROMIZE(v)
        return NIL if r is NIL else Li(map(self.op_PALINDROMIZE, items(r)))

    def op_UNIQUE(self, v):
        if type(v) is Ra or v is NIL:
            return v
        if type(v) is Sc:
            return Sc("".join(dict.fromkeys(v.s)))
        if type(v) is Li:
            out = []
            for x in v.t:
                if not any(veq(x, y) for y in out):
                    out.append(x)
            return Li(out)
        return self.nope()

    def op_UNWEAVE(self, v, n=Sc("2")):
        if type(v) is Ra and not v.finite:
            return self.nope()
        if type(v) is Ra:
            items(v)
        if type(v) not in ITER or type(n) is not Sc:
            return self.nope()
        n = toint(n)
        if n < 1:
            return self.nope()
        bound(n)
        xs = items(v)
        cols = [xs[k::n] for k in range(n)]
        if type(v) is Sc:
            return Li(Sc("".join(x.s for x in c)) for c in cols)
        return Li(map(Li, cols))

    def op_WEAVE(self, a, b=None):
        if b is None:
            if type(a) is Sc:
                return a
            if not is_list(a):
                return self.nope()
            parts = items(a)
            if not parts:
                raise Unsure("weaving nothing")
        else:
            parts = [a, b]
        parts = [EMPTY if p is NIL else p for p in parts]
        if any(type(p) not in ITER for p in parts):
            return self.nope()
        cols = [pylist(p) for p in parts]
        out = []
        for k in range(max(map(len, cols))):
            out += [c[k] for c in cols if k < len(c)]
        if all(type(p) is Sc for p in parts):
            return Sc("".join(x.s for x in out))
        return Li(out)

    def op_ZIP(self, a, b=None):
        if b is None:
            if type(a) not in ITER:
                return self.nope()
            if type(a) is Ra and not a.finite:
                raise Unsure("infinite")
            parts = items(a)
        else:
            parts = [a, b]
        if any(type(p) not in ITER for p in parts):
            return self.nope()
        if not parts:
            return Li()
        ns = [self._len(p) for p in parts]
        n = min(ns)
        if n == math.inf:
            raise Unsure("infinite")
        cols = [[sc(p.first + k) for k in range(n)]
                if type(p) is Ra else items(p) for p in parts]
        return Li(Li(c[k] for c in cols) for k in range(n))

    def op_ZIPDEFAULT(self, a, d=EMPTY):
        if type(a) not in ITER:
            return self.nope()
        parts = items(a)
        if any(type(p) not in ITER for p in parts):
            return self.nope()
        cols = [items(p) for p in parts]
        n = max(map(len, cols), default=0)
        return Li(Li(c[k] if k < len(c) else d for c in cols)
                  for k in range(n))

    def op_ZIPJOIN(self, a, b=None):
        if b is None:
            if type(a) not in ITER:
                return self.nope()
            lines = [Sc(x) for x in a.s.split("\n")] if type(a) is Sc \
                else items(a)
            scalar = type(a) is Sc
        else:
            lines, scalar = [a, b], False
        lines = [x if type(x) in ITER else Sc(self.str(x)) for x in lines]
        cols = [items(x) for x in lines]
        n = max(map(len, cols), default=0)
        rows = [self.join([c[k] if k < len(c) else Sc(" ") for c in cols])
                for k in range(n)]
        if scalar:
            return self.join(rows, Sc("\n"))
        return Li(rows)

    def op_CARTESIANPRODUCT(self, a, b=None):
        if b is None:
            if type(a) not in ITER:
                return self.nope()
            parts = items(a)
        else:
            parts = [a, b]
        if any(type(p) not in ITER for p in parts):
            return self.nope()
        cols = [items(p) for p in parts]
        n = 1
        for c in cols:
            n *= len(c)
        bound(n)
        out = [()]
        for c in cols:
            out = [t + (x,) for t in out for x in c]
        return Li(map(Li, out))

    def op_COMBINATIONS(self, v, n):
        if type(v) not in ITER or type(n) is not Sc:
            return self.nope()
        n = toint(n)
        if n < 0:
            raise PFatal("negative combinations")
        xs = items(v)
        if math.comb(len(xs), n) > 3000:
            raise Unsure("many combinations")
        return self._selections(v, choose(xs, n))

    def op_PERMUTATIONS(self, v):
        if type(v) not in ITER:
            return self.nope()
        xs = items(v)
        if len(xs) > 6:
            raise Unsure("many permutations")
        return self._selections(v, perms(xs))

    def _selections(self, v, sels):
        if type(v) is Sc:
            return Li(Sc("".join(x.s for x in s)) for s in sels)
        return Li(map(Li, sels))

    def op_SPLITAT(self, v, n):
        if type(n) is Sc:
            at = [toint(n)]
        elif type(n) is Ra:
            at = [toint(x) for x in items(n)]
        elif type(n) is Li:
            if any(type(x) is not Sc for x in n.t):
                return self.nope()
            at = [toint(x) for x in n.t]
        else:
            return self.nope()
        if type(v) not in ITER:
            return self.nope()
        m = size(v)
        cuts = sorted({i for i in range(m) if i in at or i - m in at})
        ends = [0] + cuts + [None]
        return Li(get_slice(v, a, b) for a, b in zip(ends, ends[1:]))

    def op_REMOVE(self, a, b):
        if type(a) is Sc:
            if type(b) is Sc:
                return Sc(a.s.replace(b.s, ""))
            if type(b) is Pa:
                return Sc(compile_raw(b).sub("", a.s))
            if is_list(b):
                r = a
                for x in items(b):
                    r = self.op_REMOVE(r, x)
                return Sc(self.str(r))
            if b is NIL:
                return a
            return self.nope()
        if is_list(a):
            return Li(x for x in pylist(a) if not veq(x, b))
        return self.nope()

    def op_REPLACEAT(self, v, i, new):
        if type(v) not in ITER or type(i) not in ITER:
            if i is NIL:
                return v
            return self.nope()
        if type(i) is Li:
            r = v
            for k, x in enumerate(i.t):
                if type(new) is Li:
                    if not new.t:
                        raise PFatal("no replacements")
                    n = new.t[k % len(new.t)]
                else:
                    n = new
                r = self.op_REPLACEAT(r, x, n)
            return r
        if type(v) is Ra:
            v = Li(items(v))
        idx = toint(i) if type(i) is Sc else (i.lo, i.hi)
        if isinstance(idx, tuple) and type(v) is Li and type(new) is Bl:
            raise PFatal("block as items")
        try:
            return set_item(v, idx, new, self.fmt)
        except BadIndex:
            raise PFatal("bad index")

    # -------------------------------------------------------------- sorting
    def _numkey(self, v):
        if type(v) in (Pa, Bl) or v is NIL:
            self.warn()
            return 0
        if type(v) is Ra and not v.finite:
            self.warn()
            return []
        return num(v)

    def _sort(self, v, keys, rev):
        try:
            order = sorted(range(len(keys)), key=lambda i: keys[i],
                           reverse=rev)
        except TypeError:
            return self.nope()
        return Li(v[i] for i in order)

    def _sortnum(self, v, rev):
        if type(v) not in ITER:
            return self.nope()
        xs = pylist(v)
        return self._sort(xs, [self._numkey(x) for x in xs], rev)

    def op_SORTNUM(self, v):
        return self._sortnum(v, False)

    def op_DESCENDINGNUM(self, v):
        return self._sortnum(v, True)

    def _sortstr(self, v, rev):
        if type(v) is Sc:
            return Sc("".join(sorted(v.s, reverse=rev)))
        if type(v) not in ITER:
            return self.nope()
        xs = pylist(v)
        return self._sort(xs, [self.str(x) for x in xs], rev)

    def op_SORTSTRING(self, v):
        return self._sortstr(v, False)

    def op_DESCENDINGSTRING(self, v):
        return self._sortstr(v, True)

    def _sortkey(self, f, v, rev):
        if type(f) is not Bl and type(v) is Bl:
            f, v = v, f
        if type(f) is not Bl or type(v) not in ITER:
            return self.nope()
        xs = pylist(v)
        return self._sort(xs, [self._numkey(self.call(f, [x])) for x in xs],
                          rev)

    def op_SORTKEYED(self, f, v):
        return self._sortkey(f, v, False)

    def op_DESCENDINGKEYED(self, f, v):
        return self._sortkey(f, v, True)

    def _extreme(self, v, better):
        if type(v) not in ITER:
            return self.nope()
        xs = items(v)
        if not xs:
            return self.nope()
        best, bk = xs[0], num(xs[0])
        for x in xs[1:]:
            k = num(x)
            try:
                if better(k, bk):
                    best, bk = x, k
            except TypeError:
                return self.nope()
        return best

    def op_MAX(self, v):
        return self._extreme(v, lambda a, b: a > b)

    def op_MIN(self, v):
        return self._extreme(v, lambda a, b: a < b)

    # ---------------------------------------------------------------- grids
    def _grid(self, r, c, f):
        if c is None:
            c = r
        if not kinds((r, Sc), (c, Sc)):
            return self.nope()
        r, c = max(0, toint(r)), max(0, toint(c))
        bound(r * max(c, 1))
        return Li(Li(f(i, j) for j in range(c)) for i in range(r))

    def op_COORDINATEGRID(self, r, c=None):
        return self._grid(r, c, lambda i, j: Li([sc(i), sc(j)]))

    def op_ZEROGRID(self, r, c=None):
        return self._grid(r, c, lambda i, j: ZERO)

    def op_ONEGRID(self, r, c=None):
        return self._grid(r, c, lambda i, j: ONE)

    def op_IDENTITYMATRIX(self, r):
        return self._grid(r, None, lambda i, j: sc(i == j))

    # ----------------------------------------------------- functions on lists
    def _swapfn(self, f, v):
        if type(v) is Bl and type(f) in ITER:
            return v, f
        return f, v

    def op_MAP(self, f, v):
        f, v = self._swapfn(f, v)
        if type(v) not in ITER:
            return self.nope()
        xs = items(v)
        if type(f) is Bl:
            return Li([self.call(f, [x]) for x in xs])
        if type(f) is Li:
            return Li([self.op_MAP(g, v) for g in f.t])
        return Li([f] * len(xs))

    def op_MAPFLATTEN(self, f, v):
        return self.op_FLATTEN(self.op_MAP(f, v))

    def op_MAPJOIN(self, f, v):
        return self.op_JOIN(self.op_MAP(f, v))

    def op_MAPSUM(self, f, v):
        total = ZERO
        r = self.op_MAP(f, v)
        for x in items(r):
            total = self.apply_v(OPS[2]["+"], [total, x])
        return total

    def op_MAPMAP(self, f, v):
        f, v = self._swapfn(f, v)
        if type(v) not in ITER:
            return self.nope()
        return Li([self.op_MAP(f, x) for x in items(v)])

    def op_MAPENUMERATE(self, f, v):
        f, v = self._swapfn(f, v)
        if type(f) is not Bl or type(v) not in ITER:
            return self.nope()
        return Li([self.call(f, [sc(i), x])
                   for i, x in enumerate(pylist(v))])

    def op_MAPPAIRS(self, f, v):
        f, v = self._swapfn(f, v)
        if type(f) is not Bl or type(v) not in ITER:
            return self.nope()
        xs = items(v)
        return Li([self.call(f, [x, y]) for x, y in zip(xs, xs[1:])])

    def op_MAPZIP(self, f, a, b):
        if type(a) is Bl and type(f) in ITER:
            f, a = a, f
        if type(f) is not Bl or type(a) not in ITER or type(b) not in ITER:
            return self.nope()
        n = min(self._len(a), self._len(b))
        if n == math.inf:
            raise Unsure("infinite")
        xs, ys = [[sc(v.first + k) for k in range(n)] if type(v) is Ra
                  else items(v) for v in (a, b)]
        return Li([self.call(f, [x, y]) for x, y in zip(xs, ys)])

    def op_MAPUNPACK(self, f, v):
        f, v = self._swapfn(f, v)
        if type(f) is not Bl or type(v) not in ITER:
            return self.nope()
        return Li([self.call(f, self._unpack(x, True)) for x in items(v)])

    def _unpack(self, x, loose):
        if type(x) is Ra and not x.finite:
            self.warn()
            return []
        if type(x) in ITER or (loose and (type(x) is Pa or x is NIL)):
            return items(x)
        self.warn()
        return []

    def op_MAPCOORDS(self, f, v):
        if type(v) is Sc:
            r = c = v
        elif is_list(v):
            if self._len(v) == 0:
                return self.nope()
            r, c = get_int(v, 0), get_int(v, 1)
            if not kinds((r, Sc), (c, Sc)):
                return self.nope()
        else:
            return self.nope()
        r, c = max(0, toint(r)), max(0, toint(c))
        bound(r * max(c, 1))
        out = []
        for i in range(r):
            row = []
            for j in range(c):
                row.append(self.call(f, [sc(i), sc(j)])
                           if type(f) is Bl else f)
            out.append(Li(row))
        return Li(out)

    def op_MAPREGEX(self, f, r, s):
        if type(r) is Bl:
            f, r = r, f
        elif type(s) is Bl:
            f, s = s, f
        if type(r) is Sc and type(s) is Pa:
            r, s = s, r
        elif type(r) is Sc:
            r = escape_pattern(r)
        if type(f) is not Bl or type(r) is not Pa or type(s) is not Sc:
            return self.nope()
        out = []
        for m in finditer(r, s.s):
            out.append(self.call(f, self.regex_vars(m)))
        return Li(out)

    def _select(self, f, v, keep, argf, unary, pick):
        if v is None:
            v = f
            if type(v) not in ITER:
                return self.nope()
            return Li(pick(i, x) for i, x in enumerate(items(v))
                      if unary(x))
        f, v = self._swapfn(f, v)
        if type(f) is not Bl or type(v) not in ITER:
            return self.nope()
        out = []
        for i, x in enumerate(items(v)):
            if truth(self.call(f, argf(i, x))) == keep:
                out.append(pick(i, x))
        return Li(out)

    def op_FILTER(self, f, v=None):
        return self._select(f, v, True, lambda i, x: [x], truth,
                            lambda i, x: x)

    def op_FILTERNOT(self, f, v=None):
        return self._select(f, v, False, lambda i, x: [x],
                            lambda x: not truth(x), lambda i, x: x)

    def op_FILTERENUMERATE(self, f, v):
        return self._select(f, v, True, lambda i, x: [sc(i), x], truth,
                            lambda i, x: x)

    def op_FILTERINDEXES(self, f, v=None):
        return self._select(f, v, True, lambda i, x: [sc(i), x], truth,
                            lambda i, x: sc(i))

    def op_FILTERJOIN(self, f, v=None):
        return self.op_JOIN(self.op_FILTER(f, v))

    def op_FILTERUNPACK(self, f, v=None):
        def first(x):
            if type(x) not in ITER:
                self.warn()
                return False
            return self._len(x) > 0 and truth(get_int(x, 0))
        return self._select(f, v, True,
                            lambda i, x: self._unpack(x, False), first,
                            lambda i, x: x)

    # --------------------------------------------------------------- strings
    def op_CAT(self, a, b):
        if kinds((a, Sc), (b, Sc)):
            return Sc(a.s + b.s)
        if kinds((a, (Sc, Pa)), (b, (Sc, Pa))):
            return pconcat(topat(a), topat(b))
        return self.nope()

    def join(self, xs, sep=None):
        r = None
        for x in xs:
            if is_list(x):
                x = self.join(items(x), sep)
            if r is None:
                r = x
            else:
                if sep is not None:
                    r = self.op_CAT(r, sep)
                r = self.op_CAT(r, x)
            if type(r) is Sc and len(r.s) > LIMIT:
                raise Unsure("huge string")
        return EMPTY if r is None else r

    def op_JOIN(self, v, sep=None):
        if sep is not None and is_list(sep):
            return Li(self.op_JOIN(v, s) for s in items(sep))
        if sep is not None and type(sep) not in (Sc, Pa):
            return self.nope()
        if type(v) not in ITER:
            return self.nope()
        return self.join(items(v), sep)

    def op_JOINWRAP(self, v, sep):
        if is_list(sep):
            return Li(self.op_JOINWRAP(v, s) for s in items(sep))
        if type(sep) not in (Sc, Pa) or type(v) not in ITER:
            return self.nope()
        r = sep
        for x in items(v):
            if is_list(x):
                x = self.join(items(x), sep)
            r = self.op_CAT(self.op_CAT(r, x), sep)
        return r

    def op_WRAP(self, a, b):
        if not kinds((a, (Sc, Pa)), (b, (Sc, Pa))):
            return self.nope()
        return self.op_CAT(self.op_CAT(b, a), b)

    def op_STRMUL(self, a, n):
        if type(a) not in (Sc, Pa) or type(n) is not Sc:
            return self.nope()
        n = toint(n)
        t = tostr(a)
        if n * len(t) > LIMIT or abs(n) >> 62:
            raise Unsure("huge string")
        t = t * n
        return Sc(t) if type(a) is Sc else Pa(t, 0)

    def op_ASC(self, v):
        if type(v) is Pa:
            return Pa(v.raw, v.fl ^ A)
        if type(v) is Sc and v.s:
            return sc(ord(v.s[0]))
        return self.nope()

    def op_CHR(self, v):
        if type(v) is Pa:
            return Pa("(" + v.raw + ")", v.fl)
        if type(v) is not Sc:
            return self.nope()
        n = toint(v)
        if 0xD800 <= n < 0xE000:
            raise Unsure("surrogate")
        return Sc(chr(n))

    def op_DOT(self, v):
        return Pa(v.raw, v.fl ^ DA) if type(v) is Pa else v

    def op_REGEX(self, v):
        if type(v) is Pa:
            return v
        if type(v) is Sc:
            return escape_pattern(v)
        if type(v) is Ra:
            return wrap(Pa("|".join(re.escape(x.s) for x in items(v))))
        if type(v) is Li:
            return wrap(Pa("|".join(tostr(self.op_REGEX(x)) for x in v.t)))
        return self.nope()

    def op_KLEENESTAR(self, v):
        if type(v) is Pa:
            p = wrap(v)
        elif type(v) in (Sc, Ra):
            p = self.op_REGEX(v)
        else:
            return self.nope()
        return Pa(p.raw + "*", p.fl)

    def _case(self, v, f):
        if type(v) is Sc:
            return Sc(f(v.s))
        if type(v) is Ra or v is NIL:
            return v
        return self.nope()

    def op_UPPERCASE(self, v):
        return self._case(v, str.upper)

    def op_LOWERCASE(self, v):
        return self._case(v, str.lower)

    def op_SWAPCASE(self, v):
        return self._case(v, str.swapcase)

    def op_TITLECASE(self, v):
        return self._case(v, str.title)

    def op_INITIALCAPS(self, v):
        return self._case(v, str.capitalize)

    def op_DELETECHARS(self, a, b):
        if not kinds((a, Sc), (b, Sc)):
            self.warn()
            return a
        return Sc("".join(c for c in a.s if c not in b.s))

    def _strip(self, s, x, left, right):
        if x is NIL:
            return s
        if x is not None and type(x) not in ITER and type(x) is not Pa:
            return self.nope()
        if is_list(s):
            return Li(self._strip(y, x, left, right) for y in items(s))
        if type(s) is not Sc:
            return self.nope()
        if is_list(x):
            for y in items(x):
                s = self._strip(s, y, left, right)
            return s
        t = s.s
        if type(x) is Pa:
            if x.raw == "":
                return s
            r = compile_raw(x)
            if "\\A" in x.raw or "\\Z" in x.raw:
                raise Unsure("anchors")
            while left:
                m = r.match(t)
                if m and m.end() == 0 and any(
                        r.fullmatch(t, 0, j) for j in range(1, len(t) + 1)):
                    raise Unsure("a pattern that rather matches nothing")
                if not m or m.end() == 0:
                    break
                t = t[m.end():]
            while right:
                for i in range(len(t)):
                    if r.fullmatch(t, i):
                        t = t[:i]
                        break
                else:
                    break
            return Sc(t)
        inset = (lambda c: c.isspace()) if x is None else (lambda c: c in x.s)
        a, b = 0, len(t)
        while left and a < b and inset(t[a]):
            a += 1
        while right and b > a and inset(t[b - 1]):
            b -= 1
        return Sc(t[a:b])

    def op_STRIP(self, s, x=None):
        return self._strip(s, x, True, True)

    def op_LSTRIP(self, s, x=None):
        return self._strip(s, x, True, False)

    def op_RSTRIP(self, s, x=None):
        return self._strip(s, x, False, True)

    def op_TRIM(self, s, x=None):
        if type(s) is Ra:
            return Li(self.op_TRIM(y, x) for y in items(s))
        if x is None:
            f = b = 1
        elif type(x) is Sc:
            f = b = toint(x)
        elif type(x) is Ra:
            f, b = x.lo or 0, x.hi or 0
        elif x is NIL:
            return s
        else:
            return self.nope()
        if type(s) is not Sc:
            return self.nope()
        f, b = max(f, 0), max(b, 0)
        return Sc(s.s[f:max(len(s.s) - b, 0)])

    def op_SPLIT(self, s, sep=None):
        if sep is not None and type(sep) not in (Sc, Pa):
            return self.nope()
        if type(s) is not Sc:
            return self.nope()
        if sep is None or tostr(sep) == "":
            return Li(items(s))
        if type(sep) is Sc:
            return Li(map(Sc, s.s.split(sep.s)))
        r = compile_raw(sep)
        out = []
        last = 0
        for m in r.finditer(s.s):
            out.append(Sc(s.s[last:m.start()]))
            out += [NIL if g is None else Sc(g) for g in m.groups()]
            last = m.end()
        out.append(Sc(s.s[last:]))
        return Li(out)

    def op_FIRSTMATCH(self, s, r):
        if type(s) is Pa and type(r) is Sc:
            s, r = r, s
        elif type(r) is Sc:
            r = escape_pattern(r)
        if type(s) is not Sc or type(r) is not Pa:
            return self.nope()
        m = compile_raw(r).search(s.s)
        if not m:
            return NIL
        self.regex_vars(m)
        return Sc(m.group(0))

    def _finds(self, v, x):
        """Ascending list of positions of x in v (list of ints)."""
        if type(v) is Li:
            return [i for i, y in enumerate(v.t) if veq(x, y)]
        if type(v) is Sc:
            n, k = len(v.s), len(x.s)
            return [i for i in range(n - k + 1) if v.s.startswith(x.s, i)]
        if v.finite:
            v.size()        # declines for huge ranges
        if in_range(x, v) and num(x) == toint(x):
            return [toint(x) - v.first]
        return []

    def _findable(self, v, x):
        return type(v) is Li or (type(x) is Sc and type(v) in ITER)

    def op_FIND(self, v, x):
        if is_list(x) and type(v) in (Sc, Ra):
            return Li(self.op_FIND(v, y) for y in items(x))
        if type(x) is Pa and type(v) is Sc:
            m = compile_raw(x).search(v.s)
            if not m:
                return NIL
            self.regex_vars(m)
            return sc(m.start())
        if self._findable(v, x):
            at = self._finds(v, x)
            return sc(at[0]) if at else NIL
        return self.nope()

    def op_FINDALL(self, v, x):
        if is_list(x) and type(v) in (Sc, Ra):
            return Li(self.op_FINDALL(v, y) for y in items(x))
        if type(x) is Pa and type(v) is Sc:
            out = []
            for m in finditer(x, v.s):
                self.regex_vars(m)
                out.append(sc(m.start()))
            return Li(out)
        if self._findable(v, x):
            return Li(map(sc, self._finds(v, x)))
        return self.nope()

    def op_REPLACE(self, v, old, new):
        v, old, new = [Li(items(x)) if type(x) is Ra else x
                       for x in (v, old, new)]
        if type(old) is Sc and type(new) in (Pa, Bl):
            old = escape_pattern(old)
        if (type(v) not in ITER or type(old) not in (Sc, Li, Pa)
                or not (type(new) in (Sc, Li, Pa, Bl) or new is NIL)):
            return self.nope()
        if type(v) is Li:
            return Li([self.op_REPLACE(x, old, new) for x in v.t])
        if type(old) is Li:
            r = v
            for k, o in enumerate(old.t):
                if type(new) is Li:
                    n = new.t[k] if k < len(new.t) else NIL
                else:
                    n = new
                r = self.op_REPLACE(r, o, n)
            return r
        if type(old) is Pa:
            rx = compile_raw(old)
            tpl = template(new, rx.groups) if type(new) is Pa else None
            out, last = [], 0
            for m in rx.finditer(v.s):
                out.append(v.s[last:m.start()])
                last = m.end()
                if type(new) is Bl:
                    out.append(self.str(self.call(new, self.regex_vars(m))))
                elif tpl is not None:
                    out.append("".join(
                        t if isinstance(t, str) else (m.group(t) or "")
                        for t in tpl))
                else:
                    out.append(self.str(new))
            return sc("".join(out) + v.s[last:])
        return sc(v.s.replace(old.s, self.str(new)))

    def op_TRANSLITERATE(self, s, old, new):
        if is_list(s):
            return Li(self.op_TRANSLITERATE(x, old, new) for x in items(s))
        if type(s) is not Sc or type(old) not in ITER \
                or type(new) not in ITER:
            return self.nope()
        table = {}
        for o, n in zip(items(old), items(new)):
            if type(old) is Sc:
                o = ord(o.s)
            elif type(o) is Sc:
                o = num(o)
            else:
                self.warn()
                continue
            if type(new) is Sc:
                n = ord(n.s)
            elif type(n) is Sc:
                n = num(n)
                if isinstance(n, int) and 0xD800 <= n < 0xE000:
                    raise Unsure("surrogate")
            elif n is NIL:
                n = None
            else:
                self.warn()
                continue
            table[o] = n
        out = []
        for c in s.s:
            n = table.get(ord(c), ord(c))
            if isinstance(n, float):
                raise PFatal("float character code")
            out.append("" if n is None else chr(n))
        return Sc("".join(out))


# ---- helpers -------------------------------------------------------------

def veq(a, b):
    if type(a) is Ra and type(b) is Ra:
        return (a.first, a.hi) == (b.first, b.hi)
    if type(a) is Li and type(b) is Li:
        return len(a.t) == len(b.t) and all(map(veq, a.t, b.t))
    return a == b if type(a) is type(b) else False


def in_range(x, r):
    if type(x) is not Sc:
        return False
    n = num(x)
    return n >= r.first and (r.hi is None or n < r.hi)


def digits(n, b):
    out = []
    while n:
        n, d = divmod(n, b)
        out.append(d)
        if len(out) > 20000:
            raise Unsure("many digits")
    return out[::-1]


def topat(v):
    return v if type(v) is Pa else Pa(v.s, 0)


def pconcat(a, b):
    return Pa(a.raw + b.raw, a.fl | b.fl)


def choose(xs, n):
    if n == 0:
        return [()]
    out = []
    for i in range(len(xs) - n + 1):
        out += [(xs[i],) + t for t in choose(xs[i + 1:], n - 1)]
    return out


def perms(xs):
    if not xs:
        return [()]
    out = []
    for i in range(len(xs)):
        out += [(xs[i],) + t for t in perms(xs[:i] + xs[i + 1:])]
    return out


def template(p, groups):
    """Replacement pattern -> list of literal strings / group numbers."""
    t, out, k = p.raw, [], 0
    while k < len(t):
        c = t[k]
        if c == "&":
            out.append(0)
        elif c == "\\":
            k += 1
            if k >= len(t):
                raise PFatal("bad template")
            d = t[k]
            if d in "123456789":
                if t[k + 1:k + 2] in set("0123456789"):
                    k += 1
                    d += t[k]
                    if t[k + 1:k + 2].isdigit():
                        raise Unsure("three-digit group")
                if int(d) > groups:
                    raise Unsure("no such group")
                out.append(int(d))
            elif d == "&":
                out.append("&")
            elif d == "\\":
                out.append("\\")
            elif d in "nrtafv":
                out.append({"n": "\n", "r": "\r", "t": "\t", "a": "\a",
                            "f": "\f", "v": "\v"}[d])
            elif d.isalnum():
                raise Unsure("template escape")
            else:
                out.append("\\" + d)
        else:
            out.append(c)
        k += 1
    return out
