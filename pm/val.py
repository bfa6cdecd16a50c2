"""Immutable reference values for Pip (the model's own data types).

Because every value is immutable, value semantics (no aliasing) holds in the
model by construction; that is what makes it usable as an oracle for the real
interpreter, whose values are mutable objects.
"""
import re


class Unsure(Exception):
    """The model declines to predict this execution (counted, never a verdict)."""


FAULTS = {"\0INT": KeyboardInterrupt, "\0MEM": MemoryError, "\0OS": OSError,
          "\0EOF": EOFError, "\0UNI": UnicodeError, "\0VAL": ValueError}


class PFatal(Exception):
    """The reference semantics says: fatal error."""
    interrupt = False


class PInterrupt(PFatal):
    """Interrupted by the user."""
    interrupt = True


class V:
    __slots__ = ()


class Sc(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is Sc and o.s == self.s

    def __hash__(self):
        return hash(("S", self.s))

    def __repr__(self):
        return f"Sc({self.s!r})"


class Li(V):
    __slots__ = ("t", "n")

    def __init__(self, t=()):
        self.t = tuple(t)
        # the number of items on all levels: what copying it takes
        self.n = len(self.t)
        for x in self.t:
            if type(x) is Li:
                self.n += x.n
        charge(self.n)

    def __eq__(self, o):
        return type(o) is Li and o.t == self.t

    def __hash__(self):
        return hash(("L", self.t))

    def __repr__(self):
        return f"Li({list(self.t)!r})"


class Ra(V):
    """lo is None for an open lower end (counts as 0); hi None is infinite."""
    __slots__ = ("lo", "hi")
    huge = 0    # how many Ranges too long to be spelled out were made

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi
        if hi is not None and hi - (lo or 0) > 100000:
            Ra.huge += 1

    def __eq__(self, o):
        return type(o) is Ra and (o.lo, o.hi) == (self.lo, self.hi)

    def __hash__(self):
        return hash(("R", self.lo, self.hi))

    def __repr__(self):
        return f"Ra({self.lo},{self.hi})"

    @property
    def first(self):
        return self.lo or 0

    @property
    def finite(self):
        return self.hi is not None

    def size(self):
        n = max(0, self.hi - self.first)
        if n >= 2**62:
            raise Unsure("huge range")
        return n


class Pa(V):
    __slots__ = ("raw", "fl")

    def __init__(self, raw, fl=0):
        self.raw = raw
        self.fl = int(fl)

    def __eq__(self, o):
        return type(o) is Pa and (o.raw, o.fl) == (self.raw, self.fl)

    def __hash__(self):
        return hash(("P", self.raw, self.fl))

    def __repr__(self):
        return f"Pa({self.raw!r},{self.fl})"


class Bl(V):
    """stmts: tuple of statement trees; ret: expression tree (or a V)."""
    __slots__ = ("st", "ret")

    def __init__(self, st, ret):
        self.st = tuple(st)
        self.ret = ret

    def __eq__(self, o):
        if type(o) is not Bl:
            return False
        return (self.st, self.ret) == (o.st, o.ret)

    def __hash__(self):
        return hash("B")

    def __repr__(self):
        return f"Bl({self.st!r},{self.ret!r})"


class _Nil(V):
    __slots__ = ()

    def __repr__(self):
        return "NIL"

    def __hash__(self):
        return 7


NIL = _Nil()
ONE = Sc("1")
ZERO = Sc("0")
EMPTY = Sc("")
ITER = (Sc, Li, Ra)

A, IC, ML, DA = (int(re.ASCII), int(re.IGNORECASE), int(re.MULTILINE),
                 int(re.DOTALL))

_flt = re.compile(r"-?(?:\d+\.\d*(?:e[+-]\d+)?|\d+e[+-]\d+|\.\d+(?:e[+-]\d+)?)")
_int = re.compile(r"-?\d+")
LIMIT = 20000

# Work meter: total number of items materialised by one prediction
METER = [-10**15]      # only counts while a model run is active
METER_MAX = 600000


def charge(n):
    METER[0] += n
    if METER[0] > METER_MAX:
        raise Unsure("too much work")


def sc(x):
    """Python number/bool/str -> Scalar, in Pip's canonical number format."""
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, complex):
        raise Unsure("complex")
    if isinstance(x, float):
        t = str(x)
        if t.endswith(".0"):
            t = str(int(x))
        return Sc(t)
    if isinstance(x, int):
        if x.bit_length() > 12000:
            raise Unsure("huge integer")
        return Sc(str(x))
    if isinstance(x, str):
        if len(x) > LIMIT:
            raise Unsure("huge string")
        return Sc(x)
    raise TypeError(x)


def num(v):
    """Numeric value: int/float for Scalars, nested lists for Lists/Ranges."""
    if type(v) is Sc:
        t = v.s.lstrip()
        m = _flt.match(t)
        if m:
            return float(m.group())
        m = _int.match(t)
        if m:
            if len(m.group()) > 4000:
                raise Unsure("huge literal")
            return int(m.group())
        return 0
    if type(v) is Li:
        return [num(i) for i in v.t]
    if type(v) is Ra:
        if not v.finite:
            return []
        return [num(i) for i in items(v)]
    return 0


def toint(v):
    m = _int.match(v.s.lstrip())
    if m:
        if len(m.group()) > 4000:
            raise Unsure("huge literal")
        return int(m.group())
    return 0


def truth(v):
    t = type(v)
    if t is Sc:
        s = v.s
        if s == "":
            return False
        if s.endswith("\n"):
            s = s[:-1]
        # "some form of 0": digits all zero with at most one point, at least
        # one zero, no sign
        body = s.replace(".", "", 1)
        return not (body != "" and set(body) == {"0"})
    if t is Li:
        return bool(v.t)
    if t is Ra:
        return (not v.finite) or v.size() > 0
    if t is Pa:
        return v.raw != ""
    if t is Bl:
        return bool(v.st) or v.ret is not NIL
    return False


def items(v):
    """Finite item sequence of an iterable value, as a list."""
    t = type(v)
    if t is Sc:
        charge(len(v.s))
        return [Sc(c) for c in v.s]
    if t is Li:
        charge(len(v.t))
        return list(v.t)
    if t is Ra:
        if not v.finite:
            raise Unsure("iterating an infinite range")
        if v.size() > LIMIT:
            raise Unsure("huge range")
        charge(v.size())
        return [Sc(str(i)) for i in range(v.first, v.hi)]
    if t is Pa:
        return [Sc(c) for c in v.raw]
    if v is NIL:
        return []
    raise TypeError("not iterable")


class InfiniteLen(Exception):
    pass


def size(v):
    t = type(v)
    if t is Sc:
        return len(v.s)
    if t is Li:
        return len(v.t)
    if t is Ra:
        if not v.finite:
            raise InfiniteLen()
        return v.size()
    raise TypeError("no len")


def tostr(v, fmt=None):
    t = type(v)
    charge(1)
    if t is Sc:
        return v.s
    if t is Pa:
        return v.raw
    if v is NIL:
        return ""
    if t is Bl:
        return rep(v)
    if t is Ra:
        if not v.finite:
            return rep(v)
        return tostr(Li(items(v)), fmt)
    if fmt is None:
        return "".join(tostr(i, fmt) for i in v.t)
    if fmt == "p":
        return rep(v)
    if fmt == "n":
        return "\n".join(tostr(i, fmt) for i in v.t)
    if fmt == "s":
        return " ".join(tostr(i, fmt) for i in v.t)
    if fmt == "P":
        return "\n".join(rep(i) for i in v.t)
    if fmt in "lS":
        sep = "" if fmt == "l" else " "
        return "\n".join(_joined(i, sep, fmt) if type(i) is Li
                         else tostr(i, fmt) for i in v.t)
    raise AssertionError(fmt)


def _joined(v, sep, fmt):
    return sep.join(_joined(i, sep, fmt) if type(i) is Li else tostr(i, fmt)
                    for i in v.t)


def is_numeral(s):
    """-?digits or -?digits.digits"""
    if s.startswith("-"):
        s = s[1:]
    a, dot, b = s.partition(".")
    if not a.isdecimal():
        return False
    return b.isdecimal() if dot else True


def canonical(v):
    """Is this negative numeral what negating its magnitude gives?"""
    return len(v.s) < 4000 and sc(num(v)) == v


def rep(v):
    t = type(v)
    if t is Sc:
        if is_numeral(v.s) and (v.s[0] != "-" or canonical(v)):
            return v.s
        if '"' in v.s:
            return '\\"' + v.s.replace("\\", "\\\\") + '\\"'
        return '"' + v.s + '"'
    if t is Li:
        return "[" + ";".join(rep(i) for i in v.t) + "]"
    if t is Ra:
        return ("(" + ("()" if v.lo is None else str(v.lo)) + ","
                + ("()" if v.hi is None else str(v.hi)) + ")")
    if t is Pa:
        out = ("A" if v.fl & A else "") + ("-" if v.fl & IC else "") \
            + ("," if v.fl & ML else "") + ("." if v.fl & DA else "") + "`"
        bs = 0
        for c in v.raw:
            if c == "`" and bs % 2 == 0:
                out += "\\"
            out += c
            bs = bs + 1 if c == "\\" else 0
        return out + "`"
    if v is NIL:
        return "()"
    if t is Bl:
        from . import syn
        return "{" + syn.unparse(list(v.st) + [v.ret]) + "}"
    raise TypeError(v)


# ---- indexing -------------------------------------------------------------

class BadIndex(Exception):
    pass


def get_int(v, i):
    t = type(v)
    if t is Sc:
        if not v.s:
            raise BadIndex
        return Sc(v.s[i % len(v.s)])
    if t is Li:
        if not v.t:
            raise BadIndex
        return v.t[i % len(v.t)]
    if t is Ra:
        if v.finite:
            if v.size() == 0:
                raise BadIndex
            return sc(v.first + i % v.size())
        if i < 0:
            return NIL
        return sc(v.first + i)
    raise TypeError("cannot index")


def get_slice(v, a, b):
    """Cyclic slicing for strings and lists; ranges stay ranges if they can."""
    t = type(v)
    if t is Ra:
        if not v.finite:
            if (a is not None and a < 0) or (b is not None and b < 0):
                return NIL
            lo = v.lo if a is None else v.first + a
            return Ra(lo, None if b is None else v.first + b)
        n = v.size()
        if n == 0:
            return v
        a = 0 if a is None else a
        b = n if b is None else b
        if a >= -n and b <= n:
            if a < 0:
                a += n
            if b < 0:
                b = max(b + n, 0)
            a = min(a, n)
            return Ra(v.first + a, v.first + b)
        v = Li(items(v))
        t = Li
    seq = v.s if t is Sc else v.t
    if not seq:
        return v
    n = len(seq)
    a = 0 if a is None else a
    b = n if b is None else b
    if a < 0:
        a += n
    if b < 0:
        b += n
    if b - a > LIMIT:
        raise Unsure("huge slice")
    picked = [seq[k % n] for k in range(a, b)]
    return Sc("".join(picked)) if t is Sc else Li(picked)


def set_item(v, idx, new, fmt):
    """Functional update v[idx] = new for Scalars and Lists."""
    t = type(v)
    if t is Sc:
        if isinstance(idx, tuple):
            L = list(v.s)
            L[slice(*idx)] = list(tostr(new, fmt))
            return Sc("".join(L))
        if not v.s:
            raise BadIndex
        i = idx % len(v.s)
        return Sc(v.s[:i] + tostr(new, fmt) + v.s[i + 1:])
    if t is Li:
        if isinstance(idx, tuple):
            L = list(v.t)
            L[slice(*idx)] = items(new)      # TypeError if not iterable
            return Li(L)
        if not v.t:
            raise BadIndex
        i = idx % len(v.t)
        return Li(v.t[:i] + (new,) + v.t[i + 1:])
    raise TypeError("no item assignment")
