"""Reference evaluator for Pip (independent of /repo; immutable values)."""
import itertools
import math
import re
import sys

from . import lex, optable, syn
from .syn import OPS, Op
from .val import (Sc, Li, Ra, Pa, Bl, NIL, ONE, ZERO, EMPTY, ITER, V, Unsure,
                  PFatal, PInterrupt, FAULTS, charge, BadIndex, InfiniteLen, LIMIT, METER, A, IC, ML, DA,
                  sc, num, toint, truth, items, size, tostr, rep,
                  get_int, get_slice, set_item)
from .ops import Ops, LV, compile_raw, finditer, escape_pattern, wrap


LOCALS = set("abcdefg") | {"$_", "$__", "$___"}


class Scope:
    def __init__(self, fn=None, args=None):
        self.fn = fn
        self.vars = {}
        if args is not None:
            for n, a in zip("abcde", args):
                self.vars[n] = a
            self.vars["f"] = fn
            self.vars["g"] = Li(args)


class StepLimit(Unsure):
    pass


VERS = {}        # the version constants of the tree under test


def default_globals():
    P = lambda s: Pa(s, 0)
    return {
        **VERS,
        "_": Bl((), ("n", "a")), "h": Sc("100"), "i": ZERO, "k": Sc(", "),
        "l": Li(), "m": Sc("1000"), "n": Sc("\n"), "o": ONE, "p": Sc("()"),
        "s": Sc(" "), "t": Sc("10"), "u": NIL, "v": Sc("-1"),
        "w": P(r"\s+"), "x": EMPTY, "y": EMPTY,
        "z": Sc("abcdefghijklmnopqrstuvwxyz"),
        "B": Bl((), ("n", "b")), "G": Bl((), ("n", "g")),
        "AZ": Sc("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        "CZ": Sc("bcdfghjklmnpqrstvwxyz"),
        "PA": Sc("".join(map(chr, range(32, 127)))),
        "PI": Sc("3.141592653589793"),
        "VW": Sc("aeiou"), "VY": Sc("aeiouy"),
        "XA": Pa("[a-z]", IC), "XC": P("[bcdfghjklmnpqrstvwxyz]"),
        "XD": P(r"\d"), "XI": P(r"-?\d+"), "XL": P("[a-z]"),
        "XN": P(r"-?\d+(?:\.\d+)?"), "XU": P("[A-Z]"), "XV": P("[aeiou]"),
        "XW": P(r"\w"), "XX": P("."), "XY": P("[aeiouy]"),
    }


def to_block(stmts):
    if stmts and syn.is_expr(stmts[-1]):
        return Bl(stmts[:-1], stmts[-1])
    return Bl(stmts, NIL)


def lit(kind, text):
    if kind == "Number":
        return Sc(text)
    if kind == "String":
        return Sc(text[1:-1])
    if kind == "Char":
        return Sc(text[1])
    if kind == "Nil":
        return NIL
    if kind == "EscapedString":
        raw, out, k = text[2:-2], [], 0
        while k < len(raw):
            if raw.startswith("\\\\", k):
                k += 1
            out.append(raw[k])
            k += 1
        return Sc("".join(out))
    if kind == "Pattern":
        # A backtick can only appear escaped; the backslash escaping it goes
        return Pa(text[1:-1].replace("\\`", "`"))
    raise AssertionError(kind)


class Machine(Ops):
    MAXSTEPS = 4000
    MAXDEPTH = 150

    def __init__(self, fmt=None, stdin=()):
        METER[0] = 0
        self.fmt = fmt
        self.stdin = list(stdin)
        self.out = []
        self.warned = 0
        self.steps = 0
        self.args = []
        self.main = None
        self.opseen = {}
        self.depth = 0
        self.lambdas = 0
        self.calls = 0
        self.outsize = 0
        self.wipe()
        self.scopes = [Scope()]

    # -- plumbing
    def warn(self):
        self.warned += 1

    def nope(self):
        """Non-fatal error: warn and yield nil."""
        self.warned += 1
        return NIL

    def emit(self, s):
        self.outsize += len(s)
        if self.outsize > LIMIT:
            raise Unsure("too much output")
        self.out.append(s)

    def str(self, v):
        return tostr(v, self.fmt)

    def wipe(self):
        g = self.g = default_globals()
        g["\\g"] = Li(self.args)
        for n, a in zip("abcde", self.args):
            g["\\" + n] = a
        g["\\f"] = self.main if self.main is not None else NIL

    def table(self, name):
        return self.scopes[-1].vars if name in LOCALS else self.g

    # -- programs
    to_block = staticmethod(to_block)

    def run_program(self, stmts, args):
        if not stmts:
            return
        self.args = list(args)
        self.main = to_block(stmts)
        self.wipe()
        r = self.call(self.main, self.args)
        self.print_(r)

    def print_(self, v):
        if v is not NIL:
            self.emit(self.str(v) + "\n")
        return v

    def call(self, fn, args):
        args = [self.rv(a) if isinstance(a, LV) else a for a in args]
        if len(self.scopes) > self.MAXDEPTH:
            raise Unsure("deep recursion")
        self.calls += 1
        self.scopes.append(Scope(fn, args))
        depth, self.depth = self.depth, 0
        try:
            for s in fn.st:
                v = self.statement(s)
                if v is not None:
                    self.history(v)
            return self.rv(fn.ret)
        finally:
            self.scopes.pop()
            self.depth = depth

    def history(self, v):
        t = self.scopes[-1].vars
        if "$_" in t:
            if "$__" in t:
                t["$___"] = t["$__"]
            t["$__"] = t["$_"]
        t["$_"] = v

    def statement(self, s):
        if isinstance(s, tuple) and s[0] == "cmd":
            self.tick()
            self.opseen[("cmd", s[1])] = self.opseen.get(("cmd", s[1]), 0) + 1
            getattr(self, "cmd_" + s[1])(*s[2])
            return None
        return self.rv(self.ev(s))

    def body(self, code):
        for s in code:
            self.statement(s)

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise StepLimit("step limit")

    # -- commands
    def cmd_F(self, names, it, code):
        lv = self.ev(names)
        v = self.rv(it)
        t = type(v)
        if t is Bl:
            return self.warn()
        for x in items(v):
            self.assign(lv, x)
            self.body(code)

    def cmd_I(self, cond, code, other):
        self.body(code if truth(self.rv(cond)) else other)

    def cmd_L(self, count, code):
        n = self.rv(count)
        if n is NIL:
            return
        if type(n) is Sc:
            n = toint(n)
        elif type(n) in (Li, Ra):
            try:
                n = size(n)
            except InfiniteLen:
                raise PFatal("len of infinite range")
        else:
            return self.warn()
        if n > self.MAXSTEPS:
            raise Unsure("long loop")
        for _ in range(n):
            self.tick()
            self.body(code)

    def cmd_LR(self, rx, st, code):
        r, s = self.rv(rx), self.rv(st)
        if type(r) is Sc and type(s) is Pa:
            r, s = s, r
        elif type(r) is Sc:
            r = escape_pattern(r)
        if type(r) is Pa and type(s) is Sc:
            for m in finditer(r, s.s):
                self.tick()
                self.regex_vars(m)
                self.body(code)
        else:
            self.warn()

    def cmd_T(self, cond, code):
        while not truth(self.rv(cond)):
            self.tick()
            self.body(code)

    def cmd_W(self, cond, code):
        while truth(self.rv(cond)):
            self.tick()
            self.body(code)

    def cmd_WG(self):
        self.wipe()

    # -- values and places
    def rv(self, e):
        if isinstance(e, tuple):
            e = self.ev(e)
        if isinstance(e, V) or isinstance(e, Op):
            return e
        base = e.base
        if isinstance(base, tuple):
            return Li(self.rv(x) for x in base)
        if base == "q":
            if e.ev is None:
                s = self.stdin.pop(0) if self.stdin else "\0EOF"
                if s == "\0INT":
                    raise PInterrupt(s)
                if s in FAULTS and s != "\0EOF":
                    raise PFatal(s)
                e.ev = NIL if s in FAULTS else Sc(s)
            v = e.ev
        elif base == "r":
            raise Unsure("random")
        elif base in ("PIP", "VD", "VN") and base not in VERS:
            raise Unsure(base)
        else:
            t = self.table(base)
            if base not in t:
                return self.nope()
            v = t[base]
            if type(v) is Li:
                charge(v.n)
        for idx in e.path:
            if type(v) not in ITER:
                return self.nope()
            try:
                v = get_int(v, idx) if isinstance(idx, int) \
                    else get_slice(v, *idx)
            except BadIndex:
                return self.nope()
        return v

    def assign(self, lv, v):
        base = lv.base
        if isinstance(base, tuple):
            if type(v) is Bl:
                return self.warn()
            if type(v) is Ra and not v.finite:
                vals = [sc(v.first + k) for k in range(len(base) + 1)]
            else:
                vals = items(v)
            for k, l in enumerate(base):
                if k < len(vals):
                    self.assign(l, vals[k])
                else:
                    self.warn()
                    self.assign(l, NIL)
            if len(vals) > len(base):
                self.warn()
            return
        if base == "q":
            return self.warn()
        if base == "r":
            raise Unsure("seeding")
        t = self.table(base)
        if not lv.path:
            t[base] = v
            return
        if base not in t:
            return self.warn()
        cur = t[base]
        if type(cur) is Ra:
            cur = t[base] = Li(items(cur))
        if type(cur) not in (Li, Sc):
            return self.warn()
        cur = t[base] = self.listify(cur, lv.path)
        try:
            t[base] = self.put(cur, lv.path, v)
        except (BadIndex, TypeError):
            self.warn()

    def listify(self, cur, path):
        """Ranges on the way to an assigned item become Lists, even if the
        assignment itself then turns out to be impossible."""
        if type(cur) is Ra:
            cur = Li(items(cur))
        if len(path) < 2 or type(cur) is not Li or \
                not isinstance(path[0], int):
            return cur
        try:
            new = self.listify(get_int(cur, path[0]), path[1:])
            return set_item(cur, path[0], new, self.fmt)
        except BadIndex:
            return cur

    def put(self, cur, path, v):
        """cur with path replaced; a slice or string step is by-value."""
        if type(cur) is Ra:
            cur = Li(items(cur))
        if len(path) == 1:
            return set_item(cur, path[0], v, self.fmt)
        idx = path[0]
        if type(cur) not in (Li, Sc):
            raise TypeError
        if isinstance(idx, int):
            child = get_int(cur, idx)
            new = self.put(child, path[1:], v)
            if type(cur) is Li:
                return set_item(cur, idx, new, self.fmt)
            return cur
        self.put(get_slice(cur, *idx), path[1:], v)
        return cur

    # -- evaluation
    def ev(self, e):
        if isinstance(e, (V, LV, Op)):
            return e
        k = e[0]
        if k == "n":
            return LV(e[1])
        if k == "l":
            return lit(e[1], e[2])
        self.tick()
        self.depth += 1
        if self.depth > 60:
            raise Unsure("deep nesting")
        try:
            return self.ev2(k, e)
        finally:
            self.depth -= 1

    def ev2(self, k, e):
        if k == "paren":
            return self.ev(e[1])
        if k == "block":
            return to_block(e[1])
        if k == "list":
            xs = [self.ev(x) for x in e[1]]
            if xs and all(isinstance(x, LV) for x in xs):
                return LV(tuple(xs))
            return Li(self.rv(x) for x in xs)
        if k == "send":
            return self.send(*[self.ev(x) for x in e[1]])
        if k == "chain":
            xs = [self.rv(x) for x in e[1]]
            return self.chain(xs)
        op, args = e[1], list(e[2])
        return self.apply(op, args)

    def chain(self, xs):
        if any(type(x) is Bl for x in xs):
            self.lambdas += 1
            st = []
            out = []
            for x in xs:
                if type(x) is Bl:
                    st += x.st
                    out.append(x.ret)
                else:
                    out.append(x)
            return Bl(st, ("chain", tuple(out)))
        r = ONE
        i = 1
        while i < len(xs):
            r = self.prim(xs[i], [xs[i - 1], xs[i + 1]])
            if not truth(r):
                return r
            i += 2
        return r

    def apply(self, op, args):
        if op.assign:
            lv = self.ev(args[0])
            r = self.apply(op.but(assign=False), [lv] + args[1:])
            return self.do_assign(lv, r)
        if op.map:
            return self.map_meta(op, args[0])
        if op.fold:
            return self.fold_meta(op, args[0])
        if op.scan:
            return self.scan_meta(op, args[0])
        fl = op.flags
        if "R" in fl:
            args = [self.rv(a) for a in args]
        elif "V" in fl:
            done, peek = [], []
            for a in args:
                a = self.ev(a)
                done.append(a)
                # a place is read as soon as it is known, to find functions
                peek.append(self.rv(a) if "B" in fl and isinstance(a, LV)
                            else a)
            args = done
        else:
            self.note(op, args)
            return getattr(self, "op_" + op.fn)(*args)
        if "B" in fl:
            if "V" not in fl:
                peek = args
            if op.assoc == "C":
                pass
            blocks = [i for i, a in enumerate(peek) if type(a) is Bl]
            if blocks:
                if "V" in fl:
                    args = [self.rv(a) if isinstance(a, LV) else a
                            for a in args]
                self.lambdas += 1
                st = []
                out = []
                for a in args:
                    if type(a) is Bl:
                        st += a.st
                        out.append(a.ret)
                    else:
                        out.append(a)
                if op.assoc == "C":
                    raise AssertionError
                return Bl(st, ("op", op, tuple(out)))
        if "L" in fl or "G" in fl:
            each = [i for i, a in enumerate(args)
                    if type(a) is Li or ("G" in fl and type(a) is Ra)]
            if each:
                self.tick()
                if len(args) == 1:
                    return Li(self.apply_v(op, [x])
                              for x in items(args[0]))
                if len(each) == 2:
                    return self.both(op, *args)
                if each == [0]:
                    return Li(self.apply_v(op, [x, args[1]])
                              for x in items(args[0]))
                return Li(self.apply_v(op, [args[0], x])
                          for x in items(args[1]))
        return self.prim(op, args)

    def both(self, op, a, b):
        for v in (a, b):
            if type(v) is Ra and not v.finite:
                raise Unsure("itemwise with infinite range")
        xs, ys = items(a), items(b)
        m = min(len(xs), len(ys))
        out = [self.apply_v(op, [x, y]) for x, y in zip(xs, ys)]
        return Li(out + xs[m:] + ys[m:])

    def apply_v(self, op, vals):
        self.tick()
        r = self.apply(op, vals)
        if isinstance(r, LV):
            raise Unsure("lvalue item")
        return r

    def note(self, op, args):
        key = (op.fn, len(args), tuple(
            type(a).__name__ if isinstance(a, V) else "x" for a in args))
        self.opseen[key] = self.opseen.get(key, 0) + 1

    def prim(self, op, args):
        self.tick()
        self.note(op, args)
        f = getattr(self, "op_" + op.fn, None)
        if f is None:
            raise Unsure(op.fn)
        try:
            return f(*args)
        except (ValueError, OverflowError, ZeroDivisionError, IndexError,
                TypeError, re.error, InfiniteLen, BadIndex) as e:
            raise PFatal(f"{op.fn}: {type(e).__name__}")

    # -- meta operators
    def meta_block(self, op, v):
        self.lambdas += 1
        return Bl(v.st, ("op", op, (v.ret,)))

    def map_meta(self, op, e):
        v = self.rv(e)
        if type(v) is Bl:
            return self.meta_block(op, v)
        if type(v) in ITER:
            o = op.but(map=False)
            self.opseen[("meta", "map")] = self.opseen.get(("meta", "map"), 0) + 1
            out = []
            for x in items(v):
                r = self.apply(o, [x])
                if isinstance(r, LV):
                    raise Unsure("lvalue item")
                out.append(r)
            return Li(out)
        if v is NIL:
            return NIL
        return self.nope()

    def fold_meta(self, op, e):
        v = self.rv(e)
        o = op.but(fold=False, arity=2)
        if type(v) is Bl:
            return self.meta_block(op, v)
        if type(v) in ITER:
            if type(v) is Ra and not v.finite:
                return self.nope()
            xs = items(v)
            self.opseen[("meta", "fold")] = self.opseen.get(("meta", "fold"), 0) + 1
            if not xs:
                d = op.default
                return NIL if d is None else Li() if d == [] else sc(d)
            if op.assoc == "C":
                if len(xs) == 1:
                    return ONE
                return self.chain(self.interlace(xs, o))
            if op.assoc == "L":
                acc = xs[0]
                for x in xs[1:]:
                    acc = self.step(o, acc, x)
            else:
                acc = xs[-1]
                for x in reversed(xs[:-1]):
                    acc = self.step(o, x, acc)
            return acc
        if v is NIL:
            return NIL
        return self.nope()

    def step(self, o, x, y):
        r = self.apply(o, [x, y])
        if isinstance(r, LV):
            raise Unsure("lvalue in fold")
        return r

    @staticmethod
    def interlace(xs, o):
        out = [xs[0]]
        for x in xs[1:]:
            out += [o, x]
        return out

    def scan_meta(self, op, e):
        v = self.rv(e)
        o = op.but(scan=False, arity=2)
        if type(v) is Bl:
            return self.meta_block(op, v)
        if type(v) in ITER:
            if type(v) is Ra and not v.finite:
                return self.nope()
            xs = items(v)
            self.opseen[("meta", "scan")] = self.opseen.get(("meta", "scan"), 0) + 1
            if not xs:
                return Li()
            if op.assoc == "C":
                return Li([ONE] + [self.chain(self.interlace(xs[:k], o))
                                   for k in range(2, len(xs) + 1)])
            if op.assoc == "L":
                out = [xs[0]]
                for x in xs[1:]:
                    out.append(self.step(o, out[-1], x))
            else:
                out = [xs[-1]]
                for x in reversed(xs[:-1]):
                    out.append(self.step(o, x, out[-1]))
                out.reverse()
            return Li(out)
        if v is NIL:
            return NIL
        return self.nope()

    # -- core operators
    def do_assign(self, lv, v):
        if not isinstance(lv, LV):
            self.warn()
            return v
        self.assign(lv, self.rv(v))
        return lv

    def send(self, head, *tail):
        if isinstance(head, LV):
            h = self.rv(head)
            if type(h) is Bl:
                head = h
        self.opseen[("send", type(head).__name__)] = \
            self.opseen.get(("send", type(head).__name__), 0) + 1
        if type(head) is Bl:
            return self.call(head, tail)
        if isinstance(head, LV) or type(head) in ITER:
            v = head
            for i in tail:
                v = self.op_AT(v, i)
            return v
        return self.nope()

    def regex_vars(self, m):
        groups = [NIL if x is None else Sc(x) for x in m.groups()]
        g = self.g
        allg = [Sc(m.group(0))] + groups
        g["$$"] = Li(groups)
        for i in range(10):
            g[f"${i}"] = allg[i] if i < len(allg) else NIL
        g["$("] = sc(m.start())
        g["$)"] = sc(m.end())
        g["$`"] = Sc(m.string[:m.start()])
        g["$'"] = Sc(m.string[m.end():])
        n = len(groups)
        g["$["] = Li(sc(m.start(i)) for i in range(1, n + 1))
        g["$]"] = Li(sc(m.end(i)) for i in range(1, n + 1))
        return allg


