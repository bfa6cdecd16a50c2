"""Reference grammar: precedence climbing over the frozen operator table.

Tree nodes are tuples (values embedded by lambda-building are val.V objects):
  ('n', name)                      name
  ('l', kind, text)                literal token
  ('op', Op, (args...))            operator application (1, 2 or 3 args)
  ('chain', (e0, Op, e1, Op, ...)) comparison chain
  ('paren', e) ('block', (stmts,)) ('send', (es,)) ('list', (es,))
  ('cmd', name, (args...))         statement
"""
import re
from . import optable
from . import lex as L
from .val import Unsure


class Incomplete(Exception):
    pass


class Bad(Exception):
    pass


class Op:
    """Operator with meta-modifiers; value object."""
    __slots__ = ("text", "fn", "arity", "prec", "assoc", "default", "flags",
                 "fold", "scan", "map", "assign")

    def __init__(self, text, fn, arity, prec, assoc, default, flags,
                 fold=False, scan=False, map=False, assign=False):
        self.text, self.fn, self.arity = text, fn, arity
        self.prec, self.assoc = prec, assoc
        self.default, self.flags = default, flags
        self.fold, self.scan, self.map, self.assign = fold, scan, map, assign

    def but(self, **kw):
        d = {k: getattr(self, k) for k in Op.__slots__}
        d.update(kw)
        return Op(**d)

    def key(self):
        return (self.text, self.arity, self.fn, self.fold, self.scan,
                self.map, self.assign)

    def __eq__(self, o):
        return type(o) is Op and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"Op<{self}/{self.arity}>"

    def __str__(self):
        s = self.text
        if self.fold:
            s = "$" + s
        elif self.scan:
            s = "\\$" + s
        if self.map:
            s += " *" if self.text + "*" in L.OPS else "*"
        if self.assign:
            s += " :" if s.endswith(":") else ":"
        return s


OPS = {1: {}, 2: {}, 3: {}}
CHAIN_PREC = None
for _p, (_ar, _as, _rows) in enumerate(optable.LEVELS):
    for _t, _fn, _df, _fl in _rows:
        OPS[_ar][_t] = Op(_t, _fn, _ar, _p, _as, _df, _fl)
    if _as == "C":
        CHAIN_PREC = _p
ASSIGN_PREC = OPS[2][":"].prec
ASSIGN_ASSOC = OPS[2][":"].assoc
LITS = {"String", "Pattern", "Char", "EscapedString", "Number"}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def cur(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def is_sym(self, s):
        c = self.cur()
        return c is not None and c.s == s and c.k not in LITS \
            and c.k != "Name"

    def program(self):
        """Statements up to end of tokens or an unmatched closing brace."""
        out = []
        while self.cur() is not None and not self.is_sym("}"):
            out.append(self.statement())
        return tuple(out)

    def eat_semi(self):
        if self.is_sym(";"):
            self.i += 1

    def statement(self):
        c = self.cur()
        if c is None:
            raise Incomplete("statement")
        if c.k == "Command":
            self.i += 1
            args = []
            for want in optable.COMMANDS[c.s]:
                if want == "EXPR":
                    args.append(self.expr())
                elif want == "CODE":
                    args.append(self.block())
                elif want == "LOOPVAR":
                    args.append(self.names())
                elif want == "ELSE":
                    if self.is_sym("EL"):
                        self.i += 1
                        args.append(self.block())
                    else:
                        args.append(())
            st = ("cmd", c.s, tuple(args))
        else:
            st = self.expr()
        self.eat_semi()
        return st

    def names(self):
        c = self.cur()
        if c is not None and c.k == "Name":
            self.i += 1
            r = ("n", c.s)
        elif self.is_sym("["):
            self.i += 1
            sub = []
            while not self.is_sym("]"):
                sub.append(self.names())
            self.i += 1
            if not sub:
                raise Bad("empty name list")
            r = ("list", tuple(sub))
        elif c is None:
            raise Incomplete("name list")
        else:
            raise Bad("name list")
        self.eat_semi()
        return r

    def block(self):
        if self.is_sym("{"):
            self.i += 1
            b = self.program()
            if self.cur() is None:
                raise Incomplete("block")
            self.i += 1
            return b
        return (self.statement(),)

    def is_colon(self, k):
        return (k < len(self.t) and self.t[k].s == ":"
                and self.t[k].k == "Operator")

    def expr(self, minp=-1):
        left = self.operand()
        while True:
            c = self.cur()
            if c is None or c.k != "Operator":
                break
            op = OPS[2].get(c.s) or OPS[3].get(c.s)
            if op is None:
                break
            meta = self.is_colon(self.i + 1)
            prec = ASSIGN_PREC if meta else op.prec
            if prec < minp:
                break
            self.i += 1
            if meta:
                self.i += 1
                op = op.but(assign=True, prec=ASSIGN_PREC,
                            assoc=ASSIGN_ASSOC)
            mid = ()
            if op.assoc != "C" and op.arity == 3:
                mid = (self.expr(),)
            right = self.expr_tail(prec if op.assoc == "R" else prec + 1)
            if op.assoc == "C":
                if left[0] == "chain":
                    left = ("chain", left[1] + (op, right))
                else:
                    left = ("chain", (left, op, right))
            else:
                left = ("op", op, (left,) + mid + (right,))
        if minp == -1:
            self.eat_semi()
        return left

    def expr_tail(self, minp):
        return self.expr(minp)

    def operand(self):
        c = self.cur()
        if c is None:
            raise Incomplete("expression")
        if c.k == "EscapedString":
            self.i += 1
            return interpolate(c.s)
        if c.k == "Name":
            self.i += 1
            return ("n", c.s)
        if c.k in LITS:
            self.i += 1
            return ("l", c.k, c.s)
        if c.s == "(":
            self.i += 1
            es = self.until(")")
            if not es:
                return ("l", "Nil", "()")
            if len(es) == 1:
                return ("paren", es[0])
            return ("send", es)
        if c.s == "[":
            self.i += 1
            return ("list", self.until("]"))
        if c.s == "{":
            return ("block", self.block())
        if c.s in OPS[1] or c.s in ("$", "\\$"):
            self.i += 1
            if c.s in ("$", "\\$"):
                d = self.cur()
                if d is None:
                    raise Incomplete("meta-operator")
                if d.s not in OPS[2] or d.k in LITS:
                    raise Bad("meta-operator")
                self.i += 1
                op = OPS[2][d.s].but(arity=1, fold=c.s == "$",
                                     scan=c.s == "\\$")
            else:
                op = OPS[1][c.s]
            if self.is_sym("*"):
                self.i += 1
                op = op.but(map=True)
            if self.is_sym(":"):
                self.i += 1
                op = op.but(assign=True, prec=ASSIGN_PREC)
            return ("op", op, (self.expr(op.prec + 1),))
        raise Bad(c.s)

    def until(self, close):
        es = []
        while not self.is_sym(close):
            if self.cur() is None:
                raise Incomplete(close)
            es.append(self.expr())
        self.i += 1
        return tuple(es)


def interpolate(text):
    raw = text[2:-2]
    parts = [""]
    names = []
    k = 0
    while k < len(raw):
        c = raw[k]
        if c == "\\" and k + 1 < len(raw):
            d = raw[k + 1]
            if d in "abcdefghijklmnopqrstuvwxyz_":
                names.append(d)
                parts.append("")
                k += 2
                continue
            if d in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                n = d
                if k + 2 < len(raw) and raw[k + 2] in \
                        "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                    n += raw[k + 2]
                names.append(n)
                parts.append("")
                k += 1 + len(n)
                continue
            if d == "\\":
                parts[-1] += "\\\\"
                k += 2
                continue
        parts[-1] += c
        k += 1
    if not names:
        return ("l", "EscapedString", text)
    items = [("l", "EscapedString", '\\"' + parts[0] + '\\"')]
    for n, p in zip(names, parts[1:]):
        items.append(("op", OPS[1]["ST"], (("n", n),)))
        items.append(("l", "EscapedString", '\\"' + p + '\\"'))
    return ("paren", ("op", OPS[1]["J"], (("list", tuple(items)),)))


def parse(src):
    try:
        toks = L.lex(src)
    except L.Incomplete as e:
        raise Incomplete(str(e))
    return P(toks).program()


def is_expr(t):
    return isinstance(t, tuple) and t[0] != "cmd"


# ---- unparse -----------------------------------------------------------

def unparse(stmts):
    return "; ".join(ustmt(s) for s in stmts)


def ustmt(s):
    if isinstance(s, tuple) and s[0] == "cmd":
        _, name, args = s
        out = name
        kinds = optable.COMMANDS[name]
        for i, (k, a) in enumerate(zip(kinds, args)):
            if k == "ELSE":
                out += " EL {" + unparse(a) + "}"
            elif k == "CODE":
                out += " {" + unparse(a) + "}"
            else:
                out += " " + uexpr(a)
                if k == "EXPR" and kinds[i + 1] == "EXPR":
                    out += ";"
        return out
    return uexpr(s)


def uexpr(e):
    if not isinstance(e, tuple):
        from . import val
        return val.rep(e)
    k = e[0]
    if k == "n":
        return e[1]
    if k == "l":
        return e[2]
    if k == "paren":
        return "(" + uexpr(e[1]) + ")"
    if k == "block":
        return "{" + unparse(e[1]) + "}"
    if k == "send":
        return "(" + "; ".join(map(uexpr, e[1])) + ")"
    if k == "list":
        return "[" + "; ".join(map(uexpr, e[1])) + "]"
    if k == "chain":
        return " ".join(str(x) if isinstance(x, Op) else uoperand(x)
                        for x in e[1])
    op, args = e[1], [uoperand(a) for a in e[2]]
    if len(args) == 1:
        return f"{op} {args[0]}"
    if len(args) == 2:
        return f"{args[0]} {op} {args[1]}"
    return f"{args[0]} {op} {args[1]}; {args[2]}"


def uoperand(e):
    t = uexpr(e)
    if isinstance(e, tuple):
        if e[0] in ("op", "chain"):
            return "(" + t + ")"
        return t
    # an embedded value whose notation starts with an operator
    if t[0] in "-,.A":
        return "(" + t + ")"
    return t


def skeleton(b):
    """Block shape with operator modifiers erased."""
    def go(e):
        if isinstance(e, Op):
            return e.text
        if isinstance(e, tuple):
            return tuple(go(x) for x in e)
        return e
    return (go(tuple(b.st)), go(b.ret))
