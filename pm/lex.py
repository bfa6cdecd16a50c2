"""Reference scanner: hand-written, character by character."""
from . import optable

OPS = set()
for _ar, _as, _rows in optable.LEVELS:
    for _r in _rows:
        OPS.add(_r[0])
OPS_BY_LEN = sorted(OPS, key=lambda o: (-len(o), o))
SYMBOL_OPS = [o for o in OPS_BY_LEN if not o[0].isalpha()]
WORD_OPS = {o for o in OPS if o[0].isalpha()}
UPPER = set("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER_NAMES = set("abcdefghiklmnopqrstuvwxyz_")       # no j


class Incomplete(Exception):
    pass


class Bad(Exception):
    pass


class Tok:
    __slots__ = ("k", "s")

    def __init__(self, k, s):
        self.k = k
        self.s = s

    def __repr__(self):
        return f"{self.k}:{self.s}"

    def __eq__(self, o):
        return type(o) is Tok and (o.k, o.s) == (self.k, self.s)

    def __hash__(self):
        return hash((self.k, self.s))


def _word(t):
    if t in WORD_OPS:
        return Tok("Operator", t)
    if t in optable.COMMANDS:
        return Tok("Command", t)
    if t == "EL":
        return Tok("Symbol", t)
    return Tok("Name", t)


def _escaped_end(code, i):
    """End of an escaped string whose opening \\" starts at i, or None."""
    k = i + 2
    n = len(code)
    while k < n:
        if code[k] == "\\":
            if k + 1 >= n:
                return None
            if code[k + 1] == '"':
                return k + 2
            k += 2
        else:
            k += 1
    return None


def _pattern_end(code, i):
    k = i + 1
    n = len(code)
    while k < n:
        c = code[k]
        if c == "`":
            return k + 1
        if c == "\\":
            k += 2
        else:
            k += 1
    return None


def lex(src, ignored=None):
    """List of tokens of src.  Raises Incomplete on an unterminated literal."""
    code = "\n" + src + "\n"
    n = len(code)
    i = 0
    out = []
    while i < n:
        c = code[i]
        if c.isspace():
            # find the maximal whitespace run
            j = i
            while j < n and code[j].isspace():
                j += 1
            if j < n and code[j] == ";" and "\n" in code[i:j]:
                i = _eol(code, j)
                continue
            if code.startswith("  ", i):
                i = _eol(code, i)
                continue
            i = j
            continue
        if code.startswith("{;", i):
            j = code.find(";}", i + 2)
            if j < 0:
                raise Incomplete("block comment")
            i = j + 2
            continue
        if c in UPPER:
            j = i
            while j < n and code[j] in UPPER:
                j += 1
            run = j - i
            if run == 3 and code[i:j] == "PIP":
                k = 3
            else:
                k = 1 if run % 2 else 2
            w = code[i:i + k]
            if w == "EI":
                out.append(Tok("Symbol", "EL"))
                i += 1
            else:
                out.append(_word(w))
                i += k
            continue
        if c in LOWER_NAMES:
            out.append(Tok("Name", c))
            i += 1
            continue
        if c == "$":
            d = code[i + 1:i + 2]
            if d and d in "[]()$`'0123456789":
                out.append(Tok("Name", code[i:i + 2]))
                i += 2
                continue
            if d and d in "abcdefghijklmnopqrstuvwxyz":
                j = i + 2
                while j < n and code[j] in "abcdefghijklmnopqrstuvwxyz0123456789_":
                    j += 1
                out.append(Tok("Name", code[i:j]))
                i = j
                continue
            if d == "_":
                j = i + 1
                while j < n and code[j] == "_" and j - i <= 3:
                    j += 1
                out.append(Tok("Name", code[i:j]))
                i = j
                continue
            out.append(Tok("Symbol", "$"))
            i += 1
            continue
        if c == "\\":
            d = code[i + 1:i + 2]
            if d and d in "abcdefg":
                out.append(Tok("Name", code[i:i + 2]))
                i += 2
                continue
            if d == '"':
                j = _escaped_end(code, i)
                if j is None:
                    raise Incomplete("escaped string")
                out.append(Tok("EscapedString", code[i:j]))
                i = j
                continue
            if d == "$":
                out.append(Tok("Symbol", "\\$"))
                i += 2
                continue
        elif c == '"':
            j = code.find('"', i + 1)
            if j < 0:
                raise Incomplete("string")
            out.append(Tok("String", code[i:j + 1]))
            i = j + 1
            continue
        elif c == "`":
            j = _pattern_end(code, i)
            if j is None:
                raise Incomplete("pattern")
            out.append(Tok("Pattern", code[i:j]))
            i = j
            continue
        elif c == "'":
            if i + 1 >= n:
                raise Incomplete("char")
            out.append(Tok("Char", code[i:i + 2]))
            i += 2
            continue
        elif c.isdecimal():
            j = i
            while j < n and code[j].isdecimal():
                j += 1
            if j + 1 < n and code[j] == "." and code[j + 1].isdecimal():
                j += 1
                while j < n and code[j].isdecimal():
                    j += 1
            out.append(Tok("Number", code[i:j]))
            i = j
            continue
        elif c in "[](){};":
            out.append(Tok("Symbol", c))
            i += 1
            continue
        for o in SYMBOL_OPS:
            if code.startswith(o, i):
                out.append(Tok("Operator", o))
                i += len(o)
                break
        else:
            if ignored is not None:
                ignored.append(c)
            i += 1
    return out


def _eol(code, i):
    j = code.find("\n", i)
    return len(code) if j < 0 else j
