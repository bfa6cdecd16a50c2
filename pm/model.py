"""Predict an execution with the reference model."""
from . import ev, lex, syn
from .val import Ra, Sc, NIL, Unsure, PFatal, METER


class Expect:
    """Predicted observation of one program run."""
    __slots__ = ("out", "end", "warned", "m", "phase")

    def __init__(self, out, end, warned, m=None, phase=None):
        self.out, self.end, self.warned, self.m = out, end, warned, m
        self.phase = phase

    def __repr__(self):
        return f"Expect(end={self.end}, out={self.out!r}, warned={self.warned})"


def parse(code):
    """-> statements; raises syn.Incomplete / syn.Bad / Unsure."""
    try:
        return syn.parse(code)
    except lex.Incomplete as e:
        raise syn.Incomplete(str(e))
    except RecursionError:
        raise Unsure("recursion")


def run(code, args=(), fmt=None, stdin=(), exec_args=False, argvals=None,
        maxsteps=None):
    """Predict; raises Unsure when the model declines."""
    try:
        stmts = parse(code)
    except (syn.Incomplete, syn.Bad):
        return Expect("", "fatal", 0, None, "syntax")
    m = ev.Machine(fmt, stdin)
    Ra.huge = 0
    if maxsteps:
        m.MAXSTEPS = maxsteps
    try:
        if argvals is not None:
            vals = list(argvals)
        elif exec_args:
            vals = []
            for a in args:
                try:
                    t = parse(a)
                except (syn.Incomplete, syn.Bad):
                    return Expect("", "fatal", 0, m, "arg-syntax")
                if not t:
                    vals.append(NIL)
                    continue
                if not syn.is_expr(t[0]):
                    raise Unsure("command as -x argument")
                vals.append(m.rv(m.ev(t[0])))
        else:
            vals = [Sc(a) for a in args]
        m.run_program(stmts, vals)
        end = "ok"
    except PFatal:
        end = "fatal"
    except RecursionError:
        raise Unsure("recursion")
    except MemoryError:
        raise Unsure("memory")
    finally:
        METER[0] = -10**15
    return Expect("".join(m.out), end, m.warned, m, "run")
