"""Adapter that drives the real interpreter in /repo and records what it does.

Only boundary events are recorded: what was written to stdout / stderr, how
the run ended, and how much of stdin was consumed.
"""
import io
import os
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

_mods = {}
class Undecodable(UnicodeDecodeError):
    def __init__(self, why):
        super().__init__("utf-8", b"\xff", 0, 1, why)


# lines that stand for an event while waiting for input
FAULTS = {"\0INT": KeyboardInterrupt, "\0MEM": MemoryError,
          "\0OS": OSError, "\0EOF": EOFError, "\0UNI": Undecodable,
          "\0VAL": ValueError}


def mods():
    """Import the modules under test once per process."""
    if not _mods:
        import importlib
        for n in ("version", "errors", "tokens", "operators", "scanning",
                  "parsing", "ptypes", "execution", "pip"):
            _mods[n] = importlib.import_module(n)
            f = getattr(_mods[n], "__file__", "")
            if os.path.dirname(os.path.abspath(f)) != os.path.abspath(REPO):
                raise RuntimeError(f"module {n} came from {f}, not {REPO}")
    return _mods


class Timeout(BaseException):
    """CPU watchdog fired (inconclusive by itself)."""


class Budget(BaseException):
    """Logical step budget exceeded."""


class Feed:
    """A stdin stand-in that counts reads."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, lines):
        self.lines = list(lines)
        self.pos = 0
        self.eofs = 0

    def readline(self, *a):
        if self.pos < len(self.lines):
            self.pos += 1
            if self.lines[self.pos - 1] in FAULTS:
                raise FAULTS[self.lines[self.pos - 1]]("injected")
            return self.lines[self.pos - 1] + "\n"
        self.eofs += 1
        return ""

    def read(self, *a):
        rest = "".join(l + "\n" for l in self.lines[self.pos:])
        self.pos = len(self.lines)
        return rest

    def __iter__(self):
        return self

    def __next__(self):
        s = self.readline()
        if not s:
            raise StopIteration
        return s

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def flush(self):
        pass

    def close(self):
        pass


class Obs:
    """What was observed of one execution."""
    __slots__ = ("out", "err", "end", "exc", "eofs", "reads")

    def __init__(self, out, err, end, exc=None, reads=0, eofs=0):
        self.out, self.err, self.end, self.exc = out, err, end, exc
        self.reads, self.eofs = reads, eofs

    def key(self):
        return (self.out, self.err, self.end)

    def __repr__(self):
        return f"Obs(end={self.end}, out={self.out!r}, err={self.err!r}, exc={self.exc!r})"


def _alarm(sig, frame):
    raise Timeout()


CPU_LIMIT = 4.0
DEFAULT_STEPS = None      # set: count interpreter steps instead of seconds


class _Big(Exception):
    pass


class CapIO(io.StringIO):
    """StringIO with an output ceiling, so a runaway loop cannot eat memory."""
    CAP = 4_000_000

    def write(self, s):
        if self.tell() > self.CAP:
            raise Budget()
        return super().write(s)


def guarded(fn, stdin=(), cpu=None, steps=None):
    """Run fn() with captured standard streams; classify how it ended.

    end: "ok" | "fatal" (FatalError) | "exit:<n>" | "crash:<Type>" |
         "timeout" | "budget"
    """
    m = mods()
    FatalError = m["errors"].FatalError
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    out, err, feed = CapIO(), CapIO(), Feed(stdin)
    end, exc, val = "ok", None, None
    old = signal.signal(signal.SIGPROF, _alarm)
    tracer = None
    steps = steps if steps is not None else DEFAULT_STEPS
    if steps is not None:
        left = [steps]

        def tracer(frame, event, arg):
            left[0] -= 1
            if left[0] < 0:
                raise Budget()
            return tracer
    try:
        sys.stdout, sys.stderr, sys.stdin = out, err, feed
        signal.setitimer(signal.ITIMER_PROF, cpu or CPU_LIMIT, 0.5)
        if tracer:
            sys.settrace(tracer)
        try:
            val = fn()
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_PROF, 0)
    except FatalError as e:
        end, exc = "fatal", str(e)
    except SystemExit as e:
        end = f"exit:{0 if e.code is None else e.code}"
    except Timeout:
        end = "timeout"
    except Budget:
        end = "budget"
    except BaseException as e:      # noqa: a crash is an observation
        end, exc = f"crash:{type(e).__name__}", str(e)[:300]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        sys.stdout, sys.stderr, sys.stdin = so, se, si
    o = Obs(out.getvalue(), err.getvalue(), end, exc, feed.pos, feed.eofs)
    return o, val


def run_prog(code, args=(), flags=(), stdin=(), cpu=None, steps=None):
    """Run a program through the public entry point pip.pip."""
    p = mods()["pip"]
    argv = list(flags) + ["--"] + list(args)

    def go():
        # argparse and the interpreter look at sys.argv for the program name
        old = sys.argv
        sys.argv = ["pip.py"]
        try:
            p.pip(code, argv)
        finally:
            sys.argv = old
    return guarded(go, stdin, cpu, steps)[0]


def run_repl(lines, list_format=None, warnings=False, cpu=None, steps=None):
    p = mods()["pip"]
    return guarded(lambda: p.repl(list_format, warnings), lines, cpu,
                   steps)[0]


def setup_limits():
    """Give evaluation a deep Python stack so that depth is not a factor."""
    sys.setrecursionlimit(12000)
