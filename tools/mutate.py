"""Mutation campaign: python -m tools.mutate OUT.jsonl COUNT SECONDS SEED [file:firstline-lastline ...]

Development aid, not a registered check: applies one small change at a time
to a scratch copy of /repo, drops those the unit tests notice, and runs all
checks briefly (tools.hunt) to see which notice the rest."""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
FILES = ["scanning.py", "parsing.py", "operators.py", "tokens.py",
         "ptypes.py", "execution.py", "errors.py", "pip.py"]
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           PYTHONIOENCODING="utf-8", PYTHONUTF8="1")
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"],
       ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"],
       ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+", "//"],
       ast.FloorDiv: ["/", "*"], ast.Div: ["*", "//"], ast.Mod: ["//"],
       ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.Pow: ["*"]}


class Src:
    def __init__(self, path):
        self.text = open(path, encoding="utf-8").read()
        self.b = self.text.encode()
        self.off = [0]
        for l in self.b.splitlines(True):
            self.off.append(self.off[-1] + len(l))

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return (self.pos(n.lineno, n.col_offset),
                self.pos(n.end_lineno, n.end_col_offset))

    def seg(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


def mutants(path):
    s = Src(path)
    tree = ast.parse(s.text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr in ("warn", "die"):
            for m in ast.walk(n):
                skip.add(id(m))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                and n.func.id == "print":
            for m in ast.walk(n):
                skip.add(id(m))
    out = []

    def add(n, new, why):
        a, b = s.span(n)
        out.append((a, b, new, why, n.lineno))

    def between(l, r, old, new, why):
        a, b = s.span(l)[1], s.span(r)[0]
        t = s.b[a:b].decode()
        if old in t:
            i = t.index(old)
            out.append((a + i, a + i + len(old), new, why, l.lineno))

    OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=",
           ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "not in",
           ast.Is: "is", ast.IsNot: "is not", ast.Add: "+", ast.Sub: "-",
           ast.Mult: "*", ast.FloorDiv: "//", ast.Div: "/", ast.Mod: "%",
           ast.BitAnd: "&", ast.BitOr: "|", ast.Pow: "**"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            l = n.left
            for op, r in zip(n.ops, n.comparators):
                for new in CMP.get(type(op), []):
                    between(l, r, OPS[type(op)], new, "compare")
                l = r
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                between(n.left, n.right, OPS[type(n.op)], new, "arith")
        elif isinstance(n, ast.BoolOp):
            w = "and" if isinstance(n.op, ast.And) else "or"
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, w, "or" if w == "and" else "and", "bool")
            for v in n.values:
                add(v, "True" if w == "and" else "False", "drop condition")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, s.seg(n.operand), "drop not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, s.seg(n.operand), "drop minus")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const+1")
                if n.value:
                    add(n, str(n.value - 1), "const-1")
            elif isinstance(n.value, str) and 0 < len(n.value) <= 4:
                add(n, repr(""), "empty str")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            add(n.test, f"(not ({s.seg(n.test)}))", "negate")
            if isinstance(n, ast.If):
                add(n.test, f"(False and ({s.seg(n.test)}))", "never")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "continue" if isinstance(n, ast.Break) else "break",
                "break/continue")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            add(n, "pass", "delete statement")
            if isinstance(n, ast.AugAssign):
                t = s.seg(n)
                if "+=" in t:
                    add(n, t.replace("+=", "=", 1), "augassign")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delete call")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[0], n.args[1]
                if not (isinstance(n.func, ast.Name)
                        and n.func.id == "isinstance"):
                    x, y = s.span(a)[0], s.span(b)[1]
                    mid = s.b[s.span(a)[1]:s.span(b)[0]].decode()
                    out.append((x, y, s.seg(b) + mid + s.seg(a),
                                "swap args", n.lineno))
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    not n.keywords:
                add(n, s.seg(n.func.value), "drop method ." + n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in (
                    "list", "reversed", "sorted", "abs", "List", "Scalar",
                    "str", "set", "copy") and len(n.args) == 1:
                add(n, s.seg(n.args[0]), "drop call " + n.func.id)
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max",
                                                              "any", "all"):
                add(n.func, {"min": "max", "max": "min", "any": "all",
                             "all": "any"}[n.func.id], "min/max")
        elif isinstance(n, ast.Tuple) and len(n.elts) >= 2 and all(
                isinstance(e, ast.Name) for e in n.elts) and \
                isinstance(n.ctx, ast.Load) and s.seg(n).startswith("("):
            for i in range(len(n.elts)):
                k = [s.seg(e) for j, e in enumerate(n.elts) if j != i]
                add(n, "(" + ", ".join(k) + ",)", "tuple item")
        elif isinstance(n, ast.Slice):
            if n.lower:
                add(n.lower, "", "slice lower")
            if n.upper:
                add(n.upper, "", "slice upper")
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None")
    return s, out


def one(job):
    f, (a, b, new, why, line), sec, seed = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for x in os.listdir(REPO):
            if x.endswith(".py"):
                shutil.copy(os.path.join(REPO, x), d)
        shutil.copytree(os.path.join(REPO, "test"), d + "/test",
                        ignore=shutil.ignore_patterns("__pycache__"))
        s = Src(os.path.join(REPO, f))
        t = s.b[:a] + new.encode() + s.b[b:]
        o = {"file": f, "line": line, "why": why,
             "old": s.b[a:b].decode()[:120], "new": new[:120]}
        try:
            compile(t, f, "exec")
        except (SyntaxError, ValueError):
            return dict(o, res="nocompile")
        with open(os.path.join(d, f), "wb") as h:
            h.write(t)
        p = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p",
                            "no:cacheprovider", "test"], cwd=d, env=ENV,
                           capture_output=True, timeout=100)
        if p.returncode:
            return dict(o, res="unit tests")
        p = subprocess.Popen([PY, "-B", "-m", "tools.hunt", str(sec),
                              str(seed)], cwd="/verif",
                             env=dict(ENV, VERIF_REPO=d),
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            so, se = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            return dict(o, res="hunt timeout")
        return dict(o, res=so.decode().strip()[-700:]
                    or "hunt failed: " + se.decode()[-300:])
    except subprocess.TimeoutExpired:
        return dict(o, res="unit tests hang")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, count, sec, seed = (sys.argv[1], int(sys.argv[2]),
                             float(sys.argv[3]), int(sys.argv[4]))
    only = sys.argv[5:]
    pool = []
    for f in FILES:
        _, ms = mutants(os.path.join(REPO, f))
        for m in ms:
            if only and not any(
                    o.split(":")[0] == f and (":" not in o or int(
                        o.split(":")[1].split("-")[0]) <= m[4] <= int(
                        o.split(":")[1].split("-")[1])) for o in only):
                continue
            pool.append((f, m, sec, seed))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            e = json.loads(l)
            done.add((e["file"], e["line"], e["why"], e["old"], e["new"]))
    random.Random(seed).shuffle(pool)
    print(len(pool), "mutants in all")
    pool = [j for j in pool if (j[0], j[1][4], j[1][3]) not in
            {x[:3] for x in done}][:count]
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(out, "a") as h:
        for fu in cf.as_completed([ex.submit(one, j) for j in pool]):
            r = fu.result()
            h.write(json.dumps(r) + "\n")
            h.flush()


main()
