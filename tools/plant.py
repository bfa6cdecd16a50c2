"""Write and verify /verif/seeded/<id> from a spec.

    python -m tools.plant SPECS.py [ID ...]   write, verify and try the checks
    python -m tools.plant --verify [ID ...]   re-verify what is there

A spec: dict(id=, property=, edits=[(file, old, new), ...],
  demo=[(argv, stdin), ...] or python=source, needs=, breaks=)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO, SEED = "/repo", "/verif/seeded"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8",
           PYTHONUTF8="1")
DEMO = '''#!/bin/sh
# run in /repo: exit 0 when the property holds on these executions
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONIOENCODING=utf-8 PYTHONUTF8=1 \\
exec /opt/venv/bin/python -B "$here/demo.py"
'''
RUNNER = '''"""Runs pip.py on fixed programs and compares what it prints."""
import subprocess
import sys

CASES = %s

bad = 0
for argv, stdin, want in CASES:
    try:
        p = subprocess.run([sys.executable, "-B", "pip.py"] + argv,
                           input=stdin, capture_output=True, text=True,
                           timeout=60)
        got = [p.stdout, p.stderr]
    except subprocess.TimeoutExpired:
        got = ["", "does not end"]
    if got[:len(want)] != want:
        bad += 1
        print("pip.py", argv, "stdin", repr(stdin))
        print("  expected", want)
        print("  observed", got[:len(want)])
sys.exit(1 if bad else 0)
'''


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
    return d, d + "/repo"


def tests_pass(d):
    return subprocess.run([PY, "-B", "-m", "pytest", "-q", "-p",
                           "no:cacheprovider", "test"], cwd=d, env=ENV,
                          capture_output=True).returncode == 0


def demo(name, d):
    # from elsewhere, without the patch beside it
    t = tempfile.mkdtemp(prefix="demo")
    try:
        for x in os.listdir(f"{SEED}/{name}"):
            if x not in ("patch.diff", "meta.json"):
                shutil.copy(f"{SEED}/{name}/{x}", t)
        return subprocess.run(["sh", t + "/demo.sh"], cwd=d, env=ENV,
                              capture_output=True, timeout=300).returncode
    finally:
        shutil.rmtree(t)


def base_lines(d, f):
    """Line numbers of f that are original."""
    o = subprocess.run(["git", "blame", "-s", "a0ae245..HEAD", "--", f],
                       cwd=d, capture_output=True, text=True).stdout
    return {i for i, l in enumerate(o.splitlines(), 1) if l[0] == "^"}


def write(s):
    out = f"{SEED}/{s['id']}"
    os.makedirs(out, exist_ok=True)
    d, r = copy()
    try:
        for f, old, new in s["edits"]:
            t = open(f"{r}/{f}").read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old)
                shutil.rmtree(out)
                return False
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True,
                              text=True).stdout
        touched = []
        for f, old, new in s["edits"]:
            base = base_lines(REPO, f)
            n = 0
            cur = None
            for l in subprocess.run(["git", "diff", "-U0", "--", f], cwd=r,
                                    capture_output=True, text=True
                                    ).stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    a, c = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    touched += [(f, i, i in base) for i in range(a, a + c)]
        if not any(t[2] for t in touched if t[2]):
            print(s["id"], "touches only lines of our own commits", touched)
            shutil.rmtree(out)
            return False
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        if "demo_py" in s:
            open(out + "/demo.py", "w").write(s["demo_py"])
        else:
            cases = []
            for c in s["demo"]:
                argv, stdin = (c if len(c) == 2 else (c[0], ""))
                p = subprocess.run([PY, "-B", "pip.py"] + argv, cwd=REPO,
                                   input=stdin, capture_output=True,
                                   text=True, env=ENV, timeout=60)
                want = [p.stdout, p.stderr] if s.get("err") else [p.stdout]
                cases.append((argv, stdin, want))
            import pprint
            open(out + "/demo.py", "w").write(
                RUNNER % pprint.pformat(cases, width=74))
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)
    return True


def verify(name, check=True):
    d, r = copy()
    try:
        meta = json.load(open(f"{SEED}/{name}/meta.json"))
        a = demo(name, r)
        p = subprocess.run(["git", "apply", f"{SEED}/{name}/patch.diff"],
                           cwd=r, capture_output=True, text=True)
        ok = tests_pass(r)
        b = demo(name, r)
        valid = a == 0 and p.returncode == 0 and ok and b not in (0,)
        line = f"{name} {meta['property']} valid={valid}"
        if not valid:
            line += f" demo-clean={a} apply={p.returncode}{p.stderr[:80]}" \
                    f" tests={ok} demo-bug={b}"
        if check and valid:
            p = subprocess.run(["sh", "/verif/run.sh", meta["property"],
                                "quick"], env=dict(
                                    ENV, VERIF_REPO=r, VERIF_EVIDENCE=d + "/ev"),
                               capture_output=True, text=True, cwd="/verif")
            v = [l for l in p.stdout.splitlines() if "VIOLATION" in l]
            line += f" check exit={p.returncode} " + (
                "CAUGHT " + " | ".join(
                    p.stdout.splitlines()[1:2])[:230] if v else "MISSED "
                + p.stdout.strip()[-200:])
        print(line, flush=True)
        return line
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "--verify":
        for n in sys.argv[2:] or sorted(os.listdir(SEED)):
            verify(n)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SPECS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        if len(sys.argv) <= 2 and os.path.exists(f"{SEED}/{s['id']}/patch.diff"):
            continue
        if write(s):
            verify(s["id"], check=not os.environ.get("NOCHECK"))


main()
