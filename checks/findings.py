"""Known findings: defects recorded rather than repaired.

known-findings.txt has one line per entry:
  fixed: property=<id> <commit> <what failed>
  finding: property=<id> {"kind": .., "case": {..}, "what": ..}
A fixed entry suppresses nothing.  A finding is re-run on every check; while
it still fails, it is reported as known, and a violation with exactly that
kind and case is not reported again.
"""
import json
import os

FILE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "known-findings.txt")


def load(pid):
    out = []
    with open(FILE, encoding="utf-8") as f:
        for line in f:
            if line.startswith(f"finding: property={pid} "):
                out.append(json.loads(line.split(" ", 2)[2]))
    return out


def report(pid):
    from . import core
    known = []
    for e in load(pid):
        v, m = core.judge_alone(pid, e["kind"], e["case"])
        if v == "bad":
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
            known.append(e)
    return known


def listed(known, v):
    return any(e["kind"] == v["kind"] and e["case"] == v["case"]
               for e in known)
