"""Driver: runs the monitored workloads of one property and reports.

    python -m checks.core C01 quick

A property is a set of *kinds*; a kind generates cases and judges one case by
executing the real code in /repo under observation.  Cases run in chunks, each
chunk in a forked child of a clean parent, so that all the cases of a chunk
share one interpreter process (its history) and nothing leaks between chunks.

A judge answers: None (property held on this execution), a message (violated),
Skip (the case says nothing), or Slow (the CPU watchdog fired: never a verdict
by itself).  A violation is only reported after it was reproduced in a fresh
process: alone, or - if it needs what ran before it - with its whole chunk.
"""
import collections
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from pm import real, model  # noqa: E402
from pm.gen import G  # noqa: E402
from pm.val import Unsure  # noqa: E402

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
NPROC = min(8, os.cpu_count() or 2)
MEM = 3 << 30
STEP_BUDGET = 30_000_000
KINDS = collections.OrderedDict()     # pid -> [Kind]


class Skip(Exception):
    pass


class Slow(Exception):
    pass


class Kind:
    __slots__ = ("pid", "name", "share", "gen", "judge", "cost")

    def __init__(self, pid, name, share, gen, judge, cost):
        self.pid, self.name, self.share = pid, name, share
        self.gen, self.judge, self.cost = gen, judge, cost


def kind(pid, name, share, gen, judge, cost=1):
    """Register a kind.  cost: time of a case in units of about 1.5 ms."""
    KINDS.setdefault(pid, []).append(Kind(pid, name, share, gen, judge, cost))


class Rec:
    """What the monitors observed."""

    def __init__(self):
        self.c = collections.Counter()     # named event counts
        self.d = collections.Counter()     # distinct situations judged
        self.samples = []
        self.hashes = set()                # distinct non-trivial cases
        self.n = 0

    def ev(self, name, n=1):
        self.c[name] += n

    def seen(self, *key):
        self.d[key] += 1
        self.n += 1


# ---------------------------------------------------------------- children

def case_rng(seed, pid, k, i):
    return random.Random(f"{seed}/{pid}/{k}/{i}")


def make_case(kinds, cum, seed, pid, k, i):
    r = case_rng(seed, pid, k, i)
    x = r.random() * cum[-1]
    n = 0
    while cum[n] <= x:
        n += 1
    kd = kinds[n]
    return kd, kd.gen(G(r))


def cumshares(kinds):
    t, out = 0, []
    for kd in kinds:
        t += kd.share / kd.cost
        out.append(t)
    return out


def judge(kd, case, rec):
    """-> (verdict, message); verdict in ok|bad|skip|slow|harness"""
    try:
        m = kd.judge(case, rec)
    except Skip as e:
        return "skip", str(e)
    except Unsure as e:
        return "skip", str(e)
    except Slow as e:
        return "slow", str(e)
    except MemoryError:
        return "skip", "memory"
    except RecursionError:
        return "skip", "recursion in the harness"
    except Exception:
        return "harness", traceback.format_exc()[-1500:]
    return ("ok", "") if m is None else ("bad", m)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    real.setup_limits()
    signal.signal(signal.SIGINT, signal.SIG_DFL)


def run_chunk(pid, seed, k, size, upto=None):
    """Run the cases of chunk k; stop after case `upto` if given."""
    kinds = KINDS[pid]
    cum = cumshares(kinds)
    rec = Rec()
    st = collections.Counter()
    bad = None
    slow = []
    skips = collections.Counter()
    harness = []
    for i in range(size):
        try:
            kd, case = make_case(kinds, cum, seed, pid, k, i)
        except Unsure:
            st["gen-skip"] += 1
            continue
        except Exception:
            harness.append(("generator", i, traceback.format_exc()[-1500:]))
            continue
        n = rec.n
        v, msg = judge(kd, case, rec)
        st[v] += 1
        if v == "ok" and rec.n > n:
            rec.hashes.add(hash((kd.name, json.dumps(case, sort_keys=True))))
        st["kind:" + kd.name] += v == "ok"
        if v == "skip":
            skips[msg[:60]] += 1
        elif v == "slow":
            slow.append((i, kd.name, case))
            if len(slow) >= 2:
                break
        elif v == "harness":
            harness.append((kd.name, case, msg))
        elif v == "bad":
            bad = (i, kd.name, case, msg)
            break
        elif i % 97 == 0 and len(rec.samples) < 3:
            rec.samples.append({"kind": kd.name, "case": case})
        if upto is not None and i >= upto:
            break
    return {"k": k, "st": st, "rec": rec, "bad": bad, "slow": slow,
            "skips": skips, "harness": harness}


def in_child(fn, wall, path):
    """Fork; the child writes pickle(fn()) to path.  -> pid"""
    sys.stdout.flush()
    sys.stderr.flush()
    p = os.fork()
    if p:
        return p
    code = 1
    try:
        os.setpgid(0, 0)
        limits()
        r = fn()
        with open(path + ".tmp", "wb") as f:
            pickle.dump(r, f)
        os.rename(path + ".tmp", path)
        code = 0
    except BaseException:
        try:
            with open(path + ".err", "w") as f:
                f.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(code)


def collect(path):
    try:
        with open(path, "rb") as f:
            r = pickle.load(f)
    except Exception:
        return None
    finally:
        for s in ("", ".err", ".tmp"):
            try:
                os.unlink(path + s)
            except OSError:
                pass
    return r


def killpg(p):
    for f in (lambda: os.killpg(p, signal.SIGKILL),
              lambda: os.kill(p, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass


def once(fn, wall=60):
    """Run fn in one fresh child; None when it died or took too long."""
    path = os.path.join(SCRATCH, f"o{os.getpid()}-{random.random()}")
    p = in_child(fn, wall, path)
    end = time.time() + wall
    while time.time() < end:
        q, _ = os.waitpid(p, os.WNOHANG)
        if q:
            return collect(path)
        time.sleep(0.005)
    killpg(p)
    os.waitpid(p, 0)
    return collect(path)


# ---------------------------------------------------------------- confirm

def kind_of(pid, name):
    return next(k for k in KINDS[pid] if k.name == name)


def judge_alone(pid, name, case, budget=False, wall=60):
    def go():
        if budget:
            real.DEFAULT_STEPS = STEP_BUDGET
            real.CPU_LIMIT = 150.0
        return judge(kind_of(pid, name), case, Rec())
    return once(go, wall) or ("died", "no answer")


def shrink(pid, name, case, msg, seconds=12):
    """Greedy text-level reduction of the case's program."""
    if not isinstance(case, dict) or not isinstance(case.get("code"), str) \
            or case.get("law"):
        return case, msg

    def go():
        kd = kind_of(pid, name)
        best, m = case, msg
        end = time.time() + seconds
        step = max(1, len(best["code"]) // 2)
        while step >= 1 and time.time() < end:
            i, hit = 0, False
            while i < len(best["code"]) and time.time() < end:
                c = dict(best)
                c["code"] = best["code"][:i] + best["code"][i + step:]
                v, mm = judge(kd, c, Rec())
                if v == "bad":
                    best, m, hit = c, mm, True
                else:
                    i += step
            if not hit or step > 1:
                step //= 2
        return best, m
    r = once(go, seconds + 8)
    if r and judge_alone(pid, name, r[0])[0] == "bad":
        return r
    return case, msg


def confirm(pid, seed, size, res):
    """-> violation dict, or None when it could not be reproduced."""
    i, name, case, msg = res["bad"]
    v, m = judge_alone(pid, name, case)
    if v == "bad":
        case, m = shrink(pid, name, case, m)
        return {"property": pid, "kind": name, "case": case, "message": m}
    if v == "slow":
        return confirm_slow(pid, name, case)
    k = res["k"]
    r = once(lambda: run_chunk(pid, seed, k, size, upto=i), 200)
    if r and r["bad"] and r["bad"][0] == i:
        return {"property": pid, "kind": name, "case": case,
                "message": "(only after the preceding executions of the same "
                "process) " + r["bad"][3],
                "chunk": {"seed": seed, "k": k, "size": size, "upto": i}}
    return None


def confirm_slow(pid, name, case):
    v, m = judge_alone(pid, name, case, budget=True, wall=60)
    if v == "bad":
        return {"property": pid, "kind": name, "case": case,
                "message": m, "budget": True}
    return None


# ---------------------------------------------------------------- main

CHUNK = 150
TIERS = {"quick": (38.0, 240.0), "thorough": (420.0, 780.0)}


def explore(pid, tier, seed):
    kinds = KINDS[pid]
    target, cap = TIERS[tier]
    target *= float(os.environ.get("VERIF_SCALE", "1"))
    # a fixed number of cases: about `target` seconds on eight cores
    cum = cumshares(kinds)
    mean = sum(kd.share for kd in kinds) / cum[-1] * 1.5e-3
    ncases = int(target * 8 / mean)
    size = max(8, min(CHUNK, int(CHUNK * 1.5e-3 / mean) or 1))
    nchunks = max(8, ncases // size)
    t0 = time.time()
    tot = collections.Counter()
    rec = Rec()
    skips = collections.Counter()
    harness = []
    died = 0
    slows = []
    unrepro = []
    viol = []
    live = {}
    nxt = done = 0
    inconclusive = 0
    while (nxt < nchunks or live) and not viol:
        while len(live) < NPROC and nxt < nchunks \
                and time.time() - t0 < cap:
            path = os.path.join(SCRATCH, f"c{nxt}")
            k = nxt
            p = in_child(lambda: run_chunk(pid, seed, k, size), 0, path)
            live[p] = (k, path, time.time())
            nxt += 1
        if not live:
            break
        p, _ = os.waitpid(-1, os.WNOHANG)
        if not p:
            for q, (k, path, ts) in list(live.items()):
                if time.time() - ts > 150:
                    killpg(q)
            time.sleep(0.004)
            continue
        if p not in live:
            continue
        k, path, ts = live.pop(p)
        r = collect(path)
        if r is None:
            died += 1
            continue
        done += 1
        tot.update(r["st"])
        rec.c.update(r["rec"].c)
        rec.d.update(r["rec"].d)
        rec.hashes |= r["rec"].hashes
        if len(rec.samples) < 12:
            rec.samples += r["rec"].samples[:1]
        skips.update(r["skips"])
        harness += r["harness"][:2]
        if r["bad"]:
            v = confirm(pid, seed, size, r)
            if v:
                viol.append(v)
            else:
                unrepro.append(r["bad"][1:])
        for i, name, case in r["slow"]:
            slows.append((name, case))
            # decided by counting interpreter steps, not by the clock
            if len(slows) > 6 or viol or time.time() - t0 > cap:
                inconclusive += 1
                continue
            v = confirm_slow(pid, name, case)
            if v:
                viol.append(v)
            else:
                inconclusive += 1
    for q in live:
        killpg(q)
        os.waitpid(q, 0)
    # chunks that died (memory): a sign of a runaway; count only
    return dict(tot=tot, rec=rec, skips=skips, harness=harness, died=died,
                slow=len(slows), unrepro=unrepro, viol=viol, wall=time.time()
                - t0, nchunks=nchunks, done=done, size=size,
                inconclusive=inconclusive, slows=slows)


def evidence(pid, tier, seed, r, known):
    rec, tot = r["rec"], r["tot"]
    kd = {k[5:]: v for k, v in tot.items() if k.startswith("kind:")}
    d = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(tot["ok"] + len(r["viol"])),
            "distinct_nontrivial": len(rec.hashes),
            "distinct_situations": len(rec.d),
            "rule": "one evaluation is one monitored execution (or a group "
                    "compared with each other) whose oracle gave a verdict; "
                    "non-trivial: the monitor observed at least one situation "
                    "(operator with its operand types, statement kind, way "
                    "of ending, error class) in it; distinct: by the text "
                    "of the case; skipped cases excluded",
            "samples": rec.samples[:8],
            "by_kind": kd,
            "events": dict(sorted(rec.c.items(), key=lambda x: -x[1])[:60]),
            "situations": {" ".join(map(str, k)): v for k, v in
                           rec.d.most_common(60)},
            "rarest_situations": [" ".join(map(str, k)) for k, v in
                                  rec.d.most_common()[-15:]],
            "skipped": int(tot["skip"] + tot["gen-skip"]),
            "skip_reasons": dict(r["skips"].most_common(12)),
            "watchdog": r["slow"], "watchdog_inconclusive":
                r["inconclusive"],
            "watchdog_cases": [c for c in r["slows"][:5]],
            "not_reproduced": len(r["unrepro"]),
            "not_reproduced_cases": [str(x)[:600] for x in r["unrepro"][:3]],
            "processes_lost": r["died"],
            "chunks": r["done"], "chunks_planned": r["nchunks"],
            "cases_per_process": r["size"],
            "harness_errors": len(r["harness"]),
            "harness_error_samples": [str(h)[:1500] for h in r["harness"][:3]],
            "known_findings": known,
            "violations_seen": [
                {"message": v["message"][:2000], "case": v["case"]}
                for v in r["viol"]],
        },
        "wall_s": round(r["wall"], 2),
        "violations": len(r["viol"]),
    }
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1, ensure_ascii=True, default=str)
    os.rename(p + ".tmp", p)


def replay_file(v):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    h = hashlib.sha1(json.dumps(v, sort_keys=True,
                                default=str).encode()).hexdigest()[:10]
    p = os.path.join(EVID, "replay", f"{v['property']}-{h}.json")
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def do_replay(path):
    with open(path) as f:
        v = json.load(f)
    pid = v["property"]
    if "chunk" in v:
        c = v["chunk"]
        r = once(lambda: run_chunk(pid, c["seed"], c["k"], c["size"],
                                   upto=c["upto"]), 200)
        b = r and r["bad"]
        if b and b[0] == c["upto"]:
            print(b[3])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print("not reproduced")
        return 0
    k, m = judge_alone(pid, v["kind"], v["case"], v.get("budget", False), 200)
    print(k, m)
    if k == "bad":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


def main(argv):
    global SCRATCH
    from . import props     # noqa: registers the kinds
    from . import findings
    real.mods()
    with tempfile.TemporaryDirectory(prefix="pipverif") as d:
        SCRATCH = d
        if argv[:1] == ["--replay"]:
            return do_replay(argv[1])
        if argv[:1] == ["setup"]:
            print(len(KINDS), "properties registered;", sys.version.split()[0])
            return 0
        pid = argv[0]
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER",
                                                            "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        known = findings.report(pid)
        r = explore(pid, tier, seed)
        r["viol"] = [v for v in r["viol"] if not findings.listed(known, v)]
        evidence(pid, tier, seed, r, known)
        t = r["tot"]
        print(f"{pid} {tier} seed={seed}: {t['ok']} held, "
              f"{t['skip'] + t['gen-skip']} skipped, {r['slow']} watchdog, "
              f"{len(r['unrepro'])} not reproduced, {r['died']} lost, "
              f"{len(r['harness'])} harness errors, "
              f"{len(r['rec'].d)} situations, {r['wall']:.1f} s")
        for v in r["viol"]:
            p = replay_file(v)
            print(v["message"][:1500])
            print("case:", json.dumps(v["case"])[:800])
            print(f"VIOLATION property={pid} replay={p}")
        if r["viol"]:
            return 1
        if not t["ok"] or r["died"] * 2 > r["done"] or \
                len(r["harness"]) * 2 > r["done"]:
            print("too little was observed: inconclusive")
            for h in r["harness"][:2]:
                print(h)
            return 2
        return 0


SCRATCH = "/tmp"
if __name__ == "__main__":
    # make this module importable under its package name, too
    sys.modules["checks.core"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
