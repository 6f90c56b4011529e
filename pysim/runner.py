"""Search driver: seeded simulated runs in forked children, gate, minimise, replay.

  python -m pysim.runner check <PID> --tier quick|thorough
  python -m pysim.runner replay <file>
  python -m pysim.runner one <PID> <index>        (debugging)
"""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(os.environ.get("SIM_WORKERS", "8"))


def seed_of(base, pid, i):
    h = hashlib.sha256(("%s/%s/%s" % (base, pid, i)).encode()).digest()
    return int.from_bytes(h[:7], "big")


# ------------------------------------------------------------------ children
def _write(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Child:
    """One forked simulated run (or batch of direct runs)."""

    def __init__(self, fn):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                try:
                    out = ("ok", fn())
                except BaseException:
                    out = ("err", traceback.format_exc())
                _write(w, out)
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.t0 = time.monotonic()

    def pump(self):
        """Read what is there; returns a result tuple when complete."""
        try:
            d = os.read(self.fd, 1 << 20)
        except OSError:
            d = b""
        if d:
            self.buf += d
            if len(self.buf) >= 4:
                n = struct.unpack("<I", self.buf[:4])[0]
                if len(self.buf) >= 4 + n:
                    self.reap()
                    return pickle.loads(self.buf[4:4 + n])
            return None
        self.reap()
        return ("crash", "child ended without a result")

    def reap(self, kill=False):
        if self.pid is None:
            return
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)
        self.pid = None


def pool(jobs, limit, deadline=None, nw=NW):
    """Run jobs (iterator of (key, fn)) in forked children; yield (key, result)."""
    live = {}
    it = iter(jobs)
    more = True
    while True:
        while more and len(live) < nw and (deadline is None or time.monotonic() < deadline):
            try:
                key, fn = next(it)
            except StopIteration:
                more = False
                break
            c = Child(fn)
            live[c.fd] = (key, c)
        if deadline is not None and time.monotonic() >= deadline:
            more = False
        if not live:
            return
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.monotonic()
        for fd in rd:
            key, c = live[fd]
            res = c.pump()
            if res is not None:
                del live[fd]
                try:
                    yield key, res
                except GeneratorExit:
                    for k2, c2 in live.values():
                        c2.reap()
                    raise
        for fd, (key, c) in list(live.items()):
            if now - c.t0 > limit:
                c.reap()
                del live[fd]
                yield key, ("timeout", "wall limit %.0f s" % limit)
            elif deadline is not None and now > deadline + 20:
                c.reap()
                del live[fd]


# ------------------------------------------------------------------ one run
def exec_plan(plan, seed=None, trace=None):
    """Run one plan in this process; returns a dict."""
    from .kernel import Chooser
    from . import profiles
    ch = Chooser(seed=seed, trace=trace)
    r = profiles.run(plan, ch)
    return r


def job(plan, seed=None, trace=None, keep_trace=False):
    def fn():
        r = exec_plan(plan, seed, trace)
        if not keep_trace and not r["violations"]:
            r.pop("trace", None)
        r.pop("log", None)
        return r
    return fn


def classify(pid, res, tags):
    """Violations of `res` that speak for property pid: list of (cls, msg)."""
    kind, r = res
    if kind == "timeout":
        return [("hang", "the run did not end within its wall-clock limit")]
    if kind != "ok":
        return [("sim-error", "%s" % r)]
    return [v for v in r["violations"] if pid[0] == "N" or pid in tags.get(v[0], ()) or v[0].startswith("sim-")]


# ------------------------------------------------------------------ check
def known_for(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid and not e.get("fixed")]


def is_known(v, known):
    import re
    for e in known:
        m = e["match"]
        if m.get("cls") in (None, v[0]) and re.search(m["regex"], v[1], re.S):
            return e
    return None


def run1(plan, seed=None, trace=None, limit=60):
    for _, res in pool([(0, job(plan, seed, trace, True))], limit):
        return res


def same(res, cls, pid, tags, known):
    for v in classify(pid, res, tags):
        if v[0] == cls and not is_known(v, known):
            return v
    return None


def minimise(pid, plan, trace, cls, tags, known, limit, budget):
    from . import profiles
    t_end = time.monotonic() + budget
    best = (plan, list(trace) if trace is not None else [])
    best_msg = None

    def attempt(cands):
        """First candidate (plan, seed, trace) that still fails; returns (plan, trace, v)."""
        cands = list(cands)
        hit = {}
        jobs = [(i, job(p, s, t, True)) for i, (p, s, t) in enumerate(cands)]
        for i, res in pool(jobs, limit, t_end):
            v = same(res, cls, pid, tags, known)
            if v is not None and res[0] == "ok":
                hit[i] = (cands[i][0], res[1]["trace"], v)
                if i == 0 or len(hit) >= 2:
                    break
        if not hit:
            return None
        return hit[min(hit)]

    def adopt(h):
        nonlocal best, best_msg
        best = (h[0], h[1])
        best_msg = h[2]

    # 1. drop operations (and simplify the simulator settings)
    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        for cand in profiles.shrink_plans(best[0]):
            if time.monotonic() >= t_end:
                break
            h = attempt([(cand, None, best[1]), (cand, None, []), (cand, 11, None), (cand, 12, None),
                         (cand, 13, None), (cand, 14, None), (cand, 15, None), (cand, 16, None)])
            if h:
                adopt(h)
                changed = True
                break
    # 2. simplify the decision trace: empty, truncated, zeroed blocks
    h = attempt([(best[0], None, [])])
    if h:
        best = (best[0], [])
        best_msg = h[2]
    else:
        lo, hi = 0, len(best[1])
        while lo < hi and time.monotonic() < t_end:
            mids = sorted(set(lo + (hi - lo) * k // 8 for k in range(0, 8)))
            ok = None
            for i, res in pool([(m, job(best[0], None, best[1][:m], True)) for m in mids], limit, t_end):
                v = same(res, cls, pid, tags, known)
                if v is not None and (ok is None or i < ok[0]):
                    ok = (i, v)
            if ok is None:
                lo = mids[-1] + 1
            else:
                prev = [m for m in mids if m < ok[0]]
                hi = ok[0]
                best_msg = ok[1]
                lo = (prev[-1] + 1) if prev else hi
        best = (best[0], best[1][:hi])
        size = max(1, len(best[1]) // 8)
        while size >= 1 and time.monotonic() < t_end:
            pos = 0
            progressed = False
            while pos < len(best[1]) and time.monotonic() < t_end:
                cands = []
                for k in range(8):
                    a = pos + k * size
                    t = best[1]
                    if a < len(t) and any(t[a:a + size]):
                        cands.append((a, t[:a] + [0] * len(t[a:a + size]) + t[a + size:]))
                hit = None
                for i, res in pool([(j, job(best[0], None, t, True)) for j, (a, t) in enumerate(cands)],
                                   limit, t_end):
                    v = same(res, cls, pid, tags, known)
                    if v is not None:
                        hit = (i, v)
                        break
                if hit:
                    best = (best[0], cands[hit[0]][1])
                    best_msg = hit[1]
                    progressed = True
                else:
                    pos += 8 * size
            if size == 1 and not progressed:
                break
            size //= 2
            if len(best[1]) > 4000:
                break
    # strip trailing zeros
    t = list(best[1])
    while t and t[-1] == 0:
        t.pop()
    return best[0], t


def dump_replay(path, pid, cls, msg, plan, trace, rhash, seed):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": pid, "class": cls, "message": msg, "seed": seed, "hash": "%016x" % rhash,
                   "plan": plan, "trace": trace}, f, indent=1)


def fresh_replay(path):
    """Replay a file in a fresh interpreter; returns (violation_seen, hash, output)."""
    p = subprocess.run([sys.executable, "-m", "pysim.runner", "replay", path], cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
    out = p.stdout.decode(errors="replace")
    h = None
    for l in out.splitlines():
        if l.startswith("HASH "):
            h = l.split()[1]
    return p.returncode == 1, h, out + p.stderr.decode(errors="replace")[-2000:]


def boot(pid):
    scratch = os.path.join(VERIF, "build", "scratch-%08d" % os.getpid())
    if pid.startswith("N"):
        os.makedirs(scratch, exist_ok=True)
        from . import native
        try:
            native.boot(pid, scratch)
        except BaseException:
            cleanup(scratch)
            raise
        return scratch
    from . import world
    world.boot(scratch)
    return scratch


def cleanup(scratch):
    shutil.rmtree(scratch, ignore_errors=True)


def check(pid, tier):
    from . import profiles
    t0 = time.monotonic()
    base = int(os.environ.get("VERIF_SEED", "1"))
    scratch = boot(pid)
    try:
        return _check(pid, tier, base, t0)
    finally:
        cleanup(scratch)


def _check(pid, tier, base, t0):
    from . import profiles
    prof = profiles.PROFILES[pid]
    tags = profiles.TAGS
    limit = prof.get("limit", 30)
    budget = float(os.environ.get("SIM_BUDGET", prof.get(tier, 40 if tier == "quick" else 780)))
    known = known_for(pid)
    say = lambda *a: print(*a, flush=True)
    agg = {"runs": 0, "hashes": set(), "nontrivial": 0, "sim_time": 0.0, "steps": 0, "switches": 0, "faults": {},
           "probes": {}, "samples": [], "reasons": {}, "evals": 0, "ok": 0}
    unreproduced = []
    known_hits = {}
    found = None
    # --- recorded findings first
    for e in known:
        rp = os.path.join(VERIF, e["replay"])
        d = json.load(open(rp))
        res = run1(d["plan"], None, d["trace"], limit)
        v = same(res, d["class"], pid, tags, [])
        if v is not None and is_known(v, [e]):
            say("KNOWN-FINDING: property=%s %s" % (pid, e["title"]))
            known_hits[e["id"]] = 0
        else:
            say("note: recorded finding %s did not show this time" % e["id"])

    def gen():
        i = 0
        maxi = prof.get("max_runs", 10 ** 9)
        while i < maxi:
            seed = seed_of(base, pid, i)
            plan = prof["gen"](random.Random(seed), tier)
            plan["kind"] = prof.get("kind", plan.get("kind", "world"))
            yield (i, seed, plan), job(plan, seed)
            i += 1

    deadline = time.monotonic() + budget
    tries = 0
    g = pool(gen(), limit, deadline)
    done_hash = {}
    for (i, seed, plan), res in g:
        agg["runs"] += 1
        if res[0] == "ok":
            r = res[1]
            agg["ok"] += not any(v[0].startswith("sim-") for v in r["violations"])
            agg["evals"] += r.get("evals", 1)
            n0 = len(agg["hashes"])
            hs = r.get("hashes") or [r["hash"]]
            if r.get("nontrivial", True):
                agg["hashes"].update(hs)
            agg["sim_time"] += r["sim_time"]
            agg["steps"] += r["steps"]
            agg["switches"] += r["switches"]
            agg["reasons"][r["reason"]] = agg["reasons"].get(r["reason"], 0) + 1
            for k, v in r["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in r["probes"].items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            if i < 24:
                done_hash[i] = (seed, plan, r["hash"])
            if len(agg["samples"]) < 3:
                agg["samples"].append({"index": i, "seed": seed, "plan": profiles.brief(plan), "end": r["reason"],
                                       "steps": r["steps"], "virtual_seconds": round(r["sim_time"], 3),
                                       "hash": "%016x" % r["hash"]})
        vs = classify(pid, res, tags)
        fresh = []
        for v in vs:
            e = is_known(v, known)
            if e:
                known_hits[e["id"]] = known_hits.get(e["id"], 0) + 1
            else:
                fresh.append(v)
        if not fresh:
            continue
        # --- gate: the same seed must fail again, identically
        tries += 1
        cls, msg = fresh[0]
        say("candidate: run %d seed %d: %s: %s" % (i, seed, cls, msg[:300]))
        res2 = run1(plan, seed, None, limit)
        v2 = same(res2, cls, pid, tags, known)
        if v2 is None or (res[0] == "ok" and res2[0] == "ok" and res2[1]["hash"] != res[1]["hash"]) \
                or cls.startswith("sim-"):
            unreproduced.append({"seed": seed, "index": i, "class": cls, "message": msg[:2000],
                                 "again": str(v2)[:200]})
            say("  not reproduced identically; recorded in the evidence, search goes on")
            if len(unreproduced) > 20:
                break
            continue
        if res2[0] == "ok":
            trace = res2[1]["trace"]
            mplan, mtrace = minimise(pid, plan, trace, cls, tags, known, limit,
                                     float(os.environ.get("SIM_MIN", 60 if tier == "quick" else 120)))
            fin = run1(mplan, None, mtrace, limit)
            v = same(fin, cls, pid, tags, known)
            if v is None:
                mplan, mtrace = plan, trace
                fin = run1(mplan, None, mtrace, limit)
                v = same(fin, cls, pid, tags, known)
            rh = fin[1]["hash"] if fin[0] == "ok" else 0
        else:
            # a run that never yields: replay by seed
            mplan, mtrace, v, rh = dict(plan, by_seed=seed), None, (cls, msg), 0
        if v is None:
            unreproduced.append({"seed": seed, "index": i, "class": cls, "message": msg[:2000],
                                 "again": "trace replay did not fail"})
            continue
        n = 1
        while os.path.exists(os.path.join(VERIF, "replays", "%s-%d.json" % (pid, n))):
            n += 1
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, n))
        dump_replay(path, pid, v[0], v[1], mplan, mtrace, rh, seed)
        ok, h, out = fresh_replay(path)
        if not ok or (h and h != "%016x" % rh):
            unreproduced.append({"seed": seed, "index": i, "class": cls, "message": msg[:2000],
                                 "again": "fresh-process replay differs: %s" % out[-400:]})
            os.unlink(path)
            say("  fresh-process replay differs; search goes on")
            continue
        found = (v, path, seed, i)
        break
    g.close()
    # --- determinism: re-run a few seeds
    det = {"checked": 0, "identical": 0}
    if found is None:
        jobs = [(k, job(p, s)) for k, (s, p, h) in list(done_hash.items())[:8 if tier == "quick" else 24]]
        for k, res in pool(jobs, limit):
            det["checked"] += 1
            if res[0] == "ok" and res[1]["hash"] == done_hash[k][2]:
                det["identical"] += 1
    wall = time.monotonic() - t0
    evidence(pid, tier, base, agg, det, known_hits, unreproduced, found, wall, prof)
    say("%s %s: %d runs, %d evaluations, %d distinct, %.0f virtual s, faults %s, probes %s, %.1f s; determinism %d/%d"
        % (pid, tier, agg["runs"], agg["evals"], len(agg["hashes"]), agg["sim_time"], agg["faults"], agg["probes"],
           wall, det["identical"], det["checked"]))
    if unreproduced:
        say("unreproduced candidates: %d; first: %s" % (len(unreproduced), json.dumps(unreproduced[0])[:1500]))
    if found:
        v, path, seed, i = found
        say("violated: %s: %s (seed %d, run %d)" % (v[0], v[1][:600], seed, i))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if agg["ok"] * 2 < agg["runs"] or agg["runs"] == 0:
        say("no answer: only %d of %d runs could be carried out" % (agg["ok"], agg["runs"]))
        return 2
    return 0


def evidence(pid, tier, base, agg, det, known_hits, unreproduced, found, wall, prof):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {
        "evaluations": agg["evals"],
        "distinct_nontrivial": len(agg["hashes"]),
        "rule": prof.get("rule", "one evaluation = one seeded simulated run of a generated workload with faults; "
                         "distinct = different hash of the full event history (deliveries, batches, chunks, faults), "
                         "non-trivial = at least one forward pass or operation took place"),
        "samples": agg["samples"],
        "simulated_runs": agg["runs"],
        "runs_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
        "virtual_seconds": round(agg["sim_time"], 1),
        "scheduler_steps": agg["steps"],
        "context_switches": agg["switches"],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "rare_conditions_reached": dict(sorted(agg["probes"].items())),
        "run_endings": agg["reasons"],
        "determinism_reruns": det,
        "known_findings_met": known_hits,
        "unreproduced_candidates": unreproduced,
        "real_components": prof.get("real", []),
        "stubbed_components": prof.get("stub", []),
    }
    ev = {"property": pid, "tier": tier, "seed": base, "level": "exploration", "coverage": cov,
          "assumptions": prof.get("assume", []), "wall_s": round(wall, 2),
          "violations": 1 if found else 0}
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path, verbose=False):
    d = json.load(open(path))
    scratch = boot(d["property"])
    try:
        from . import profiles
        pid = d["property"]
        if d["trace"] is None:
            res = run1(d["plan"], d["plan"]["by_seed"], None, profiles.PROFILES[pid].get("limit", 30))
        else:
            res = run1(d["plan"], None, d["trace"], profiles.PROFILES[pid].get("limit", 30))
        if res[0] == "ok":
            print("HASH %016x" % res[1]["hash"])
            for e in res[1].get("errors") or ():
                print("actor error:", e[0], e[1], e[2])
                if verbose:
                    print(e[3])
        vs = classify(pid, res, profiles.TAGS)
        for v in vs:
            print("violated: %s: %s" % (v[0], v[1]))
        if any(v[0] == d["class"] for v in vs):
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
            return 1
        print("no violation of %s" % pid)
        return 0
    finally:
        cleanup(scratch)


def one(pid, i, verbose=True):
    from . import profiles
    scratch = boot(pid)
    try:
        base = int(os.environ.get("VERIF_SEED", "1"))
        seed = seed_of(base, pid, i)
        prof = profiles.PROFILES[pid]
        plan = prof["gen"](random.Random(seed), "quick")
        plan["kind"] = prof.get("kind", plan.get("kind", "world"))
        print(json.dumps(plan)[:6000])
        r = exec_plan(plan, seed)
        if verbose:
            for l in r["log"][-int(os.environ.get("TAIL", "80")):]:
                print(l)
        for e in r["errors"]:
            print(e[0], e[3])
        for v in r["violations"]:
            print("V", v)
        print({k: v for k, v in r.items() if k not in ("log", "trace", "errors", "violations")})
    finally:
        cleanup(scratch)
    return 0


def survey(pid, n, budget=60):
    """Run n seeds and count violation classes (development aid)."""
    from . import profiles
    scratch = boot(pid)
    prof = profiles.PROFILES[pid]
    base = int(os.environ.get("VERIF_SEED", "1"))

    def gen():
        for i in range(n):
            seed = seed_of(base, pid, i)
            plan = prof["gen"](random.Random(seed), "quick")
            plan["kind"] = prof.get("kind", plan.get("kind", "world"))
            yield (i, seed), job(plan, seed)
    cnt = {}
    tot = {"n": 0, "t": 0.0}
    probes, faults, reasons = {}, {}, {}
    t0 = time.monotonic()
    for (i, seed), res in pool(gen(), prof.get("limit", 30), t0 + budget):
        tot["n"] += 1
        if res[0] != "ok":
            cnt.setdefault(res[0], []).append((i, str(res[1])[-600:]))
            continue
        for k, v in res[1]["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in res[1]["faults"].items():
            faults[k] = faults.get(k, 0) + v
        reasons[res[1]["reason"]] = reasons.get(res[1]["reason"], 0) + 1
        seen = set()
        for v in res[1]["violations"]:
            if v[0] not in seen:
                seen.add(v[0])
                cnt.setdefault(v[0], []).append((i, v[1][:400]))
    for k, v in sorted(cnt.items()):
        print("%-20s %4d  %s" % (k, len(v), "" if pid[0] == "N" or pid in profiles.TAGS.get(k, ()) else "(not ours)"))
        for x in v[:int(os.environ.get("SHOW", "3"))]:
            print("      ", x[0], x[1])
    print("runs", tot["n"], "in %.1f s" % (time.monotonic() - t0), reasons, "probes", probes, "faults", faults)
    cleanup(scratch)
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        tier = "quick"
        if "--tier" in argv:
            tier = argv[argv.index("--tier") + 1]
        return check(argv[1], tier)
    if cmd == "replay":
        return replay(argv[1], "-v" in argv)
    if cmd == "one":
        return one(argv[1], int(argv[2]))
    if cmd == "survey":
        return survey(argv[1], int(argv[2]), float(argv[3]) if len(argv) > 3 else 60)
    raise SystemExit("unknown command " + cmd)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
