"""P15: worker processes that die, fail to start, stall or ignore signals.

Oracles: `is_healthy` and GET /health against the simulator's own knowledge of
which process is alive; every caller released within the documented limit;
launch fails if and only if a worker failed before it was ready; shutdown ends
every worker and returns.
"""
import asyncio
import random

from . import fakes, kernel, world
from .http import HttpWorld, status
from .oracles import members
from .world import Rec, World, is_terminal

POLL = 5.0              # documented liveness poll of the engine
NOTICE = POLL + 10.0    # bound used for "noticed"
RELEASE = 1800.0 + 60.0 + 60.0   # stale limit, clean-up interval, slack
ROLES = ("tokenizer", "scheduler", "detokenizer")


class DeathWorld(HttpWorld):
    """Plans: plan["boot"] start-up faults, "kill" ops, "stubborn" roles."""

    def __init__(self, plan, chooser, wall=90.0):
        World.__init__(self, plan, chooser, wall)
        self.deaths = []        # (t, role)
        self.health = []        # (t, is_healthy)
        s = self.sim
        delays = {f["role"]: f["delay"] for f in plan.get("boot", ()) if f["kind"] == "slow"}
        base = getattr(s.net, "boot_delay", None)

        def boot_delay():
            role = getattr(s.cur.proc, "role", None)
            if role in delays:
                s.fault("slow-start")
                return delays[role]
            return base() if base else 0.0
        s.net.boot_delay = boot_delay

    # ------------------------------------------------------------- start-up
    def _proc_hook(self, proc, target):
        World._proc_hook(self, proc, target)
        s = self.sim
        kill = proc.kill

        def killed(code):
            if proc.alive:
                self.deaths.append((s.now, getattr(proc, "role", None), getattr(proc, "ready_t", None)))
            kill(code)
        proc.kill = killed
        proc.ready_t = None
        if getattr(proc, "role", None) in self.plan.get("stubborn", ()):
            proc.stubborn = True
        for f in self.plan.get("boot", ()):
            if f["role"] != getattr(proc, "role", None):
                continue
            k = f["kind"]
            if k == "raise":
                proc.boot_error = OSError(f.get("errno", 12), "start-up failure injected")
            elif k == "kill":
                def die(p=proc, f=f):
                    if p.alive:
                        s.fault("kill-during-start")
                        p.kill(f.get("code", -9))
                s.call_at(s.now + f["dt"], die)
            elif k == "exit":
                def bye(a, kw):
                    s.fault("exit-during-start")
                    raise SystemExit(f.get("code", 3))
                proc.boot_fault = bye
            elif k == "status":
                def report(a, kw, f=f):
                    s.fault("failure-reported")
                    for x in a:
                        if isinstance(x, fakes.Connection):
                            x.send({"status": f.get("status", "error"), "process": f["role"], "error": "injected"})
                            break
                    if f.get("stay"):
                        s.sleep(10 ** 6)
                    raise SystemExit(1)
                proc.boot_fault = report

    def must_fail(self):
        """A worker failed before it signalled that it is ready."""
        if any(f["kind"] == "status" for f in self.plan.get("boot", ())):
            return True
        return any(r is None for _, _, r in self.deaths)

    def after_launch_failure(self, x):
        s = self.sim
        fail = [(t, role) for t, role, r in self.deaths if r is None]
        if not self.plan.get("boot") or not (self.must_fail()):
            s.viol("startup", "launch failed although every worker started: %s: %s" % (type(x).__name__, str(x)[:150]))
            return
        if not isinstance(x, Exception):
            s.viol("startup", "launch ended with %r" % x)
        s.probe("launch-failed")
        # other workers have to be ready (or dead) before the failing one is looked at
        bound = 40.0 + max([f.get("delay", 0.0) for f in self.plan["boot"]] + [20.0]) + sum(
            f.get("dt", 0.0) for f in self.plan["boot"])
        if s.now > bound:
            s.viol("startup", "launch failed only after %.1f s" % s.now)
        s.sleep(1.0)
        live = [p.role for p in s.procs if p.alive]
        if live:
            s.viol("startup", "launch failed, but the workers %s are still running" % live)
        if s.shm:
            s.viol("startup", "launch failed and left shared segments")

    def on_abnormal(self, reason, r):
        if not getattr(self.sim, "launched", False):
            r.violations.append(("startup", "launch neither succeeded nor failed (%s)" % reason))
        else:
            r.violations.append(("dead-worker-hang", "the run does not end: %s (%s)" % (reason, self.pending())))

    # ------------------------------------------------------------- run
    async def amain(self):
        self.launch_t = self.sim.now
        if self.must_fail():
            self.sim.viol("startup", "launch succeeded although a worker failed while starting")
            return
        if not self.plan.get("watch"):
            await HttpWorld.amain(self)
            return
        w = asyncio.ensure_future(self.watch())
        try:
            await HttpWorld.amain(self)
        finally:
            w.cancel()

    async def watch(self):
        while True:
            self.sample()
            d = [t for t, _, _ in self.deaths]
            await asyncio.sleep(1.0 if not d or self.sim.now < d[0] + 40 else 60.0)

    def sample(self):
        self.health.append((self.sim.now, bool(self.engine.is_healthy)))

    async def op_health(self, rec):
        op = rec.op
        rec.op = dict(op, path=op.get("path", "/health"), method="GET", key=None)
        self.sample()
        await self.op_http(rec)
        rec.op = op
        rec.status = status(rec)
        rec.tend = self.sim.now
        if rec.app_exc is not None:
            self.sim.viol("health", "GET /health raised %r" % rec.app_exc)

    async def op_kill(self, rec):
        s = self.sim
        for p in s.procs:
            if getattr(p, "role", None) == rec.op["role"] and p.alive:
                s.fault("process-kill")
                self.injected.add("kill")
                p.kill(rec.op.get("code", -9))
        # the surviving workers have nothing to do for half an hour; skip it
        await asyncio.sleep(30.0)
        for p in s.procs:
            if p.alive:
                for a in p.actors:
                    a.stall_until = max(a.stall_until, s.now + 1e6)

    # ------------------------------------------------------------- checks
    def oracle(self):
        s = self.sim
        first = min([t for t, _, _ in self.deaths] or [None], key=lambda x: x if x is not None else 0)
        if first is not None:
            first = max(first, self.launch_t)
        killed = "kill" in self.injected or any(f["kind"] == "kill" for f in self.plan.get("boot", ()))
        if first is None or not killed:
            World.oracle(self)
            for p in self.dead_workers():
                s.viol("health", "worker %s died by itself" % p.role)
        self.sample()
        seen_bad = False
        for t, ok in sorted(self.health):
            self.judge(t, ok, first, "is_healthy is %s" % ok)
            if seen_bad and ok:
                s.viol("health", "health turned true again at %.1f s" % t)
            seen_bad = seen_bad or not ok
        for rec in self.recs:
            if rec.op.get("op") != "health":
                continue
            if rec.status is None:
                s.viol("health", "GET /health was not answered")
            elif rec.status not in (200, 503):
                s.viol("health", "GET /health answered %s" % rec.status)
            else:
                self.judge(rec.t0, rec.status == 200, first, "/health answered %s" % rec.status, rec.tend)
        if first is None or not killed:
            return
        s.probe("death-noticed" if any(not ok for _, ok in self.health) else "death-unseen")
        for rec in self.recs:
            if rec.op.get("op", "gen") != "gen" or rec.t0 is None:
                continue
            lim = max(rec.t0, first) + RELEASE + (rec.op.get("slow") or 0) * 200
            if rec.end is None:
                if s.now > lim:
                    s.viol("dead-worker-hang", "client %d has been waiting for %.0f s after %s died"
                           % (rec.op["id"], s.now - first, [r for _, r, _ in self.deaths]))
                continue
            if rec.tend > lim:
                s.viol("dead-worker-hang", "client %d was released only %.0f s after the death" % (rec.op["id"], rec.tend - first))
            if rec.tend > first + 100:
                s.probe("caller-released")
            if rec.end in ("aclosed", "cancelled", "exc"):
                continue
            for sub, rid, chunks, i in members(rec):
                term = [c for _, c in chunks if is_terminal(c)]
                if len(term) != 1:
                    s.viol("dead-worker-hang", "client %d: %d terminal results after a worker died" % (rec.op["id"], len(term)))
                elif "error" not in term[0] and not term[0].get("finished_reason"):
                    s.viol("dead-worker-hang", "client %d: a result without reason or error" % rec.op["id"])

    def judge(self, t, ok, first, what, until=None):
        s = self.sim
        if first is None or (until or t) < first:
            if not ok:
                s.viol("health", "%s at %.1f s although every worker is alive" % (what, t))
        elif t > first + NOTICE and ok:
            s.viol("health", "%s at %.1f s, a worker died at %.1f s" % (what, t, first))

    async def end_probe(self):
        if not self.deaths:
            await World.end_probe(self)

    def after_run(self):
        s = self.sim
        e = self.engine
        how = self.plan.get("down", "outside")
        for p in s.procs:
            for a in p.actors:
                a.stall_until = min(a.stall_until, s.now)
        t0 = s.now
        n = len(s.procs)
        if how == "inside":
            loop = asyncio.new_event_loop()

            async def down():
                e.shutdown()
                await asyncio.sleep(0.5)
            try:
                loop.run_until_complete(down())
            except Exception as x:
                s.viol("shutdown", "shutdown raised %s: %s" % (type(x).__name__, x))
        else:
            try:
                e.shutdown()
            except Exception as x:
                s.viol("shutdown", "shutdown raised %s: %s" % (type(x).__name__, x))
        if s.now - t0 > n * 10.0 + 10.0:
            s.viol("shutdown", "shutdown took %.1f s" % (s.now - t0))
        s.sleep(1.0)
        live = [p.role for p in s.procs if p.alive]
        if live:
            s.viol("shutdown", "workers %s survive the shutdown" % live)
        s.probe("shutdown-done")
        try:
            e.shutdown()       # also registered with atexit: a second call must do nothing
        except Exception as x:
            s.viol("shutdown", "a second shutdown raised %s: %s" % (type(x).__name__, x))


def gen(make):
    base = make("P15", shared=0.3, abort=0.1, batch=0.15, mm=0.0, modes=("radix", "radix", "chunk"), faults=0.0)

    def g(rng, tier):
        plan = base(rng, tier)
        plan["kind"] = "death"
        plan["watch"] = True
        plan["down"] = rng.choice(["inside", "outside"])
        plan["stubborn"] = [r for r in ROLES if rng.random() < 0.15]
        for op in plan["ops"]:
            op.pop("poison", None)
        kind = rng.choice(["boot", "kill", "kill", "kill", "healthy", "slow"])
        plan["scenario"] = kind
        if rng.random() < 0.5:
            plan["cfg"]["api_key"] = "k1"
        if kind == "boot":
            plan["ops"] = plan["ops"][:2]
            plan["boot"] = []
            for role in rng.sample(ROLES, rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(["raise", "kill", "kill", "exit", "status", "status", "slow"])
                f = {"role": role, "kind": k}
                if k == "kill":
                    f["dt"] = rng.choice([0.0, 0.001, 0.2, 0.6, 3.5])
                    f["code"] = rng.choice([-9, -11, 0, 1])
                elif k == "exit":
                    f["code"] = rng.choice([0, 1, 3])
                elif k == "status":
                    f["status"] = rng.choice(["error", "failed", None, "not-ready"])
                    f["stay"] = rng.random() < 0.5
                elif k == "slow":
                    f["delay"] = rng.choice([5.0, 60.0, 600.0])
                plan["boot"].append(f)
            plan["settle"] = 25.0
        elif kind == "kill":
            plan["limit"] = 4200.0
            plan["settle"] = 20.0
            plan["probe_end"] = False
            span = max([o.get("t", 0.0) for o in plan["ops"]] + [0.01])
            t = rng.choice([0.0, rng.random() * span, rng.random() * span + 0.05 * rng.random(), span + 0.5])
            n = 2000 + len(plan["ops"])
            plan["ops"].append({"op": "kill", "id": n, "t": round(t, 5), "role": rng.choice(ROLES),
                                "code": rng.choice([-9, -9, -11, -15, 0, 1])})
            if rng.random() < 0.2:
                plan["ops"].append({"op": "kill", "id": n + 1, "t": round(t + rng.choice([0.0, 0.01, 3.0]), 5),
                                    "role": rng.choice(ROLES)})
            if rng.random() < 0.5:       # callers arriving after the death
                for j in range(rng.choice([1, 3])):
                    plan["ops"].append({"op": "gen", "id": n + 10 + j, "t": round(t + rng.choice([0.001, 1.0, 8.0, 50.0]), 4),
                                        "stream": rng.random() < 0.5, "ids": [5, 6, 7, 8 + j],
                                        "sp": {"temperature": 0.0, "max_new_tokens": 4}})
            for j in range(rng.choice([1, 3])):
                plan["ops"].append({"op": "health", "id": n + 20 + j, "path": rng.choice(["/health", "/health_generate"]),
                                    "t": round(t + rng.choice([-0.01, 0.0, 2.0, 14.0, 16.0, 40.0, 900.0]), 4) if t > 0.02 else
                                    round(t + rng.choice([16.0, 40.0]), 4)})
            if rng.random() < 0.3:
                plan["ops"].append({"op": "clock", "id": n + 30, "t": round(t, 3), "jump": rng.choice([-7200.0, 7200.0, 86400.0])})
        else:
            n = 2000 + len(plan["ops"])
            for j in range(rng.choice([1, 3])):
                plan["ops"].append({"op": "health", "id": n + j, "t": round(rng.random() * 20, 3)})
            for j in range(rng.choice([1, 2, 3])):
                plan["ops"].append({"op": "stall", "id": n + 10 + j, "t": round(rng.random() * 2.0, 4), "role": rng.choice(ROLES),
                                    "dur": rng.choice([6.0, 12.0, 30.0])})
            if rng.random() < 0.5:
                plan["ops"].append({"op": "clock", "id": n + 20, "t": round(rng.random() * 3, 3),
                                    "jump": rng.choice([-7200.0, -1.0, 7200.0, 86400.0])})
            if kind == "slow":
                plan["boot"] = [{"role": rng.choice(ROLES), "kind": "slow", "delay": rng.choice([5.0, 60.0, 600.0])}]
        return plan
    return g
