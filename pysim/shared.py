"""P11: the shared-memory fast path between tokenizer and scheduler, inside the
whole serving pipeline, with failing shared-memory calls.

Oracles: what the tokenizer produced is compared with what the scheduler gets
(same content, exactly once), every tokenized request is received or answered,
no more requests fail than faults were injected, and no segment stays behind.
"""
import copy
import dataclasses
import errno

from . import world
from .world import World

FAULTS = {"create": [(errno.ENOSPC, "No space left on device"), (errno.EMFILE, "Too many open files"),
                     (errno.ENOMEM, "Cannot allocate memory")],
          "open": [(errno.EMFILE, "Too many open files"), (errno.EACCES, "Permission denied"),
                   (errno.ENOMEM, "Cannot allocate memory")]}


def boot():
    b = world._boot
    torch = b["torch"]
    orig_share = torch.Tensor.share_memory_

    def share_memory_(self):
        s = world.cur_sim()
        p = getattr(s, "p_share", 0.0) if s is not None and not s.ended else 0.0
        if p and s.ch.flip(p):
            s.fault("share-memory-error")
            s.shm_faults += 1
            raise RuntimeError("unable to allocate shared memory (shm): No space left on device (28)")
        return orig_share(self)
    torch.Tensor.share_memory_ = share_memory_

    def tokenize(s, orig, self, raw, *a, **k):
        r = orig(self, raw, *a, **k)
        log = getattr(s, "shm_log", None)
        if log is not None and not isinstance(r, dict) and getattr(r, "rid", None) is not None:
            log["sent"].setdefault(r.rid, []).append(copy.deepcopy(r))
        return r

    def process(s, orig, self, *a, **k):
        log = getattr(s, "shm_log", None)
        if log is not None:
            log["hooked"] = True
            for r in list(getattr(self, "_waiting_queue", ())):
                received(s, log, r)
        return orig(self, *a, **k)
    world._wrap(b["tp"].TokenizerProcess, "_tokenize", tokenize)
    world._wrap(b["sp"].SchedulerProcess, "process_input_requests", process)


def received(s, log, r):
    rid = getattr(r, "rid", None)
    if rid is None or any(x is r for x in log["objs"]):
        return
    log["objs"].append(r)
    n = log["got"][rid] = log["got"].get(rid, 0) + 1
    sent = log["sent"].get(rid, [])
    if n > len(sent):
        s.viol("shm-altered", "request %r reached the scheduler %d times, tokenized %d times" % (rid, n, len(sent)))
        return
    d = differ(s, sent[n - 1], r)
    if d:
        s.viol("shm-altered", "request %r: %s" % (rid, d))


def differ(s, a, b):
    if type(a) is not type(b):
        return "a %s arrived as %s" % (type(a).__name__, type(b).__name__)
    names = [f.name for f in dataclasses.fields(a)] if dataclasses.is_dataclass(a) else sorted(vars(a))
    for n in names:
        d = deep(getattr(a, n, None), getattr(b, n, None))
        if d:
            return "field %s: %s" % (n, d)
    return None


def deep(a, b):
    torch = world._boot["torch"]
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return "tensor against %s" % type(b).__name__
        if a.dtype != b.dtype or a.shape != b.shape or not torch.equal(a, b):
            return "tensor %s arrived as %s" % (a.tolist(), b.tolist())
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return "keys %s against %s" % (list(a), list(b))
        for k in a:
            d = deep(a[k], b[k])
            if d:
                return "%s: %s" % (k, d)
        return None
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return "%d items against %d" % (len(a), len(b))
        for x, y in zip(a, b):
            d = deep(x, y)
            if d:
                return d
        return None
    return None if a == b or (a != a and b != b) else "%.60r arrived as %.60r" % (a, b)


class SharedWorld(World):
    def __init__(self, plan, chooser, wall=90.0):
        World.__init__(self, plan, chooser, wall)
        s = self.sim
        s.shm_log = {"sent": {}, "got": {}, "objs": [], "hooked": False}
        s.shm_faults = 0
        self.p_shm = plan["sim"].get("p_shm", 0.0)
        s.p_share = plan["sim"].get("p_share", 0.0)
        s.mpq_max = plan["sim"].get("mpq_max")
        if self.p_shm or s.p_share:
            self.injected.add("shm")
        hit = set()

        def shm_fault(op, name):
            if not self.p_shm or name in hit or not name.startswith("pymllm_meta"):
                return None
            if op == "open" and getattr(s.cur.proc, "role", None) != "scheduler":
                return None       # only the reader's open fails; see DESIGN (clean-up after a failed send)
            if not s.ch.flip(self.p_shm):
                return None
            hit.add(name)
            s.shm_faults += 1
            s.fault("shm-%s-error" % op)
            e, m = FAULTS[op][s.ch.choose(len(FAULTS[op]))]
            return OSError(e, m)
        s.shm_fault = shm_fault
        if plan.get("poison"):
            s.poison_text = plan["poison"]

    def stop_faults(self):
        self.p_shm = 0.0
        self.sim.p_share = 0.0
        self.injected.discard("shm")

    def oracle(self):
        s = self.sim
        n_faults = s.shm_faults
        World.oracle(self)
        from .oracles import members, fits
        from .world import ref_ids, is_terminal
        errs = 0
        answered = set()
        for rec in self.recs:
            if rec.op.get("op", "gen") != "gen" or not rec.rids:
                continue
            for sub, rid, chunks, i in members(rec):
                term = [c for _, c in chunks if is_terminal(c)]
                if term:
                    answered.add(rid)
                if (term and "error" in term[0] and rid not in s.aborted_at and not sub.get("poison")
                        and fits(ref_ids(sub, self.cfg), sub.get("sp") or {}, self.cfg)):
                    errs += 1
        if errs > n_faults:
            s.viol("unexpected-error", "%d requests failed, but only %d faults were injected" % (errs, n_faults))
        log = s.shm_log
        if not log["hooked"] or not log["sent"]:
            s.probe("oracle-skipped-shm")
            self.stop_faults()
            return
        if not self.dead_workers() and not self.timed_out:
            for rid, lst in log["sent"].items():
                if log["got"].get(rid, 0) < len(lst) and rid not in s.aborted_at and rid not in answered:
                    s.viol("shm-lost", "request %r was tokenized but never reached the scheduler" % rid)
        self.stop_faults()


def gen(make):
    base = make("P11", long=0.25, shared=1.0, abort=0.25, batch=0.25, mm=0.35, text=0.5, modes=("radix", "radix", "chunk"), faults=0.3)

    def g(rng, tier):
        plan = base(rng, tier)
        plan["kind"] = "shared"
        plan["cfg"]["enable_shared_queue"] = True
        sim = plan["sim"]
        r = rng.random()
        if r < 0.6:
            sim["p_shm"] = rng.choice([0.03, 0.1, 0.3, 0.6])
        if rng.random() < 0.4 and plan["cfg"].get("mm"):
            sim["p_share"] = rng.choice([0.1, 0.4])
        if rng.random() < 0.4:
            sim["mpq_max"] = rng.choice([1, 2, 3])
            sim["delays"] = [x for x in sim["delays"] if x <= 0.5]
        for op in plan["ops"]:
            if op.get("op", "gen") == "gen" and rng.random() < 0.4:
                k = op.get("batch")

                def per(f):
                    return [f() for _ in range(k)] if k and rng.random() < 0.6 else f()
                op["extra"] = {"return_logprob": per(lambda: rng.random() < 0.5),
                               "logprob_start_len": per(lambda: rng.choice([-1, 0, 3])),
                               "top_logprobs_num": per(lambda: rng.choice([0, 2, 5])),
                               "lora_path": per(lambda: rng.choice(["a", "b/c", None])),
                               "session_params": per(lambda: {"id": rng.randrange(9), "blob": "x" * rng.choice([0, 10, 5000, 70000])})}
                if rng.random() < 0.3:
                    op["audio"] = [rng.randrange(9) for _ in range(k or 1)]
        if rng.random() < 0.2:
            plan["poison"] = rng.choice(["world", "x"])
            for op in plan["ops"]:
                t = op.get("text")
                if t is not None and plan["poison"] in ("".join(t) if isinstance(t, list) else t):
                    op["poison"] = True
        return plan
    return g
