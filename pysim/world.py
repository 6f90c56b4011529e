"""The simulated deployment: the real engine, its worker processes and clients.

`boot(scratch)` prepares the interpreter once; `run_plan(plan, chooser)` runs
one simulated execution of a plan and returns a Result.
"""
import asyncio
import hashlib
import io
import json
import logging
import os
import sys
import time as _time
import warnings
from contextlib import redirect_stdout
from pathlib import Path

from . import kernel, fakes
from .kernel import Sim, Chooser, SimExit, cur_sim, DONE

_boot = {}

# Which properties a violation class speaks for.
TAGS = {
    "par-count": ("N01",), "par-early": ("N01",), "par-deadlock": ("N01",), "par-race": ("N01",), "par-memory": ("N01",),
    "par-crash": ("N01",),
    "mem-overlap": ("N02",), "mem-content": ("N02",), "mem-lost": ("N02",), "mem-return": ("N02",), "mem-null": ("N02",),
    "mem-hang": ("N02",), "mem-race": ("N02",), "mem-memory": ("N02",), "mem-crash": ("N02",),
    "file-garbage": ("N06", "N07"), "file-lost": ("N06", "N07"), "file-refused": ("N06", "N07"), "file-left": ("N06",),
    "file-memory": ("N06", "N07"), "file-crash": ("N06", "N07"), "file-race": ("N06",), "file-hang": ("N06", "N07"),
    "svc-answer": ("N03",), "svc-refused": ("N03",), "svc-malformed": ("N03",), "svc-stop": ("N03",), "svc-hang": ("N03",),
    "svc-race": ("N03",), "svc-memory": ("N03",), "svc-crash": ("N03",),
    "async-id": ("N08",), "async-thread": ("N08",), "async-once": ("N08",), "async-result": ("N08",), "async-error": ("N08",),
    "async-io": ("N08",), "async-hang": ("N08",), "async-race": ("N08",), "async-memory": ("N08",), "async-crash": ("N08",),
    "gen-input": ("N09",), "gen-token": ("N09",), "gen-stop": ("N09",), "gen-error": ("N09",), "gen-distribution": ("N09",),
    "gen-hang": ("N09",), "gen-race": ("N09",), "gen-memory": ("N09",), "gen-crash": ("N09",),
    "cache-content": ("N10",), "cache-length": ("N10",), "cache-refused": ("N10",), "cache-overrun": ("N10",),
    "cache-hang": ("N10",), "cache-race": ("N10",), "cache-memory": ("N10",), "cache-crash": ("N10",),
    "pool-content": ("P12",), "pool-crash": ("P12",), "pool-not-whole": ("P12",), "pool-overlap": ("P12",),
    "pool-lost": ("P12",), "pool-stuck": ("P12",), "pool-sync-leak": ("P12",),
    "wrong-output": ("P01",),
    "wrong-output-hybrid": ("P08", "P01"),
    "kv-double-free": ("P02",),
    "kv-double-alloc": ("P02",),
    "kv-bad-index": ("P02",),
    "kv-use-after-free": ("P02",),
    "kv-shared-write": ("P02",),
    "kv-leak": ("P02",),
    "kv-leak-abort": ("P02", "P05"),
    "slot-double": ("P02",),
    "slot-leak": ("P02", "P05"),
    "capacity-lost": ("P02",),
    "track-double": ("P08",),
    "track-leak": ("P08",),
    "gdn-slot": ("P08",),
    "hang": ("P03", "P11"),
    "hang-aborted": ("P05", "P03", "P11"),
    "terminal-count": ("P03", "P11"), "terminal-count-aborted": ("P05", "P03", "P11"),
    "foreign-result": ("P03", "P04", "P11"),
    "batch-order": ("P03",),
    "unexpected-error": ("P03", "P11"),
    "client-exception": ("P03", "P11"),
    "stream-mismatch": ("P04",),
    "stream-shrinks": ("P04",),
    "stream-count": ("P04",),
    "after-terminal": ("P05", "P03"),
    "abort-runs-on": ("P05", "P11"),
    "rid-leak": ("P05", "P11"),
    "budget-not-zero": ("P06", "P05"),
    "too-many-running": ("P06",),
    "prefill-over-limit": ("P06",),
    "budget-over-total": ("P06",),
    "overlimit-hang": ("P06",),
    "overlimit-accepted": ("P06",),
    "scheduler-died": ("P06", "P03", "P11"),
    "worker-died": ("P03", "P11"),
    "wrong-reason": ("P07",),
    "wrong-count": ("P07",),
    "wrong-stop": ("P07",),
    "sample-not-allowed": ("P16",),
    "greedy-not-best": ("P16",),
    "sample-unlikely": ("P16",),
    "cache-slot": ("P09", "P10"),
    "cache-lookup": ("P09", "P10"),
    "cache-insert": ("P09", "P10"),
    "cache-locked": ("P09", "P10"),
    "cache-evict": ("P09", "P10"),
    "cache-lru": ("P09",),
    "cache-size": ("P09", "P10"),
    "cache-crash": ("P09", "P10"),
    "parse-differs": ("P13",),
    "parse-wrong": ("P13",),
    "parse-crash": ("P13",),
    "shm-leak": ("P11",),
    "shm-lost": ("P11",),
    "shm-altered": ("P11",),
    "http-contract": ("P14",),
    "http-auth": ("P14",),
    "http-disconnect": ("P14",),
    "health": ("P15",),
    "dead-worker-hang": ("P15",),
    "startup": ("P15",),
    "shutdown": ("P15",),
}


class Result:
    def __init__(self):
        self.violations = []     # (class, message)
        self.known = []          # known findings met
        self.reason = None
        self.hash = 0
        self.steps = 0
        self.switches = 0
        self.sim_time = 0.0
        self.faults = {}
        self.probes = {}
        self.trace = []
        self.log = []
        self.stats = {}

    def brief(self):
        return {"violations": self.violations, "hash": self.hash, "reason": self.reason}


def boot(scratch):
    """Import everything once (parent process, before forking)."""
    if _boot:
        return _boot
    scratch = os.path.realpath(scratch)
    os.makedirs(scratch, exist_ok=True)
    warnings.simplefilter("ignore")
    kernel.quiet_unraisable()
    fakes.install(scratch)
    import torch
    torch.set_num_threads(1)
    buf = io.StringIO()
    with redirect_stdout(buf):
        import pymllm.configs
        import pymllm.engine.launch as launch
        import pymllm.orchestrator.scheduler_process as sp
        import pymllm.orchestrator.model_runner_process as mrp
        import pymllm.orchestrator.tokenizer_process as tp
        import pymllm.orchestrator.detokenizer_process as dp
        import pymllm.orchestrator.request_response_process as rr
        import pymllm.orchestrator.shared_memory_queue as smq
        import pymllm.mem_cache.memory_pool as mp
        import pymllm.mem_cache.radix_cache as rc
        import pymllm.mem_cache.mamba_radix_cache as mrc
        import pymllm.mem_cache.chunk_cache as cc
        import pymllm.executor.model_runner as mr
    from . import hashmodel
    hashmodel.install()
    fakes.after_import()
    import pymllm.layers.sampling as smp
    if hasattr(smp, "_HAS_FLASHINFER"):
        smp._HAS_FLASHINFER = False      # no GPU: the documented PyTorch fallback
    logging.disable(logging.CRITICAL)
    import atexit
    launch.atexit = type("A", (), {"register": staticmethod(lambda *a, **k: None)})
    _boot.update(torch=torch, launch=launch, sp=sp, mrp=mrp, tp=tp, dp=dp, rr=rr, smq=smq, mp=mp,
                 rc=rc, mrc=mrc, cc=cc, mr=mr, cfg=pymllm.configs, scratch=scratch, hm=hashmodel)
    _wrap_classes()
    from . import http
    http.boot()
    from . import pooled, shared
    pooled.boot()
    shared.boot()
    model_dir = os.path.join(scratch, "model")
    os.makedirs(model_dir, exist_ok=True)
    _boot["model_dir"] = model_dir
    return _boot


# ------------------------------------------------------------------ observers
def _wrap_init(cls, name):
    orig = cls.__init__

    def __init__(self, *a, **k):
        if name == "KVPool":
            k["pin_memory"] = False      # no GPU driver to pin memory for
        orig(self, *a, **k)
        s = cur_sim()
        if getattr(s, "observe", False) and type(self) is cls:
            s.objs[name] = self
            s.all_objs.append((name, self))
    cls.__init__ = __init__


def _wrap(cls, name, fn):
    orig = getattr(cls, name, None)
    if orig is None:
        _boot.setdefault("missing", []).append(cls.__name__ + "." + name)
        return

    def w(self, *a, **k):
        s = cur_sim()
        if s is None or s.ended or not getattr(s, "observe", False):
            return orig(self, *a, **k)
        return fn(s, orig, self, *a, **k)
    setattr(cls, name, w)


def _wrap_draws():
    """The random draw of the sampler becomes a choice of the scheduler: any
    token with a real share of the probability may come out, the least likely
    one included."""
    torch = _boot["torch"]
    orig = torch.multinomial

    def multinomial(p, num_samples=1, replacement=False, *, generator=None, out=None):
        s = cur_sim()
        if (s is None or s.ended or not getattr(s, "draw_p", 0.0) or p.dim() != 2 or num_samples != 1
                or not s.ch.flip(s.draw_p)):
            return orig(p, num_samples, replacement, generator=generator)
        s.fault("adverse-draw")
        res = []
        for row in p.tolist():
            m = max(row)
            cand = [i for i, x in enumerate(row) if x > m * 1e-9 and x > 0]
            if s.ch.choose(2):
                lo = min(row[i] for i in cand)
                cand = [i for i in cand if row[i] <= lo]
            res.append([cand[s.ch.choose(len(cand)) if len(cand) > 1 else 0]])
        return torch.tensor(res, dtype=torch.int64, device=p.device)
    torch.multinomial = multinomial


def _wrap_classes():
    b = _boot
    _wrap_draws()
    for mod, names in (("sp", ["SchedulerProcess"]), ("mrp", ["ModelRunnerProcess"]),
                       ("tp", ["TokenizerProcess"]), ("dp", ["DetokenizerProcess"]),
                       ("rr", ["RequestResponseProcess"]), ("mr", ["ModelRunner"]),
                       ("mp", ["GDNPool", "TokenToKVPoolAllocator", "ReqToTokenPool", "KVPool"]),
                       ("rc", ["RadixCache"]), ("mrc", ["MambaRadixCache"]), ("cc", ["ChunkCache"]),
                       ("launch", ["Engine"])):
        for n in names:
            _wrap_init(getattr(b[mod], n), n)

    def kv_alloc(s, orig, self, n):
        r = orig(self, n)
        if r is not None:
            sh = s.kv
            ids = r.tolist()
            if len(ids) != n:
                s.viol("kv-double-alloc", "alloc(%d) returned %d indices" % (n, len(ids)))
            for i in ids:
                if i in sh:
                    s.viol("kv-double-alloc", "slot %d handed out while still owned" % i)
                if not 1 <= i < self.size + max(1, self.page_size):
                    s.viol("kv-bad-index", "slot %d outside the pool of %d" % (i, self.size))
            sh.update(ids)
            s.kv_peak = max(s.kv_peak, len(sh))
        else:
            s.probe("kv-alloc-failed")
        return r

    def kv_free(s, orig, self, idx):
        group = not getattr(self, "_is_not_in_free_group", True)
        s.kv_depth += 1
        try:
            r = orig(self, idx)
        finally:
            s.kv_depth -= 1
        if not group:
            sh = s.kv
            pool = s.objs.get("KVPool")
            ids = idx.tolist()
            if self.page_size == 1:
                for i in ids:
                    if i not in sh:
                        s.viol("kv-double-free", "slot %d freed while not owned (free list now holds it twice)" % i)
                    sh.discard(i)
            else:
                pages = set(i // self.page_size for i in ids)
                for p in pages:
                    ow = [i for i in range(p * self.page_size, (p + 1) * self.page_size) if i in sh]
                    if not ow:
                        s.viol("kv-double-free", "page %d freed while not owned" % p)
                    sh.difference_update(ow)
                ids = [i for p in pages for i in range(p * self.page_size, (p + 1) * self.page_size)]
            if pool is not None and ids:
                t = b["torch"].tensor(ids, dtype=b["torch"].int64)
                for L in range(pool.layer_num):
                    pool.get_key_buffer(L)[t] = -7.0
                    pool.get_value_buffer(L)[t] = -7.0
        return r

    _wrap(b["mp"].TokenToKVPoolAllocator, "alloc", kv_alloc)
    _wrap(b["mp"].TokenToKVPoolAllocator, "free", kv_free)

    def rq_alloc(s, orig, self, n=1):
        r = orig(self, n)
        if r is not None:
            for i in r:
                if i in s.rq:
                    s.viol("slot-double", "request slot %d handed out twice" % i)
                s.rq.add(i)
            lim = s.cfg.get("max_running_requests")
            s.rq_peak = max(s.rq_peak, len(s.rq))
            if lim and len(s.rq) > lim:
                s.viol("too-many-running", "%d request slots in use, limit %d" % (len(s.rq), lim))
        return r

    def rq_free(s, orig, self, slot):
        if slot not in s.rq:
            s.viol("slot-double", "request slot %s freed while not owned" % slot)
        s.rq.discard(slot)
        return orig(self, slot)

    _wrap(b["mp"].ReqToTokenPool, "alloc", rq_alloc)
    _wrap(b["mp"].ReqToTokenPool, "free", rq_free)

    def tr_alloc(s, orig, self):
        r = orig(self)
        if r is None:
            s.probe("gdn-track-exhausted")
        else:
            if r in s.tr:
                s.viol("track-double", "snapshot slot %d handed out twice" % r)
            s.tr.add(r)
        return r

    def tr_free(s, orig, self, slot):
        if slot not in s.tr:
            s.viol("track-double", "snapshot slot %s freed while not owned" % slot)
        s.tr.discard(slot)
        # poison: a freed snapshot must never be read again
        self.recurrent_state[:, slot] = 5.0
        return orig(self, slot)

    def copy_states(s, orig, self, a, c):
        for x in (a, c):
            if x > self.max_reqs and x not in s.tr:
                s.viol("track-double", "snapshot slot %d used while free" % x)
        if a > self.max_reqs:
            s.probe("gdn-restore")
        mr = s.objs.get("ModelRunnerProcess")
        if mr is not None:
            held = list(mr._node_id_to_gdn_track_slot.values()) + list(mr._rid_to_gdn_track_slot.values())
            if len(held) != len(set(held)) or set(held) - s.tr:
                s.viol("track-double", "snapshot slots are held by more than one owner or after they were given back: held %s, taken %s"
                       % (sorted(held)[:12], sorted(s.tr)[:12]))
        return orig(self, a, c)

    G = b["mp"].GDNPool
    _wrap(G, "alloc_track_slot", tr_alloc)
    _wrap(G, "free_track_slot", tr_free)
    _wrap(G, "copy_states", copy_states)

    def run_batch(s, orig, self, batch):
        rids = [r.rid for r in batch.reqs]
        known = getattr(s, "rid_ids", None)
        if known is not None:
            for r in batch.reqs:
                known.setdefault(r.rid, tuple(r.input_ids))
        ext = batch.forward_mode.is_extend()
        s.forwards += 1
        s.event("batch", "E" if ext else "D", len(rids))
        s.fwd_log.append((s.now, ext, tuple(rids)))
        if len(rids) > 1:
            s.probe("batch>1")
        mx = s.cfg.get("max_prefill_tokens")
        if ext:
            tot = sum(len(r.input_ids) for r in batch.reqs)
            if mx and tot > mx:
                s.viol("prefill-over-limit", "prefill batch of %d tokens, limit %d" % (tot, mx))
        run = set(id(r) for r in getattr(self, "_running_batch", ())) | set(id(r) for r in batch.reqs)
        lim = s.cfg.get("max_running_requests")
        if lim and len(run) > lim:
            s.viol("too-many-running", "%d requests running, limit %d" % (len(run), lim))
        used = getattr(self, "_used_tokens", None)
        total = getattr(self, "_max_total_tokens", None)
        if used is not None and total is not None and used > total:
            s.viol("budget-over-total", "token budget %d of %d in use" % (used, total))
        for r in rids:
            t = s.aborted_at.get(r)
            if t is not None:
                s.after_abort.setdefault(r, []).append(s.now)
        return orig(self, batch)

    _wrap(b["sp"].SchedulerProcess, "run_batch", run_batch)

    def evict(s, orig, self, *a, **k):
        r = orig(self, *a, **k)
        if getattr(r, "full_evicted", 0) > 0:
            s.probe("cache-evicted")
        return r
    for m, c in (("rc", "RadixCache"), ("mrc", "MambaRadixCache")):
        _wrap(getattr(b[m], c), "evict", evict)

        def match(s, orig, self, *a, **k):
            r = orig(self, *a, **k)
            if getattr(r, "prefix_len", 0) > 0:
                s.probe("cache-hit")
            return r
        _wrap(getattr(b[m], c), "match_prefix", match)


class WorldSim(Sim):
    def __init__(self, chooser, cfg, **kw):
        super().__init__(chooser, **kw)
        self.cfg = cfg
        self.kv = set()
        self.rq = set()
        self.tr = set()
        self.kv_depth = 0
        self.kv_peak = 0
        self.rq_peak = 0
        self.forwards = 0
        self.fwd_log = []
        self.aborted_at = {}
        self.after_abort = {}
        self.all_objs = []
        self.observe = True
        self.viols = []
        self.tokens_seen = {}     # slot -> history (model side)
        self.step_cost = 1e-3
        self.stall_fn = None

    def viol(self, cls, msg):
        if len(self.viols) < 40:
            self.viols.append((cls, msg))
            self.event("VIOLATION", cls, msg)

    # called by the model
    def forward_hook(self, fb, ids, pos, slots, seq, lens):
        loc = fb.out_cache_loc.tolist()
        r2t = fb.req_to_token_pool.req_to_token
        if len(set(loc)) != len(loc):
            self.viol("kv-shared-write", "forward pass writes one slot twice: %s" % loc[:20])
        if len(set(slots)) != len(slots):
            self.viol("slot-double", "two requests of a batch share request slot: %s" % slots)
        tgt = set(loc)
        for i in loc:
            if i not in self.kv:
                self.viol("kv-use-after-free", "forward pass writes slot %d which is free" % i)
        off = 0
        for r, slot in enumerate(slots):
            row = r2t[slot, :seq[r]].tolist()
            n = lens[r]
            for p, i in enumerate(row):
                if i not in self.kv:
                    self.viol("kv-use-after-free", "request reads slot %d (position %d of %d) which is free"
                              % (i, p, seq[r]))
                    break
            old = row[:seq[r] - n]
            hit = tgt.intersection(old)
            if hit:
                self.viol("kv-shared-write", "slot %d is written while it holds another position" % min(hit))
            if len(set(row)) != len(row):
                self.viol("kv-shared-write", "one request maps two positions to one slot")
            if slot not in self.rq:
                self.viol("slot-double", "request slot %d used while free" % slot)
            off += n
        g = self.objs.get("GDNPool")
        if g is not None and len(slots):
            if max(slots) > g.max_reqs:
                self.viol("gdn-slot", "working slot %d beyond %d" % (max(slots), g.max_reqs))

    def compute(self, ntok):
        """Model time, and stalls of the scheduler process."""
        c = self.step_cost
        if self.stall_p and self.ch.flip(self.stall_p):
            c += self.stall_d[self.ch.choose(len(self.stall_d))]
            self.fault("scheduler-stall")
        self.sleep(c)

    stall_p = 0.0
    stall_d = (0.05, 0.5)


# ------------------------------------------------------------------ reference
def ref_ids(op, cfg):
    from .fake_hf import encode, expand_images, IMG, V
    if op.get("images"):
        ids = expand_images(op["images"], encode(op["text"]))
        vals = iter([im["v"] for im in op["images"] for _ in range(im["n"])])
        return [t + V * (1 + next(vals)) if t == IMG else t for t in ids]
    if op.get("ids") is not None:
        return list(op["ids"])
    ids = encode(op["text"])
    cl = cfg.get("context_length") or 256
    return ids[:cl]


def ref_greedy(ids, sp, cfg, guide=None):
    """(tokens, reason) for a greedy request on a fresh server. Penalties make
    scores that differ only by rounding; among those, follow `guide`."""
    from .hashmodel import ref_logits
    eos_p = cfg.get("eos_p", 12)
    stop = set(sp.get("stop_token_ids") or []) | eos_set(cfg)
    mx = effective_max(ids, sp, cfg)
    out = []
    hist = list(ids)
    pen = (sp.get("repetition_penalty", 1.0), sp.get("frequency_penalty", 0.0), sp.get("presence_penalty", 0.0))
    while True:
        row = ref_logits(hist, eos_p)
        if pen != (1.0, 0.0, 0.0):
            row = penalise(row, hist, pen)
        t = max(range(len(row)), key=lambda i: row[i])
        if guide is not None and len(out) < len(guide) and 0 <= guide[len(out)] < len(row) \
                and pen != (1.0, 0.0, 0.0) and row[guide[len(out)]] >= row[t] - 1e-5 * (1 + abs(row[t])):
            t = guide[len(out)]
        out.append(t)
        hist.append(t)
        if t in stop:
            return out, "eos"
        if len(out) >= mx:
            return out, "length"


def eos_set(cfg):
    """Tokens that end every answer."""
    from .fake_hf import EOS
    if cfg.get("eos_src") == "tokenizer":
        return {EOS}
    return {EOS} | set(cfg.get("eos_extra") or ())


def effective_max(ids, sp, cfg):
    return max(1, min(sp.get("max_new_tokens", cfg.get("default_max") or 32768), 100000))


def context_room(ids, cfg):
    """New tokens that fit the context / pool after this prompt."""
    cl = cfg.get("context_length") or 256
    tot = cfg.get("max_total_tokens") or 4096
    return min(cl, tot) - len(ids)


def penalise(row, hist, pen):
    rep, freq, pres = pen
    cnt = {}
    for t in hist:
        t %= 97          # image placeholders carry their image value above the vocabulary
        cnt[t] = cnt.get(t, 0) + 1
    row = [float(x) for x in row]
    for t, c in cnt.items():
        v = row[t]
        if rep != 1.0:
            v = v / rep if v > 0 else v * rep
        v -= freq * c + (pres if c > 0 else 0)
        row[t] = v
    return row


def allowed_set(hist, sp, cfg):
    """Tokens the request's own parameters allow after `hist` (lenient at ties)."""
    import math
    from .hashmodel import ref_logits
    row = ref_logits(hist, cfg.get("eos_p", 12))
    pen = (sp.get("repetition_penalty", 1.0), sp.get("frequency_penalty", 0.0), sp.get("presence_penalty", 0.0))
    if pen != (1.0, 0.0, 0.0):
        row = penalise(row, hist, pen)
    row = [float(x) for x in row]
    T = sp.get("temperature", 1.0)
    order = sorted(range(len(row)), key=lambda i: -row[i])
    eps = 2e-3
    if T < 1e-6:
        best = row[order[0]]
        return set(i for i in order if row[i] >= best - eps)
    lg = [x / T for x in row]
    m = max(lg)
    ex = [math.exp(x - m) for x in lg]
    ok = set(i for i in order if ex[i] > 1e-12)
    k = sp.get("top_k", -1)
    if k and k > 0:
        kth = row[order[min(k, len(order)) - 1]]
        ok &= set(i for i in order if row[i] >= kth - eps)
    p = sp.get("top_p", 1.0)
    if p < 1.0:
        # accept either order of applying top-k and top-p
        tot = sum(ex)
        best = set()
        for base in ((ex, tot),):
            acc = 0.0
            for i in order:
                if acc / base[1] > p + 1e-4:
                    break
                best.add(i)
                acc += ex[i]
        edge = min(row[i] for i in best) - eps
        ok &= set(i for i in order if row[i] >= edge)
    return ok


def fit_factors(hist, sp, cfg, t):
    """How much more likely other temperatures (or none) make token t than the request's own
    parameters do; None where rounding could change the set of allowed tokens."""
    import math
    from .hashmodel import ref_logits
    row = ref_logits(hist, cfg.get("eos_p", 12))
    pen = (sp.get("repetition_penalty", 1.0), sp.get("frequency_penalty", 0.0), sp.get("presence_penalty", 0.0))
    if pen != (1.0, 0.0, 0.0):
        row = penalise(row, hist, pen)
    row = [float(x) for x in row]
    T = sp.get("temperature", 1.0)
    n = len(row)
    order = sorted(range(n), key=lambda i: -row[i])
    m = row[order[0]]
    ex = [math.exp((x - m) / T) for x in row]
    k, p = sp.get("top_k", -1) or -1, sp.get("top_p", 1.0)
    cut = min(k, n) if k > 0 else n
    if cut < n and row[order[cut - 1]] - row[order[cut]] < 1e-2:
        return None
    if p < 1.0:
        cuts = set()
        for base in (sum(ex), sum(ex[i] for i in order[:cut])):
            acc, c = 0.0, 0
            for i in order:
                if abs(acc / base - p) < 1e-3:
                    return None
                if acc / base > p:
                    break
                acc += ex[i]
                c += 1
            cuts.add(min(c, cut))
        if len(cuts) > 1:
            return None
        cut = cuts.pop()
        if cut < n and row[order[cut - 1]] - row[order[cut]] < 1e-2:
            return None
    S = order[:cut]
    if t not in S or ex[t] < 1e-9:
        return None
    z = sum(ex[i] for i in S)
    own = ex[t] / z
    res = []
    for alt in (0.0, 0.3 * T, 3 * T, 1.0, 1e9):
        if alt == 0.0:
            res.append((1.0 if t == S[0] and (len(S) < 2 or row[S[0]] - row[S[1]] > 1e-2) else 0.0) / own)
        else:
            e2 = {i: math.exp((row[i] - m) / alt) for i in S}
            res.append(e2[t] / sum(e2.values()) / own)
    # a smaller set at the right temperature
    for d in (2, 4):
        part = S[:(len(S) + d - 1) // d]
        if len(part) < len(S) and row[part[-1]] - row[S[len(part)]] > 1e-2:
            res.append(1.0 / sum(ex[i] for i in part) * z if t in part else 0.0)
        else:
            res.append(1.0)
    return res


# ------------------------------------------------------------------ clients
class Rec:
    """Everything one client saw."""
    __slots__ = ("msgs", "gone_t", "app_exc", "aborted", "op", "t0", "chunks", "end", "exc", "tend", "abort_t", "rids", "status", "headers", "body",
                 "events")

    def __init__(self, op):
        self.op = op
        self.t0 = None
        self.chunks = []
        self.end = None
        self.exc = None
        self.tend = None
        self.abort_t = None
        self.rids = None
        self.status = None
        self.headers = None
        self.body = None
        self.events = None


def is_terminal(c):
    return bool(c.get("finished")) or "error" in c


class World:
    def __init__(self, plan, chooser, wall=90.0):
        self.plan = plan
        self.cfg = dict(plan["cfg"])
        simc = plan.get("sim", {})
        self.sim = s = WorldSim(chooser, self.cfg, max_steps=simc.get("max_steps", 400000),
                                max_time=simc.get("max_time", 20000.0),
                                switch_p=simc.get("switch_p", 0.5))
        fakes.attach(s)
        s.net.p_delay = simc.get("p_delay", 0.3)
        if simc.get("delays"):
            s.net.delays = (0.0,) + tuple(simc["delays"])
        s.stall_p = simc.get("stall_p", 0.0)
        s.stall_d = tuple(simc.get("stall_d", (0.05, 0.5)))
        s.step_cost = simc.get("step_cost", 1e-3)
        s.draw_p = simc.get("draw_p", 0.0)
        s.p_line = simc.get("p_line", 0.0)
        s.line_files = ("/pymllm/engine/launch.py", "/pymllm/orchestrator/request_response_process.py")
        if simc.get("boot_p"):
            def boot_delay():
                if s.ch.flip(simc["boot_p"]):
                    s.fault("slow-start")
                    return (0.5, 3.0, 20.0)[s.ch.choose(3)]
                return 0.0
            s.net.boot_delay = boot_delay
        self.recs = []
        self.wall = wall
        self.engine = None
        self.launch_exc = None
        self.injected = set()      # injected faults that excuse some outcomes
        self.extra = {}

    # -- configuration
    def configure(self):
        b = _boot
        c = self.cfg
        from . import fake_hf
        b["cfg"].GlobalConfig.reset()
        g = b["cfg"].get_global_config()
        kw = {}
        for k in ("context_length", "max_running_requests", "max_queued_requests", "max_total_tokens",
                  "max_prefill_tokens", "enable_shared_queue", "disable_radix_cache",
                  "radix_cache_page_size", "enable_mamba_cache", "api_key", "admin_api_key",
                  "reasoning_parser", "tool_call_parser", "decode_log_interval"):
            if k in c and c[k] is not None:
                kw[k] = c[k]
        g.server = b["cfg"].ServerConfig(model_path=Path(b["model_dir"]), dtype="float32",
                                         log_level="critical", **kw)
        extra = {}
        if c.get("sliding_window"):
            extra["sliding_window"] = c["sliding_window"]
        if c.get("mm"):
            extra["sim_mm"] = True
        extra["sim_eos_p"] = c.get("eos_p", 12)
        if c.get("gdn"):
            n = c["gdn"]
            extra.update(sim_gdn_layers=n, linear_num_value_heads=1, linear_num_key_heads=1,
                         linear_key_head_dim=2, linear_value_head_dim=2, linear_conv_kernel_dim=3)
        if c.get("max_position_embeddings"):
            extra["max_position_embeddings"] = c["max_position_embeddings"]
        if c.get("default_max"):
            extra[c.get("default_max_field", "max_new_tokens")] = c["default_max"]
        if c.get("eos_src"):
            # where this model states which tokens end an answer
            raw = sorted(eos_set(c)) if c["eos_src"] != "tokenizer" else None
            if c.get("eos_int") and raw and len(raw) == 1:
                raw = raw[0]
            extra["eos_token_id"] = raw if c["eos_src"] == "top" else c.get("eos_none")
            if c["eos_src"] == "text":
                extra["text_config"] = fake_hf.SimHFConfig(**dict(extra, eos_token_id=raw))
            elif c["eos_src"] == "generation":
                extra["sim_generation_eos"] = raw
        fake_hf._next_cfg[0] = fake_hf.SimHFConfig(**extra)
        for m in ("rc", "mrc"):
            if hasattr(b[m], "_node_counter"):
                b[m]._node_counter = 0
        b["torch"].manual_seed(self.plan.get("sim", {}).get("draws", 1234))
        b["hm"].SCRIPTS.clear()
        for k, v in (self.plan.get("scripts") or {}).items():
            b["hm"].SCRIPTS[int(k)] = list(v)

    # -- run
    def run(self):
        s = self.sim
        self.configure()
        proc = kernel.Proc(s, "main")
        s.main_proc = proc
        s.proc_hook = self._proc_hook
        w0 = _real_now()
        buf = io.StringIO()
        with redirect_stdout(buf):
            reason = s.run(self.main, proc, wall=self.wall)
        r = Result()
        r.reason = reason
        r.violations = list(s.viols)
        if reason in ("wall-timeout",):
            r.violations.append(("sim-wall-timeout", "run exceeded its wall-clock limit"))
        elif reason != "done":
            self.on_abnormal(reason, r)
        main_err = [e for e in s.actor_errors if e[0] == "main"]
        if main_err and not r.violations:
            r.violations.append(("sim-error", "%s: %s\n%s" % main_err[0][1:]))
        r.hash = s.hash
        r.steps = s.steps
        r.switches = s.switches
        r.sim_time = s.now
        r.faults = s.faults
        r.probes = s.probes
        r.trace = s.ch.rec
        r.log = s.log
        r.stats = {"forwards": s.forwards, "kv_peak": s.kv_peak, "rq_peak": s.rq_peak,
                   "wall": _real_now() - w0, "ops": len(self.recs)}
        r.errors = s.actor_errors
        _forget(s)
        return r

    def on_abnormal(self, reason, r):
        if reason == "deadlock":
            r.violations.append(("hang", "every process is blocked for good (%s)" % self.pending()))
        else:
            r.violations.append(("hang", "no end within the run's bounds: %s (%s)" % (reason, self.pending())))

    def pending(self):
        return "unfinished clients: %s" % [x.op["id"] for x in self.recs if x.end is None]

    def _proc_hook(self, proc, target):
        n = getattr(target, "__name__", "")
        for k in ("tokenizer", "scheduler", "detokenizer"):
            if ("run_%s_process" % k) == n:
                proc.role = k
        for f in self.plan.get("proc_faults", ()):
            if f["role"] == getattr(proc, "role", None):
                if f["kind"] == "stubborn":
                    proc.stubborn = True

    # -- main actor
    def main(self):
        s = self.sim
        b = _boot
        try:
            self.engine = e = b["launch"].Engine()
            e.launch()
        except Exception as x:
            self.launch_exc = x
            self.after_launch_failure(x)
            return
        s.launched = True
        s.event("launched", 1)
        if self.plan.get("sync"):
            self.sync_main()
            self.after_run()
            return
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(self.amain())
        finally:
            s.event("main-loop-done")
        self.after_run()

    def after_launch_failure(self, x):
        self.sim.viol("worker-died", "launch failed: %s: %s" % (type(x).__name__, str(x)[:200]))

    # -- callers of the synchronous interface, each in a thread of its own
    def sync_main(self):
        s = self.sim
        plan = self.plan
        n = plan["sync"]
        gens = []
        for op in plan["ops"]:
            rec = Rec(op)
            self.recs.append(rec)
            if op.get("op", "gen") == "gen":
                gens.append(rec)
            else:
                rec.end = "done"
                s.spawn("fault-%d" % op["id"], (lambda r: lambda: self.sync_fault(r))(rec), s.main_proc)
        gens.sort(key=lambda r: (r.op.get("t", 0.0), r.op["id"]))
        acts = [s.spawn("caller-%d" % i, (lambda m: lambda: self.sync_caller(m))(gens[i::n]), s.main_proc)
                for i in range(n)]
        s.block(lambda: all(a.state == kernel.DONE for a in acts), 600.0)
        from .oracles import lag_bound
        self.timed_out = [r for r in self.recs if r.end is None and r.t0 is not None]
        s.sleep(plan.get("settle") or 4.0 + lag_bound(plan))
        self.oracle()
        if plan.get("probe_end", True) and not s.viols and not self.timed_out:
            p = self.probe_op()
            if p is not None:
                op, ids = p
                rec = Rec(op)
                a = s.spawn("probe", lambda: self.sync_caller([rec]), s.main_proc)
                s.block(lambda: a.state == kernel.DONE, 60.0)
                self.judge_probe(rec, ids)

    def sync_fault(self, rec):
        self.sim.sleep(rec.op.get("t", 0.0))
        try:
            getattr(self, "op_" + rec.op["op"])(rec).send(None)
        except StopIteration:
            pass

    def sync_caller(self, recs):
        s = self.sim
        for rec in recs:
            op = rec.op
            if s.now < op.get("t", 0.0):
                s.sleep(op["t"] - s.now)
            rec.t0 = s.now
            if op.get("rid") is None:
                op = rec.op = dict(op, rid=("r%d" % op["id"]) if not op.get("batch") else
                                   ["r%d.%d" % (op["id"], i) for i in range(op["batch"])])
            rec.rids = op["rid"] if isinstance(op["rid"], list) else [op["rid"]]
            kw = self.gen_kwargs(op)
            try:
                out = self.engine.generate(**kw)
                outs = out if isinstance(out, list) else [out]
                if [c.get("rid") for c in outs] != rec.rids:
                    s.viol("batch-order", "caller %d: asked for %s, got the results of %s"
                           % (op["id"], rec.rids, [c.get("rid") for c in outs]))
                for c in outs:
                    rec.chunks.append((s.now, c))
                s.event("sync-result", op["id"], len(outs))
                rec.end = "done"
            except Exception as x:
                rec.end = "exc"
                rec.exc = x
                s.event("client-exc", op["id"], type(x).__name__, str(x)[:100])
            rec.tend = s.now

    def reading_time(self):
        """What the slowest reader needs for itself."""
        out = 0.0
        for op in self.plan["ops"]:
            if op.get("slow"):
                sps = op["sp"] if isinstance(op["sp"], list) else [op["sp"]] * (op.get("batch") or 1)
                out = max(out, op["slow"] * sum(min(sp.get("max_new_tokens") or 20, 1000) + 2 for sp in sps
                                                if isinstance(sp.get("max_new_tokens") or 0, int)))
        return out

    async def amain(self):
        s = self.sim
        plan = self.plan
        tasks = []
        for op in plan["ops"]:
            rec = Rec(op)
            self.recs.append(rec)
            fn = getattr(self, "op_" + op.get("op", "gen"))
            tasks.append(asyncio.ensure_future(self._client(fn, rec)))
        if tasks:
            done, pend = await asyncio.wait(tasks, timeout=plan.get("limit", 600.0) + self.reading_time())
            for t in pend:
                pass
        from .oracles import lag_bound
        self.timed_out = [r for r in self.recs if r.end is None]
        await asyncio.sleep(plan.get("settle") or 4.0 + lag_bound(plan))
        self.oracle()
        for t in tasks:
            if not t.done():
                t.cancel()
        if plan.get("probe_end", True) and not s.viols and not self.timed_out:
            await self.end_probe()

    async def _client(self, fn, rec):
        s = self.sim
        op = rec.op
        dt = op.get("t", 0.0)
        if dt:
            await asyncio.sleep(dt)
        rec.t0 = s.now
        try:
            await fn(rec)
            if rec.end is None:
                rec.end = "done"
        except asyncio.CancelledError:
            rec.end = rec.end or "cancelled"
        except Exception as x:
            rec.end = rec.end or "exc"
            rec.exc = x
            s.event("client-exc", op["id"], type(x).__name__, str(x)[:100])
        rec.tend = s.now

    def gen_kwargs(self, op):
        kw = {"sampling_params": json.loads(json.dumps(op.get("sp"))), "stream": bool(op.get("stream"))}
        if op.get("ids") is not None:
            kw["input_ids"] = op["ids"]
        elif op.get("text") is not None:
            kw["prompt"] = op["text"]
        if op.get("images") is not None:
            kw["image_data"] = op["images"]
        if op.get("sp_none"):
            sps = kw["sampling_params"]
            for sp in sps if isinstance(sps, list) else [sps]:
                for k in op["sp_none"]:
                    sp.setdefault(k, None)
        if op.get("rid") is not None:
            kw["rid"] = op["rid"]
        kw.update(op.get("extra") or {})
        kw = json.loads(json.dumps(kw))
        if op.get("audio"):
            torch = _boot["torch"]

            def sound(v):
                return {"feats": (torch.tensor([float(v), 1.5]), [torch.tensor([[v]])]), "rate": v}
            kw["audio_data"] = [sound(v) for v in op["audio"]] if op.get("batch") else sound(op["audio"][0])
        return kw

    async def op_gen(self, rec):
        """One engine request; optionally aborted / abandoned part-way."""
        s = self.sim
        op = rec.op
        end = op.get("end")
        if op.get("rid") is None:
            # client-chosen ids, so that the history can be attributed
            op = dict(op, rid=("r%d" % op["id"]) if not op.get("batch") else
                      ["r%d.%d" % (op["id"], i) for i in range(op["batch"])])
        rec.rids = op["rid"] if isinstance(op["rid"], list) else [op["rid"]]
        if end is not None:
            asyncio.ensure_future(self._ender(rec, end, asyncio.current_task()))
        agen = self.engine.generate_async(**self.gen_kwargs(op))
        n = 0
        stop_after = end.get("chunks") if end and end["how"] in ("aclose",) else None
        try:
            async for c in agen:
                s.event("chunk", op["id"], bool(c.get("finished")), len(c.get("output_token_ids") or ()))
                rec.chunks.append((s.now, c))
                n += 1
                if stop_after is not None and n >= stop_after:
                    rec.end = "aclosed"
                    break
                if op.get("slow"):
                    s.fault("slow-client")
                    await asyncio.sleep(op["slow"])
        finally:
            if rec.end == "aclosed":
                self.mark_abort(rec)
                s.fault("client-disconnect")
            await agen.aclose()

    def mark_abort(self, rec):
        s = self.sim
        rec.abort_t = s.now
        for r in rec.rids:
            s.aborted_at.setdefault(r, s.now)

    async def _ender(self, rec, end, task):
        s = self.sim
        if end.get("chunks") and end["how"] != "aclose":
            n = 0
            while len(rec.chunks) < end["chunks"] and not task.done():
                n += 1
                await asyncio.sleep(0.0007 if n < 20000 else 5.0)
        elif end["how"] != "aclose":
            await asyncio.sleep(end.get("dt", 0.0))
        if end["how"] == "aclose":
            return
        if end["how"] == "cancel":
            if task.done():
                return
            self.mark_abort(rec)
            s.fault("client-cancel")
            task.cancel()
        elif end["how"] == "abort":
            # the client's own abort call (through the public API object)
            if end.get("member") is not None:
                rids = [rec.rids[end["member"] % len(rec.rids)]]
            else:
                rids = rec.rids
            live = not task.done()
            rec.abort_t = s.now
            s.fault("abort-live" if live else "abort-finished")
            for r in rids:
                if live:
                    s.aborted_at.setdefault(r, s.now)
            for r in rids:
                await self.engine._rr_process.abort_request(r)

    async def op_abort(self, rec):
        """Abort of an unknown or foreign id."""
        self.sim.fault("abort-unknown")
        await self.engine._rr_process.abort_request(rec.op["rid"])

    async def op_stall(self, rec):
        """Freeze one worker process for a while."""
        s = self.sim
        op = rec.op
        for p in s.procs:
            if getattr(p, "role", None) == op["role"] and p.alive:
                for a in p.actors:
                    a.stall_until = max(a.stall_until, s.now + op["dur"])
                s.fault("process-stall")

    async def op_clock(self, rec):
        self.sim.clock_off += rec.op["jump"]
        self.sim.fault("clock-jump")

    async def op_kill(self, rec):
        s = self.sim
        for p in s.procs:
            if getattr(p, "role", None) == rec.op["role"] and p.alive:
                s.fault("process-kill")
                self.injected.add("kill")
                self.kill_t = s.now
                p.kill(rec.op.get("code", -9))

    async def op_dup(self, rec):
        """A second request under another client's id."""
        op = rec.op
        self.sim.fault("duplicate-id")
        try:
            await self.op_gen(rec)
        except ValueError:
            self.sim.probe("duplicate-id-refused")
            rec.end = "refused"

    async def op_nop(self, rec):
        pass

    # -- end of run
    def probe_op(self):
        """A request of the full capacity, to be made when everything is over."""
        c = self.cfg
        if self.injected:
            return
        cl = c.get("context_length") or 256
        tot = c.get("max_total_tokens") or 4096
        mxp = c.get("max_prefill_tokens") or 8192
        page = c.get("radix_cache_page_size") or 1
        cap = min(cl, tot, 400)
        new = 2
        n = min(cap - new, mxp)
        if page > 1:
            n = n // page * page - page
        if n < 2:
            return
        ids = [4 + (i * 7 + 3) % 60 for i in range(n)]
        ids[0] = 66
        op = {"id": 9999, "ids": ids, "sp": {"temperature": 0.0, "max_new_tokens": new}, "rid": "probe-end",
              "stream": False}
        return op, ids

    async def end_probe(self):
        """The server must still be able to serve a request of the full capacity."""
        p = self.probe_op()
        if p is None:
            return
        op, ids = p
        rec = Rec(op)
        try:
            await asyncio.wait_for(self.op_gen(rec), 60.0)
        except asyncio.TimeoutError:
            rec.chunks = []
        except Exception as x:
            rec.exc = x
        self.judge_probe(rec, ids)

    def judge_probe(self, rec, ids):
        s = self.sim
        c = self.cfg
        op = rec.op
        n, new = len(ids), op["sp"]["max_new_tokens"]
        cl = c.get("context_length") or 256
        tot = c.get("max_total_tokens") or 4096
        ok = rec.chunks and not rec.exc and is_terminal(rec.chunks[-1][1]) and "error" not in rec.chunks[-1][1]
        s.probe("capacity-probe")
        if not ok and not s.viols:
            dead = [p.name for p in s.procs if not p.alive]
            s.viol("capacity-lost", "after everything was finished, a request of %d+%d tokens (limits: context %d, pool %d) "
                   "is not served any more; dead workers %s, %s" % (n, new, cl, tot, dead, rec.exc or [x[1] for x in rec.chunks][-1:]))
        elif ok:
            exp, _ = ref_greedy(ids, op["sp"], c)
            got = rec.chunks[-1][1].get("output_token_ids")
            if list(got) != exp:
                s.viol("wrong-output-hybrid" if c.get("gdn") else "wrong-output",
                       "capacity probe: got %s, expected %s" % (got, exp))

    def after_run(self):
        plan = self.plan
        s = self.sim
        if plan.get("shutdown", False):
            t0 = s.now
            self.engine.shutdown()
            if s.now - t0 > 60:
                s.viol("shutdown", "shutdown took %.1f s" % (s.now - t0))
            for p in s.procs:
                if p.alive:
                    s.viol("shutdown", "worker %s still alive after shutdown" % p.name)

    # ------------------------------------------------------------ oracles
    def expect(self, ids, sp, got=None):
        if not any(sp.get(x) for x in ("repetition_penalty", "frequency_penalty", "presence_penalty")):
            got = None
        k = (tuple(ids), json.dumps(sp, sort_keys=True), tuple(got or ()))
        c = self.extra.setdefault("expect", {})
        if k not in c:
            room = max(1, context_room(ids, self.cfg) + 6)
            sp2 = dict(sp)
            sp2["max_new_tokens"] = min(effective_max(ids, sp, self.cfg), room)
            c[k] = ref_greedy(ids, sp2, self.cfg, got)
        return c[k]

    def dead_workers(self):
        return [p for p in self.sim.procs if not p.alive]

    def oracle(self):
        from .oracles import check_history
        check_history(self)


def _forget(s):
    s.objs.clear()
    s.all_objs[:] = []
    s.mpobjs.clear()


_real_now = fakes._real.perf_counter


def run_plan(plan, chooser, wall=90.0, cls=None):
    w = (cls or World)(plan, chooser, wall)
    return w.run()
