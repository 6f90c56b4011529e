"""P12: the pooled tensor transport under simulated senders, receivers, recycler
and device streams.

The real MmItemMemoryPool, proxies, wrap/unwrap helpers and TensorQueue run on a
stand-in device: device memory is host memory, and every process has one stream
on which copies happen later than the call that asked for them, at a moment the
simulator picks, and not atomically.
"""
import pickle

from . import fakes, kernel
from .kernel import Sim, cur_sim, cur_proc

_b = {}


def boot():
    if _b:
        return
    import torch
    import pymllm.orchestrator.cuda_ipc_transport as ipc
    import pymllm.orchestrator.shared_memory_queue as smq

    class Dev:
        type = "cuda"

        def __init__(self, index=0):
            self.index = index

        def __repr__(self):
            return "cuda:%d" % self.index

        def __str__(self):
            return repr(self)

        def __eq__(self, o):
            return repr(self) == str(o)

        def __hash__(self):
            return hash(repr(self))

        def __reduce__(self):
            return Dev, (self.index,)

    class Storage:
        """What UntypedStorage is on the device: only good for sharing."""

        def __init__(self, base):
            self.base = base

        def _share_cuda_(self, *a):
            st = cur_sim().dev
            cur_sim().yield_()
            if st.share_fail():
                raise RuntimeError("CUDA error: invalid resource handle")
            st.bases[self.base.untyped().data_ptr()] = self.base
            return ("sim", self.base.untyped().data_ptr(), st.mark())

        def __getattr__(self, k):
            return getattr(self.base.untyped(), k)

    class SimCuda(torch.Tensor):
        is_cuda = property(lambda self: True)
        is_cpu = property(lambda self: False)
        device = property(lambda self: Dev(0))

        def untyped(self):
            return torch.Tensor.untyped_storage(self)

        def untyped_storage(self):
            return Storage(self)

        def copy_(self, src, non_blocking=False):
            st = cur_sim().dev
            if self.numel() != src.numel():
                raise RuntimeError("The size of tensor a (%d) must match the size of tensor b (%d)" % (self.numel(), src.numel()))
            if isinstance(src, SimCuda):
                st.enqueue(("copy", self, src))
            else:
                st.sync()
                plain(self).copy_(src)
            return self

        def fill_(self, v):
            cur_sim().dev.enqueue(("fill", self, v))
            return self

        def contiguous(self, *a, **k):
            if plain(self).is_contiguous():
                return self
            return dup(self)

        def reshape(self, *shape):
            try:
                return self.view(*shape)
            except RuntimeError:
                return dup(self).view(*shape)

        def clone(self, *a, **k):
            return dup(self)

        def flatten(self, *a):
            return self.reshape(-1)

        def cpu(self, *a, **k):
            cur_sim().dev.sync()
            return plain(self).clone()

        def to(self, *a, **k):
            for x in a:
                if isinstance(x, Dev) or isinstance(x, str) and x.startswith("cuda"):
                    return self
            return self.cpu()

        def cuda(self, *a, **k):
            return self

        def tolist(self):
            return self.cpu().tolist()

        def set_(self, src=None, storage_offset=0, size=None, stride=None):
            if isinstance(src, Handle):
                t = torch.empty(0, dtype=self.dtype).set_(src.base.untyped(), storage_offset, tuple(size), tuple(stride))
                return t.as_subclass(SimCuda)
            return torch.Tensor.set_(self, src) if src is not None else torch.Tensor.set_(self)

        def __reduce_ex__(self, proto):
            cur_sim().dev.sync()
            return rebuild, (plain(self).clone(),)

        def __deepcopy__(self, memo):
            return dup(self)

    def plain(t):
        return t.as_subclass(torch.Tensor)

    def rebuild(t):
        return t.as_subclass(SimCuda)
    rebuild.__qualname__ = "rebuild"
    globals()["rebuild"] = rebuild

    def dup(t):
        out = torch.empty(plain(t).shape, dtype=t.dtype).as_subclass(SimCuda)
        cur_sim().dev.sync()
        plain(out).copy_(plain(t))
        return out

    def junk(t):
        p = plain(t)
        if p.numel() and p.is_contiguous():
            p.view(-1).view(torch.uint8).fill_(0xA5)

    class Handle:
        def __init__(self, base):
            self.base = base

    class US:
        @staticmethod
        def _new_shared_cuda(tag, key, ev):
            st = cur_sim().dev
            cur_sim().yield_()
            st.enqueue(("wait", ev))
            return Handle(st.bases[key])

    class Ctx:
        def __init__(self, *a):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class StreamView:
        def synchronize(self):
            cur_sim().dev.sync()

        def query(self):
            return cur_sim().dev.idle()

        def record_event(self, *a):
            return Ev().record() or self.ev

        def wait_event(self, e):
            cur_sim().dev.enqueue(("wait", e.ev))

        wait_stream = lambda self, o: None

    class Ev:
        def __init__(self, *a, **k):
            self.ev = None

        def record(self, *a):
            self.ev = cur_sim().dev.mark()

        def synchronize(self):
            if self.ev is not None:
                cur_sim().dev.wait(self.ev)

        def query(self):
            return self.ev is None or cur_sim().dev.passed(self.ev)

        def wait(self, *a):
            cur_sim().dev.enqueue(("wait", self.ev))

    class Cuda:
        device = Ctx
        stream = Ctx
        Event = Ev
        Stream = lambda self, *a, **k: StreamView()

        def __getattr__(self, k):
            return getattr(torch.cuda, k)

        def is_available(self):
            return True

        def current_device(self):
            return 0

        def current_stream(self, *a, **k):
            return StreamView()

        default_stream = current_stream

        def synchronize(self, *a, **k):
            cur_sim().dev.sync()

        def set_device(self, *a):
            pass

    def on_dev(d):
        return isinstance(d, Dev) or isinstance(d, str) and d.startswith("cuda")

    class Torch:
        cuda = Cuda()
        UntypedStorage = US

        def __getattr__(self, k):
            v = getattr(torch, k)
            if k in ("empty", "zeros", "ones", "full", "empty_like", "zeros_like", "tensor", "arange", "as_tensor", "empty_strided"):
                def make(*a, **kw):
                    d = kw.pop("device", None)
                    like = k.endswith("_like") and isinstance(a[0], SimCuda)
                    if like:
                        a = (plain(a[0]),) + a[1:]
                    t = v(*a, **kw)
                    if on_dev(d) or like and d is None:
                        t = plain(t).as_subclass(SimCuda)
                        if k.startswith("empty"):
                            junk(t)
                    return t
                return make
            return v

        def device(self, d, *a):
            if on_dev(d):
                s = str(d)
                return Dev(int(s.split(":")[1]) if ":" in s else 0)
            return torch.device(d, *a)

    # sync flags: += is a read and a write
    import numpy as np

    class Flag(np.ndarray):
        def __iadd__(self, v):
            x = float(self.reshape(-1)[0])
            s = cur_sim()
            if s is not None and not s.ended:
                s.yield_()
            np.ndarray.__setitem__(self, Ellipsis, x + v)
            return self

    class Np:
        def __getattr__(self, k):
            return Flag if k == "ndarray" else getattr(np, k)

    class Fcntl:
        LOCK_EX, LOCK_UN, LOCK_SH, LOCK_NB = 2, 8, 1, 4

        @staticmethod
        def flock(f, op):
            sim = cur_sim()
            st = sim.dev
            me = kernel.cur_actor()
            if op & 8:
                if st.flock is me:
                    st.flock = None
                sim.yield_()
                return
            sim.yield_()
            if st.flock is not None:
                sim.probe("flock-contended")
                sim.block(lambda: st.flock is None)
            st.flock = me

        lockf = flock

    for mod in (ipc, smq):
        if hasattr(mod, "torch"):
            mod_torch = Torch()
            mod_torch_saved = mod.torch
            _b.setdefault("saved", []).append((mod, mod_torch_saved))
            _b.setdefault("fake", []).append((mod, mod_torch))
    _b["np"] = (ipc, Np())
    _b["fcntl"] = (ipc, Fcntl)
    _b.update(torch=torch, ipc=ipc, smq=smq, SimCuda=SimCuda, plain=plain, Dev=Dev)


class Device:
    """Streams of all simulated processes."""

    def __init__(self, sim, plan):
        self.sim = sim
        self.p = plan["sim"]
        self.bases = {}
        self.q = {}
        self.done = {}
        self.flock = None
        self.mem = []

    def share_fail(self):
        if self.sim.ch.flip(self.p["p_share"]):
            self.sim.fault("share-failed")
            return True
        return False

    def key(self):
        p = cur_proc()
        return p.pid

    def queue(self):
        k = self.key()
        if k not in self.q:
            self.q[k] = []
            self.done[k] = 0
            self.sim.spawn("stream-%d" % k, lambda: self.serve(k))
        return self.q[k]

    def enqueue(self, op):
        q = self.queue()
        q.append(op)
        self.sim.yield_()

    def mark(self):
        q = self.queue()
        k = self.key()
        return (k, self.done[k] + len(q))

    def passed(self, ev):
        return self.done[ev[0]] >= ev[1]

    def wait(self, ev):
        self.sim.yield_()
        self.sim.block(lambda: self.passed(ev))

    def sync(self):
        self.wait(self.mark())

    def idle(self):
        return not self.queue()

    def serve(self, k):
        sim = self.sim
        q = self.q[k]
        while True:
            sim.block(lambda: bool(q))
            if sim.ch.flip(self.p["p_late"]):
                sim.fault("late-copy")
                sim.sleep((0.001, 0.05, 0.3, 2.0)[sim.ch.choose(4)])
            op = q[0]
            if op[0] == "wait":
                sim.block(lambda: self.passed(op[1]))
            elif op[0] == "fill":
                _b["plain"](op[1]).fill_(op[2])
            elif op[0] == "call":
                op[1]()
            else:
                torch = _b["torch"]
                d, s = (_b["plain"](x) for x in op[1:])
                n = d.numel()
                if d.dim() == 1 and s.dim() == 1 and n > 1:
                    h = n // 2
                    d[:h].copy_(s[:h])
                    sim.yield_()
                    d[h:].copy_(s[h:])
                else:
                    d.copy_(s)
                if s.untyped_storage().data_ptr() in self.bases and k != self.owner:
                    self.copied(s)
            q.pop(0)
            self.done[k] += 1


DT = ["float32", "int8", "uint8", "int64", "bool", "float16", "float64", "int32"]


def gen(rng, tier):
    nc = rng.choice([1, 1, 1, 2, 3])
    pool = rng.choice([32, 64, 100, 257, 1024])
    plan = {"profile": "P12", "kind": "pool", "pool": pool, "consumers": nc, "interval": rng.choice([0.01, 0.1, 0.5]),
            "sim": {"switch_p": rng.choice([0.2, 0.5, 0.9]), "p_late": rng.choice([0.0, 0.1, 0.4]),
                    "p_share": rng.choice([0.0, 0.0, 0.05, 0.3]), "p_shm": rng.choice([0.0, 0.0, 0.1, 0.3]),
                    "p_stall": rng.choice([0.0, 0.1, 0.3]), "p_line": rng.choice([0.0, 0.003, 0.02, 0.1])},
            "threads": rng.choice([1, 1, 2, 3]), "ops": []}
    n = rng.choice([2, 5, 10, 20, 30])
    span = rng.choice([0.0, 0.2, 1.0, 3.0])
    for i in range(n):
        ts = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            dt = rng.choice(DT)
            r = rng.random()
            if r < 0.06:
                shape = rng.choice([[0], [0, 4], [3, 0]])
            elif r < 0.12:
                shape = []
            elif r < 0.2:
                shape = [1]
            elif r < 0.75:
                shape = [rng.randint(1, max(1, pool // rng.choice([2, 4, 8, 16]) // {"float32": 4, "int64": 8, "float16": 2, "float64": 8, "int32": 4}.get(dt, 1)))]
                if rng.random() < 0.3:
                    shape = [max(1, shape[0] // 2), 2]
            else:
                shape = [rng.randint(1, pool + 8)]
            lay = rng.choice(["plain"] * 7 + ["transposed", "strided", "offset", "expanded"])
            ts.append({"dt": dt, "shape": shape, "lay": lay, "cpu": rng.random() < 0.08})
        plan["ops"].append({"op": "send", "id": i, "t": round(rng.random() * span, 4), "th": rng.randrange(plan["threads"]),
                            "tensors": ts, "again": rng.random() < 0.1, "dev": rng.random() < 0.3,
                            "nest": rng.choice(["flat", "list", "deep", "tuple"])})
    plan["ops"].sort(key=lambda o: o["t"])
    return plan


class Run:
    def __init__(self, plan, ch):
        self.plan, self.ch = plan, ch
        self.viols = []

    def viol(self, cls, msg):
        if len(self.viols) < 10:
            self.viols.append((cls, msg))
            self.sim.event("VIOLATION", cls, msg)

    def make(self, spec, i, j):
        """A source tensor and its bytes."""
        torch = _b["torch"]
        dt = getattr(torch, spec["dt"])
        shape = spec["shape"]
        n = 1
        for x in shape:
            n *= x
        g = [(i * 37 + j * 11 + k * 7 + 3) % 100 + 1 for k in range(n)]
        t = torch.tensor(g, dtype=torch.int64)
        t = (t % 2 == 0) if dt == torch.bool else t.to(dt)
        t = t.reshape(shape)
        lay = spec["lay"]
        if lay == "transposed" and t.dim() == 2:
            t = t.t().contiguous().t()
        elif lay == "strided" and t.dim() == 1 and n:
            b = torch.zeros(2 * n, dtype=dt)
            b[::2] = t
            t = b[::2]
        elif lay == "offset" and t.dim() == 1:
            b = torch.zeros(n + 3, dtype=dt)
            b[3:] = t
            t = b[3:]
        elif lay == "expanded" and t.dim() == 1 and n:
            t = t[:1].expand(n)
        want = t.clone().contiguous()
        if spec["cpu"]:
            return t.clone(), want
        return t.as_subclass(_b["SimCuda"]), want

    def run(self):
        plan = self.plan
        self.sim = sim = Sim(self.ch, switch_p=plan["sim"]["switch_p"], max_steps=400000, max_time=4000.0)
        sim.p_line = plan["sim"].get("p_line", 0.0)
        sim.line_files = ("/pymllm/orchestrator/cuda_ipc_transport.py",)
        fakes.attach(sim)
        sim.dev = Device(sim, plan)
        self.no_faults = False

        def shm_fault(op, name):
            if op == "create" and not self.no_faults and self.up and sim.ch.flip(plan["sim"]["p_shm"]):
                sim.fault("shm-full")
                return OSError(28, "No space left on device")
        sim.shm_fault = shm_fault
        self.up = False
        self.live = []       # [message, area, receivers that have not copied it yet]
        self.seen = set()
        sim.dev.copied = self.copied
        self.sent = {}
        self.got = {}
        self.spans = []
        for mod, t in _b["fake"]:
            mod.torch = t
        m, x = _b["np"]
        np_saved, m.np = m.np, x
        m, x = _b["fcntl"]
        fc_saved, m.fcntl = m.fcntl, x
        try:
            reason = sim.run(self.main, kernel.Proc(sim, "sender"), wall=25.0)
        finally:
            for mod, t in _b["saved"]:
                mod.torch = t
            m.np, m.fcntl = np_saved, fc_saved
        if not self.viols:
            if sim.actor_errors:
                self.viol("pool-crash", "%s: %s: %s" % sim.actor_errors[0][:3])
            elif reason != "done":
                self.viol("pool-stuck", "the run ended with %s" % reason)
        return {"violations": self.viols, "reason": reason, "hash": sim.hash, "steps": sim.steps, "switches": sim.switches,
                "sim_time": sim.now, "faults": sim.faults, "probes": sim.probes, "trace": self.ch.rec, "log": sim.log,
                "stats": {"sends": len(plan["ops"])}, "errors": sim.actor_errors, "nontrivial": bool(self.got)}

    def main(self):
        sim, plan = self.sim, self.plan
        ipc, smq = _b["ipc"], _b["smq"]
        nc = plan["consumers"]
        self.pool = ipc.MmItemMemoryPool(memory_size=plan["pool"], recycle_interval=plan["interval"], num_consumers=nc, device=0)
        self.up = True
        sim.dev.owner = kernel.cur_proc().pid
        self.pending = 0
        self.queues = []
        self.consumed = 0
        for c in range(nc):
            q = smq.TensorQueue(maxsize=0, transport_mode="cuda_ipc_pool", pool=self.pool) if nc == 1 else fakes.MpQueue()
            self.queues.append(q)
            sim.spawn("recv%d" % c, lambda c=c: self.receiver(c), kernel.Proc(sim, "receiver%d" % c))
        self.senders = plan["threads"]
        for th in range(plan["threads"]):
            sim.spawn("send%d" % th, lambda th=th: self.sender(th), kernel.cur_proc())
        sim.block(lambda: self.senders == 0)
        sim.block(lambda: self.consumed == sum(nc for v in self.sent.values() if v), 600.0)
        for op, v in sorted(self.sent.items()):
            n = self.got.get(op, 0)
            if v and n != nc:
                self.viol("pool-lost", "message %d arrived at %d of %d receivers" % (op, n, nc))
        # everything is finished: the recycler gets its chance
        self.no_faults = True
        plan["sim"] = dict(plan["sim"], p_share=0.0)
        sim.dev.p = dict(sim.dev.p, p_share=0.0)
        sim.sleep(30.0 + 6 * plan["interval"])
        if not self.viols:
            self.drained()
        self.pool.shutdown()

    def drained(self):
        ipc, torch = _b["ipc"], _b["torch"]
        n = self.plan["pool"]
        t = (torch.arange(n) % 100).to(torch.int8).as_subclass(_b["SimCuda"])
        w = ipc.wrap_mm_inputs_for_ipc({"x": t}, transport_mode="cuda_ipc_pool", pool=self.pool)["x"]
        if not isinstance(w, ipc.CudaIpcTensorTransportProxy):
            a = getattr(self.pool, "available_chunks", None)
            o = getattr(self.pool, "occupied_chunks", None)
            self.viol("pool-not-whole", "everything is finished, but an allocation of the full pool (%d bytes) fails; free %s, in use %s"
                      % (n, a and [c.area for c in a], o and [c.area for c in o]))
        else:
            self.sim.probe("drained-full-size")
        peak = 0
        for a, b in self.spans:
            peak = max(peak, sum(1 for x, y in self.spans if x <= a <= y))
        if len(self.sim.shm) > 2 * peak + 3:
            self.viol("pool-sync-leak", "%d synchronisation segments for at most %d chunks in use" % (len(self.sim.shm), peak))

    def area(self, proxy):
        h = getattr(proxy, "_state", {}).get("ipc_handle")
        if not h:
            return None
        a = h["storage_offset"]
        n = 1
        for x in h["shape"]:
            n *= x
        return (a, a + n)

    def sender(self, th):
        sim, plan = self.sim, self.plan
        try:
            for op in plan["ops"]:
                if op["th"] != th:
                    continue
                if sim.now < op["t"]:
                    sim.sleep(op["t"] - sim.now)
                self.send(op)
        finally:
            self.senders -= 1

    def nest(self, op, ts):
        m = op["nest"]
        if m == "flat":
            return {"t%d" % k: t for k, t in enumerate(ts)}
        if m == "list":
            return {"a": list(ts), "s": "x", "n": None}
        if m == "tuple":
            return {"a": tuple(ts)}
        return {"a": {"b": [{"c": t} for t in ts]}, "k": 7}

    def flat(self, d):
        torch = _b["torch"]
        if isinstance(d, dict):
            return [x for k in d for x in self.flat(d[k])]
        if isinstance(d, (list, tuple)):
            return [x for e in d for x in self.flat(e)]
        if isinstance(d, torch.Tensor) or isinstance(d, _b["ipc"].CudaIpcTensorTransportProxy):
            return [d]
        return []

    def send(self, op):
        sim, ipc = self.sim, _b["ipc"]
        made = [self.make(s, op["id"], j) for j, s in enumerate(op["tensors"])]
        mm = self.nest(op, [t for t, _ in made])
        self.want = getattr(self, "want", {})
        self.want[op["id"]] = [w for _, w in made]
        real = ipc.wrap_mm_inputs_for_ipc
        try:
            if len(self.queues) == 1:
                self.sent[op["id"]] = True
                self.queues[0].put(str(op["id"]), "m", mm)
            else:
                w = real(mm, transport_mode="cuda_ipc_pool", pool=self.pool)
                data = (str(op["id"]), "m", w)
                self.sent[op["id"]] = True
                for q in self.queues:
                    q.put(data)
        except OSError as x:
            self.sent[op["id"]] = False
            if x.errno != 28:
                self.viol("pool-crash", "send %d: %s" % (op["id"], x))
            sim.probe("send-refused")
        except Exception as x:
            self.sent[op["id"]] = False
            self.viol("pool-crash", "send %d (%s): %s: %s" % (op["id"], op["tensors"], type(x).__name__, x))
        self.spans.append([sim.now - 1.0, sim.now + 40.0 + 6 * self.plan["interval"]])
        self.spans += [list(self.spans[-1]) for _ in op["tensors"][1:]]
        # the source memory is released and used for something else
        for t, _ in made:
            if isinstance(t, _b["SimCuda"]) and t.numel() and _b["plain"](t).is_contiguous():
                t.fill_(0)
        sim.event("sent", op["id"], self.sent[op["id"]])

    def receiver(self, c):
        sim, ipc = self.sim, _b["ipc"]
        q = self.queues[c]
        ops = {o["id"]: o for o in self.plan["ops"]}
        while True:
            rid, _, mm = q.get()
            i = int(rid)
            op = ops[i]
            if sim.ch.flip(self.plan["sim"]["p_stall"]):
                sim.fault("receiver-stall")
                sim.sleep((0.02, 0.2, 2.0, 20.0)[sim.ch.choose(4)])
            sim.event("got", c, i)
            mine = []
            for x in self.flat(mm):
                if isinstance(x, ipc.CudaIpcTensorTransportProxy):
                    sim.probe("pooled" if self.area(x) else "share-fallback")
                    a = self.area(x)
                    if a and not (0 <= a[0] <= a[1] <= self.plan["pool"]):
                        self.viol("pool-overlap", "message %d got the area %s outside the pool" % (i, a))
                    if a and a[0] < a[1]:
                        mine.append(a)
                elif isinstance(x, ipc.TransportProxyTensor):
                    sim.probe("pool-full-fallback")
            if i not in self.seen:
                self.seen.add(i)
                for a in mine:
                    self.claim(i, a)
            try:
                out = ipc.unwrap_mm_inputs_from_ipc(mm, 0 if op["dev"] else None)
                if op["again"]:
                    out2 = ipc.unwrap_mm_inputs_from_ipc(mm, 0 if op["dev"] else None)
                    for a, b in zip(self.flat(out), self.flat(out2)):
                        if a is not b and not isinstance(a, type(b)):
                            self.viol("pool-content", "message %d: unwrapping again gives something else" % i)
            except Exception as x:
                self.viol("pool-crash", "receiver %d, message %d (%s): %s: %s" % (c, i, op["tensors"], type(x).__name__, x))
                self.consumed += 1
                self.got[i] = self.got.get(i, 0) + 1
                continue
            self.use(c, i, out)

    def claim(self, i, a):
        for j, b, left in self.live:
            if left > 0 and a[0] < b[1] and b[0] < a[1]:
                self.viol("pool-overlap", "message %d got the area %s, message %d still owns %s" % (i, a, j, b))
        self.live.append([i, a, self.plan["consumers"]])

    def copied(self, src):
        """A device copy out of shared memory was carried out by a receiver."""
        a = src.storage_offset() * src.element_size()
        for e in self.live:
            if e[2] > 0 and e[1] == (a, a + src.numel() * src.element_size()):
                e[2] -= 1
                break

    def use(self, c, i, out):
        """Queue the first use of the data behind the copies."""
        sim = self.sim
        ts = self.flat(out)
        want = self.want[i]

        def fin():
            if len(ts) != len(want):
                self.viol("pool-content", "message %d: %d tensors sent, %d received" % (i, len(want), len(ts)))
            for k, (t, w) in enumerate(zip(ts, want)):
                p = _b["plain"](t)
                if p.dtype != w.dtype or tuple(p.shape) != tuple(w.shape):
                    self.viol("pool-content", "message %d tensor %d: %s %s sent, %s %s received"
                              % (i, k, w.dtype, tuple(w.shape), p.dtype, tuple(p.shape)))
                elif not bool((p == w).all()):
                    self.viol("pool-content", "message %d tensor %d (%s %s) arrived altered at receiver %d" % (i, k, w.dtype, tuple(w.shape), c))
            self.got[i] = self.got.get(i, 0) + 1
            self.consumed += 1
            sim.event("used", c, i)
        sim.dev.enqueue(("call", fin))


def run(plan, ch):
    boot()
    return Run(dict(plan), ch).run()
