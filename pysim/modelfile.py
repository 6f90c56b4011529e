"""N07: model files written by the real Python converter on a failing disk, then loaded by the real native reader.

The writer (ModelFileV2, QuantizeSolver) runs as it is; every raw file operation it causes passes through `Raw`, which
decides short writes, a full disk, errors and the point where the process dies. What is on disk afterwards goes to the
C++ simulator, which loads it mapped and buffered.
"""
import builtins
import errno
import gc
import hashlib
import io
import os
import random
import sys
import types

from . import native

_m = {}


class Killed(BaseException):
    pass


class Disk:
    def __init__(self, root, f):
        self.root, self.f, self.ops, self.dead = root, f, 0, False
        self.hits, self.log = {}, []

    def hit(self, k):
        self.hits[k] = self.hits.get(k, 0) + 1
        self.log.append("op %d: %s" % (self.ops, k))

    def op(self):
        self.ops += 1
        c = self.f.get("crash")
        if c and self.ops >= c[0] and not self.dead:
            return "crash"
        if self.f.get("eio") == self.ops:
            self.hit("write error")
            raise OSError(errno.EIO, "Input/output error")


class Raw(io.FileIO):
    disk = None

    def write(self, b):
        d = self.disk
        b = memoryview(b).cast("B")
        n = len(b)
        if d.dead:
            return n
        what = d.op()
        for o, k in d.f.get("short", ()):
            if o == d.ops and n > 1:
                d.hit("short write")
                n = max(1, min(n - 1, k))
        cap = d.f.get("cap")
        if cap is not None:
            room = cap - self.tell()
            if room <= 0:
                d.hit("disk full")
                raise OSError(errno.ENOSPC, "No space left on device")
            n = min(n, room)
        if what == "crash":
            n = min(n, d.f["crash"][1])
            if n:
                super().write(b[:n])
            d.hit("process ends")
            d.dead = True
            raise Killed()
        return super().write(b[:n])

    def truncate(self, n=None):
        d = self.disk
        if d.dead:
            return n
        if d.op() == "crash":
            d.hit("process ends")
            d.dead = True
            raise Killed()
        return super().truncate(n)


def opener(disk, real):
    def open_(file, mode="r", buffering=-1, *a, **k):
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return real(file, mode, buffering, *a, **k)
        if not isinstance(p, str) or not p.startswith(disk.root + os.sep) or "b" not in mode or mode.strip("b") == "r":
            return real(file, mode, buffering, *a, **k)
        r = Raw(p, mode.replace("b", ""))
        r.disk = disk
        if buffering == 0:
            return r
        size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
        return io.BufferedRandom(r, size) if "+" in mode else io.BufferedWriter(r, size)
    return open_


class Pod:
    def __init__(self, n):
        self.n = n

    def to_pod(self):
        return self.n


class FfiTensor:
    def __init__(self, shape, dtype, data):
        self.shape, self.dtype, self.data = tuple(shape), Pod(dtype), data

    def tobytes(self):
        return self.data


def boot():
    if _m:
        return
    import numpy as np
    import torch
    torch.set_num_threads(1)
    base = os.path.join(native.REPO, "pymllm", "mobile")
    m = types.ModuleType("pymllm.mobile")
    m.__path__ = [base]
    f = types.ModuleType("pymllm.mobile.ffi")
    f.Tensor, f.MLLM_FIND_NUMPY_AVAILABLE, f.MLLM_FIND_TORCH_AVAILABLE = FfiTensor, True, True
    f.from_numpy = f.from_torch = None
    import pymllm
    sys.modules["pymllm.mobile"], sys.modules["pymllm.mobile.ffi"] = m, f
    pymllm.mobile, m.ffi = m, f
    import pymllm.mobile.convertor.model_file_v2 as w
    import pymllm.mobile.quantize.quantize_pass as qp
    import pymllm.mobile.quantize.solver as solver
    assert os.path.realpath(w.__file__).startswith(os.path.realpath(native.REPO))

    class Split(qp.QuantizeBasePass):
        """Replaces x.weight by x.weight.lo and x.weight.hi (a quantisation whose result is known)."""
        def match(self, cfg, tensors, **k):
            return cfg["method"] == "split" and all(v is None or v.dim() > 0 for v in tensors.values())

        def prepare(self, cfg, tensors, **k):
            p = qp.QuantizePlanPayload()
            p.inputs_num, p.inputs_dict = len(tensors), tensors
            p.outputs_dict = {n: None for k in tensors for n in outputs(k)}
            p.outputs_num = len(p.outputs_dict)
            return p

        def run(self, cfg, tensors, **k):
            return {n: v for k, t in tensors.items() for n, v in zip(outputs(k), halves(t))}
    gc.freeze()
    _m.update(np=np, torch=torch, w=w, qp=qp, solver=solver, Split=Split)


def outputs(name):
    return [name + ".lo", name + ".hi"]


def halves(t):
    torch = _m["torch"]
    b = t.detach().clone(memory_format=torch.contiguous_format).view(torch.uint8)
    return [b & 15, (b >> 4).to(torch.int8)]


# writer-visible type, numpy type of the bytes, type in the file
T_TORCH = {"float32": ("<f4", 0), "float16": ("<f2", 1), "bfloat16": ("<u2", 128), "int8": ("i1", 16), "int16": ("<i2", 17), "int32": ("<i4", 18),
           "int64": ("<i8", 132), "uint8": ("u1", 129), "bool": ("?", 129), "uint16": ("<u2", 130)}
T_NP = {"<f4": 0, "<f2": 1, "i1": 16, "<i2": 17, "<i4": 18, "<i8": 132, "u1": 129, "?": 129, "<c8": 201, "<c16": 202}


def values(t, code):
    np = _m["np"]
    n = 1
    for d in t["shape"]:
        n *= d
    dt = np.dtype(code)
    raw = random.Random(t["seed"]).randbytes(n * dt.itemsize)
    if code == "?":
        raw = bytes(x & 1 for x in raw)
    return np.frombuffer(raw, dt).reshape(t["shape"]).copy()


def build(t):
    """The object handed to the writer and what a reader must get: (obj, dtype, shape, bytes)."""
    np, torch = _m["np"], _m["torch"]
    kind, ty, how = t["kind"], t["type"], t.get("how")
    if kind == "mllm":
        data = random.Random(t["seed"]).randbytes(t["bytes"])
        return FfiTensor(t["shape"], ty, data), ty, t["shape"], data
    if kind == "odd":
        o = {"list": [1, 2, 3], "np-scalar": np.float32(3), "none": None, "uint64": np.zeros(3, np.uint64), "str": "x",
             "double": torch.zeros(2, dtype=torch.float64)}[ty]
        return o, None, None, None
    if kind == "numpy":
        v = values(t, ty)
        data = v.tobytes()
        if how == "big":
            v = v.astype(v.dtype.newbyteorder(">"))
        elif how == "fortran" and v.ndim:
            v = np.asfortranarray(v)
        elif how == "step" and v.ndim:
            v = np.repeat(v, 2, axis=v.ndim - 1)[..., ::2]
        return v, T_NP[ty], t["shape"], data
    code, ft = T_TORCH[ty]
    v = values(t, code)
    data = v.tobytes()
    dt = getattr(torch, ty)
    x = torch.frombuffer(bytearray(data), dtype=dt).reshape(t["shape"]) if data else torch.zeros(t["shape"], dtype=dt)
    if how == "fortran" and x.dim() > 1:
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    elif how == "step" and x.dim() and ty != "uint16":
        x = torch.repeat_interleave(x, 2, dim=x.dim() - 1)[..., ::2]
    elif how == "param" and ty in ("float32", "float16", "bfloat16"):
        x = torch.nn.Parameter(x)
    elif how == "offset" and data:
        x = torch.frombuffer(bytearray(b"\x77" * 16 + data), dtype=dt)[16 // x.element_size():].reshape(t["shape"])
    return x, ft, t["shape"], data


def write(plan, path, disk):
    """Run the writer. Returns (finished, expected, error)."""
    W, torch = _m["w"], _m["torch"]
    expected, objs = {}, {}
    for t in plan["tensors"]:
        o, ft, sh, data = build(t)
        objs[t["name"]] = o
        expected[t["name"]] = (ft, sh, data)
    mode = plan["mode"]
    if mode == "solver":
        cfg = None
        if plan["groups"]:
            cfg = {g["re"]: {"hints": {"method": g["method"], "replace": bool(g["replace"])}} for g in plan["groups"]}
        s = _m["solver"].QuantizeSolver()
        if plan.get("register", 1):
            s.register_pass(_m["Split"]())
        import re
        new, done = {}, set()
        for g in plan["groups"]:
            layers = {}
            for n in objs:
                if re.fullmatch(g["re"], n):
                    layers.setdefault(n.rsplit(".", 1)[0], []).append(n)
            for ns in layers.values():
                if g["method"] != "split" or not plan.get("register", 1) or any(objs[n].dim() == 0 for n in ns):
                    continue
                for n in ns:
                    for o, v in zip(outputs(n), halves(objs[n])):
                        new[o] = (129 if v.dtype == torch.uint8 else 16, list(v.shape), v.numpy().tobytes())
                    if g["replace"]:
                        done.add(n)
        for n, o in objs.items():
            if n in done:
                continue
            if plan["cast"]:
                y = o.detach().to(torch.float32)
                new[n] = (0, list(y.shape), y.contiguous().numpy().tobytes())
            else:
                new[n] = expected[n]
        expected = new
        n = s.stream_quantize_params_size(cfg, objs)
        w = W.ModelFileV2(path, plan["model"], "Streaming", max_params_descriptor_buffer_num=n)
        s.stream_quantize(cfg, objs, writer=w, cast_left_2_fp32=bool(plan["cast"]))
        return expected, w
    if mode == "static":
        w = W.ModelFileV2(path, plan["model"], "Static")
        w.static_write(objs)
    else:
        kw = {} if plan.get("max") is None else {"max_params_descriptor_buffer_num": plan["max"]}
        w = W.ModelFileV2(path, plan["model"], "Streaming", **kw)
        for i, (n, o) in enumerate(objs.items()):
            if plan.get("stop") == i:
                return None, w
            w.streaming_write(n, o)
    if plan.get("stop") is not None:
        return None, w
    w.finalize()
    return expected, w


def valid(plan):
    """Whether a file can hold what the writer is given."""
    for t in plan["tensors"]:
        n = t["name"].encode()
        if t["kind"] == "odd" or len(n) > 256 or b"\0" in n or len(t["shape"]) > 16:
            return False
    return not (plan["mode"] == "stream" and len(plan["tensors"]) > (1024 if plan.get("max") is None else plan["max"]))


def run(plan, ch):
    root = os.path.realpath(os.path.join(native._b["scratch"], "disk-%08d" % os.getpid()))
    os.makedirs(root, exist_ok=True)
    path = os.path.join(root, "model.mllm")
    disk = Disk(root, plan.get("faults") or {})
    vs, log = [], []
    expected, err, w = None, None, None
    real, real_io = builtins.open, io.open
    builtins.open = io.open = opener(disk, real)
    try:
        try:
            expected, w = write(plan, path, disk)
        except Killed:
            err = "killed"
        except Exception as e:
            err = e
            e.__traceback__ = None
        if err is None and expected is None:      # the user stopped half-way
            log.append("the conversion stops after %d tensors" % plan["stop"])
            if plan.get("kill"):
                disk.dead = True
        late = w is not None and getattr(w, "file_handler", None)
        if expected is not None:
            disk.dead = True      # the process ends right after the conversion: nothing buffered may be missing
        del w, late
        gc.collect()
    finally:
        builtins.open, io.open = real, real_io
    try:
        with real(path, "rb") as f:
            data = f.read()
    except OSError:
        data = b""
    for x in os.listdir(root):
        os.unlink(os.path.join(root, x))
    log += disk.log
    log.append("%d file operations, %d bytes; %s" % (disk.ops, len(data), "finished" if expected is not None else "not finished: %s" % (err,)))
    if isinstance(err, Exception) and not disk.hits and valid(plan):
        vs.append(("file-refused", "writing a model file fails without a fault: %s: %s" % (type(err).__name__, str(err)[:200])))
    tens = []
    if expected is not None:
        if any(v[0] is None for v in expected.values()):
            vs.append(("file-lost", "an object that is not a tensor was accepted"))
            expected = {k: v for k, v in expected.items() if v[0] is not None}
        tens = [{"name": k, "dtype": v[0], "shape": list(v[1]), "hex": v[2].hex()} for k, v in expected.items()]
    else:
        # what was to be written, should a file that was not finished be loadable after all
        for t in plan["tensors"]:
            o, ft, sh, b = build(t)
            if ft is not None:
                tens.append({"name": t["name"], "dtype": ft, "shape": list(sh), "hex": b.hex()})
    if expected is not None:
        name = data[8:520].rstrip(b"\0")
        if name != plan["model"].encode()[:512]:
            vs.append(("file-lost", "the file names the model %r instead of %r" % (name[:40], plan["model"][:40])))
    sub = {"work": "param", "version": 2, "how": 2, "file": data.hex(), "must": int(expected is not None), "tensors": tens, "readers": plan["readers"],
           "params": plan["params"], "io": plan.get("io", {})}
    r = native.run(sub, ch)
    if expected is None and plan["mode"] == "solver":
        r["violations"] = [v for v in r["violations"] if v[0] != "file-lost"]
    r["violations"] = vs + r["violations"]
    for k, v in disk.hits.items():
        r["faults"][k] = r["faults"].get(k, 0) + v
    p = r["probes"]
    p["finished" if expected is not None else "not finished"] = 1
    h = hashlib.blake2b(data + repr((disk.log, str(err))).encode(), digest_size=8).digest()
    r["hash"] = (int(r["hash"]) ^ int.from_bytes(h, "little")) & (1 << 64) - 1
    r["log"] = log + r["log"]
    r["steps"] += disk.ops
    return r


def gen(rng, tier):
    mode = rng.choice(["static", "stream", "stream", "solver"])
    k = rng.choice([0, 1, 1, 2, 3, 5, 8])
    tensors = []
    for i in range(k):
        if mode == "solver":
            name = rng.choice(["l%d.weight", "l%d.bias", "norm%d.weight"]) % i
        else:
            name = native.gen_name(rng, i, 2)
            if rng.random() < 0.01:
                name += "\0x"
        kind = "torch" if mode == "solver" else rng.choice(["torch", "torch", "numpy", "mllm"])
        if mode != "solver" and rng.random() < 0.015:
            kind = "odd"
        t = {"name": name, "kind": kind, "seed": rng.randrange(1 << 31)}
        if kind == "odd":
            t.update(type=rng.choice(["list", "np-scalar", "none", "uint64", "str", "double"]), shape=[])
        elif kind == "mllm":
            ft = rng.choice([0, 1, 2, 12, 16, 128, 129, 134, 147])
            sh = native.gen_shape(rng, ft)
            n = 1
            for d in sh:
                n *= d
            by, lanes = native.TYPES[ft]
            t.update(type=ft, shape=sh, bytes=n // lanes * by)
        else:
            sh = native.gen_shape(rng, 132)
            if rng.random() < 0.02:
                sh = [1] * 17
            t.update(type=rng.choice(sorted(T_TORCH if kind == "torch" else T_NP)), shape=sh,
                     how=rng.choice([None, None, "fortran", "step", "param", "offset"] if kind == "torch" else [None, None, "big", "fortran", "step"]))
        tensors.append(t)
    plan = {"work": "modelfile", "mode": mode, "tensors": tensors, "model": rng.choice(["m", "", "Qwen3-0.6B", "\u6a21" * 200]),
            "readers": [{"map": m, "par": 0} for m in rng.choice([[0, 1], [1, 0], [1], [0]])],
            "params": native.params(rng, gap=0, fair_after=300000, limit=8000000)}
    if mode == "solver":
        groups, seen = [], set()
        for _ in range(rng.choice([0, 0, 1, 2])):
            g = {"re": rng.choice([r"l\d+\.weight", r"l\d+\..*", r"norm\d+\.weight", r"l[0-3]\.weight"]), "method": rng.choice(["split", "split", "other"]),
                 "replace": int(rng.random() < 0.7)}
            fam = g["re"][0]
            if fam not in seen:
                seen.add(fam)
                groups.append(g)
        plan.update(groups=groups, cast=int(rng.random() < 0.4), register=int(rng.random() < 0.9))
    if mode == "stream":
        plan["max"] = rng.choice([k, k, k + 1, k + 7, 1024 if rng.random() < 0.05 else 20, max(0, k - 1) if rng.random() < 0.2 else k])
    if mode != "solver" and rng.random() < 0.15:
        plan["stop"] = rng.randint(0, k)
        plan["kill"] = int(rng.random() < 0.5)
    if rng.random() < 0.5:
        f = {}
        r = rng.random()
        if r < 0.5:
            f["crash"] = [rng.randint(1, 2 * k + 4), rng.choice([0, 0, 1, 4, 8, 520, 523, 524, 527, 531, 4096, rng.randint(0, 600)])]
        elif r < 0.7:
            f["cap"] = rng.choice([0, 100, 531, 532, 532 + 352 * k, 532 + 352 * k + rng.randint(1, 600), rng.randint(0, 6000)])
        elif r < 0.8:
            f["eio"] = rng.randint(1, 2 * k + 4)
        if rng.random() < 0.5:
            f["short"] = [[rng.randint(1, 2 * k + 4), rng.choice([1, 2, 100, 500, 531])] for _ in range(rng.choice([1, 3]))]
        plan["faults"] = f
    if rng.random() < 0.15:
        plan["io"] = {rng.choice(["p_short", "p_eintr", "p_eio", "p_open", "p_mmap"]): rng.choice([0.02, 0.2])}
    return plan
