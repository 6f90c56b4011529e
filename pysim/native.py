"""N01-N08: the native (C++) parts under the C++ simulator of cppsim/.

One run = one process of csim, a program built from the current tree in which every thread is a fibre, every memory
access and atomic operation a possible pre-emption point, and files, clocks, allocation and random numbers are decided
by the same seeded stream of choices.
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
_b = {}

PREFIX = ["engine/prefix_cache/" + x for x in ("Allocator", "Cache", "RadixTree", "ZenFS")]
PARAM = ["core/ParameterFile", "core/MappedFile", "engine/BuddyMemPool", "engine/MemoryManager", "backends/cpu/CPUAllocator",
         "core/TensorStorage", "core/TensorViewImpl", "core/DataTypes", "core/DeviceTypes", "utils/Log"]
ASYNC = ("engine/Context engine/Dispatcher engine/DispatcherManager engine/Task engine/io/Primitives engine/io/CpuMemoryDiskDispatcher "
         "engine/MemoryManager engine/BuddyMemPool backends/cpu/CPUAllocator backends/cpu/CPUDispatcher backends/base/Backend "
         "backends/base/PluginSystem backends/cpu/ops/GraphOps core/aops/GraphOps nn/Module nn/Layer nn/AbstractNnNode core/BaseOp "
         "core/Tensor core/TensorStorage core/TensorViewImpl core/DataTypes core/DeviceTypes core/ParameterFile core/MappedFile "
         "core/SlicePrimitives compile/ir/IRTraceDispatcher utils/Log mllm compile/ir/Node compile/ir/tensor/Value compile/ir/tensor/Op "
         "compile/ir/graph/Op compile/ir/builtin/Attribute compile/ir/builtin/Op compile/ir/builtin/Interface compile/ir/Trace "
         "compile/ir/linalg/Op compile/ir/linalg/Attribute compile/ir/dbg/Op compile/ir/cf/Op").split()
GEN = ("models/ARGeneration nn/lmcache/StaticCache nn/lmcache/DynamicCache nn/Functional backends/cpu/ops/SliceOp backends/cpu/ops/ConcatOp "
       "backends/cpu/ops/RepeatOp core/aops/SliceOp core/aops/ConcatOp core/aops/RepeatOp").split()
KV = "backends/cpu/ops/KVCacheOp core/aops/KVCacheOp nn/layers/KVCache".split()
BUILDS = {
    "N01": {"works": ["pool"], "srcs": ["engine/HpcThreadPool"]},
    "N02": {"works": ["buddy", "support"], "srcs": ["engine/BuddyMemPool", "engine/MemoryManager", "backends/cpu/CPUAllocator", "core/TensorStorage",
                                        "core/TensorViewImpl", "core/DataTypes", "core/DeviceTypes", "utils/Log"]},
    "N04": {"works": ["kv", "tensor", "support", "xxh"], "srcs": PREFIX + ["engine/prefix_cache/TLB", "engine/BuddyMemPool", "engine/MemoryManager",
            "backends/cpu/CPUAllocator", "core/TensorStorage", "core/TensorViewImpl", "core/DataTypes", "core/DeviceTypes", "utils/Log"]},
    "N05": {"works": ["radix", "tensor", "support", "xxh"], "srcs": PREFIX + ["nn/lmcache/PrefixCache", "engine/prefix_cache/TLB", "engine/BuddyMemPool",
            "engine/MemoryManager", "backends/cpu/CPUAllocator", "core/TensorStorage", "core/TensorViewImpl", "core/DataTypes", "core/DeviceTypes", "utils/Log"]},
    "N06": {"works": ["param", "tensor", "support", "xxh"], "srcs": PARAM},
    "N07": {"works": ["param", "tensor", "support", "xxh"], "srcs": PARAM},
    "N03": {"works": ["service"], "srcs": ["engine/service/Service", "engine/service/Session", "utils/Log"]},
    "N08": {"works": ["async", "xxh"], "srcs": ASYNC, "shim": "shim2", "optx": "-ffunction-sections -fdata-sections",
            "ldx": "-Wl,--gc-sections"},
    "N09": {"works": ["gen", "xxh"], "srcs": ASYNC + GEN, "shim": "shim2", "optx": "-ffunction-sections -fdata-sections",
            "ldx": "-Wl,--gc-sections"},
    "N10": {"works": ["cache", "xxh"], "srcs": ASYNC + [x for x in GEN if not x.startswith("models")] + KV, "shim": "shim2", "optx": "-ffunction-sections -fdata-sections",
            "ldx": "-Wl,--gc-sections"},
}


def boot(pid, scratch):
    if "dir" in _b:
        return
    given = os.environ.get("CSIM_DIR")
    if given and os.path.exists(os.path.join(given, "csim")):
        _b["dir"] = given
    else:
        out = os.path.join(scratch, "csim")
        b = BUILDS[pid]
        env = dict(os.environ, WORKS=" ".join(b["works"]), SRCS=" ".join(b["srcs"]), LIBS=b.get("libs", ""), REPO=REPO,
                   EXTRA=b.get("extra", ""), SHIM=b.get("shim", "shim"), OPTX=b.get("optx", ""), LDX=b.get("ldx", ""))
        p = subprocess.run([os.path.join(VERIF, "cppsim", "build.sh"), out], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(os.path.join(out, "csim")):
            sys.stdout.write(p.stdout.decode(errors="replace")[-4000:])
            raise SystemExit("building the simulated program failed")
        os.environ["CSIM_DIR"] = out
        _b["dir"] = out
    _b["scratch"] = scratch
    if pid == "N07":
        from . import modelfile
        modelfile.boot()


def symbolise(pcs):
    """Function names of the places in a report, innermost first."""
    exe = os.path.join(_b["dir"], "csim")
    p = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", exe] + ["0x%x" % max(0, x - 1) for x in pcs],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    l = p.stdout.decode(errors="replace").splitlines()
    out = []
    for i in range(0, len(l) - 1, 2):
        fn, at = l[i], l[i + 1]
        if fn.startswith(("std::", "__gnu_cxx::", "void std::", "??", "decltype", "main_tramp")):
            continue
        fn = re.sub(r"\(anonymous namespace\)::|mllm::|prefix_cache::|service::", "", fn)
        fn = re.sub(r"<.*>", "<>", fn)[:70]
        s = "%s (%s)" % (fn, re.sub(r" \(discriminator.*", "", at))
        if s not in out:
            out.append(s)
    return out[:5]


def spawn(plan, seed, trace, timeout=25):
    exe = os.path.join(_b["dir"], "csim")
    inp = json.dumps({"plan": plan, "seed": seed or 0, "trace": trace}).encode()
    wd = os.path.join(_b["scratch"], "run-%08d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    try:
        try:
            p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd=wd)
        except subprocess.TimeoutExpired:
            return None, "timeout"
        try:
            return json.loads(p.stdout), p.returncode
        except ValueError:
            return None, p.returncode
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def run(plan, ch):
    d, rc = spawn(plan, ch.seed, ch.trace)
    if d is None:
        return {"violations": [("sim-native", "csim ended with %s" % rc)], "reason": "sim", "hash": 0, "steps": 0, "switches": 0,
                "sim_time": 0.0, "faults": {}, "probes": {}, "trace": [], "log": [], "stats": {}, "errors": []}
    vs = []
    for cls, msg, pcs in d["violations"]:
        if pcs:
            at = symbolise(pcs)
            if at:
                msg += " at " + " < ".join(at)
        vs.append((cls, msg))
    return {"violations": vs, "reason": d["reason"], "hash": d["hash"], "steps": d["steps"], "switches": d["switches"],
            "sim_time": d["ns"] * 1e-9, "faults": d["faults"], "probes": d["probes"], "trace": d["trace"], "log": d["log"],
            "stats": {"threads": d["threads"]}, "errors": [], "nontrivial": d["steps"] > 50}


# ------------------------------------------------------------------ generators
def params(rng, **kw):
    p = {"gap": rng.choice([0, 8, 25, 60, 200]), "sync_gap": rng.choice([0, 1.5, 3, 6, 15, 40])}
    if rng.random() < 0.4:
        p["p_spurious"] = rng.choice([0.02, 0.2])
    if rng.random() < 0.3:
        p["p_cas"] = rng.choice([0.05, 0.3])
    if rng.random() < 0.4:
        p["p_stall"] = rng.choice([0.02, 0.1, 0.3])
    p.update(kw)
    return p


def gen_pool(rng, tier):
    n = rng.choice([0, 1, 2, 2, 3, 4, 5])
    ops = []
    for s in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.randint(1, 4)):
            step = rng.choice([1, 1, 1, 2, 3, 7])
            start = rng.choice([0, 0, 0, 3, -5])
            cnt = rng.choice([0, 1, 2, 3, n, n + 1, 2 * n, 2 * n + 1, rng.randint(1, 14)])
            ops.append({"s": s, "start": start, "end": start + cnt * step - (rng.randrange(step) if cnt else 0), "step": step,
                        "slot": rng.choice([0, 0, 0, 0, 1, 2]), "nested": int(rng.random() < 0.1),
                        "work": rng.choice([0, 0, 3, 20])})
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 6)):
            ops.append({"life": rng.choice([0, 1, 0, 1, 0, 1, 2, 3]), "pause": rng.choice([0, 0, 100, 2000])})
    return {"work": "pool", "threads": n, "active": rng.random() < 0.9, "destroy": rng.random() < 0.5, "ops": ops,
            "params": params(rng, fair_after=40000, limit=400000)}


BAD = ["", "{", "null", "5", "[1]", '"x"', '{"model": "m0"}', '{"id": 5, "model": "m0"}', '{"id": "", "model": "m0"}',
       '{"id": null}', '[{"id": "a"}]', "\u00ff\u00fe", '{"id": "q", ']


def gen_service(rng, tier):
    ops, n = [], 0
    nc = rng.choice([1, 2, 2, 3, 4])
    for c in range(nc):
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.12:
                ops.append({"kind": "bad", "c": c, "raw": rng.choice(BAD)})
            elif r < 0.2:
                ops.append({"kind": "session", "c": c, "model": "s%d" % rng.randrange(3)})
            else:
                o = {"kind": "ask", "c": c, "id": "r%d" % n, "model": rng.choice(["m0", "m0", "m1", "gone"]) if rng.random() < 0.5 else "m0",
                     "chunks": rng.choice([0, 1, 2, 3, 5]), "fail": rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5]),
                     "pause": rng.choice([0, 0, 0, 1, 20]), "mode": rng.choice([0, 0, 1]), "split": int(rng.random() < 0.15)}
                if o["chunks"] and rng.random() < 0.2:
                    o["empty"] = rng.randrange(o["chunks"])
                if rng.random() < 0.06:
                    o["nomodel"] = 1
                    o["fail"] = 0
                n += 1
                ops.append(o)
                if rng.random() < 0.2 and o["mode"] == 0:   # the same id again, after the first answer
                    ops.append(dict(o, chunks=rng.choice([1, 2])))
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2])):
            ops.append({"kind": "stop", "pause": rng.choice([0, 1, 10, 50, 300]), "mode": int(rng.random() < 0.5), "fail": int(rng.random() < 0.6)})
    return {"work": "service", "workers": rng.choice([1, 1, 2, 3]), "ops": ops,
            "params": params(rng, gap=rng.choice([0, 40, 200, 1000]), fair_after=200000, limit=3000000)}


def gen_async(rng, tier):
    ops, tag = [], 0
    nt = rng.choice([1, 2, 2, 3, 4])
    flavour = rng.choice(["mix", "mix", "mix", "session", "fork", "io"])
    kinds = {"mix": ["tcb", "attach", "trace", "clean", "uuid", "random", "op", "op", "module", "mtrace", "fork", "io"],
             "session": ["tcb", "tcb", "attach", "trace", "mtrace", "clean", "uuid", "random", "op", "op"],
             "fork": ["fork", "fork", "op", "module", "mtrace", "tcb"], "io": ["io", "io", "op", "uuid"]}[flavour]
    for t in range(nt):
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(kinds)
            o = {"kind": k, "t": t, "tag": tag, "n": 1, "len": rng.choice([1, 2, 4, 9])}
            if rng.random() < 0.2:
                o["pause"] = rng.choice([1, 100, 5000])
            if k in ("tcb", "uuid", "random"):
                o["n"] = rng.choice([1, 2, 4])
            elif k == "trace":
                o["how"] = int(rng.random() < 0.7)
            elif k == "op":
                o["how"] = rng.randrange(4)
                o["fail"] = rng.choice([0, 0, 1, 1000])
                o["version"] = rng.choice([1, 2])
            elif k == "mtrace":
                o["fail"] = rng.choice([0, 0, 0, 1, 2])
            elif k == "fork":
                o["n"] = rng.choice([1, 1, 2, 3])
                o["how"] = rng.randrange(4)
                o["fail"] = rng.choice([0, 0, 0, 1, 2])
            elif k == "io":
                o["n"] = rng.choice([1, 2, 3])
                o["how"] = rng.choice([0, 1, 2, rng.randrange(64)]) if o["n"] == 1 else rng.randrange(64)
                o["version"] = rng.choice([1, 2])
            tag += o["n"] if k in ("fork", "io") else 1
            ops.append(o)
            if k == "trace" and rng.random() < 0.7:
                ops.append({"kind": "op", "t": t, "tag": tag, "n": 1, "len": 3, "how": 1, "pause": rng.choice([0, 0, 100])})
                tag += 1
    lazy = rng.random() < 0.3
    if lazy:    # the dispatcher for traces is registered by the first trace
        ops = [o for o in ops if o["kind"] != "trace"]
    return {"work": "async", "ops": ops, "trace_dispatcher": int(not lazy), "seed0": rng.choice([0, 1, 42, rng.randrange(1 << 32)]),
            "params": params(rng, gap=rng.choice([0, 25, 60, 200, 1000]), fair_after=150000, limit=3000000)}


def gen_gen(rng, tier):
    ops = []
    fair = rng.random() < 0.35      # draws as they come: the distribution is judged
    for t in range(1 if fair else rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([1, 1, 2, 3])):
            vocab = rng.choice([1, 2, 3, 5, 8, 12])
            mode = rng.choice(["greedy", "plain", "plain", "topk", "topk", "topp", "topp"])
            o = {"t": t, "vocab": vocab, "eos": rng.choice([-1, vocab - 1, rng.randrange(vocab)]), "max": rng.choice([0, 1, 2, 3, 6, 15]),
                 "top_k": 0, "top_p": 0, "temp": rng.choice([1, 1, 0.5, 0.7, 2]), "sample": mode != "greedy" and rng.random() < 0.6,
                 "api": rng.randrange(3), "pause": rng.choice([0, 0, 1000, 100000]), "mask": int(rng.random() < 0.4),
                 "ties": int(rng.random() < 0.15), "peak": rng.choice([1, 3, 6, 12]), "seed": rng.randrange(1 << 40),
                 "prompt": [rng.randrange(vocab) for _ in range(rng.choice([1, 1, 2, 3, 6]))], "fails": [], "plain": int(rng.random() < 0.25)}
            if mode == "greedy":
                o["temp"] = rng.choice([1, 1, 0])
            elif mode == "plain":
                if o["temp"] == 1:
                    o["sample"] = True
            elif mode == "topk":
                o["top_k"] = rng.choice([1, 2, 3, 5, vocab, vocab, 20])
            else:
                o["top_p"] = rng.choice([0.1, 0.5, 0.8, 0.9, 0.99, 1])
            if o["temp"] == 0:
                o["sample"] = rng.random() < 0.5
            if fair:
                o.update(max=rng.choice([40, 120, 200]), vocab=max(3, vocab), eos=-1, ties=0, pause=0, peak=rng.choice([3, 6, 12]))
                o["prompt"] = [x % o["vocab"] for x in o["prompt"]]
            elif rng.random() < 0.2:
                o["fails"] = sorted(rng.sample(range(max(1, o["max"])), 1))
            ops.append(o)
    return {"work": "gen", "ops": ops, "adverse": 0 if fair else rng.choice([0.02, 0.2, 0.5, 1]),
            "params": params(rng, gap=rng.choice([0, 60, 200, 1000]), fair_after=1500000, limit=6000000)}


def gen_cache(rng, tier):
    caches, ops = [], []
    nt = rng.choice([1, 1, 2, 3])
    for t in range(nt):
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["eager", "eager", "fa2", "fa2", "dyn", "dynfa2", "op", "op"])
            kvh = rng.choice([1, 1, 2, 3])
            c = {"t": t, "kind": kind, "cap": rng.choice([1, 2, 4, 7, 16]), "layers": rng.choice([1, 2, 3]), "kvh": kvh,
                 "qh": kvh * rng.choice([1, 1, 2, 4]), "d": rng.choice([1, 2, 4]), "kd": "f32", "vd": "f32"}
            if kind in ("eager", "fa2"):
                c["kd"], c["vd"] = rng.choice(["f32", "f16", "i8"]), rng.choice(["f32", "f16", "i8"])
            elif kind == "op":
                c["bind"] = int(rng.random() < 0.6)
                if not c["bind"]:
                    c["cap"] = 1024
            elif rng.random() < 0.5:
                c["kd"] = c["vd"] = "f16"
            if kind == "dyn":
                c["qh"] = kvh * rng.choice([1, 2, 3])
            caches.append(c)
    fill = rng.random() < 0.5
    for _ in range(rng.choice([3, 8, 20, 40 if tier == "thorough" else 20])):
        i = rng.randrange(len(caches))
        c = caches[i]
        act = rng.choice(["append"] * 6 + ["get", "set", "clear"] + (["open", "open", "sub", "sub", "sub", "subclear"] if c["kind"] == "eager" else []))
        o = {"c": i, "act": act, "layer": rng.randrange(3), "n": rng.choice([1, 1, 1, 2, 3, 5])}
        if act in ("append", "sub"):
            o["view"], o["hold"] = int(rng.random() < 0.3), int(rng.random() < 0.4)
            if fill and not c["kind"].startswith("dyn") and rng.random() < 0.3:
                o["n"] = rng.choice([c["cap"], max(1, c["cap"] - 1), c["cap"] + 1, max(1, c["cap"] // 2)])
        elif act == "set":
            o["n"] = rng.choice([0, 1, 2, rng.randint(0, c["cap"])])
        elif act == "open":
            o["start"], o["n"] = rng.choice([0, 0, rng.randrange(16)]), rng.randrange(5)
        ops.append(o)
    return {"work": "cache", "caches": caches, "ops": ops, "params": params(rng, gap=rng.choice([0, 60, 200, 1000]), fair_after=1500000, limit=6000000)}


def gen_buddy(rng, tier):
    mo = rng.choice([4, 5, 6, 8, 10])
    xo = mo + rng.choice([1, 2, 3, 4, 6])
    cap = 1 << xo
    if rng.random() < 0.1:
        cap = cap // 2 + (1 << mo) * rng.randint(1, max(1, (cap // 2 >> mo) - 1))
        xo = (cap - 1).bit_length()
    direct = rng.random() < 0.6
    small = rng.random() < 0.5
    n = rng.choice([1, 1, 2, 3, 4])
    sizes = [1, (1 << mo) - 1, 1 << mo, (1 << mo) + 1, 3 << mo, (1 << xo) // 2, (1 << xo) // 2 + 1, 1 << xo] + [rng.randint(1, 1 << xo) for _ in range(3)]
    if rng.random() < 0.3:
        sizes += [(1 << xo) + 1, 2 << xo]
    if rng.random() < 0.04:
        sizes += [3 << 29]
    al = 16
    cached = [(x + al - 1) & ~(al - 1) for x in rng.sample(sizes[:7], rng.randint(1, 4))]
    lists = [[(x + al - 1) & ~(al - 1) for x in rng.sample(sizes[:7], rng.randint(0, 4))] for _ in range(3)]
    ops, k = [], 0
    for _ in range(rng.choice([4, 12, 30, 60])):
        r = rng.random()
        t = rng.randrange(n)
        if r < 0.5:
            ops.append({"t": t, "k": 0, "slot": k, "size": rng.choice(sizes) if rng.random() < 0.9 else 0})
            k += 1
        elif r < 0.8:
            ops.append({"t": t, "k": 1, "slot": rng.randint(0, max(k, 1))})
        elif r < 0.88:
            ops.append({"t": t, "k": 2, "slot": rng.randint(0, max(k, 1))})
        elif r < 0.96:
            ops.append({"t": t, "k": 3, "slot": rng.randint(0, max(k, 1)), "c": rng.randrange(n)})
        elif small:
            ops.append({"t": t, "k": 4, "c": rng.randrange(3)})
    p = params(rng, fair_after=200000, limit=3000000)
    if rng.random() < 0.25:
        p["p_nomem"] = rng.choice([0.1, 0.3, 1.0])
        p["nomem_min"] = max(cap, 4096)
    return {"work": "buddy", "threads": n, "direct": direct, "small": small, "cap": cap, "min_order": mo, "max_order": xo,
            "threshold": rng.choice([1 << 40, 1 << 40, 1 << xo, (1 << xo) // 2 + 1]), "cached": cached if small else [], "lists": lists,
            "ops": ops, "params": p}


def gen_kv(rng, tier):
    record = int(rng.random() < 0.6)
    via = 0 if record or rng.random() < 0.4 else rng.choice([1, 2])
    pb, lb = rng.choice([(0, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2), (0, 3), (2, 2), (3, 2), (0, 6), (3, 3), (2, 5), (6, 1)])
    lanes = 1 << (pb + lb)
    dt = rng.choice([0, 0, 1, 1, 2])    # fp32, fp16, q4_0 (blocks of 32)
    ele = rng.choice([1, 3, 8, 16]) if lanes > 8 or rng.random() < 0.6 else rng.choice([512, 1024, 2048])
    if dt == 2:
        ele = 32 * rng.choice([1, 3])
    n = rng.choice([4, 15, 40, 80])
    if lanes >= 64:
        n = rng.choice([lanes + 10, lanes + 40])
    ops = []
    pa = rng.choice([0.4, 0.5, 0.6, 0.75])
    for _ in range(n):
        r = rng.random()
        if r < pa:
            ops.append({"k": 0})
        elif r < 0.86:
            ops.append({"k": rng.choice([1, 1, 1, 1, 2, 5, 5]), "n": rng.randrange(1 << 16)})
        elif r < 0.95:
            ops.append({"k": rng.choice([3, 4, 4]), "n": rng.randrange(1 << 16)})
        elif record and r < 0.985:
            ops.append({"k": rng.choice([6, 6, 7])})
        elif record:
            ops.append({"k": 8})
    plan = {"work": "kv", "page_bits": pb, "lane_bits": lb, "ele": ele, "dtype": dt, "mmap": int(rng.random() < 0.6), "record": record,
            "via": via, "ops": ops, "params": params(rng, gap=0, fair_after=10 ** 9, limit=8000000)}
    if record and rng.random() < 0.4:
        plan["crash"] = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    if rng.random() < 0.4:
        io = {}
        for k in rng.sample(["p_short", "p_eintr", "p_enospc", "p_open", "p_mmap", "p_trunc"], rng.randint(1, 3)):
            io[k] = rng.choice([0.02, 0.1, 0.3])
        plan["io"] = io
    return plan


def gen_radix(rng, tier):
    mode = rng.choice([0, 0, 0, 1, 2, 3, 3])
    layers = rng.choice([1, 1, 2, 3, 5])
    alpha = rng.choice([2, 2, 3, 5]) if rng.random() < 0.9 else 0
    big = [0, -1, 1 << 40, -(1 << 62), 7, 8]
    tok = (lambda: rng.randrange(alpha)) if alpha else (lambda: rng.choice(big))
    nss = rng.choice([[0], [0], [0, 1], [0, 1, -5], [3, 1 << 33]])
    seqs = []

    def seq():
        r = rng.random()
        if not seqs or r < 0.2:
            s = [tok() for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 9, 14]))]
        else:
            b = rng.choice(seqs)
            if r < 0.4:
                s = b[:rng.randint(1, len(b))]
            elif r < 0.6:
                s = b + [tok() for _ in range(rng.choice([1, 2, 5]))]
            elif r < 0.92:
                s = b[:rng.randint(0, len(b))] + [tok() for _ in range(rng.choice([1, 2, 4]))]
            else:
                s = list(b)
        s = s[:24]
        seqs.append(s)
        if len(seqs) > 12:
            seqs.pop(rng.randrange(len(seqs)))
        return s
    ops = []
    nu = rng.choice([1, 1, 2, 3])
    for _ in range(rng.choice([3, 8, 20, 45])):
        r = rng.random()
        u, ns = rng.randrange(nu), rng.choice(nss)
        if r < 0.34:
            ops.append({"k": 0, "u": u, "ns": ns, "ids": seq()})
            if rng.random() < 0.5:
                ops.append({"k": 1, "u": u})
        elif r < 0.56:
            ops.append({"k": 1, "u": u})
        elif r < 0.62:
            ops.append({"k": 5, "u": u, "ids": [tok() for _ in range(rng.choice([1, 2, 4]))]})
        elif r < 0.66:
            ops.append({"k": 4, "u": u})
        elif r < 0.8:
            ops.append({"k": 3, "ns": ns, "ids": seq() if rng.random() < 0.97 else []})
        elif r < 0.86:
            for _ in range(rng.choice([2, 3])):
                ops.append({"k": 2, "ns": rng.choice(nss), "ids": seq()})
        elif r < 0.95:
            ops.append({"k": 6, "ns": ns, "ids": seq() if rng.random() < 0.5 else max(seqs, key=len) if seqs else seq()} if mode == 3 else
                       {"k": 3, "ns": ns, "ids": seq()})
        elif r < 0.96:
            ops.append({"k": 7})
        else:
            ops.append({"k": 8})
    plan = {"work": "radix", "mode": mode, "layers": layers, "ops": ops,
            "params": params(rng, gap=rng.choice([0, 40, 300]), fair_after=200000, limit=8000000)}
    if mode == 3:
        plan["window"] = rng.choice([1, 2, 3, 4, 4, 6, 8])
        plan["sliding"] = [int(rng.random() < 0.6) for _ in range(layers)]
        if not any(plan["sliding"]):
            plan["sliding"][0] = 1
    return plan


# bytes and elements per block of the parameter types the harness knows
TYPES = {0: (4, 1), 1: (2, 1), 2: (18, 32), 8: (34, 32), 12: (144, 256), 14: (210, 256), 16: (1, 1), 17: (2, 1), 18: (4, 1), 128: (2, 1),
         129: (1, 1), 130: (2, 1), 131: (4, 1), 132: (8, 1), 133: (8, 1), 134: (1, 1), 136: (1, 1), 141: (1, 1), 147: (2, 1), 156: (1, 1)}


def gen_name(rng, i, version):
    r = rng.random()
    if r < 0.6:
        return rng.choice(["w%d", "model.layers.%d.self_attn.q_proj.weight", "lm_head.%d", "%d"]) % i
    if r < 0.7:
        return "\u6743\u91cd-%d" % i
    if r < 0.75 and i == 0:
        return ""
    n = rng.choice([7, 60, 200, 254, 255, 256] + ([257, 300, 600] if rng.random() < 0.15 else []) + ([1000] if version == 1 else []))
    return ("n%d." % i + "abcdefghij" * 100)[:n]


def gen_shape(rng, dt):
    by, lanes = TYPES[dt]
    rank = rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 5, 8, 16]) if rng.random() < 0.9 else rng.choice([16, 0])
    dims, left = [], 700 // by if lanes == 1 else 3
    if rng.random() < 0.02 and lanes == 1:
        left = 40000 // by
    for _ in range(rank):
        d = rng.choice([1, 1, 2, 3, 5, 8, 17, 64, 200])
        d = max(1, min(d, left))
        left //= d
        dims.append(d)
    rng.shuffle(dims)
    if lanes > 1:
        dims = dims[:15] + [lanes * rng.randint(1, 2)]
    elif rng.random() < 0.04 and dims:
        dims[rng.randrange(len(dims))] = 0
    return dims


def le(v, n):
    return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))


def gen_param(rng, tier):
    version = rng.choice([1, 2, 2])
    how = 0 if rng.random() < 0.5 else 1
    k = rng.choice([0, 1, 1, 2, 3, 4, 6, 10])
    used, tensors = set(), []
    for i in range(k):
        dt = rng.choice([0, 0, 1, 128] + sorted(TYPES))
        name = gen_name(rng, i, version)
        if how == 1 and version == 2:
            name = name.encode()[:256].decode(errors="ignore")
        if name in used:
            continue
        used.add(name)
        shape = gen_shape(rng, dt)
        if version == 1 and how == 1:
            n = 1
            for d in shape:
                n *= d
            shape = [n]
        tensors.append({"name": name, "dtype": dt, "shape": shape, "seed": rng.randrange(1 << 31)})
    if False:
        tensors[0]["shape"] = [1] * 17
    layout = {}
    if how == 1:
        layout = {"reverse": int(rng.random() < 0.3), "gap": rng.choice([0, 0, 0, 1, 13, 4096]), "extra": rng.choice([0, 0, 0, 4, 100]) if version == 2 else 0}
    elif rng.random() < 0.3:
        layout = {"named": rng.choice([1, 2])}

    # where things are in the file
    fields, head = [], 0
    sizes = []
    for t in tensors:
        n = 1
        for d in t["shape"]:
            n *= d
        by, lanes = TYPES[t["dtype"]]
        sizes.append(n // lanes * by)
    if version == 1:
        fields += [(0, 4), (4, 8), (4, 8)]
        at = 12
        for t in tensors:
            nl = len(t["name"].encode())
            if how == 1:
                fields += [(at, 4), (at + 4 + nl, 8), (at + 12 + nl, 8), (at + 20 + nl, 4)]
            at += 24 + nl
        head = at
    else:
        fields += [(0, 4), (4, 4), (520, 4), (524, 8), (524, 8)]
        at = 532 + layout.get("extra", 0)
        for t in tensors:
            fields += [(at, 4), (at + 4, 4), (at + 8, 8), (at + 16, 8), (at + 24, 8), (at + 32, 4), (at + 36, 4), (at + 96, 8), (at + 344, 8)]
            at += 352
        head = at
    total = head + sum(sizes) + layout.get("gap", 0) * len(tensors)
    damage = []
    if rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.25:
                c = rng.choice([0, 1, 4, 11, 12, 531, 532, head - 1, head, head + 1, total - 1, total - rng.randint(1, 50), rng.randint(0, total), rng.randint(0, head)])
                damage.append({"k": "cut", "at": max(0, c)})
            elif r < 0.3:
                damage.append({"k": "grow", "at": rng.choice([1, 100, 5000])})
            elif r < 0.38:
                damage.append({"k": "zero", "at": rng.choice([0, 12, 532, head, rng.randint(0, total)])})
            elif r < 0.5:
                damage.append({"k": "flip", "at": rng.randint(0, max(0, (head if rng.random() < 0.8 else total) - 1)), "v": 1 << rng.randrange(8)})
            else:
                o, n = rng.choice(fields)
                v = rng.choice([0, 1, 2, 3, 16, 17, 31, 200, 202, 255, 256, -1, -2, -8, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, (1 << 63) - 1,
                                total, total - 1, total + 1, head, head + 1, head - 1, total - 4, 0x2AAAAAAB, (1 << 64) // 352 + 1, 532, 531,
                                (1 << 64) - total, (1 << 64) - rng.randint(1, 600)] + sizes + [s + 1 for s in sizes] + [9, 21, 138, 139, 128, 157, 31, 127])
                damage.append({"k": "set", "at": o, "v": le(v, n)})
    readers = [{"map": int(rng.random() < 0.5), "par": int(rng.random() < 0.4)} for _ in range(rng.choice([1, 2, 2, 3]))]
    plan = {"work": "param", "version": version, "how": how, "tensors": tensors, "layout": layout, "damage": damage, "readers": readers,
            "params": params(rng, gap=rng.choice([0, 60, 600]), fair_after=300000, limit=8000000)}
    if how == 0 and rng.random() < 0.3:
        plan["crash"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    if rng.random() < 0.4:
        io = {}
        for x in rng.sample(["p_short", "p_eintr", "p_enospc", "p_open", "p_mmap", "p_eio", "p_stat"], rng.randint(1, 3)):
            io[x] = rng.choice([0.02, 0.1, 0.3])
        plan["io"] = io
    return plan
