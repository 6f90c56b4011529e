"""Workload and fault generators per property, and plan dispatch."""
import json

from . import caches, death, http, modelfile, native, parsing, world, pooled, shared

TAGS = world.TAGS

REAL_WORLD = ["Engine", "RequestResponseProcess", "TokenizerProcess", "SchedulerProcess", "ModelRunnerProcess",
              "DetokenizerProcess", "ModelRunner", "Sampler", "RadixCache/MambaRadixCache/ChunkCache",
              "ReqToTokenPool/TokenToKVPoolAllocator/KVPool/GDNPool", "shared_memory_queue", "pyzmq asyncio layer"]
STUB_WORLD = ["ZeroMQ core (message passing)", "processes, pipes, queues, shared memory (simulated)",
              "event-loop selector, clocks, threads (simulated)", "HuggingFace tokenizer/config (byte-level stand-in)",
              "neural network (history-hash model that reads and writes the real KV pool through the real page table)"]
ASSUME_WORLD = ["Threads of one simulated process interleave at blocking operations, queue/lock operations and message "
                "hand-over, not between arbitrary byte codes",
                "Messages on one connection keep their order and are not lost (ZeroMQ PUSH/PULL over IPC); delays are arbitrary",
                "The model stand-in depends on every token of the history, so a wrong slot, position or state changes its output"]


# ------------------------------------------------------------------ pieces
def pick_ids(rng, fam, lo=1, hi=40):
    """Prompts drawn from a small family tree, so that prefixes are shared."""
    n = rng.randint(lo, hi)
    r = rng.random()
    if fam and r < 0.75:
        base = list(rng.choice(fam))
        cut = rng.choice([len(base), len(base), rng.randint(1, len(base)), max(1, len(base) - 1)])
        ids = base[:cut]
        if rng.random() < 0.6:
            ids = ids + [4 + rng.randrange(5) for _ in range(rng.randint(0, max(0, hi - len(ids)) // 2 + 1))]
    else:
        ids = [4 + rng.randrange(5 if rng.random() < 0.5 else 80) for _ in range(n)]
    ids = ids[:hi] or [5]
    while len(ids) < lo:
        ids.append(4 + rng.randrange(5))
    fam.append(ids)
    return ids


WORDS = ["héllo", "world", "日本", "the", " a", "x", "😀", "ok.", "ß", "foo bar", "\n", "12"]


def pick_text(rng, texts):
    if texts and rng.random() < 0.5:
        t = rng.choice(texts)
        if rng.random() < 0.5:
            t = t + rng.choice(WORDS)
    else:
        t = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))
    texts.append(t)
    return t


def pick_images(rng):
    return [{"n": rng.randint(1, 4), "v": rng.randrange(3)} for _ in range(rng.choice([1, 1, 2]))]


def pick_sp(rng, greedy=0.9, mx=14, stops=0.3, penalties=0.1):
    sp = {}
    if rng.random() < greedy:
        sp["temperature"] = 0.0
    else:
        sp["temperature"] = rng.choice([0.2, 0.7, 1.0, 1.5, 5.0, 20.0])
        if rng.random() < 0.6:
            sp["top_k"] = rng.choice([1, 2, 3, 5, 20, 30, 60, 97])
        if rng.random() < 0.6:
            sp["top_p"] = rng.choice([0.05, 0.3, 0.6, 0.9, 1.0])
    r = rng.random()
    sp["max_new_tokens"] = 1 if r < 0.1 else rng.randint(1, mx)
    if rng.random() < stops:
        sp["stop_token_ids"] = sorted(set(4 + rng.randrange(90) for _ in range(rng.choice([1, 3, 12]))))
    if rng.random() < penalties:
        if rng.random() < 0.5:
            sp["repetition_penalty"] = rng.choice([0.7, 1.1, 1.5, 2.0])
        if rng.random() < 0.5:
            sp["frequency_penalty"] = rng.choice([0.3, 1.0, 2.0, -0.5, -2.0])
        if rng.random() < 0.5:
            sp["presence_penalty"] = rng.choice([0.5, 1.5, -1.5])
    return sp


def pick_cfg(rng, tight=0.5, modes=("radix", "radix", "radix", "chunk"), shared=0.3):
    c = {"context_length": rng.choice([32, 48, 64, 96, 128]),
         "max_running_requests": rng.choice([1, 2, 2, 3, 4, 6]),
         "eos_p": rng.choice([5, 12, 30, 1000])}
    c["max_total_tokens"] = rng.choice([72, 96, 128]) if rng.random() < tight else rng.choice([192, 256, 512])
    c["context_length"] = min(c["context_length"], c["max_total_tokens"] - 8)
    if rng.random() < 0.4:
        c["max_prefill_tokens"] = max(c["context_length"], rng.choice([48, 64, 100]))
    if rng.random() < shared:
        c["enable_shared_queue"] = True
    m = rng.choice(modes)
    if m == "chunk":
        c["disable_radix_cache"] = True
    elif m == "page":
        c["radix_cache_page_size"] = rng.choice([2, 4])
    elif m == "swa":
        c["sliding_window"] = rng.choice([4, 8, 16])
    elif m == "hybrid":
        c["gdn"] = 2
        c["enable_mamba_cache"] = True
    elif m == "hybrid-chunk":
        c["gdn"] = 1
        c["disable_radix_cache"] = True
    elif m == "hybrid-radix":
        c["gdn"] = 2
    if rng.random() < 0.1:
        c["max_queued_requests"] = rng.choice([2, 4])
    return c


def pick_sim(rng, faults=True):
    s = {"p_delay": rng.choice([0.0, 0.1, 0.3, 0.7]), "switch_p": rng.choice([0.1, 0.5, 0.9]),
         "step_cost": rng.choice([1e-4, 1e-3, 1e-2])}
    s["delays"] = rng.choice([[1e-5, 1e-4, 1e-3], [1e-3, 1e-2, 0.1], [1e-4, 1e-2, 0.5], [0.05, 0.3, 2.0]])
    if faults and rng.random() < 0.4:
        s["stall_p"] = rng.choice([0.02, 0.1])
        s["stall_d"] = rng.choice([[0.01, 0.05], [0.1, 1.0]])
    if faults and rng.random() < 0.15:
        s["boot_p"] = 0.5
    return s


def max_prompt(cfg, sp):
    mx = cfg.get("max_prefill_tokens") or 8192
    cl = min(cfg["context_length"], cfg["max_total_tokens"])
    return max(1, min(mx, cl - sp["max_new_tokens"] - 2, 40))


BAD = [{"temperature": "hot"}, {"temperature": float("nan")}, {"temperature": float("inf")}, {"top_k": 2.5}, {"top_k": "3"},
       {"top_p": -0.5}, {"top_p": [0.5]}, {"max_new_tokens": "7"}, {"max_new_tokens": 2.5}, {"stop_token_ids": 5},
       {"stop_token_ids": ["a"]}, {"repetition_penalty": 0}, {"repetition_penalty": "x"}, {"frequency_penalty": float("nan")},
       {"presence_penalty": {}}, {"top_k": 2 ** 40}]


def make_bad(rng, op):
    """Turn a request into a malformed one."""
    op.pop("end", None)
    op["poison"] = True
    op["free"] = True
    r = rng.random()
    if r < 0.7 or op.get("text") is not None:
        op["sp"] = dict(op["sp"], **rng.choice(BAD))
        op["sp"].setdefault("temperature", rng.choice([0.0, 0.8]))
    else:
        op["ids"] = op["ids"][:-1] + [rng.choice([97, 5000, -1, 2 ** 40])]


def gen_ops(rng, cfg, n, abort=0.15, batch=0.12, stream=0.5, text=0.2, slow=0.1, greedy=0.9, span=None, mx=14,
            penalties=0.1, over=0.0, ends=("abort", "aclose", "cancel"), bad=0.0, dup=0.0, stops=0.3):
    bad = bad if rng.random() < 0.5 else 0.0
    dup = dup if rng.random() < 0.5 else 0.0
    fam, texts, ops = [], [], []
    span = span if span is not None else rng.choice([0.0, 0.01, 0.1, 1.0, 3.0])
    for i in range(n):
        sp = pick_sp(rng, greedy, mx, stops, penalties=penalties)
        op = {"op": "gen", "id": i, "t": round(rng.random() * span, 5), "stream": rng.random() < stream}
        hi = max_prompt(cfg, sp)
        use_text = rng.random() < text and cfg["context_length"] >= 48 and hi >= 30
        if rng.random() < batch:
            k = rng.choice([1, 2, 2, 3, 4])
            op["batch"] = k
            sps = [dict(pick_sp(rng, greedy, mx, stops, penalties=penalties)) for _ in range(k)]
            for s_ in sps:
                s_["max_new_tokens"] = min(s_["max_new_tokens"], sp["max_new_tokens"])
            op["sp"] = sps if rng.random() < 0.6 else sp
            if use_text:
                op["text"] = [pick_text(rng, texts)[:8] for _ in range(k)]
                if cfg.get("mm") and rng.random() < 0.6:
                    op["images"] = [pick_images(rng) for _ in range(k)]
            else:
                op["ids"] = [pick_ids(rng, fam, 1, hi) for _ in range(k)]
        else:
            op["sp"] = sp
            if use_text:
                op["text"] = pick_text(rng, texts)[:8]
                if cfg.get("mm") and rng.random() < 0.6:
                    op["images"] = pick_images(rng)
            else:
                op["ids"] = pick_ids(rng, fam, 1, hi)
        if over and rng.random() < over and not op.get("batch"):
            make_over(rng, cfg, op)
        if rng.random() < 0.1:
            op["sp_none"] = sorted(set(rng.choice(["top_k", "top_p", "stop_token_ids", "repetition_penalty", "stop"])
                                       for _ in range(2)))
        if bad and rng.random() < bad and not op.get("batch"):
            make_bad(rng, op)
            ops.append(op)
            continue
        if dup and ops and rng.random() < dup and not op.get("batch"):
            of = rng.choice(ops)
            if not of.get("batch") and not of.get("end") and of.get("op", "gen") == "gen":
                op.update(op="dup", rid="r%d" % of["id"], t=of["t"] + rng.choice([0.0, 1e-4, 1e-3, 0.01]))
                ops.append(op)
                continue
        if op["stream"] and rng.random() < slow:
            op["slow"] = rng.choice([0.005, 0.05, 0.3, 3.0])
        if rng.random() < abort:
            how = rng.choice(ends)
            e = {"how": how}
            if how == "aclose":
                op["stream"] = True
                e["chunks"] = rng.choice([1, 1, 2, 3])
            elif op["stream"] and rng.random() < 0.4:
                e["chunks"] = rng.choice([1, 2, 3])
            else:
                e["dt"] = rng.choice([0.0, 0.0, 1e-5, 1e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.5, 2.0]) * (0.5 + rng.random())
            if op.get("batch") and how == "abort" and rng.random() < 0.5:
                e["member"] = rng.randrange(op["batch"])
            op["end"] = e
        ops.append(op)
    return ops


def make_over(rng, cfg, op):
    """Turn a request into one that goes over a limit."""
    cl = cfg["context_length"]
    tot = cfg["max_total_tokens"]
    mxp = cfg.get("max_prefill_tokens") or 8192
    kind = rng.choice(["context", "context+1", "room", "total", "prefill", "huge-new"])
    op.pop("text", None)
    op.pop("images", None)
    if kind == "context":
        n = cl
    elif kind == "context+1":
        n = cl + rng.choice([1, 7])
    elif kind == "room":
        n = max(1, cl - rng.choice([1, 2, 3]))
        op["sp"] = dict(op["sp"], max_new_tokens=rng.choice([1, 5, 20]))
    elif kind == "total":
        n = tot + rng.choice([-1, 0, 1, 10])
    elif kind == "prefill":
        n = min(mxp + rng.choice([0, 1, 5]), 600)
    else:
        n = rng.randint(1, max(1, cl // 2))
        op["sp"] = dict(op["sp"], max_new_tokens=rng.choice([100, 1000, 32768]))
    if kind in ("context", "context+1", "room") and not cfg.get("mm") and rng.random() < 0.4:
        from .fake_hf import encode
        t = "".join(rng.choice("qzjxk") for _ in range(n))
        if len(encode(t)) == n:
            op["text"] = t
            op.pop("ids", None)
            return
    op["ids"] = [4 + rng.randrange(6) for _ in range(n)]


def world_ops(rng, cfg, tier, **kw):
    n = rng.choice([1, 3, 5, 8, 8, 12, 16] + ([30, 60] if tier == "thorough" else [24]))
    return gen_ops(rng, cfg, n, **kw)


def extra_faults(rng, ops, p=0.2):
    n = len(ops)
    if rng.random() < p:
        ops.append({"op": "stall", "id": 1000 + n, "t": round(rng.random() * 0.5, 4),
                    "role": rng.choice(["tokenizer", "scheduler", "detokenizer"]), "dur": rng.choice([0.05, 1.0, 8.0])})
    if rng.random() < p:
        ops.append({"op": "clock", "id": 1001 + n, "t": round(rng.random() * 0.5, 4),
                    "jump": rng.choice([-3600.0, -1.0, 1.0, 86400.0])})


def make(profile, **kw):
    modes = kw.pop("modes", ("radix", "radix", "radix", "chunk"))
    tight = kw.pop("tight", 0.5)
    shared = kw.pop("shared", 0.25)
    post = kw.pop("post", None)
    ff = kw.pop("faults", 0.2)
    mm = kw.pop("mm", 0.0)
    long = kw.pop("long", 0.0)
    sync = kw.pop("sync", 0.0)

    def gen(rng, tier):
        cfg = pick_cfg(rng, tight, modes, shared)
        kw2 = kw
        if long and rng.random() < long:
            # answers long enough to still be running long after something happened to them
            cfg.update(context_length=rng.choice([128, 200]), max_total_tokens=rng.choice([256, 512, 1024]),
                       eos_p=rng.choice([30, 1000, 1000]))
            cfg.pop("max_prefill_tokens", None)
            kw2 = dict(kw, mx=rng.choice([60, 120]), slow=rng.choice([0.1, 0.5]), stops=0.1)
        if mm and rng.random() < mm:
            cfg["mm"] = True
            cfg["context_length"] = min(max(cfg["context_length"], 64), cfg["max_total_tokens"] - 8)
            kw2 = dict(kw, text=0.8)
        plan = {"profile": profile, "kind": "world", "cfg": cfg, "sim": pick_sim(rng),
                "ops": world_ops(rng, cfg, tier, **kw2)}
        extra_faults(rng, plan["ops"], ff)
        if sync and rng.random() < sync:
            make_sync(rng, plan)
        if post:
            post(rng, plan, tier)
        model_defaults(rng, plan, 0.4 if profile == "P07" else 0.1)
        return plan
    return gen


def model_defaults(rng, plan, p):
    """Models differ in where they state their end tokens and answer length."""
    cfg = plan["cfg"]
    if rng.random() < p:
        cfg["eos_src"] = rng.choice(["top", "text", "generation", "tokenizer"])
        if rng.random() < 0.6:
            cfg["eos_extra"] = sorted(set(4 + rng.randrange(90) for _ in range(rng.choice([1, 2, 3]))))
        if rng.random() < 0.5:
            cfg["eos_int"] = True
        if rng.random() < 0.3:
            cfg["eos_none"] = []
    if rng.random() < p:
        cfg["default_max"] = rng.randint(1, 14)
        cfg["default_max_field"] = rng.choice(["max_new_tokens", "max_tokens", "max_completion_tokens"])
        for op in plan["ops"]:
            if op.get("op", "gen") in ("gen", "dup") and not op.get("poison") and isinstance(op.get("sp"), dict) \
                    and rng.random() < 0.4:
                if op["sp"].get("max_new_tokens", 0) in range(cfg["default_max"], 200):
                    op["sp"] = {k: v for k, v in op["sp"].items() if k != "max_new_tokens"}


def make_sync(rng, plan):
    """Callers of the synchronous interface instead of asyncio clients."""
    plan["sync"] = rng.choice([1, 1, 2, 3])
    plan["sim"]["p_line"] = rng.choice([0.0, 0.02, 0.1, 0.3])
    for op in plan["ops"]:
        if op.get("op") == "dup":
            op.pop("rid", None)
            op["op"] = "gen"
        op.pop("end", None)
        op.pop("slow", None)
        if op.get("op", "gen") == "gen":
            op["stream"] = False


P = {}


def prof(pid, **kw):
    kw.setdefault("real", REAL_WORLD)
    kw.setdefault("stub", STUB_WORLD)
    kw.setdefault("assume", ASSUME_WORLD)
    P[pid] = kw


prof("P01", gen=make("P01", modes=("radix", "radix", "radix", "chunk", "page", "swa"), abort=0.2, mm=0.2, over=0.05))
prof("P02", gen=make("P02", modes=("radix", "radix", "radix", "chunk", "page", "swa"), tight=0.8, abort=0.3, mm=0.1))
prof("P03", gen=make("P03", long=0.1, sync=0.12, batch=0.3, abort=0.15, tight=0.7, bad=0.1, dup=0.15))
prof("P04", gen=make("P04", stream=0.9, text=0.3, slow=0.3, abort=0.1, batch=0.2, long=0.25))
prof("P05", gen=make("P05", abort=0.6, batch=0.2, long=0.4))
prof("P06", gen=make("P06", over=0.3, tight=0.9, abort=0.15, bad=0.1))
prof("P07", gen=make("P07", abort=0.05, mx=20, over=0.1))
prof("P08", gen=make("P08", modes=("hybrid", "hybrid", "hybrid", "hybrid-radix", "hybrid-chunk"), shared=0.1, abort=0.2))

def adverse(rng, plan, tier):
    plan["sim"]["draw_p"] = rng.choice([0.0, 0.0, 0.3, 0.9])
    plan["sim"]["draws"] = rng.randrange(1 << 30)
    cfg = plan["cfg"]
    if rng.random() < 0.25:
        # many draws: whether they have the right probabilities
        plan["sim"]["draw_p"] = 0.0
        cfg.update(max_total_tokens=512, context_length=96, max_running_requests=rng.choice([2, 3, 4, 6]), eos_p=1000)
        if rng.random() < 0.5 and cfg["max_running_requests"] > 2:
            # a few greedy requests that run all along
            ones = sorted((o for o in plan["ops"] if o["op"] == "gen" and not o.get("batch")), key=lambda o: o["t"])
            first = rng.random() < 0.5
            for op in ones[:rng.choice([1, 2])] if first else rng.sample(ones, min(len(ones), rng.choice([1, 2, 4]))):
                op["sp"] = {"temperature": 0.0, "max_new_tokens": 40}
                if first:
                    op["t"] = 0.0
                op["ids"] = op.get("ids") or [5, 6]
                op.pop("text", None)
        fam = rng.choice([None, [{"top_k": 30}, {"top_k": 60}], [{"top_p": 0.6}, {"top_p": 0.9}], [{}]])
        for op in plan["ops"]:
            if op["op"] == "gen":
                for sp in op["sp"] if isinstance(op["sp"], list) else [op["sp"]]:
                    sp.pop("stop_token_ids", None)
                    if sp["temperature"] > 0.1:
                        sp["temperature"] = rng.choice([1.0, 2.0, 5.0, 20.0])
                        if rng.random() < 0.5:
                            sp.pop("top_p", None)
                            sp.pop("top_k", None)
                            if rng.random() < 0.4:
                                sp["top_k"] = rng.choice([8, 30, 60])
                        sp["max_new_tokens"] = rng.randint(10, 30)
                        if fam and rng.random() < 0.8:
                            # much alike, so that a small bias adds up
                            for k in ("top_k", "top_p", "repetition_penalty", "frequency_penalty", "presence_penalty"):
                                sp.pop(k, None)
                            sp["temperature"] = rng.choice([5.0, 20.0])
                            sp["max_new_tokens"] = 30
                            sp.update(rng.choice(fam))
        return
    if rng.random() < 0.2 and cfg["context_length"] >= 96:
        # long histories: penalties look at all of it
        for op in plan["ops"]:
            if op["op"] != "gen" or op.get("batch") or op.get("text") is not None or rng.random() < 0.5:
                continue
            hi = min(cfg["context_length"] - 12, cfg.get("max_prefill_tokens") or 8192)
            op["ids"] = [4 + rng.randrange(93) for _ in range(rng.randint(64, hi))] if hi > 64 else op["ids"]
            op["sp"] = dict(op["sp"], **rng.choice([{"repetition_penalty": 1.5}, {"repetition_penalty": 0.6}, {"frequency_penalty": 1.0},
                                                    {"presence_penalty": 2.5}, {"presence_penalty": -2.0}]))


prof("P16", gen=make("P16", modes=("radix", "radix", "chunk", "page"), greedy=0.35, penalties=0.45, abort=0.1, mx=14,
                     text=0.1, post=adverse))

CACHE_ASSUME = ["Clients use the cache as its documented contract asks (lock while in use, pass back the lock token, free duplicates)",
                "Recency is judged per page and leniently where an entry was used in part"]
prof("P09", gen=caches.gen(["radix", "radix", "swa"]), limit=20, real=["RadixCache", "RadixKey", "TokenToKVPoolAllocator"],
     stub=["clients (simulated request life cycles)", "clock", "window-part bookkeeping of the pool (free_swa)"], assume=CACHE_ASSUME)
prof("P10", gen=caches.gen(["mamba"]), limit=20, real=["MambaRadixCache", "LRUList", "RadixKey", "TokenToKVPoolAllocator"],
     stub=["clients (simulated request life cycles)", "clock", "recurrent-state slot list"], assume=CACHE_ASSUME)

prof("P13", gen=parsing.gen, limit=20, real=["ReasoningParser", "ToolCallParser"], stub=["text generation and stream delivery"],
     assume=["Surrounding white space of content and reasoning is not compared (the one-shot parser trims it)",
             "Tool-call arguments are compared as JSON values; a damaged or cut-off call only has to be read the same way for every cut"])

prof("P14", gen=http.gen, real=["FastAPI application and its middleware (starlette, fastapi)", "ReasoningParser", "ToolCallParser"] + REAL_WORLD,
     stub=["HTTP server and sockets (simulated ASGI connection)"] + STUB_WORLD)

prof("P12", gen=pooled.gen, limit=30, real=["MmItemMemoryPool and its recycler thread", "ShmSyncBuffer", "CudaIpcTensorTransportProxy", "TransportProxyTensor", "TensorQueue"],
     stub=["CUDA device: memory is host memory, each process has one in-order stream whose copies run late and in pieces", "CUDA IPC handles", "multiprocessing queue", "shared memory", "file lock"],
     assume=["A receiver that dies keeps its chunk (documented)", "Events exported with a CUDA IPC handle order the receiver's stream behind the sender's"])

prof("P11", gen=shared.gen(make))
prof("P15", gen=death.gen(make), real=["FastAPI application (health endpoints)"] + REAL_WORLD,
     assume=ASSUME_WORLD + ["A worker counts as started once it has sent its ready message; one that dies after that is a dead worker, not a failed start"])

NATIVE = "The run is sequentially consistent at the level of memory accesses; missing happens-before edges are reported as races instead of being executed as reorderings"
prof("N01", kind="cpp", gen=native.gen_pool, limit=40, quick=30, real=["HpcThreadPool"],
     stub=["threads (fibres of one process)", "mutexes, conditions, atomics' scheduling", "clock", "kernels (loop bodies that record what they run)"],
     assume=[NATIVE, "Loop bodies do not throw and steps are positive"])

prof("N03", kind="cpp", gen=native.gen_service, limit=40, quick=30, real=["Service", "RequestPool, ResponsePool, SessionPool", "NoneSession", "sendRequest/getResponse/startService/stopService/insertSession"],
     stub=["threads (fibres of one process)", "mutexes, conditions", "clock", "model sessions (scripted, may fail)"],
     assume=[NATIVE, "A request id is not reused before its answer is complete", "The service is started and stopped by one thread",
             "Sessions may be called by several workers at once"])

prof("N02", kind="cpp", gen=native.gen_buddy, limit=40, quick=30, real=["BuddyMemPool", "MemoryManager", "CPUAllocator"],
     stub=["threads (fibres of one process)", "mutexes", "system allocator (may fail)", "engine context"],
     assume=[NATIVE, "When the system allocator fails, ending the process with an error report is accepted",
             "Each storage is freed once and its size does not change while it holds memory"])

prof("N08", kind="cpp", gen=native.gen_async, limit=40, quick=30, real=["Context and its session blocks", "DispatcherManager, CPUDispatcher, IRTraceDispatcher, CpuMemoryDiskDispatcher", "async::fork, async::wait, async::io",
     "nn::Module, nn::Layer", "Tensor, TensorStorage, MemoryManager, BuddyMemPool", "ParameterFile"],
     stub=["threads (fibres of one process)", "mutexes, conditions", "clock", "stdexec (a small pool with the same contract; the library is not installed)", "operators' arithmetic (a test operator)"],
     assume=[NATIVE, "A future is waited for once", "A thread does not end while another still uses its session block", "Pool jobs may be taken in any order"])

prof("N09", kind="cpp", gen=native.gen_gen, limit=40, quick=30, real=["ARGeneration: generate, streamGenerate, chat and the samplers", "nn::functional", "Slice operator",
     "Context, DispatcherManager, CPUDispatcher", "Tensor, TensorStorage, MemoryManager, BuddyMemPool"],
     stub=["threads (fibres of one process)", "mutexes, conditions", "clock", "the operating system's random numbers", "softmax and scaling kernels (plain loops; the vector library is not installed)", "the model's forward (scores that are a function of the tokens before)"],
     assume=[NATIVE, "One model object is used by one thread at a time", "Batch of one, float32 scores", "A temperature of zero asks for the best token"])

prof("N10", kind="cpp", gen=native.gen_cache, limit=40, quick=30, real=["StaticCache, SubStaticCache, DynamicCache", "nn::KVCache and its operator", "Slice, Concat and Repeat operators", "nn::Module, nn::Layer",
     "Context, DispatcherManager, CPUDispatcher", "Tensor, TensorStorage, MemoryManager, BuddyMemPool"],
     stub=["threads (fibres of one process)", "mutexes, conditions", "clock", "the kernel that fills new buffers with zeros"],
     assume=[NATIVE, "One cache is used by one thread at a time", "Batch of one", "Each head's keys (values) handed over lie in one piece"])

PROFILES = P


# ------------------------------------------------------------------ dispatch
def run(plan, ch):
    kind = plan.get("kind", "world")
    if kind in WORLDS:
        r = world.run_plan(plan, ch, wall=25.0, cls=WORLDS[kind])
        return {"violations": r.violations, "reason": r.reason, "hash": r.hash, "steps": r.steps,
                "switches": r.switches, "sim_time": r.sim_time, "faults": r.faults, "probes": r.probes,
                "trace": r.trace, "log": r.log, "stats": r.stats, "errors": r.errors,
                "nontrivial": r.stats["forwards"] > 0 or bool(r.faults)}
    return KINDS[kind](plan, ch)


WORLDS = {"world": None, "http": http.HttpWorld, "shared": shared.SharedWorld, "death": death.DeathWorld}
KINDS = {"cache": caches.run, "parse": parsing.run, "pool": pooled.run, "cpp": native.run, "model": modelfile.run}


def brief(plan):
    s = json.dumps(plan)
    return json.loads(s) if len(s) < 4000 else s[:4000] + "..."


def shrink_plans(plan):
    """Smaller variants of a plan, boldest first."""
    ops = plan.get("ops") or []
    n = len(ops)
    size = (n + 1) // 2
    while size >= 1 and n > 1:
        for a in range(0, n, size):
            cand = ops[:a] + ops[a + size:]
            if cand:
                yield dict(plan, ops=cand)
        size //= 2
    for key in ("tensors", "damage", "readers"):
        l = plan.get(key) or []
        for a in range(len(l)):
            if len(l) > 1 or key == "damage":
                yield dict(plan, **{key: l[:a] + l[a + 1:]})
    for k in list(plan.get("faults") or {}) if isinstance(plan.get("faults"), dict) and plan.get("work") else ():
        yield dict(plan, faults={x: v for x, v in plan["faults"].items() if x != k})
    for k in ("crash", "layout"):
        if plan.get("work") and plan.get(k):
            yield {x: v for x, v in plan.items() if x != k}
    par = plan.get("params") or {}
    for k in ("p_spurious", "p_cas", "p_stall", "p_nomem", "gap"):
        if par.get(k):
            yield dict(plan, params=dict(par, **{k: 0}))
    for k, v in (plan.get("io") or {}).items():
        if v:
            yield dict(plan, io=dict(plan["io"], **{k: 0}))
    if isinstance(plan.get("threads"), int) and plan["threads"] > 2:
        yield dict(plan, threads=plan["threads"] - 1)
    sim = plan.get("sim") or {}
    for k in ("stall_p", "boot_p", "p_delay"):
        if sim.get(k):
            s2 = dict(sim)
            s2[k] = 0.0
            yield dict(plan, sim=s2)
    for i, op in enumerate(ops):
        for k in ("slow", "end", "t"):
            if op.get(k):
                o2 = dict(op)
                o2.pop(k)
                yield dict(plan, ops=ops[:i] + [o2] + ops[i + 1:])
        if isinstance(op.get("ids"), list) and op["ids"] and isinstance(op["ids"][0], int) and len(op["ids"]) > 2:
            o2 = dict(op, ids=op["ids"][:(len(op["ids"]) + 1) // 2])
            yield dict(plan, ops=ops[:i] + [o2] + ops[i + 1:])
prof("N04", kind="cpp", gen=native.gen_kv, limit=40, quick=30, real=["ZenFileSystem", "ZenFSBlobMMAPFile", "TLB", "PrefixCacheAllocator", "prefix_cache::Cache (allocation)", "MemoryManager"],
     stub=["Tensor members outside storage", "engine Context", "kernel file calls (forwarded to a scratch directory with injected faults)"],
     assume=["a crash ends the process; what it had written or mapped remains readable", "one thread uses a storage, as the code requires"])
prof("N05", kind="cpp", gen=native.gen_radix, limit=40, quick=30, real=["RadixTree", "prefix_cache::Cache", "nn::CpuPrefixCache", "ZenFileSystem and allocators below them", "MemoryManager"],
     stub=["Tensor members outside storage", "engine Context"],
     assume=["the tree is changed by one thread at a time; searches may run in parallel", "a user that lost the race to store a prefix gives its own addresses back, and nobody uses addresses that slid out of the window"])
prof("N06", kind="cpp", gen=native.gen_param, limit=40, quick=30, real=["ParameterFileIOImpl V1 and V2 (read mapped, read buffered, write)", "MappedFile", "MemoryManager", "TensorStorage", "DataTypes"],
     stub=["Tensor members outside storage", "engine Context", "kernel file calls (forwarded to a scratch directory with injected faults)"],
     assume=["no other process changes the file while it is read", "damaged data bytes of a file whose length and descriptors are right cannot be detected: the format has no checksums"])
prof("N07", kind="model", gen=modelfile.gen, limit=40, quick=30, real=["ModelFileV2 (static and streaming)", "QuantizeSolver", "ParameterFileIOImpl V2 (read mapped, read buffered)", "MappedFile"],
     stub=["mllm FFI tensors", "quantization pass (a known one)", "raw file operations of the writer (short, failing, or the last one of the process)", "Tensor members outside storage", "engine Context"],
     assume=["a crash ends the writing process; what it had written to the file remains (no power loss)", "parameter names are distinct"])
