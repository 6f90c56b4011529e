"""A tiny single-process rig: the real scheduler, model-runner process, prefix
cache and pools, with a stand-in network that reads token histories back
through the page table."""
import os
import sys
import types
import zlib

sys.path.insert(0, os.getcwd())
import torch  # noqa: E402
from pymllm.engine.io_struct import TokenizedGenerateReqInput  # noqa: E402
from pymllm.mem_cache.memory_pool import GDNPool, ReqToTokenPool, TokenToKVPoolAllocator  # noqa: E402
from pymllm.orchestrator.model_runner_process import ModelRunnerProcess  # noqa: E402
from pymllm.orchestrator.scheduler_process import SchedulerProcess  # noqa: E402

VOCAB = 50


def nxt(tokens):
    """Reference next token (never 0 or 1)."""
    return 2 + zlib.crc32(repr(list(tokens)).encode()) % (VOCAB - 2)


class Runner:
    def __init__(self, size, ctx, slots, hybrid=0, window=None):
        self.device = "cpu"
        self.token_to_kv_pool_allocator = TokenToKVPoolAllocator(size, device="cpu", page_size=1) \
            if "page_size" in TokenToKVPoolAllocator.__init__.__code__.co_varnames else \
            TokenToKVPoolAllocator(size, device="cpu")
        self.req_to_token_pool = ReqToTokenPool(slots, ctx + 4, device="cpu")
        self.context_len = ctx
        self.vocab_size = VOCAB
        self.sliding_window_size = window
        self.num_gdn_layers = hybrid
        self.mem = {}
        self.gdn_pool = None
        self.histories = []

    def prepare_forward_batch_extend(self, **k):
        return types.SimpleNamespace(ext=True, **k)

    def prepare_forward_batch_decode(self, **k):
        return types.SimpleNamespace(ext=False, **k)

    def forward(self, fb):
        ids, loc = fb.input_ids.tolist(), fb.out_cache_loc.tolist()
        lens = fb.extend_seq_lens.tolist() if fb.ext else [1] * len(fb.seq_lens)
        off, out = 0, []
        for slot, L, n in zip(fb.req_pool_indices.tolist(), fb.seq_lens.tolist(), lens):
            for k in range(n):
                self.mem[loc[off + k]] = (ids[off + k], L - n + k)
            off += n
        for slot, L in zip(fb.req_pool_indices.tolist(), fb.seq_lens.tolist()):
            row = self.req_to_token_pool.req_to_token[slot, :L].tolist()
            hist = [self.mem.get(s, (-1, -1)) for s in row]
            if [p for _, p in hist] != list(range(L)):
                out.append(1)      # a clobbered cache row
            else:
                out.append(nxt([t for t, _ in hist]))
        self.histories.append(lens)
        return out

    def sample(self, logits, fb, **k):
        return torch.tensor(logits)


class Rig:
    def __init__(self, size=64, ctx=60, running=4, prefill=64, total=None, eos=(), **cfg):
        window = cfg.pop("window", None)
        sc = types.SimpleNamespace(disable_radix_cache=False, decode_log_interval=0, **cfg)
        self.s = s = SchedulerProcess("a", "b", server_config=sc, max_running_requests=running,
                                      max_prefill_tokens=prefill, max_total_tokens=total or size,
                                      eos_token_ids=list(eos), default_max_new_tokens=8)
        self.m = m = ModelRunnerProcess(0, sc, None)
        m._runner = self.r = Runner(size, ctx, running, window=window)
        m._radix_cache = m._create_prefix_cache()
        s._model_runner = m
        self.sent = []
        s._send_to_detokenizer = types.SimpleNamespace(send_pyobj=self.sent.append)

    def add(self, rid, ids, stream=False, **sp):
        self.s._waiting_queue.append(TokenizedGenerateReqInput(
            rid=rid, input_text="", input_ids=list(ids), mm_inputs=None, sampling_params=sp, stream=stream))

    def step(self):
        s = self.s
        s.process_input_requests()
        b = s.get_next_batch_to_run()
        if b is not None:
            s.process_batch_result(b, s.run_batch(b))
        s.stream_output()
        return b

    def run(self, n=200):
        for _ in range(n):
            if self.step() is None:
                return
        raise AssertionError("never idle")

    def result(self, rid):
        o = [x for x in self.sent if x["rids"] == [rid] and x["finished_reasons"][0] is not None]
        assert len(o) == 1, (rid, o)
        return o[0]

    def expect(self, ids, n, stop=()):
        h, out = list(ids), []
        while len(out) < n:
            t = nxt(h)
            out.append(t)
            h.append(t)
            if t in stop:
                break
        return out

    def idle_ok(self):
        a, c = self.r.token_to_kv_pool_allocator, self.m._radix_cache
        assert c.protected_size() == 0, ("protected", c.protected_size())
        assert a.available_size() + c.evictable_size() == a.size, (a.available_size(), c.evictable_size(), a.size)
        assert c.total_size() == c.evictable_size(), (c.total_size(), c.evictable_size())
        assert self.s._used_tokens == 0, self.s._used_tokens
