"""P14: simulated HTTP clients of the real ASGI application on top of the whole
simulated serving pipeline.
"""
import asyncio
import json

from . import world
from .fake_hf import decode, encode, EOS
from .oracles import fits, lag_bound
from .parsing import ref_reason, ref_calls, as_value
from .world import World, Rec, context_room

_srv = {}


def boot():
    """Import the server module (parent process)."""
    if _srv:
        return
    import pymllm.server.launch as srv
    from . import fakes
    fakes.after_import()
    _srv["m"] = srv


class HttpWorld(World):
    async def amain(self):
        s = self.sim
        srv = _srv["m"]
        b = world._boot
        g = b["cfg"].get_global_config()
        app = srv.app
        if self.plan.get("cors"):
            app.add_middleware(srv.CORSMiddleware, allow_origins=["*"], allow_credentials=False, allow_methods=["*"],
                               allow_headers=["*"])
        app.state.engine = self.engine
        self.app = app
        s.rid_ids = {}
        if self.plan.get("poison"):
            s.poison_text = self.plan["poison"]
        lq = asyncio.Queue()
        up, down = asyncio.Event(), asyncio.Event()

        async def lsend(m):
            (up if m["type"].startswith("lifespan.startup") else down).set()
        life = asyncio.ensure_future(app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}},
                                         lq.get, lsend))
        await lq.put({"type": "lifespan.startup"})
        await up.wait()
        g  # configuration object stays alive
        try:
            await World.amain(self)
        finally:
            await lq.put({"type": "lifespan.shutdown"})
            try:
                await asyncio.wait_for(down.wait(), 60.0)
            except asyncio.TimeoutError:
                s.viol("shutdown", "the server's shutdown hook did not end")
            life.cancel()

    async def op_http(self, rec):
        op = rec.op
        s = self.sim
        body = json.dumps(op["body"]).encode() if op.get("body") is not None else b""
        if op.get("raw") is not None:
            body = op["raw"].encode()
        hdr = [(b"host", b"x"), (b"content-type", b"application/json"), (b"content-length", b"%d" % len(body))]
        for k, v in (op.get("headers") or {}).items():
            hdr.append((k.lower().encode(), v.encode("latin1")))
        scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1",
                 "method": op.get("method", "POST"), "scheme": "http", "path": op["path"], "raw_path": op["path"].encode(),
                 "query_string": b"", "root_path": "", "headers": hdr, "client": ("c", op["id"]), "server": ("x", 1), "state": {}}
        parts = [body]
        if op.get("split") and len(body) > 4:
            k = op["split"] % (len(body) - 1) + 1
            parts = [body[:k], body[k:]]
        gone = asyncio.Event()
        done = asyncio.Event()
        rec.msgs = []
        rec.gone_t = None
        sent = [0]

        async def receive():
            if sent[0] < len(parts):
                i = sent[0]
                sent[0] += 1
                if i:
                    await asyncio.sleep(0.01)
                return {"type": "http.request", "body": parts[i], "more_body": i + 1 < len(parts)}
            if gone.is_set() or done.is_set():
                return {"type": "http.disconnect"}
            w1 = asyncio.ensure_future(gone.wait())
            w2 = asyncio.ensure_future(done.wait())
            try:
                await asyncio.wait({w1, w2}, return_when=asyncio.FIRST_COMPLETED)
            finally:
                w1.cancel()
                w2.cancel()
            return {"type": "http.disconnect"}

        async def send(m):
            if rec.gone_t is not None:
                return
            if rec.msgs and rec.msgs[-1][1]["type"] == "http.response.body" and not rec.msgs[-1][1].get("more_body"):
                s.viol("http-contract", "request %d: message after the end of the response" % op["id"])
            rec.msgs.append((s.now, m))
            s.event("http", op["id"], m["type"], len(m.get("body") or b""))
            if m["type"] == "http.response.body" and not m.get("more_body"):
                done.set()
            if op.get("slow") and m.get("body"):
                s.fault("slow-client")
                await asyncio.sleep(op["slow"])
            n = op.get("drop_events")
            if n and rec.gone_t is None and sum(1 for _, x in rec.msgs if x.get("body")) >= n:
                self.drop(rec, gone)

        if op.get("drop_dt") is not None:
            async def dropper():
                await asyncio.sleep(op["drop_dt"])
                if not done.is_set():
                    self.drop(rec, gone)
            asyncio.ensure_future(dropper())
        if op.get("abort_dt") is not None:
            asyncio.ensure_future(self.aborter(rec))
        rec.app_exc = None
        try:
            await self.app(scope, receive, send)
        except asyncio.CancelledError:
            raise
        except Exception as x:
            if rec.gone_t is None:
                rec.app_exc = x
            else:
                s.probe("exception-after-disconnect")
        done.set()
        rec.end = "dropped" if rec.gone_t is not None else "done"

    def drop(self, rec, gone):
        rec.gone_t = self.sim.now
        self.sim.fault("http-disconnect")
        gone.set()

    async def aborter(self, rec):
        op = rec.op
        await asyncio.sleep(op["abort_dt"])
        self.sim.fault("http-abort")
        rec.aborted = True
        r2 = Rec({"id": op["id"] + 5000, "op": "http", "path": "/abort_request", "body": {"rid": op["body"]["rid"]},
                  "headers": self.good()})
        r2.t0 = self.sim.now
        await self.op_http(r2)
        if status(r2) != 200:
            self.sim.viol("http-contract", "abort_request answered %s" % status(r2))

    def good(self):
        k = self.cfg.get("api_key")
        return {"authorization": "Bearer " + k} if k else {}

    # -------------------------------------------------------------- checks
    def oracle(self):
        World.oracle(self)
        for rec in self.recs:
            if rec.op.get("op") == "http" and rec.end is not None:
                try:
                    self.check_http(rec)
                except Wrong as x:
                    self.sim.viol(x.cls, "request %d %s: %s" % (rec.op["id"], rec.op["path"], x.msg))
            elif rec.op.get("op") == "http" and rec.t0 is not None and not self.dead_workers():
                self.sim.viol("http-contract", "request %d %s: never answered (%d messages)"
                              % (rec.op["id"], rec.op["path"], len(getattr(rec, "msgs", ()))))
        bound = lag_bound(self.plan) + 2.0
        for rec in self.recs:
            if rec.op.get("op") == "http" and rec.gone_t is not None:
                mine = set(r for r, ids in self.sim.rid_ids.items() if any(list(ids) == (encode(p) if isinstance(p, str) else p)
                                                                           for p in rec.op.get("prompts", ())))
                late = [t for t, _, rids in self.sim.fwd_log if t > rec.gone_t + bound and mine.intersection(rids)]
                if late:
                    self.sim.viol("http-disconnect", "request %d: its client left at %.2f s, still generating %.2f s later"
                                  % (rec.op["id"], rec.gone_t, late[-1] - rec.gone_t))

    def check_http(self, rec):
        op = rec.op
        s = self.sim
        if rec.end == "exc":
            raise Wrong("http-contract", "client failed: %s" % rec.exc)
        if rec.app_exc is not None:
            raise Wrong("http-contract", "the application raised %s: %s" % (type(rec.app_exc).__name__, rec.app_exc))
        if rec.gone_t is not None:
            return
        ms = [m for _, m in rec.msgs]
        if not ms or ms[0]["type"] != "http.response.start" or any(m["type"] == "http.response.start" for m in ms[1:]):
            raise Wrong("http-contract", "not exactly one response start: %s" % [m["type"] for m in ms][:5])
        if ms[-1]["type"] != "http.response.body" or ms[-1].get("more_body"):
            raise Wrong("http-contract", "the response has no end")
        st = ms[0]["status"]
        body = b"".join(m.get("body") or b"" for m in ms[1:])
        key = self.cfg.get("api_key")
        if key and op["path"] not in ("/health", "/health_generate"):
            ok = op.get("key") in (key, self.cfg.get("admin_api_key")) and op.get("key") is not None
            if not ok:
                if st != 401:
                    raise Wrong("http-auth", "authorization %r was answered with status %d" % (op.get("headers"), st))
                s.probe("auth-refused")
                return
        if st == 401:
            raise Wrong("http-auth", "refused with 401 although the key is right (or none is set)")
        kind = op.get("kind")
        if kind == "get":
            if st != 200 and not (self.dead_workers() and "health" in op["path"]):
                raise Wrong("http-contract", "status %d" % st)
            if op["path"] == "/v1/models" and json.loads(body)["object"] != "list":
                raise Wrong("http-contract", "models: %r" % body[:80])
            return
        if kind == "refused":
            if not 400 <= st < 500:
                raise Wrong("http-contract", "an invalid request was answered with status %d: %r" % (st, body[:120]))
            return
        if kind is None or self.dead_workers():
            return
        self.check_gen(rec, st, body, ms[0])

    def expected(self, op):
        """Per prompt: (ids, tokens, reason) or None if it has to be refused."""
        out = []
        for i, p in enumerate(op["prompts"]):
            ids = encode(p) if isinstance(p, str) else p
            ids = ids[:self.cfg["context_length"] + 50]
            sp = op["sp"][i] if isinstance(op["sp"], list) else op["sp"]
            if not fits(ids, sp, self.cfg) or op.get("bad") or (self.plan.get("poison") and isinstance(p, str) and self.plan["poison"] in p):
                out.append(None)
                continue
            toks, reason = self.expect(ids, sp)
            room = context_room(ids, self.cfg)
            out.append((ids, toks, reason, len(toks) >= room - 1))
        return out

    def check_gen(self, rec, st, body, start):
        op = rec.op
        s = self.sim
        exp = self.expected(op)
        maybe_abort = getattr(rec, "aborted", False)
        stream = op["body"].get("stream")
        limited = self.cfg.get("max_queued_requests") is not None
        typ = dict(start.get("headers") or []).get(b"content-type", b"").decode()
        if not stream:
            if st == 429:
                if not limited:
                    raise Wrong("http-contract", "429 without a queue limit")
                s.probe("http-429")
                return
            try:
                d = json.loads(body)
            except ValueError:
                raise Wrong("http-contract", "body is not JSON: %r" % body[:120])
            if st != 200:
                if "error" not in d or not d["error"].get("message"):
                    raise Wrong("http-contract", "status %d without an error message: %r" % (st, body[:200]))
                if st >= 500 and not op.get("bad"):
                    raise Wrong("http-contract", "status %d: %r" % (st, body[:200]))
                if None not in exp and not maybe_abort:
                    raise Wrong("http-contract", "a valid request was answered with %d %r" % (st, body[:200]))
                s.probe("http-error-answered")
                return
            if op["api"] == "generate":
                items = d if isinstance(d, list) else [d]
                if len(items) != len(exp):
                    raise Wrong("http-contract", "%d results for %d prompts" % (len(items), len(exp)))
                for i, (it, e) in enumerate(zip(items, exp)):
                    if "error" in it:
                        if e is not None and not maybe_abort:
                            raise Wrong("http-contract", "result %d is an error: %s" % (i, it["error"]))
                        continue
                    if e is None:
                        raise Wrong("http-contract", "prompt %d is over the limits, but was answered" % i)
                    self.same(it.get("text"), it.get("finished_reason"), it.get("completion_tokens"), it.get("prompt_tokens"), e, i,
                              maybe_abort, native=True)
                s.probe("http-result")
                return
            if None in exp:
                raise Wrong("http-contract", "an over-limit request was answered with 200 %r" % body[:200])
            ch = d["choices"]
            if [c["index"] for c in ch] != list(range(len(exp))):
                raise Wrong("http-contract", "choices numbered %s" % [c["index"] for c in ch])
            u = d["usage"]
            if not maybe_abort and not any(e[3] for e in exp):
                self.usage(u, exp)
            for c, e in zip(ch, exp):
                if op["api"] == "completions":
                    self.same(c["text"], c["finish_reason"], None, None, e, c["index"], maybe_abort)
                else:
                    m = c["message"]
                    calls = [(t["function"]["name"], t["function"]["arguments"]) for t in m.get("tool_calls") or ()]
                    self.chat(m.get("reasoning_content") or "", m.get("content") or "", calls, c["finish_reason"], e, maybe_abort)
            s.probe("http-result")
            return
        # ---- event stream
        if st != 200:
            if st == 429 and limited:
                return
            if None in exp and 400 <= st < 500:
                return
            raise Wrong("http-contract", "stream answered with status %d %r" % (st, body[:200]))
        if "text/event-stream" not in typ:
            raise Wrong("http-contract", "content type %r" % typ)
        evs = body.split(b"\n\n")
        if evs[-1] != b"" or any(not e.startswith(b"data: ") for e in evs[:-1]):
            raise Wrong("http-contract", "malformed event stream: %r" % body[-200:])
        evs = [e[6:] for e in evs[:-1]]
        if evs.count(b"[DONE]") != 1 or evs[-1] != b"[DONE]":
            raise Wrong("http-contract", "the stream does not end with one end marker: %r" % evs[-3:])
        try:
            js = [json.loads(e) for e in evs[:-1]]
        except ValueError:
            raise Wrong("http-contract", "an event is not JSON: %r" % [e for e in evs if e[:1] != b"{"][:2])
        errs = [j for j in js if "error" in j]
        data = [j for j in js if "error" not in j]
        n_bad = sum(1 for e in exp if e is None)
        if errs and not (n_bad or maybe_abort or limited):
            raise Wrong("http-contract", "a valid request got an error event: %s" % errs[0])
        if n_bad and not errs:
            raise Wrong("http-contract", "an over-limit request got no error event")
        if errs:
            s.probe("http-error-event")
            if len(exp) == 1 or limited:
                fin = [c for j in data for c in j.get("choices", ()) if c.get("finish_reason")]
                if fin and len(exp) == 1:
                    raise Wrong("http-contract", "an error event and a finish reason for one choice")
                return
        if op["api"] == "generate":
            by = {}
            for j in data:
                by.setdefault(j.get("rid"), []).append(j)
            if len(by) != len(exp) - n_bad and not maybe_abort:
                raise Wrong("http-contract", "%d answered requests in the stream for %d prompts" % (len(by), len(exp)))
            left = [e for e in exp if e is not None]
            order = op["body"].get("rid")
            for r, l in by.items():
                fin = [j for j in l if j.get("finished")]
                if len(fin) != 1 or not l[-1].get("finished"):
                    raise Wrong("http-contract", "%d terminal events for one request" % len(fin))
                text = "".join(j.get("delta") or "" for j in l)
                if text != l[-1].get("text"):
                    raise Wrong("http-contract", "increments give %r, final text %r" % (text, l[-1].get("text")))
                if isinstance(order, list) and r in order:
                    e = exp[order.index(r)]
                elif len(exp) == 1:
                    e = exp[0]
                else:
                    m = [e for e in left if decode(e[1], True) == text] or left[:1]
                    e = m[0]
                    left.remove(e)
                if e is None:
                    raise Wrong("http-contract", "an over-limit prompt was answered")
                self.same(text, l[-1].get("finished_reason"), l[-1].get("completion_tokens"), l[-1].get("prompt_tokens"), e, 0,
                          maybe_abort, native=True)
            s.probe("http-stream")
            return
        ids = set(j.get("id") for j in data)
        if len(ids) > 1:
            raise Wrong("http-contract", "the stream carries several ids: %s" % ids)
        usage = [j for j in data if not j.get("choices")]
        want = (op["body"].get("stream_options") or {}).get("include_usage")
        if bool(want) != bool(usage) or len(usage) > 1 or (usage and data[-1] is not usage[0]):
            raise Wrong("http-contract", "usage events %s, asked for %s" % (usage, want))
        if usage and not n_bad and not maybe_abort and not any(e[3] for e in exp):
            self.usage(usage[0]["usage"], exp)
        per = {}
        for j in data:
            for c in j.get("choices", ()):
                per.setdefault(c["index"], []).append(c)
        need = [i for i, e in enumerate(exp) if e is not None]
        if sorted(per) != need:
            raise Wrong("http-contract", "choices %s in the stream, expected %s" % (sorted(per), need))
        for i, l in per.items():
            fin = [c for c in l if c.get("finish_reason") is not None]
            if len(fin) != 1 or l[-1] is not fin[0]:
                raise Wrong("http-contract", "choice %d has %d finish reasons, or data after it" % (i, len(fin)))
            if op["api"] == "completions":
                self.same("".join(c["text"] for c in l), fin[0]["finish_reason"], None, None, exp[i], i, maybe_abort)
            else:
                if l[0]["delta"].get("role") != "assistant" or any("role" in c["delta"] for c in l[1:]):
                    raise Wrong("http-contract", "the role is not sent first and once")
                calls = []
                for c in l:
                    for t in c["delta"].get("tool_calls") or ():
                        f = t["function"]
                        if t.get("id"):
                            if t["index"] != len(calls):
                                raise Wrong("http-contract", "tool call index %s, %d expected" % (t["index"], len(calls)))
                            calls.append([f.get("name"), f.get("arguments") or ""])
                        elif not calls or t["index"] != len(calls) - 1:
                            raise Wrong("http-contract", "tool call delta for call %s of %d" % (t["index"], len(calls)))
                        else:
                            calls[-1][1] += f.get("arguments") or ""
                self.chat("".join(c["delta"].get("reasoning_content") or "" for c in l),
                          "".join(c["delta"].get("content") or "" for c in l), calls, fin[0]["finish_reason"], exp[i], maybe_abort)
        s.probe("http-stream")

    def usage(self, u, exp):
        p = sum(len(e[0]) for e in exp)
        c = sum(len(e[1]) for e in exp)
        if (u["prompt_tokens"], u["completion_tokens"], u["total_tokens"]) != (p, c, p + c):
            raise Wrong("http-contract", "usage %s, really %d + %d" % (u, p, c))

    def same(self, text, reason, n, np, e, i, abort, native=False):
        ids, toks, why, edge = e
        full = decode(toks, True)
        if abort and reason in ("abort", "stop") and full.startswith(text or ""):
            return
        if edge:
            if not (full.startswith(text) or text.startswith(full[:len(text)])):
                raise Wrong("http-contract", "choice %d: text %r, expected %r" % (i, text, full))
            return
        if text != full:
            raise Wrong("http-contract", "choice %d: text %r, expected %r" % (i, text, full))
        w = why if native else {"eos": "stop", "length": "length"}[why]
        if reason != w:
            raise Wrong("http-contract", "choice %d: finish reason %r, expected %r" % (i, reason, w))
        if n is not None and n != len(toks) or np is not None and np != len(ids):
            raise Wrong("http-contract", "choice %d: counts %s/%s, really %d/%d" % (i, np, n, len(ids), len(toks)))

    def chat(self, reasoning, content, calls, reason, e, abort):
        c = self.cfg
        ids, toks, why, edge = e
        full = decode(toks, True)
        op = self.cur_chat
        if abort or edge:
            return
        if reason is None:
            raise Wrong("http-contract", "no finish reason")
        r, t = ("", full)
        sep = op["body"].get("separate_reasoning", True)
        if c.get("reasoning_parser") and sep:
            r, t = ref_reason(full, c["reasoning_parser"])
        exp_calls = []
        if c.get("tool_call_parser") and op["body"].get("tools"):
            # white space at the ends of the answer carries no meaning: an answer
            # cut off right after an opening marker may be read without it
            got_c = content.strip()
            full_t = t
            t, exp_calls = ref_calls(full_t, c["tool_call_parser"])
            if t.strip() != got_c:
                t, exp_calls = ref_calls(full_t.strip(), c["tool_call_parser"])
            if exp_calls:
                self.sim.probe("http-tool-calls")
        if r:
            self.sim.probe("http-reasoning")
        if (reasoning.strip(), content.strip()) != (r.strip(), t.strip()):
            raise Wrong("http-contract", "reasoning %r content %r, the text %r says %r, %r" % (reasoning, content, full, r, t))
        got = [(n, as_value(a)) for n, a in calls]
        if all(x is not None for x in exp_calls):
            if got != exp_calls:
                raise Wrong("http-contract", "tool calls %r, the text %r says %r" % (got, full, exp_calls))
        w = "tool_calls" if got else {"eos": "stop", "length": "length"}[why]
        if reason != w:
            raise Wrong("http-contract", "finish reason %r, expected %r" % (reason, w))


class Wrong(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg = cls, msg


def status(rec):
    return rec.msgs[0][1].get("status") if rec.msgs else None


_orig_check = HttpWorld.check_http


def _check_http(self, rec):
    self.cur_chat = rec.op
    return _orig_check(self, rec)


HttpWorld.check_http = _check_http


# ------------------------------------------------------------------ workload
CHATS = ["hi", "<think>the name</think>hello", "<think>a<b>", "</think>x", "ab<think>q</think>{\"", "<thi", "<tool_call>\n{\"name\": \"f\", \"arguments\": {\"a\": 1}}\n</tool_call>",
         "x<tool_call>\n{\"name\":\"f\",\"arguments\":{\"a\":[1,2]}}\n</tool_call>y<tool_call>\n{\"name\":\"g\",\"arguments\":{}}\n</tool_call>",
         "<think>z</think><tool_call>\n{\"name\": \"f\", \"arguments\": {\"name\": \"q\"}}\n</tool_call>", "\u4f60\u597d\u00e9", "<think>", "call<", "a</tool",
         "<tool_call>\n{\"name\": \"f\", \"arg"]


def gen(rng, tier):
    from . import profiles
    cfg = profiles.pick_cfg(rng, 0.2, ("radix", "radix", "chunk"), 0.1)
    cfg["context_length"] = rng.choice([96, 128, 160])
    cfg["max_total_tokens"] = rng.choice([256, 512])
    cfg.pop("max_prefill_tokens", None)
    if rng.random() < 0.5:
        cfg["reasoning_parser"] = rng.choice(["qwen3", "qwen3-thinking", "deepseek-r1", "glm45"])
    if rng.random() < 0.5:
        cfg["tool_call_parser"] = rng.choice(["qwen25", "hermes"])
    if rng.random() < 0.3:
        cfg["api_key"] = "k-123"
        if rng.random() < 0.5:
            cfg["admin_api_key"] = "adm-9"
    if rng.random() < 0.75:
        cfg.pop("max_queued_requests", None)
    plan = {"profile": "P14", "kind": "http", "cfg": cfg, "sim": profiles.pick_sim(rng), "scripts": {}, "ops": []}
    if rng.random() < 0.3:
        plan["cors"] = True
    if rng.random() < 0.3:
        plan["poison"] = "POISON"
    if rng.random() < 0.15:
        # a slow model: whoever leaves early saves a lot of work
        plan["sim"].update(step_cost=rng.choice([0.3, 0.6]), stall_p=0.0)
    span = rng.choice([0.0, 0.01, 0.1, 1.0])
    for i in range(rng.choice([1, 3, 5, 8, 12])):
        plan["ops"].append(one(rng, cfg, plan, i, round(rng.random() * span, 5)))
    profiles.extra_faults(rng, plan["ops"], 0.15)
    return plan


def tuned(rng, cfg, op, b, api):
    """Other parameters with a predictable answer."""
    to = b
    if api == "generate":
        to = b["sampling_params"] = dict(b["sampling_params"])
    if rng.random() < 0.15:
        # sampling with one candidate is greedy
        to["temperature"] = rng.choice([0.5, 1.0, 1.8])
        if rng.random() < 0.5:
            to["top_k"] = 1
        else:
            to["top_p"] = 1e-6
    if rng.random() < 0.2 and "<|m|>" not in str(op["prompts"]):
        pen = {}
        for k, vals in (("repetition_penalty", [0.73, 1.37]), ("frequency_penalty", [0.77, -0.41, 1.93]),
                        ("presence_penalty", [1.17, -0.83])):
            if rng.random() < 0.5:
                pen[k] = rng.choice(vals)
        sp = dict(op["sp"], **pen)
        if not any(near_tie(encode(q) if isinstance(q, str) else q, sp, cfg) for q in op["prompts"]):
            op["sp"] = sp
            to.update(pen)
    if api == "chat" and rng.random() < 0.15 and "max_tokens" in b:
        b["max_completion_tokens"] = b["max_tokens"]
        b["max_tokens"] = rng.choice([1, 60])


def near_tie(ids, sp, cfg):
    """Whether rounding could decide between two tokens somewhere."""
    from .hashmodel import ref_logits
    from .world import penalise
    hist = list(ids)[:cfg["context_length"]]
    pen = (sp.get("repetition_penalty", 1.0), sp.get("frequency_penalty", 0.0), sp.get("presence_penalty", 0.0))
    for _ in range(min(sp["max_new_tokens"], 60)):
        row = penalise(ref_logits(hist, cfg.get("eos_p", 12)), hist, pen)
        a, b = sorted(row)[-2:]
        if b - a < 1e-3:
            return True
        hist.append(max(range(len(row)), key=lambda i: row[i]))
    return False


def one(rng, cfg, plan, i, t):
    op = {"op": "http", "id": i, "t": t}
    key = cfg.get("api_key")
    if key:
        r = rng.random()
        if r < 0.65:
            op["key"] = key
        elif r < 0.75 and cfg.get("admin_api_key"):
            op["key"] = cfg["admin_api_key"]
        elif r < 0.9:
            op["key"] = rng.choice([key + "x", key[:-1], "", "nope", key.upper(), " " + key, "None", "null", "False"])
        if "key" in op:
            op["headers"] = {"authorization": rng.choice(["Bearer ", "Bearer ", "Bearer "]) + op["key"]}
            if op["key"] == key and rng.random() < 0.08:
                op["headers"] = {rng.choice(["authorization", "x-api-key"]): rng.choice([key, "Basic " + key, "bearer" + key])}
                op["key"] = None
    if rng.random() < 0.3:
        op["split"] = rng.randint(1, 200)
    r = rng.random()
    if r < 0.08:
        op.update(kind="get", method="GET", path=rng.choice(["/health", "/health_generate", "/v1/models", "/model_info", "/server_info"]))
        return op
    if r < 0.14:
        op.update(kind="refused", path=rng.choice(["/v1/completions", "/v1/chat/completions"]))
        op["body"] = rng.choice([{"prompt": "x", "messages": [{"role": "user", "content": "x"}], "n": 2},
                                 {"prompt": "x", "messages": [], "logprobs": 5, "n": 3}, {"prompt": 5, "messages": 5}, {}])
        return op
    if r < 0.16:
        op.update(kind="refused", path="/abort_request", body={})
        return op
    api = rng.choice(["generate", "completions", "chat", "chat"])
    mx = rng.choice([1, 3, 8, 20, 40])
    greedy = 0.0
    stream = rng.random() < 0.6
    tag = "%s%s" % ("abcdefghijklmnop"[i % 16], "qrstuvw"[i % 7])
    op["api"] = api
    op["kind"] = "gen"
    b = {"stream": stream}
    sp = {"temperature": greedy, "max_new_tokens": mx}
    op["sp"] = sp

    def text():
        p = tag + rng.choice(["hello", "the name", "x", "12", "é", "what"]) + rng.choice("abcdef") + str(rng.randint(0, 9))
        if plan.get("poison") and rng.random() < 0.25:
            p += plan["poison"]
        if rng.random() < 0.06:
            p += "zq" * 120
        return p
    if api == "generate":
        op["path"] = "/generate"
        if rng.random() < 0.3:
            op["prompts"] = [text() for _ in range(rng.choice([2, 3]))]
            b["text"] = list(op["prompts"])
        elif rng.random() < 0.3:
            op["prompts"] = [encode(text())]
            b["input_ids"] = op["prompts"][0]
        else:
            op["prompts"] = [text()]
            b["text"] = op["prompts"][0]
        b["sampling_params"] = sp
        if rng.random() < 0.4:
            b["rid"] = ["h%d.%d" % (i, k) for k in range(len(op["prompts"]))] if isinstance(b.get("text"), list) else "h%d" % i
            if rng.random() < 0.25 and isinstance(b["rid"], str):
                op["abort_dt"] = rng.choice([0.0, 0.001, 0.01, 0.1, 1.0])
    elif api == "completions":
        op["path"] = "/v1/completions"
        b.update(temperature=greedy, max_tokens=mx)
        if rng.random() < 0.4:
            op["prompts"] = [text() for _ in range(rng.choice([1, 2, 3]))]
            b["prompt"] = list(op["prompts"])
        else:
            op["prompts"] = [text()]
            b["prompt"] = op["prompts"][0]
    else:
        op["path"] = "/v1/chat/completions"
        b.update(temperature=greedy)
        b[rng.choice(["max_tokens", "max_completion_tokens"])] = mx
        if rng.random() < 0.75:
            # a scripted answer (three prompt tokens follow the marker in the chat template)
            k = 30 + i
            pool = CHATS
            if cfg.get("tool_call_parser") and rng.random() < 0.5:
                pool = [x for x in CHATS if "<tool_call>" in x]
            elif cfg.get("reasoning_parser") and rng.random() < 0.5:
                pool = [x for x in CHATS if "think" in x]
            ans = encode(rng.choice(pool) if rng.random() < 0.7 else rng.choice(pool) + rng.choice(CHATS))
            if len(ans) < 56 and rng.random() < 0.8:
                sp["max_new_tokens"] = 60
                for q in ("max_tokens", "max_completion_tokens"):
                    if q in b:
                        b[q] = 60
            plan["scripts"][str(k)] = [5, 5, 5] + ans
            c = tag + "<|m|>" + decode([k]) + "<|m|>z<|m|>"
        else:
            c = text()
        b["messages"] = [{"role": "user", "content": c}]
        op["prompts"] = ["user:%s\na:" % c]
        if rng.random() < (0.85 if cfg.get("tool_call_parser") else 0.4):
            b["tools"] = [{"type": "function", "function": {"name": "f"}}]
        if rng.random() < 0.15:
            b["stream_reasoning"] = False
        if rng.random() < 0.1:
            b["separate_reasoning"] = False
    tuned(rng, cfg, op, b, api)
    if stream and api != "generate" and rng.random() < 0.5:
        b["stream_options"] = {"include_usage": True}
    if rng.random() < 0.05:
        op["bad"] = True
        if api == "generate":
            b["sampling_params"] = dict(sp, temperature="hot")
        else:
            b["top_p"] = -0.5
    op["body"] = b
    r = rng.random()
    if r < 0.12:
        op["drop_dt"] = rng.choice([0.0, 0.001, 0.01, 0.1, 0.5, 1.5]) * (0.5 + rng.random())
    elif r < 0.24 and stream:
        op["drop_events"] = rng.choice([1, 2, 3])
    if stream and rng.random() < 0.15:
        op["slow"] = rng.choice([0.005, 0.05, 0.4])
    return op
