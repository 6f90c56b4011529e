"""P13: simulated streams of generated text through the real stream parsers.

Several streams are open at once; the chooser decides whose next piece arrives,
how many characters it carries, and where a stream breaks off. The outcome is
compared with the one-shot parser and with a reference reading of the text.
"""
import json
import re

from .kernel import Sim

REASON = {"deepseek-r1": ("<think>", "</think>", True), "qwen3": ("<think>", "</think>", False),
          "qwen3-thinking": ("<think>", "</think>", True), "glm45": ("<think>", "</think>", False),
          "kimi": ("\u25c1think\u25b7", "\u25c1/think\u25b7", False)}
TOOLS = {"qwen25": ("<tool_call>\n", "\n</tool_call>"), "qwen3_coder": ("<tool_call>", "</tool_call>"),
         "hermes": ("<tool_call>\n", "\n</tool_call>"), "llama3": ("<|python_tag|>", "")}


# ------------------------------------------------------------------ reference
def ref_reason(text, typ):
    start, end, force = REASON[typ]
    if force:
        head = text.lstrip()
        body = head[len(start):] if head.startswith(start) else text
        before = ""
    else:
        i = text.find(start)
        if i < 0:
            return "", text
        before, body = text[:i], text[i + len(start):]
    j = body.find(end)
    if j < 0:
        return body, before
    return body[:j], before + body[j + len(end):]


def ref_calls(text, typ):
    """(content, [(name, args) or None for a call that is not well formed])"""
    bot, end = TOOLS[typ]
    parts, calls = [], []
    while True:
        i = text.find(bot)
        if i < 0:
            parts.append(text)
            break
        parts.append(text[:i])
        text = text[i + len(bot):]
        j = text.find(end) if end else -1
        if j < 0:
            body, text = text, ""
        else:
            body, text = text[:j], text[j + len(end):]
        calls.append(ref_body(body.strip(), typ, j >= 0 or not end))
    return "".join(parts), calls


def ref_body(body, typ, closed):
    if typ == "qwen3_coder":
        m = re.fullmatch(r"<function=([^<>]+)>\s*((?:<parameter=[^<>]+>[^<]*</parameter>\s*)*)</function>", body)
        if not m or not closed:
            return None
        args = {}
        for k, v in re.findall(r"<parameter=([^<>]+)>([^<]*)</parameter>", m.group(2)):
            if k in args:
                return None
            try:
                args[k] = json.loads(v.strip())
            except ValueError:
                args[k] = v.strip()
        return m.group(1), args
    try:
        keys = []
        o = json.loads(body, object_pairs_hook=lambda kv: (keys.append([k for k, _ in kv]), dict(kv))[1])
    except ValueError:
        return None
    if not isinstance(o, dict) or not isinstance(o.get("name"), str) or not o["name"]:
        return None
    if any(len(set(k)) != len(k) for k in keys):
        return None
    if "arguments" in o and "parameters" in o:
        return None
    a = o.get("arguments") or o.get("parameters") or {}
    return o["name"], a


def as_value(s):
    try:
        return json.loads(s)
    except (ValueError, TypeError):
        return s


# ------------------------------------------------------------------ generator
NOISE = ["<", "</", "<t", "think", "</think", "<tool_call", "</tool_call>", "\n", " ", "a", "b é", "日本", "{", "}", "\"", "<|", "<|python",
         "\u25c1", "\u25c1/thi", "call", ">", "\\", "\n\n", "<think>", "</think>", "\u25c1think\u25b7", "\n</tool", "\n<"]


def noise(rng, k=6):
    return "".join(rng.choice(NOISE) if rng.random() < 0.6 else rng.choice("xyz .,") for _ in range(rng.randint(0, k)))


def plain(rng):
    return "".join(rng.choice(["ok", " ", "x", "é", "日", "\n", "<", "a<b", ". "]) for _ in range(rng.randint(0, 6)))


def value(rng, d=0):
    r = rng.random()
    if d < 2 and r < 0.2:
        return {rng.choice(["a", "name", "arguments", "k:1", "q\"", "}"]): value(rng, d + 1) for _ in range(rng.randint(0, 3))}
    if d < 2 and r < 0.35:
        return [value(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([1, -2.5, True, None, "s", "a}b", "{\"name\": \"no\"}", "tab\t", "日本", "", "x\\y", "\n", "<tool_call>", "a,b", 'q"q'])


def call_text(rng, typ):
    bot, end = TOOLS[typ]
    name = rng.choice(["f", "get_weather", "a.b-c", "naïve", "q\"x", "x:y,z"])
    if typ == "qwen3_coder":
        name = rng.choice(["f", "get_weather", "a.b"])
        ks = rng.sample(["a", "bb", "city", "n"], rng.randint(0, 3))
        body = "\n<function=%s>\n%s</function>\n" % (name, "".join(
            "<parameter=%s>\n%s\n</parameter>\n" % (k, rng.choice(["1", "[1, 2]", "\"s\"", "plain text", "日本", "{\"z\": 1}", ""])) for k in ks))
    else:
        args = {rng.choice(["a", "city", "name", "n", "arguments"]): value(rng) for _ in range(rng.randint(0, 3))}
        if rng.random() < 0.08:
            args = rng.choice(["str", None, [1, 2], 7])
        items = [("name", name), (rng.choice(["arguments", "arguments", "parameters"]), args)]
        if rng.random() < 0.2:
            items.insert(rng.randint(0, 2), ("id", rng.choice([3, "i", {"name": "inner"}, ["x"]])))
        if rng.random() < 0.25:
            items.reverse()
        if rng.random() < 0.05:
            items = [i for i in items if i[0] == "name"]
        o = {}
        for k, v in items:
            o[k] = v
        ind = rng.choice([None, None, None, 1])
        sep = rng.choice([(", ", ": "), (",", ":"), (" , ", " : ")])
        body = json.dumps(o, ensure_ascii=rng.random() < 0.3, indent=ind, separators=None if ind else sep)
    r = rng.random()
    if r < 0.12:   # damaged body
        k = rng.randint(0, len(body))
        body = body[:k] + rng.choice(["", "}", "x", ",", "\"", "[]"]) + body[k + rng.randint(0, 3):]
    elif r < 0.15:
        body = rng.choice(["[1]", "5", "not json", "", "{}", "{\"name\": 5}"])
    return bot + body + end


def gen(rng, tier):
    ops = []
    for i in range(rng.choice([1, 2, 4, 6])):
        rt = rng.choice([None] + list(REASON))
        tt = rng.choice([None] + list(TOOLS)) if rt else rng.choice(list(TOOLS))
        t = ""
        if rng.random() < 0.15:
            t = noise(rng, 14)
        else:
            if rt:
                start, end, force = REASON[rt]
                if rng.random() < (0.5 if force else 0.8):
                    t += (rng.choice(["", "\n", "", noise(rng, 3)])) + start
                t += rng.choice(["", plain(rng), noise(rng)])
                if rng.random() < 0.85:
                    t += end
            t += rng.choice(["", "\n\n", plain(rng), noise(rng, 4)])
            if tt:
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    t += call_text(rng, tt) + rng.choice(["", "\n", plain(rng)])
            t += rng.choice(["", plain(rng), noise(rng, 3)])
        op = {"id": i, "reason": rt, "tool": tt, "text": t, "mode": rng.choice(["one", "small", "mixed", "big", "two"])}
        if rng.random() < 0.3:
            op["stop"] = rng.randint(0, len(t))
        if rt and rng.random() < 0.2:
            op["quiet"] = True
        ops.append(op)
    return {"profile": "P13", "kind": "parse", "ops": ops}


# ------------------------------------------------------------------ run
class Stream:
    def __init__(self, op, mod):
        self.op = op
        self.text = op["text"][:op["stop"]] if op.get("stop") is not None else op["text"]
        self.r = mod.ReasoningParser(op["reason"], stream_reasoning=not op.get("quiet")) if op["reason"] else None
        self.t = mod.ToolCallParser(op["tool"], tools=[]) if op["tool"] else None
        self.pos = 0
        self.reason = self.content = ""
        self.items = []
        self.mid = ""
        self.early = 0

    def feed(self, piece):
        c = piece
        if self.r is not None:
            d, c = self.r.parse_stream_chunk(piece)
            self.reason += d
        self.mid += c
        self.tool(c)

    def tool(self, c):
        if self.t is not None and c:
            c, items = self.t.parse_stream_chunk(c)
            self.items += items
        self.content += c

    def end(self):
        if self.r is not None:
            d, c = self.r.flush()
            self.reason += d
            self.mid += c
            self.tool(c)
        if self.t is not None:
            c, items = self.t.flush()
            self.content += c
            self.items += items


def merge(items, bad):
    calls = []
    seen = set()
    for it in items:
        if it.name is not None or it.tool_call_id:
            if it.index != len(calls):
                bad("tool call index %s where %d was due" % (it.index, len(calls)))
            if not it.tool_call_id or it.tool_call_id in seen:
                bad("tool call id %r missing or used twice" % it.tool_call_id)
            seen.add(it.tool_call_id)
            calls.append([it.name, it.arguments or ""])
        else:
            if not calls or it.index != len(calls) - 1:
                bad("arguments delta for call %s, but %d calls were announced" % (it.index, len(calls)))
                continue
            calls[-1][1] += it.arguments or ""
    return [(n, as_value(a)) for n, a in calls]


def cut(s, ch):
    left = len(s.text) - s.pos
    m = s.op["mode"]
    if m == "one":
        return 1
    if m == "small":
        return min(left, 1 + ch.choose(3))
    if m == "big":
        return min(left, 1 + ch.choose(24))
    if m == "two":
        return left if s.pos else max(1, min(left, 1 + ch.choose(max(1, left))))
    return min(left, (1, 2, 5, 9, left)[ch.choose(5)])


def run(plan, ch):
    import pymllm.parsers as mod
    sim = Sim(ch)
    viols = []

    def viol(cls, msg):
        if len(viols) < 10:
            viols.append((cls, msg))
            sim.event("VIOLATION", cls, msg)
    streams = []
    steps = 0
    errors = []
    for op in plan["ops"]:
        streams.append(Stream(op, mod))
        if op.get("stop") is not None:
            sim.fault("stream-cut")
    live = list(streams)
    last, switches = None, 0
    while live:
        k = ch.choose(len(live)) if len(live) > 1 else 0
        s = live[k]
        if s is not last:
            switches += 1
        last = s
        steps += 1
        try:
            if s.pos >= len(s.text):
                live.pop(k)
                s.end()
                sim.event("end", s.op["id"])
                check(sim, s, mod, viol)
            else:
                n = cut(s, ch)
                sim.event("piece", s.op["id"], n)
                sim.fault("piece")
                piece = s.text[s.pos:s.pos + n]
                s.pos += n
                s.feed(piece)
        except Exception as x:
            if s in live:
                live.remove(s)
            viol("parse-crash", "text %r, cut at %d: %s: %s" % (s.text, s.pos, type(x).__name__, x))
    return {"violations": viols, "reason": "done", "hash": sim.hash, "steps": steps, "switches": switches, "sim_time": float(steps),
            "faults": sim.faults, "probes": sim.probes, "trace": ch.rec, "log": sim.log, "stats": {"streams": len(streams)},
            "errors": errors, "nontrivial": steps > 2}


def check(sim, s, mod, viol):
    op = s.op
    where = "%s/%s text %r" % (op["reason"], op["tool"], s.text)
    text = s.text
    if op["reason"]:
        one_r, one_c = mod.ReasoningParser(op["reason"]).parse_non_stream(text)
        one_r = one_r or ""
        ref_r, ref_c = ref_reason(text, op["reason"])
        if s.reason.strip() != one_r.strip():
            viol("parse-differs", "%s: streamed reasoning %r, parsed at once %r" % (where, s.reason, one_r))
        if s.mid.strip() != one_c.strip():
            viol("parse-differs", "%s: streamed content %r, parsed at once %r" % (where, s.mid, one_c))
        if s.reason.strip() != ref_r.strip() or s.mid.strip() != ref_c.strip():
            viol("parse-wrong", "%s: streamed reasoning %r, content %r; the text says %r, %r" % (where, s.reason, s.mid, ref_r, ref_c))
        if one_r.strip() != ref_r.strip() or one_c.strip() != ref_c.strip():
            viol("parse-wrong", "%s: parsed at once %r, %r; the text says %r, %r" % (where, one_r, one_c, ref_r, ref_c))
        if ref_r.strip():
            sim.probe("reasoning")
        text = s.mid
    if op["tool"]:
        p = mod.ToolCallParser(op["tool"], tools=[])
        one_c, one = p.parse_non_stream(text)
        probs = []
        got = merge(s.items, probs.append)
        for b in probs[:2]:
            viol("parse-differs", "%s: %s" % (where, b))
        exp = [(c.name, as_value(c.arguments)) for c in one]
        ref_c, calls = ref_calls(text, op["tool"])
        if s.content.strip() != one_c.strip():
            viol("parse-differs", "%s: streamed content %r, parsed at once %r" % (where, s.content, one_c))
        if s.content.strip() != ref_c.strip():
            viol("parse-wrong", "%s: streamed content %r, the text says %r" % (where, s.content, ref_c))
        if got != exp:
            viol("parse-differs", "%s: streamed calls %r, parsed at once %r" % (where, got, exp))
        for i, c in enumerate(one):
            if c.index != i:
                viol("parse-differs", "%s: call %d parsed at once has index %s" % (where, i, c.index))
        if all(c is not None for c in calls):
            if calls:
                sim.probe("well-formed-calls", len(calls))
            if got != calls:
                viol("parse-wrong", "%s: streamed calls %r, the text says %r" % (where, got, calls))
        else:
            sim.probe("damaged-call")
            good = [c for c in calls if c is not None]
            rest = [g for g in got]
            for c in good:
                if c in rest:
                    rest = rest[rest.index(c) + 1:]
                else:
                    viol("parse-wrong", "%s: call %r missing from %r" % (where, c, got))
    elif s.content != s.mid:
        viol("parse-wrong", "%s: content altered" % where)
