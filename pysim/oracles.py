"""Checks over the recorded history of a run (and the final state)."""
from collections import deque

from .fake_hf import decode
from .world import (fit_factors, ref_ids, ref_greedy, allowed_set, effective_max, context_room, eos_set, is_terminal)


def members(rec):
    """Split a client record into per-request (op, rid, chunks)."""
    op = rec.op
    if not op.get("batch"):
        return [(op, rec.rids[0] if rec.rids else None, [c for c in rec.chunks], 0)]
    out = []
    for i in range(op["batch"]):
        sub = dict(op)
        sub.pop("batch")
        sub["ids"] = op["ids"][i] if op.get("ids") is not None else None
        sub["text"] = op["text"][i] if op.get("text") is not None else None
        sub["images"] = op["images"][i] if op.get("images") is not None else None
        sp = op.get("sp")
        sub["sp"] = sp[i] if isinstance(sp, list) else sp
        rid = rec.rids[i]
        out.append((sub, rid, [c for c in rec.chunks if c[1].get("rid") == rid], i))
    return out


def fits(ids, sp, cfg):
    """Whether a request is within every configured limit."""
    cl = cfg.get("context_length") or 256
    tot = cfg.get("max_total_tokens") or 4096
    mxp = cfg.get("max_prefill_tokens") or 8192
    n = len(ids)
    return n >= 1 and n <= mxp and n < tot and n < cl


def check_history(w):
    s = w.sim
    cfg = w.cfg
    dead = w.dead_workers()
    killed = "kill" in w.injected
    if dead and not killed:
        for p in dead:
            err = [e for e in s.actor_errors if e[0] == p.name]
            s.viol("scheduler-died" if getattr(p, "role", "") == "scheduler" else "worker-died",
                   "worker %s died: %s" % (getattr(p, "role", p.name), err[0][1:3] if err else "?"))
        w.sim.fault("uninjected-death")
    for rec in w.recs:
        if rec.op.get("op", "gen") == "gen" or rec.op.get("op") == "dup" and rec.end != "refused":
            check_client(w, rec, bool(dead))
    check_draws(w)
    if not dead:
        check_idle(w)


ALTS = 7
WINDOWS = ((0, 4), (0, 10), (0, 10 ** 9), (4, 12), (8, 10 ** 9))


def check_draws(w):
    """The bets a gambler makes that tokens are drawn with other probabilities than they should be:
    when the draws are right the capital exceeds 10^10 with probability 10^-10 at most.  One part of
    the capital is put on all alternatives for every request, the others on one alternative each."""
    caps = [1.0] * (ALTS + 1)
    for e, name, got in getattr(w, "bets", ()):
        caps[0] *= 0.9 + 0.1 * sum(e) / ALTS
        for a in range(ALTS):
            caps[a + 1] *= 0.8 + 0.2 * e[a]
        if sum(caps) / len(caps) > 1e10:
            e, name, got = max(w.bets, key=lambda b: max(b[0]))
            w.sim.viol("sample-unlikely", "tokens are not drawn with the requests' own probabilities (odds %.0e); worst is %s: %s"
                       % (sum(caps) / len(caps), name, got[:40]))
            return


def check_client(w, rec, dead):
    s = w.sim
    cfg = w.cfg
    op = rec.op
    end = op.get("end")
    if rec.t0 is None:
        return          # a caller whose earlier call never came back; that one is reported
    if rec.end is None:
        if not dead:
            over = any(not fits(ref_ids(m[0], cfg), m[0].get("sp") or {}, cfg) for m in members(rec)) \
                if rec.rids else False
            cls = "hang-aborted" if rec.abort_t is not None else ("overlimit-hang" if over else "hang")
            s.viol(cls, "client %d never got an answer (started %.3f s, %d chunks, end=%s)"
                   % (op["id"], rec.t0, len(rec.chunks), end))
        return
    if rec.end == "exc":
        ok = op.get("expect_exc")
        msg = "%s: %s" % (type(rec.exc).__name__, rec.exc)
        if isinstance(rec.exc, RuntimeError) and "overloaded" in msg and cfg.get("max_queued_requests") is not None:
            s.probe("overload-refused")
            return
        if ok or dead:
            return
        if op.get("poison") and isinstance(rec.exc, (ValueError, TypeError)):
            s.probe("poison-refused")
            return
        s.viol("client-exception", "client %d: %s" % (op["id"], msg[:200]))
        return
    if dead:
        return
    for sub, rid, chunks, i in members(rec):
        check_member(w, rec, sub, rid, chunks, i)
    if op.get("batch"):
        known = set(rec.rids)
        for t, c in rec.chunks:
            if c.get("rid") not in known:
                s.viol("foreign-result", "client %d received a result for %r" % (op["id"], c.get("rid")))


def check_member(w, rec, op, rid, chunks, idx):
    s = w.sim
    cfg = w.cfg
    sim_cfg = w.plan.get("sim") or {}
    sp = op.get("sp") or {}
    end = rec.op.get("end")
    name = "client %d%s" % (rec.op["id"], "" if not rec.op.get("batch") else "[%d]" % idx)
    cs = [c for _, c in chunks]
    for c in cs:
        if c.get("rid") != rid:
            s.viol("foreign-result", "%s (rid %r) received a result for %r" % (name, rid, c.get("rid")))
            return
    term = [c for c in cs if is_terminal(c)]
    aborted = rid in s.aborted_at
    gone = rec.end in ("aclosed", "cancelled")
    if len(term) > 1 or (term and not is_terminal(cs[-1])):
        s.viol("after-terminal" if aborted else "terminal-count",
               "%s: %d terminal results / data after the terminal result" % (name, len(term)))
        return
    if not term:
        if not gone:
            s.viol("terminal-count-aborted" if rec.abort_t is not None else "terminal-count",
                   "%s: stream ended without a terminal result" % name)
        final = None
    else:
        final = term[0]
    if final is not None and not op.get("stream") and len(cs) != 1:
        s.viol("terminal-count", "%s: non-streaming request got %d results" % (name, len(cs)))
    if op.get("free"):
        if final is not None and "error" in final:
            s.probe("poison-answered")
        return
    ids = ref_ids(op, cfg)
    ok_fit = fits(ids, sp, cfg)
    if final is not None and "error" in final:
        err = final["error"]
        if aborted and err == "aborted":
            s.probe("abort-answered")
        elif not ok_fit:
            s.probe("over-limit-refused")
        elif op.get("poison"):
            s.probe("poison-answered")
        elif "shm" in w.injected:
            s.probe("shm-fault-answered")
        elif rec.abort_t is not None and err == "aborted":
            pass
        else:
            s.viol("unexpected-error", "%s: within all limits but answered with error %r" % (name, err))
        data = cs[:-1]
    else:
        data = cs
        if final is not None and not ok_fit and not cfg.get("lenient_limits"):
            # accepted although over the limits: only tolerable if nothing was violated
            n = len(ids)
            if n > (cfg.get("max_prefill_tokens") or 8192):
                s.viol("overlimit-accepted", "%s: prompt of %d tokens was run, prefill limit %d"
                       % (name, n, cfg.get("max_prefill_tokens")))
        if final is not None and op.get("poison"):
            pass
    # ----- token content
    got = None
    for c in data:
        toks = list(c.get("output_token_ids") or [])
        if got is not None and toks[:len(got)] != got:
            s.viol("stream-shrinks", "%s: token list does not extend the previous one" % name)
            return
        got = toks
    if final is not None and "error" not in final:
        reason = final.get("finished_reason")
        if reason == "abort":
            if not aborted:
                s.viol("wrong-reason", "%s: reported abort but nobody aborted it" % name)
            got_final = None
        else:
            got_final = got or []
    else:
        got_final = None
        reason = None
    greedy = sp.get("temperature", 1.0) < 1e-6
    if got:
        if greedy:
            exp, exp_reason = w.expect(ids, sp, got)
            if got_final is not None:
                if got != exp[:len(got)]:
                    room = context_room(ids, cfg)
                    s.viol("wrong-output-hybrid" if cfg.get("gdn") else "wrong-output",
                           "%s: prompt %s got %s, a fresh server gives %s" % (name, ids[:40], got[:40], exp[:40]))
                    greedy_check(w, name, ids, sp, got, exp)
                    return
                check_end(w, name, ids, sp, got, reason, exp, exp_reason)
            else:
                if got != exp[:len(got)]:
                    s.viol("wrong-output-hybrid" if cfg.get("gdn") else "wrong-output",
                           "%s (ended early): got %s, a fresh server gives %s" % (name, got[:40], exp[:40]))
                    greedy_check(w, name, ids, sp, got, exp)
                    return
        else:
            hist = list(ids)
            stop = set(sp.get("stop_token_ids") or []) | eos_set(cfg)
            bet = [[1.0] * ALTS for _ in WINDOWS]
            for k, t in enumerate(got):
                if not 0 <= t < 97:
                    s.viol("sample-not-allowed", "%s: token %d outside the vocabulary" % (name, t))
                    return
                if not op.get("nosample"):
                    al = allowed_set(hist, sp, cfg)
                    if t not in al:
                        s.viol("sample-not-allowed", "%s: token %d (#%d) not allowed by %s; allowed set has %d tokens"
                               % (name, t, k, sp, len(al)))
                        return
                    if "draws" in sim_cfg and not sim_cfg.get("draw_p"):
                        f = fit_factors(hist, sp, cfg, t)
                        if f:
                            for i, (lo, hi) in enumerate(WINDOWS):
                                if lo <= k < hi:
                                    bet[i] = [b * (0.05 + 0.95 * x) for b, x in zip(bet[i], f)]
                if t in stop and k != len(got) - 1:
                    s.viol("wrong-stop", "%s: generation ran past stop token %d" % (name, t))
                    return
                hist.append(t)
            w.bets = getattr(w, "bets", None) or []
            w.bets.append(([sum(b[a] for b in bet) / len(WINDOWS) for a in range(ALTS)], name, got))
            if got_final is not None:
                exp_reason = "eos" if got[-1] in stop else "length"
                check_end(w, name, ids, sp, got, reason, None, exp_reason)
    elif got_final is not None:
        s.viol("wrong-count", "%s: finished with no tokens" % name)
    # ----- counts
    for c in data:
        toks = c.get("output_token_ids") or []
        if "completion_tokens" in c and c["completion_tokens"] != len(toks):
            s.viol("stream-count" if op.get("stream") and not is_terminal(c) else "wrong-count",
                   "%s: completion_tokens %s but %d tokens" % (name, c["completion_tokens"], len(toks)))
            return
        if c.get("prompt_tokens") != len(ids):
            s.viol("wrong-count", "%s: prompt_tokens %s, real %d" % (name, c.get("prompt_tokens"), len(ids)))
            return
    # ----- text
    check_text(w, name, op, data, got_final)


def greedy_check(w, name, ids, sp, got, exp):
    """A greedy request that did not get the best-scoring token although the
    model saw a consistent history: the sampler is to blame."""
    if w.sim.probes.get("model-saw-inconsistent-cache") or w.cfg.get("gdn") or w.cfg.get("sliding_window"):
        return
    k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), None)
    if k is not None:
        w.sim.viol("greedy-not-best", "%s: token #%d is %d, the highest-scoring one is %d (%s)" % (name, k, got[k], exp[k], sp))


def check_end(w, name, ids, sp, got, reason, exp, exp_reason):
    s = w.sim
    cfg = w.cfg
    mx = effective_max(ids, sp, cfg)
    room = context_room(ids, cfg)
    stop = set(sp.get("stop_token_ids") or []) | eos_set(cfg)
    n = len(got)
    last_stop = got[-1] in stop
    if n > mx:
        s.viol("wrong-stop", "%s: %d tokens, max_new_tokens %d" % (name, n, mx))
    elif last_stop:
        if reason != "eos":
            s.viol("wrong-reason", "%s: ended with stop token %d, reason %r" % (name, got[-1], reason))
    elif n == mx:
        if reason != "length":
            s.viol("wrong-reason", "%s: ended after max_new_tokens=%d, reason %r" % (name, mx, reason))
    else:
        # neither a stop token nor the requested maximum: only the context/pool limit
        if n >= room - 1 and n <= room + 4 and reason == "length" and mx > room - 1:
            s.probe("context-limit-stop")
        else:
            s.viol("wrong-stop", "%s: ended after %d tokens (%r) without a stop token; max_new_tokens %d, room %d"
                   % (name, n, reason, mx, room))


def check_text(w, name, op, data, got_final):
    s = w.sim
    prev = ""
    acc = ""
    for c in data:
        if "text" not in c:
            continue
        toks = c.get("output_token_ids") or []
        full = decode(toks, True)
        text = c["text"]
        if is_terminal(c):
            if text != full:
                s.viol("stream-mismatch", "%s: final text %r, tokens decode to %r" % (name, text[-60:], full[-60:]))
                return
        else:
            if not full.startswith(text.rstrip("\ufffd")):
                s.viol("stream-mismatch", "%s: partial text %r is not a prefix of %r" % (name, text[-60:], full[-60:]))
                return
        if not text.startswith(prev):
            s.viol("stream-shrinks", "%s: text %r does not extend %r" % (name, text[-40:], prev[-40:]))
            return
        prev = text
        if op.get("stream"):
            acc += c.get("delta", "")
            if is_terminal(c):
                if acc != text:
                    s.viol("stream-mismatch", "%s: increments give %r, final text is %r" % (name, acc[-80:], text[-80:]))
                    return
            elif not text.startswith(acc):
                s.viol("stream-mismatch", "%s: increments %r are not a prefix of %r" % (name, acc[-60:], text[-60:]))
                return


# ------------------------------------------------------------------ final state
def containers(obj):
    d = getattr(obj, "__dict__", None)
    if d is None:
        return
    for k, v in d.items():
        if isinstance(v, (dict, set, frozenset, list, deque, tuple)):
            yield k, v


def find_rids(obj, rids):
    """Names of attributes of `obj` that still mention one of `rids`."""
    out = []
    for k, v in containers(obj):
        for x in list(v):
            r = x if isinstance(x, str) else getattr(x, "rid", None)
            if isinstance(x, dict):
                r = x.get("rid") or x.get("rids")
            if isinstance(r, list):
                hit = [y for y in r if y in rids]
                r = hit[0] if hit else None
            if isinstance(r, str) and r in rids:
                out.append((k, r))
                break
            if isinstance(v, dict):
                y = v[x]
                r2 = getattr(y, "rid", None)
                if isinstance(r2, str) and r2 in rids:
                    out.append((k, r2))
                    break
    return out


def lag_bound(plan):
    """How long a message may take through the pipeline under the injected delays."""
    sim = plan.get("sim") or {}
    jam = 0.0
    if sim.get("mpq_max"):
        # a small queue whose messages travel one after the other
        n = sum(1 + (o.get("batch") or 1) for o in plan.get("ops", ()))
        jam = n * max(sim.get("delays") or [0.0]) * 2 / sim["mpq_max"]
    return jam + 2.0 + 5 * max((sim.get("delays") or [0.0]) if sim.get("p_delay") else [0.0]) \
        + 3 * max((sim.get("stall_d") or [0.0]) if sim.get("stall_p") else [0.0]) \
        + sum(o.get("dur", 0.0) for o in plan.get("ops", ()) if o.get("op") == "stall")


def check_idle(w):
    """Nothing is in flight any more: everything must have been given back."""
    s = w.sim
    cfg = w.cfg
    if w.timed_out:
        return
    # abort runs on?
    bound = lag_bound(w.plan)
    for r, ts in s.after_abort.items():
        t0 = s.aborted_at[r]
        late = [t for t in ts if t > t0 + bound]
        if late:
            s.viol("abort-runs-on", "request %r still generating %.2f s after its abort (%d more steps)"
                   % (r, late[-1] - t0, len(late)))
            return
    if s.forwards and s.fwd_log and s.fwd_log[-1][0] > s.now - 0.5:
        s.viol("abort-runs-on", "the scheduler is still running %s although no client waits" % (s.fwd_log[-1][2],))
        return
    sched = s.objs.get("SchedulerProcess")
    used = getattr(sched, "_used_tokens", None)
    if used is not None:
        if used != 0:
            s.viol("budget-not-zero", "idle, but the token budget reads %d" % used)
    else:
        s.probe("oracle-skipped-budget")
    rids = set()
    for rec in w.recs:
        rids.update(rec.rids or ())
    ab = set(s.aborted_at)
    for name, obj in list(s.all_objs):
        if name in ("Engine", "SchedulerProcess", "ModelRunnerProcess", "TokenizerProcess", "DetokenizerProcess",
                    "RequestResponseProcess"):
            for attr, r in find_rids(obj, rids):
                s.viol("rid-leak", "%s.%s still holds finished request %r%s"
                       % (name, attr, r, " (aborted)" if r in ab else ""))
    if s.rq:
        s.viol("slot-leak", "idle, but request slots %s are still taken" % sorted(s.rq)[:8])
    pool = s.objs.get("ReqToTokenPool")
    if pool is not None and pool.available_size() != pool.size:
        s.viol("slot-leak", "idle, but %d of %d request slots are free" % (pool.available_size(), pool.size))
    alloc = s.objs.get("TokenToKVPoolAllocator")
    cache = s.objs.get("RadixCache") or s.objs.get("MambaRadixCache")
    if alloc is not None:
        full = alloc.size // alloc.page_size * alloc.page_size
        if cache is not None:
            prot = cache.protected_size() if hasattr(cache, "protected_size") else 0
            if prot:
                s.viol("kv-leak", "idle, but the prefix cache reports %d protected tokens" % prot)
            held = cache.total_size()
            if alloc.available_size() + held != full and alloc.page_size == 1:
                s.viol("kv-leak-abort" if ab else "kv-leak", "idle: %d slots free + %d held by the prefix cache != %d"
                       % (alloc.available_size(), held, full))
            ev = cache.evictable_size()
            if ev != held and not cfg.get("sliding_window"):
                s.viol("kv-leak", "idle: cache holds %d tokens but reports %d evictable" % (held, ev))
        if w.plan.get("evict_all", True) and not s.viols:
            if cache is not None:
                for _ in range(4):
                    cache.evict(10 ** 9)
            if alloc.available_size() != full:
                s.viol("kv-leak-abort" if ab else "kv-leak",
                       "idle and the prefix cache emptied, but only %d of %d KV slots are free"
                       % (alloc.available_size(), full))
            g = s.objs.get("GDNPool")
            if g is not None and s.tr:
                s.viol("track-leak", "idle and cache emptied, but snapshot slots %s are still taken" % sorted(s.tr)[:8])
    if s.shm:
        s.viol("shm-leak", "idle, but %d shared segments remain: %s" % (len(s.shm), sorted(s.shm)[:3]))
