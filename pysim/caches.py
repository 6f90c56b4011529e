"""P09 / P10: simulated clients interleaved over the real prefix caches, against
a page-level reference model.

Every client is a request life cycle (look up, lock, allocate, insert, look up
again, decode, insert, unlock, free) cut into steps; the chooser decides who
runs next, who dies where, and what is evicted in between.
"""
import copy
import itertools

from . import kernel
from .kernel import Sim


class Bad(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg = cls, msg


class Page:
    __slots__ = ("kids", "up", "ns", "tok", "slots", "tomb", "lo", "hi", "locks", "swalocks", "state", "slocks", "depth")

    def __init__(self, up, ns, tok, slots, depth):
        self.kids = {}
        self.up, self.ns, self.tok, self.slots, self.depth = up, ns, tok, slots, depth
        self.tomb = False
        self.lo = self.hi = 0.0
        self.locks = self.swalocks = self.slocks = 0
        self.state = None


class Model:
    def __init__(self, page, window):
        self.page, self.window = page, window
        self.roots = {}

    def split(self, key):
        p = self.page
        n = len(key) // p * p
        return [tuple(key[i:i + p]) for i in range(0, n, p)]

    def walk(self, ns, key):
        cur, out = self.roots.setdefault(ns, {}), []
        for t in self.split(key):
            if t not in cur:
                break
            out.append(cur[t])
            cur = cur[t].kids
        return out

    def all(self):
        st = [p for r in self.roots.values() for p in r.values()]
        while st:
            p = st.pop()
            yield p
            st.extend(p.kids.values())

    def valid(self, path):
        """Longest usable prefix under a sliding window."""
        if self.window is None:
            return path
        best, run, whole = 0, 0, True
        for i, p in enumerate(path):
            if p.tomb:
                run, whole = 0, False
            else:
                run += len(p.slots)
                if whole or run >= self.window:
                    best = i + 1
        return path[:best]

    def touch(self, path, now, sure=True):
        for p in path:
            p.hi = now
            if sure:
                p.lo = now
        # the rest of an entry that was used in part may count as used too
        if path:
            p = path[-1]
            while len(p.kids) == 1:
                p = next(iter(p.kids.values()))
                p.hi = now

    def remove(self, p):
        c = p.up.kids if p.up is not None else self.roots[p.ns]
        del c[p.tok]


class Pool:
    """Owner book-keeping around the real slot allocator."""

    def __init__(self, run, size):
        import torch
        from pymllm.mem_cache.memory_pool import TokenToKVPoolAllocator
        self.t = torch
        self.run = run
        self.real = TokenToKVPoolAllocator(size, device="cpu")
        self.device = self.real.device
        self.size = size
        self.owner = {}
        self.swa_gone = set()
        self.freed = []

    def alloc(self, n, who):
        a = self.real.alloc(n)
        if a is None:
            return None
        l = a.tolist()
        if len(l) != n:
            raise Bad("cache-slot", "allocator returned %d slots for %d" % (len(l), n))
        for s in l:
            if not 1 <= s <= self.size:
                raise Bad("cache-slot", "slot %d outside the pool of %d" % (s, self.size))
            if s in self.owner:
                raise Bad("cache-slot", "slot %d handed out while it belongs to %s" % (s, self.owner[s]))
            self.owner[s] = who
            self.swa_gone.discard(s)
        return l

    def free(self, idx):
        l = idx.tolist() if hasattr(idx, "tolist") else list(idx)
        for s in l:
            if s not in self.owner:
                raise Bad("cache-slot", "slot %d freed twice" % s)
            if self.run.guard is not None and not self.run.guard(s, self.owner[s]):
                raise Bad("cache-slot", "slot %d of %s freed by someone else" % (s, self.owner[s]))
            del self.owner[s]
        self.freed.append(("full", l))
        self.real.free(self.t.tensor(l, dtype=self.t.int64))

    def free_swa(self, idx):
        l = idx.tolist()
        for s in l:
            if s not in self.owner or s in self.swa_gone:
                raise Bad("cache-slot", "window part of slot %d freed twice" % s)
            self.swa_gone.add(s)
        self.freed.append(("swa", l))

    def avail(self):
        return self.real.available_size()


class States:
    """Stand-in for the recurrent-state pool: a slot list with double-free detection."""

    def __init__(self, n):
        self.free_l = list(range(n))
        self.owner = {}
        self.freed = []

    def alloc(self, n, who):
        if n > len(self.free_l):
            return None
        out = [self.free_l.pop() for _ in range(n)]
        for s in out:
            self.owner[s] = who
        return out

    def free_track_slot(self, s):
        if s not in self.owner:
            raise Bad("cache-slot", "recurrent-state slot %d freed twice" % s)
        del self.owner[s]
        self.freed.append(s)
        self.free_l.append(s)


class CacheRun:
    def __init__(self, plan, ch):
        import torch
        from pymllm.mem_cache.base_prefix_cache import RadixKey
        from pymllm.mem_cache import radix_cache, mamba_radix_cache
        self.t, self.RadixKey = torch, RadixKey
        self.plan, self.ch, self.cfg = plan, ch, plan["cfg"]
        c = self.cfg
        self.sim = Sim(ch)
        kernel._tls.sim = self.sim
        self.guard = None
        self.flavour = c["flavour"]
        self.page, self.window = c.get("page", 1), c.get("window")
        self.pool = Pool(self, c["size"])
        self.states = None
        self.evicted_ids = []
        if self.flavour == "mamba":
            self.states = States(c["states"])
            self.cache = mamba_radix_cache.MambaRadixCache(
                page_size=self.page, token_to_kv_pool_allocator=self.pool, mamba_pool=self.states,
                on_node_evict=self.evicted_ids.append)
        else:
            self.cache = radix_cache.RadixCache(
                page_size=self.page, sliding_window_size=self.window, token_to_kv_pool_allocator=self.pool,
                on_node_evict=self.evicted_ids.append)
        self.m = Model(self.page, self.window)
        self.hash = 0
        self.steps = 0
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.live_ids = {}
        self.handles = {}
        self.hn = 0
        self.log = []

    def ev(self, *a):
        self.hash = kernel.hash_mix(self.hash, repr(a))
        self.log.append(a)

    def probe(self, n):
        self.probes[n] = self.probes.get(n, 0) + 1

    def fault(self, n):
        self.faults[n] = self.faults.get(n, 0) + 1

    def ten(self, l):
        return self.t.tensor(l, dtype=self.t.int64)

    def now(self):
        return self.sim.now + 1000.0

    # ------------------------------------------------------------- operations
    def match(self, ns, key, quiet=False):
        path = self.m.walk(ns, key)
        r = self.cache.match_prefix(self.RadixKey(list(key), ns))
        self.m.touch(path, self.now())
        path = self.m.valid(path)
        exp = [s for p in path for s in p.slots]
        got = r.indices.tolist()
        self.ev("match", ns, tuple(key), got)
        if r.prefix_len != len(got):
            raise Bad("cache-lookup", "prefix_len %d but %d slots" % (r.prefix_len, len(got)))
        if got != exp:
            raise Bad("cache-lookup", "lookup of %s/%s returns slots %s, stored %s" % (ns, list(key), got, exp))
        if path:
            self.probe("hit")
        if self.states is not None:
            first = None
            at = 0
            for p in path:
                if p.state is None and first is None:
                    first = at
                at += len(p.slots)
            if r.mamba_branching_seqlen != first:
                raise Bad("cache-lookup", "recurrent state said to be missing from %s, really from %s"
                          % (r.mamba_branching_seqlen, first))
            if path and path[-1].state is not None:
                n = len(r.last_node.value)
                st = [x for p in path for x in (p.state or [None] * len(p.slots))][-n:]
                mv = r.last_node.mamba_value
                if mv is None or mv.tolist() != st:
                    raise Bad("cache-lookup", "checkpoint of the matched prefix is %s, stored %s"
                              % (None if mv is None else mv.tolist(), st))
                self.probe("checkpoint-hit")
        return r, path

    def lock(self, r, path):
        tok = self.cache.inc_lock_ref(r.last_node)
        for p in path:
            p.locks += 1
        sw = []
        if self.window is not None:
            n = 0
            for p in reversed(path):
                if n >= self.window:
                    break
                n += len(p.slots)
                if not p.tomb:
                    p.swalocks += 1
                    sw.append(p)
        st = []
        if self.states is not None and path and path[-1].state is not None:
            n = len(r.last_node.value)
            for p in reversed(path):
                if n <= 0:
                    break
                n -= len(p.slots)
                p.slocks += 1
                st.append(p)
        self.ev("lock", len(path))
        self.hn += 1
        self.handles[self.hn] = True
        return (r.last_node, tok, list(path), sw, st, self.hn)

    def unlock(self, h):
        node, tok, path, sw, st, n = h
        del self.handles[n]
        for p in path:
            p.locks -= 1
        for p in sw:
            p.swalocks -= 1
        for p in st:
            p.slocks -= 1
        self.cache.dec_lock_ref(node, tok)
        self.ev("unlock", len(path))

    def insert(self, who, ns, key, slots, plen, swa_evicted=0, state=None):
        """Returns prefix length; ownership of the whole-page part passes over."""
        pages = self.m.split(key)
        old = self.m.walk(ns, key)
        al = len(pages) * self.page
        self.pool.freed = []
        self.guard = lambda s, o: self.window is not None and (o == who or o == "tree")
        kw = {}
        if self.states is not None:
            kw["mamba_value"] = None if state is None else self.ten(state)
        elif self.window is not None:
            kw["swa_evicted_seqlen"] = swa_evicted
        r = self.cache.insert(self.RadixKey(list(key), ns), self.ten(slots), prev_prefix_len=plen, **kw)
        self.guard = None
        now = self.now()
        self.ev("insert", ns, tuple(key), r.prefix_len, self.pool.freed)
        have = len(old) * self.page
        if r.prefix_len != have:
            raise Bad("cache-insert", "insert of %s/%s reports %d tokens already present, really %d"
                      % (ns, list(key), r.prefix_len, have))
        freed = set(s for k, l in self.pool.freed for s in l)
        if self.window is None and freed:
            raise Bad("cache-insert", "insert freed slots %s" % sorted(freed))
        if self.window is not None:
            for i, p in enumerate(old):
                a, b = i * self.page, (i + 1) * self.page
                inc = slots[a:b]
                if b <= plen:
                    if inc != p.slots:
                        raise Bad("sim-cache", "client prefix differs from the tree")
                    if any(s in freed for s in inc):
                        raise Bad("cache-insert", "insert freed slots %s of the protected prefix" % inc)
                    continue
                if p.slots == inc:
                    raise Bad("sim-cache", "client re-inserts tree slots beyond its prefix")
                fi, fo = [s in freed for s in inc], [s in freed for s in p.slots]
                if all(fi) and not any(fo):
                    pass
                elif all(fo) and not any(fi) and p.tomb and a >= swa_evicted:
                    if p.locks:
                        raise Bad("cache-locked", "insert replaced slots %s of an entry in use" % p.slots)
                    p.slots = list(inc)
                    p.tomb = False
                    for s in inc:
                        self.pool.owner[s] = "tree"
                    self.probe("untombstone")
                else:
                    raise Bad("cache-insert", "duplicate page: incoming %s freed %s, stored %s freed %s (tombstone %s)"
                              % (inc, fi, p.slots, fo, p.tomb))
        # the hybrid cache does not count storing over an entry as using it
        self.m.touch(old, now, self.states is None)
        parent = old[-1] if old else None
        for i in range(len(old), len(pages)):
            sl = list(slots[i * self.page:(i + 1) * self.page])
            p = Page(parent, ns, pages[i], sl, i)
            p.lo = p.hi = now
            (parent.kids if parent is not None else self.m.roots.setdefault(ns, {}))[pages[i]] = p
            p.tomb = self.window is not None and (i + 1) * self.page <= swa_evicted
            for s in sl:
                if self.pool.owner.get(s) != who:
                    raise Bad("sim-cache", "client inserts slot %s owned by %s" % (s, self.pool.owner.get(s)))
                self.pool.owner[s] = "tree"
            parent = p
        if self.states is not None and state is not None:
            path = self.m.walk(ns, key)
            taken = set()
            if path:
                n = len(r.last_node.value)
                last = path[-(n // self.page):]
                exist = old and len(old) == len(pages) and path[-1].state is not None
                if bool(r.mamba_exist) != bool(exist):
                    raise Bad("cache-insert", "insert reports mamba_exist=%s, really %s" % (r.mamba_exist, bool(exist)))
                if not exist:
                    for p in last:
                        i = p.depth * self.page
                        if p.state is not None:
                            raise Bad("cache-insert", "an entry with a checkpoint got another one")
                        p.state = list(state[i:i + self.page])
                        for x in p.state:
                            self.states.owner[x] = "tree"
                            taken.add(x)
                        self.probe("checkpoint-stored")
            for x in state:
                if x not in taken:
                    self.states.free_track_slot(x)
        elif self.states is None and r.last_node is not None and self.m.walk(ns, key):
            self.live_ids[r.last_node.id] = (ns, tuple(key[:al]))
        return r.prefix_len

    def evict(self, n, n2=0):
        self.fault("evict")
        where = {s: p for p in self.m.all() for s in p.slots}
        swhere = {x: p for p in self.m.all() for x in (p.state or ())}
        unlocked_leaf_before = [p for p in self.m.all() if not p.kids and not p.locks]
        self.pool.freed = []
        if self.states is not None:
            self.states.freed = []
        self.guard = lambda s, o: o == "tree"
        self.evicted_ids[:] = []
        before = self.sim.now
        r = self.cache.evict(n, n2)
        self.guard = None
        self.ev("evict", n, n2, self.pool.freed)
        full = [l for k, l in self.pool.freed if k == "full"]
        gone = set()
        for l in full:
            for s in l:
                gone.add(where[s])
        for p in gone:
            if p.locks:
                raise Bad("cache-locked", "eviction removed %s, which is in use" % (p.slots,))
            if any(k not in gone for k in p.kids.values()):
                raise Bad("cache-evict", "eviction removed %s but kept a longer entry" % (p.slots,))
            if any(s in self.pool.owner for s in p.slots):
                raise Bad("cache-evict", "only a part of %s was freed" % (p.slots,))
        total = sum(len(l) for l in full)
        if r.full_evicted != total:
            raise Bad("cache-evict", "evict reports %d tokens, freed %d" % (r.full_evicted, total))
        # phase 1 is over at the first window-only release or when the amount is reached
        if n > 0 and total < n and any(not p.locks and p not in gone and not any(self.busy(k) for k in [p])
                                       for p in self.m.all()):
            raise Bad("cache-evict", "evict(%d) freed %d although unlocked entries remain" % (n, total))
        if n2 == 0 and n > 0:
            acc = 0
            for l in full:
                if acc >= n and not where[l[0]].tomb:
                    raise Bad("cache-evict", "evict(%d) went on after freeing %d" % (n, acc))
                acc += len(l)
        if n == 0 and n2 == 0 and (full or self.pool.freed):
            raise Bad("cache-evict", "evict(0) freed something")
        if n2 == 0:
            kept = [p for p in unlocked_leaf_before if p not in gone]
            if kept:
                y = min(kept, key=lambda p: p.hi)
                for x in gone:
                    if x.lo > y.hi and not x.tomb:
                        raise Bad("cache-lru", "evicted %s (used at %.6f) before %s (used at %.6f)"
                                  % (x.slots, x.lo, y.slots, y.hi))
            if gone:
                self.probe("evicted")
        for p in gone:
            if p.state is not None:
                for x in p.state:
                    if x in self.states.owner:
                        raise Bad("cache-evict", "an entry was removed but its recurrent state %d is still held" % x)
        for p in sorted(gone, key=lambda p: -p.depth):
            self.m.remove(p)
        for k, l in self.pool.freed:
            if k == "swa":
                for s in l:
                    p = where[s]
                    if p in gone:
                        continue
                    if p.swalocks:
                        raise Bad("cache-locked", "window part of %s released while in use" % (p.slots,))
                    if not p.tomb:
                        self.probe("tombstone")
                    p.tomb = True
        if self.window is not None and n2:
            got = r.swa_evicted
            if got < n2 and any(not p.tomb and not p.swalocks and not self.near_lock(p) for p in self.m.all()):
                raise Bad("cache-evict", "evict(swa %d) released %d although unlocked window entries remain" % (n2, got))
        if self.states is not None:
            sgone = set(swhere[x] for x in self.states.freed)
            for p in sgone:
                if p in gone:
                    continue
                if p.slocks:
                    raise Bad("cache-locked", "recurrent state of %s released while in use" % (p.slots,))
                p.state = None
                self.probe("checkpoint-evicted")
            nst = len(self.states.freed)
            kept = [p for p in self.m.all() if p.state is not None and not p.slocks and p not in gone]
            if kept and n == 0:
                y = min(kept, key=lambda p: p.hi)
                for x in sgone:
                    if x.lo > y.hi:
                        raise Bad("cache-lru", "evicted the state of %s (used at %.6f) before that of %s (used at %.6f)"
                                  % (x.slots, x.lo, y.slots, y.hi))
            if r.mamba_evicted != nst:
                raise Bad("cache-evict", "evict reports %d state slots, freed %d" % (r.mamba_evicted, nst))
            if nst < n2 and any(p.state is not None and not p.slocks for p in self.m.all()):
                raise Bad("cache-evict", "evict(state %d) freed %d although unlocked state remains" % (n2, nst))
        return r

    def busy(self, p):
        """Some longer entry through p is in use."""
        st = list(p.kids.values())
        while st:
            q = st.pop()
            if q.locks:
                return True
            st.extend(q.kids.values())
        return False

    def near_lock(self, p):
        """Window locks may cover a whole entry around the locked window."""
        return p.locks > 0

    # ------------------------------------------------------------- invariants
    def check(self, deep):
        c = self.cache
        n = lk = nt = st = sl = 0
        for p in self.m.all():
            k = len(p.slots)
            n += k
            if p.locks:
                lk += k
            if not p.tomb:
                nt += k
            if p.state is not None:
                st += k
                if p.slocks:
                    sl += k
        if c.total_size() != n:
            raise Bad("cache-size", "total_size %d, stored %d" % (c.total_size(), n))
        if (c.evictable_size(), c.protected_size()) != (n - lk, lk):
            raise Bad("cache-size", "evictable %d protected %d, contents %d / %d"
                      % (c.evictable_size(), c.protected_size(), n - lk, lk))
        if self.window is not None:
            a, b = c.swa_evictable_size(), c.swa_protected_size()
            if a + b != nt or a < 0 or b < 0:
                raise Bad("cache-size", "window counters %d + %d, contents %d" % (a, b, nt))
            if not self.handles and b:
                raise Bad("cache-size", "window tokens protected (%d) without any user" % b)
        if self.states is not None:
            if (c.mamba_evictable_size(), c.mamba_protected_size()) != (st - sl, sl):
                raise Bad("cache-size", "state evictable %d protected %d, contents %d / %d"
                          % (c.mamba_evictable_size(), c.mamba_protected_size(), st - sl, sl))
            ow = sum(1 for o in self.states.owner.values() if o == "tree")
            if ow != st:
                raise Bad("cache-slot", "%d state slots stored, %d owned by the tree" % (st, ow))
        ow = sum(1 for o in self.pool.owner.values() if o == "tree")
        if ow != n:
            raise Bad("cache-slot", "%d slots stored, %d owned by the tree" % (n, ow))
        if self.pool.avail() + len(self.pool.owner) != self.pool.size:
            raise Bad("cache-slot", "%d slots free, %d owned, pool of %d"
                      % (self.pool.avail(), len(self.pool.owner), self.pool.size))
        if deep:
            memo = {id(self.pool): None}
            if self.states is not None:
                memo[id(self.states)] = None
            cl = copy.deepcopy(c, memo)
            for p in list(self.m.all()):
                if p.kids:
                    continue
                key, q, path = [], p, []
                while q is not None:
                    key[:0] = q.tok
                    path.insert(0, q)
                    q = q.up
                path = self.m.valid(path)
                got = cl.match_prefix(self.RadixKey(key, p.ns)).indices.tolist()
                exp = [s for q in path for s in q.slots]
                if got != exp:
                    raise Bad("cache-lookup", "stored %s/%s no longer returns its slots: %s, stored %s"
                              % (p.ns, key, got, exp))

    # ------------------------------------------------------------- clients
    def alloc(self, who, n):
        got = self.pool.alloc(n, who)
        k = 0
        while got is None and k < 4:
            if self.cache.evictable_size() == 0:
                return None
            self.evict(max(n, int(self.pool.size * 0.1)))
            got = self.pool.alloc(n, who)
            k += 1
        return got

    def sequence(self, spec):
        return list(spec["key"])

    def client(self, i, spec):
        who = "c%d" % i
        ns, key = spec.get("ns"), list(spec["key"])
        r, path = self.match(ns, key)
        plen = len(path) * self.page
        h = None
        if spec.get("cap") and plen >= len(key) - 1:
            # like the runner: at least two tokens are always computed
            keep = max(0, len(key) - 2)
            if self.window is not None:
                keep = plen if any(p.tomb for p in path) else keep // self.page * self.page
        else:
            keep = plen
        if keep > 0 and plen:
            h = self.lock(r, path)
        use = keep
        own_from = use
        yield
        pre = [s for p in path for s in p.slots][:use]
        new = self.alloc(who, len(key) - use)
        if new is None:
            self.probe("alloc-failed")
            if h:
                self.unlock(h)
            return
        slots = pre + new
        prot = use // self.page * self.page
        yield
        if spec.get("die") == 1:
            self.fault("client-death")
            self.pool.free([s for s in slots[own_from:]])
            if h:
                self.unlock(h)
            return
        # a capped hit re-inserts own copies for the capped part
        if self.window is not None and prot < plen:
            prot = use
        if spec.get("mid", True):
            out = yield from self.put(who, ns, key, slots, use, 0, spec)
            new_slots, got, h = self.adopt(who, ns, key, slots, h, out, use)
            if new_slots is None:
                if h:
                    self.unlock(h)
                return
            slots, use = new_slots, got
            yield
        for k, t in enumerate(spec.get("decode", ())):
            one = self.alloc(who, 1)
            if one is None:
                self.probe("alloc-failed")
                break
            slots = slots + one
            key = key + [t]
            yield
            if spec.get("die") == 2 and k == len(spec["decode"]) // 2:
                self.fault("client-death")
                spec = dict(spec, final=False)
                break
        swa_ev = 0
        if self.window is not None and spec.get("swa_free", True):
            swa_ev = max(0, len(key) - self.window) // self.page * self.page
            mine = [s for s in slots[use:swa_ev]]
            if mine:
                self.pool.free_swa(self.ten(mine))
            else:
                swa_ev = 0 if swa_ev <= use else swa_ev
        if spec.get("final", True):
            out = yield from self.put(who, ns, key, slots, use, swa_ev, spec)
            al = len(key) // self.page * self.page
            if not self.window and out > use:
                self.free_own(who, slots[use:out])
            tail = slots[al:] if al >= use else slots[use:]
            if tail:
                self.free_own(who, tail)
        else:
            self.free_own(who, slots[use:])
        if h:
            self.unlock(h)

    def free_own(self, who, l):
        for s in l:
            if self.pool.owner.get(s) != who:
                raise Bad("sim-cache", "client %s frees slot %d of %s" % (who, s, self.pool.owner.get(s)))
        self.pool.free(l)

    def put(self, who, ns, key, slots, use, swa_ev, spec):
        st = None
        al = len(key) // self.page * self.page
        if self.states is not None and spec.get("state") and al:
            st = self.states.alloc(al, who)
            if st is None:
                self.cache_evict_states(al)
                st = self.states.alloc(al, who)
        n = self.insert(who, ns, key, slots, use, swa_ev, st)
        return n
        yield

    def cache_evict_states(self, n):
        self.evict(0, n)

    def adopt(self, who, ns, key, slots, h, out, use):
        """Free duplicates, look the key up again and continue on the tree's slots."""
        al = len(key) // self.page * self.page
        if not self.window and out > use:
            self.free_own(who, slots[use:out])
        r, path = self.match(ns, key)
        got = len(path) * self.page
        if self.window is None and got != al:
            raise Bad("cache-lookup", "just stored %d tokens of %s, lookup returns %d" % (al, key, got))
        h2 = self.lock(r, path) if got else None
        if h:
            self.unlock(h)
        if got < al:
            self.free_own(who, slots[al:])
            self.probe("rematch-short")
            return None, got, h2
        new = [s for p in path for s in p.slots] + slots[al:]
        return new, al, h2

    # ------------------------------------------------------------- run
    def run(self):
        ch = self.ch
        live = []
        todo = list(enumerate(self.plan["ops"]))
        maxlive = self.cfg.get("clients", 4)
        viol = []
        try:
            while todo or live:
                self.steps += 1
                self.sim.now += (1e-5, 1e-3, 1.0)[ch.choose(3)]
                can_new = bool(todo) and len(live) < maxlive
                k = ch.choose(len(live) + (1 if can_new else 0))
                if k == len(live):
                    i, spec = todo.pop(0)
                    op = spec["op"]
                    if op == "client":
                        g = self.client(i, spec)
                        self.hash = kernel.hash_mix(self.hash, "n%d" % i)
                        if not self.step(g):
                            live.append(g)
                    elif op == "evict":
                        self.evict(spec["n"], spec.get("n2", 0) if (self.window or self.states) else 0)
                    elif op == "match":
                        self.match(spec.get("ns"), spec["key"])
                    elif op == "reset":
                        if not live:
                            self.cache.reset()
                            self.m.roots.clear()
                            self.pool.owner.clear()
                            self.pool.real.clear()
                            if self.states is not None:
                                self.states.__init__(self.cfg["states"])
                            self.fault("reset")
                else:
                    self.hash = (self.hash * 31 + k) & 0xFFFFFFFFFFFF
                    if self.step(live[k]):
                        live.pop(k)
                self.check(deep=self.steps % 16 == 0)
            self.check(True)
            self.evict(10 ** 9, 0)
            self.check(True)
            if self.cache.total_size() or self.pool.avail() != self.pool.size:
                raise Bad("cache-slot", "after evicting everything %d tokens stored, %d of %d slots free"
                          % (self.cache.total_size(), self.pool.avail(), self.pool.size))
        except Bad as e:
            viol.append((e.cls, e.msg))
        except (AssertionError, AttributeError, KeyError, IndexError, TypeError, ValueError, RuntimeError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            inside = any("/pymllm/" in f.filename for f in tb)
            viol.append(("cache-crash" if inside else "sim-cache", "%s: %s at %s" % (type(e).__name__, e, tb[-1])))
        finally:
            kernel._tls.sim = None
        return {"violations": viol, "reason": "done", "hash": self.hash, "steps": self.steps, "switches": self.steps,
                "sim_time": self.sim.now, "faults": self.faults, "probes": self.probes, "trace": ch.rec,
                "log": self.log, "stats": {"forwards": 1}, "errors": [], "nontrivial": bool(self.probes)}

    def step(self, g):
        try:
            next(g)
            return False
        except StopIteration:
            return True


def gen(flavours):
    def g(rng, tier):
        fl = rng.choice(flavours)
        page = rng.choice([1, 1, 1, 2, 4])
        cfg = {"flavour": fl, "page": page, "size": rng.choice([40, 64, 128, 300]), "clients": rng.choice([1, 2, 4, 8])}
        if fl == "swa":
            cfg["window"] = rng.choice([x for x in (1, 2, 4, 8, 16) if x >= page])
        if fl == "mamba":
            cfg["states"] = rng.choice([64, 200])
        vocab = rng.choice([2, 2, 3, 5])
        fams = []

        def key(hi=24):
            if fams and rng.random() < 0.75:
                b = list(rng.choice(fams))
                b = b[:rng.randint(1, len(b))] if rng.random() < 0.7 else b
                b = b + [1 + rng.randrange(vocab) for _ in range(rng.choice([0, 0, 1, 2, 5, 9]))]
            else:
                b = [1 + rng.randrange(vocab) for _ in range(rng.randint(1, hi))]
            b = b[:30] or [1]
            fams.append(b)
            if len(fams) > 8:
                fams.pop(rng.randrange(8))
            return b
        nss = [None] if rng.random() < 0.5 else [None, "a", "b"]
        ops = []
        for i in range(rng.choice([6, 15, 30, 60] + ([150] if tier == "thorough" else []))):
            r = rng.random()
            if r < 0.7:
                o = {"op": "client", "key": key(), "ns": rng.choice(nss)}
                if rng.random() < 0.5:
                    o["decode"] = [1 + rng.randrange(vocab) for _ in range(rng.choice([1, 3, 8, 20]))]
                if rng.random() < 0.15:
                    o["die"] = rng.choice([1, 2])
                if rng.random() < 0.2:
                    o["mid"] = False
                if rng.random() < 0.1:
                    o["final"] = False
                if rng.random() < 0.3:
                    o["swa_free"] = False
                if fl == "mamba" and rng.random() < 0.6:
                    o["state"] = True
            elif r < 0.85:
                o = {"op": "evict", "n": rng.choice([0, 1, 2, 5, 20, 1000])}
                if fl != "radix" and rng.random() < 0.7:
                    o["n2"] = rng.choice([1, 3, 10, 1000])
                    if rng.random() < 0.6:
                        o["n"] = 0
            elif r < 0.99:
                o = {"op": "match", "key": key(), "ns": rng.choice(nss)}
            else:
                o = {"op": "reset"}
            ops.append(o)
        return {"kind": "cache", "cfg": cfg, "ops": ops}
    return g


def run(plan, ch):
    from pymllm.mem_cache import radix_cache
    radix_cache._node_counter = 0
    return CacheRun(plan, ch).run()
