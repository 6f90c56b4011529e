"""Deterministic simulation kernel.

Actors are real threads, but exactly one holds the baton at any time; who runs
next, how long messages take and which faults fire are decided by a Chooser
(seeded PRNG, or a recorded decision list on replay).  Time is virtual.
"""
import gc
import heapq
import random
import sys
import threading
import traceback

READY, BLOCKED, DONE = 0, 1, 2


class SimExit(BaseException):
    """Unwinds an actor thread when the run is over (or the actor is killed)."""


class Chooser:
    """Every nondeterministic decision of a run goes through here.

    Choice 0 is always the 'boring' one, so a trace can be minimised by
    truncating it or zeroing parts of it.
    """

    def __init__(self, seed=None, trace=None):
        self.rng = random.Random(seed) if trace is None else None
        self.seed = seed
        self.trace = trace
        self.pos = 0
        self.rec = []

    def choose(self, n, p0=None):
        """Return an int in [0, n). p0 = probability of choice 0 (else uniform)."""
        if n <= 1:
            return 0
        if self.trace is not None:
            v = self.trace[self.pos] if self.pos < len(self.trace) else 0
            self.pos += 1
            v = v % n
        else:
            if p0 is not None and self.rng.random() < p0:
                v = 0
            elif p0 is not None:
                v = 1 + self.rng.randrange(n - 1)
            else:
                v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def flip(self, p):
        """True with probability p; choice 0 = False."""
        if p <= 0:
            return False
        return self.choose(2, 1.0 - p) == 1


class Actor:
    __slots__ = ("sim", "name", "proc", "fn", "sem", "state", "cond", "deadline",
                 "thread", "dead", "stall_until", "idx", "exc", "on_exit", "switches",
                 "timed_out")

    def __init__(self, sim, name, fn, proc, idx):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.proc = proc
        self.sem = threading.Semaphore(0)
        self.state = READY
        self.cond = None
        self.deadline = None
        self.dead = False
        self.stall_until = 0.0
        self.idx = idx
        self.exc = None
        self.on_exit = None
        self.timed_out = False
        self.thread = None

    def _main(self):
        self.sem.acquire()
        sim = self.sim
        try:
            if not sim.ended and not self.dead:
                sim.install_thread(self)
                if sim.p_line and sim.line_files:
                    if sim.gap is None:
                        sim.gap = sim.next_gap()
                    sys.settrace(self._trace)
                self.fn()
        except SimExit:
            pass
        except BaseException as e:  # noqa: an actor died by itself
            self.exc = e
            if not sim.ended:
                sim.event("actor-exc", self.name, type(e).__name__ + ": " + str(e)[:200])
                sim.actor_errors.append(
                    (self.name, type(e).__name__, str(e)[:300], traceback.format_exc()))
        self.state = DONE
        if sim.ended:
            self.thread_done()
            return
        if self.on_exit is not None:
            try:
                self.on_exit(self)
            except SimExit:
                pass
        if sim.main_actor is self:
            sim.end("done")
            return
        sim._handoff(self)

    # -- preemption between any two lines of the code under test
    def _trace(self, frame, event, arg):
        c = frame.f_code
        if c.co_name != "__del__" and c.co_filename.endswith(self.sim.line_files):
            return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        sim = self.sim
        if event == "line" and not sim.ended and sim.cur is self:
            sim.gap -= 1
            if sim.gap <= 0:
                sim.gap = sim.next_gap()
                sim.fault("preempted")
                d = sim.ch.choose(8)
                if d < 4:
                    sim.yield_()
                else:
                    sim.sleep((0.001, 0.01, 0.1, 0.5)[d - 4])
        return self._trace_line

    def thread_done(self):
        pass


class Proc:
    """A simulated operating-system process: a set of actors and handles."""
    _ids = 0

    def __init__(self, sim, name):
        sim.nproc += 1
        self.sim = sim
        self.pid = 4000 + sim.nproc
        self.name = name
        self.alive = True
        self.exitcode = None
        self.actors = []
        self.handles = []   # objects with .proc_dead()

    def kill(self, code):
        if not self.alive:
            return
        self.alive = False
        self.exitcode = code
        for a in self.actors:
            if a.state != DONE:
                a.dead = True
        for h in list(self.handles):
            h.proc_dead()
        self.sim.event("proc-dead", self.name, code)


class Sim:
    def __init__(self, chooser, max_steps=200000, max_time=7200.0, t0=1700000000.0,
                 switch_p=0.6):
        self.ch = chooser
        self.now = 0.0
        self.t0 = t0
        self.clock_off = 0.0
        self.p_line = 0.0
        self.gap = None
        self.preempts = 200
        self.line_files = ()
        self.actors = []
        self.nproc = 0
        self.cur = None
        self.ended = False
        self.end_reason = None
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.done_evt = threading.Event()
        self.timers = []
        self.tseq = 0
        self.log = []          # event log (history)
        self.seq = 0
        self.actor_errors = []
        self.main_actor = None
        self.faults = {}       # kind -> times fired
        self.probes = {}       # rare-condition counters
        self.switch_p = switch_p
        self.uuid_n = 0
        self.hash = 0
        self.violation = None
        self.switches = 0
        self.reads = 0
        self.objs = {}         # real objects registered by class name

    # -- logging ---------------------------------------------------------
    def event(self, *a):
        self.seq += 1
        self.log.append((self.seq, round(self.now, 6)) + a)
        self.hash = hash_mix(self.hash, repr(a))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, cls, msg):
        """Record the first violation and stop the run."""
        if self.violation is None and not self.ended:
            self.violation = (cls, msg)
            self.event("VIOLATION", cls, msg)
            self.end("violation")
            raise SimExit()

    # -- actors ----------------------------------------------------------
    def spawn(self, name, fn, proc=None):
        a = Actor(self, name, fn, proc, len(self.actors))
        self.actors.append(a)
        if proc is not None:
            proc.actors.append(a)
        a.thread = threading.Thread(target=a._main, name="sim-" + name, daemon=True)
        a.thread.start()
        return a

    def next_gap(self):
        """Lines until the next preemption; the default is never."""
        self.preempts -= 1
        if self.preempts < 0 or not self.ch.flip(0.999):
            return 1 << 60
        return int(self.ch.choose(64) / 32.0 / self.p_line) + 1

    def install_thread(self, actor):
        _tls.sim = self
        _tls.actor = actor

    def call_at(self, t, fn):
        self.tseq += 1
        heapq.heappush(self.timers, (t, self.tseq, fn))

    # -- scheduling ------------------------------------------------------
    def _runnable(self):
        out = []
        now = self.now
        for a in self.actors:
            if a.state == DONE or a.dead or a.stall_until > now:
                continue
            if a.state == READY:
                out.append(a)
            else:
                if a.cond is not None and a.cond():
                    a.timed_out = False
                    out.append(a)
                elif a.deadline is not None and a.deadline <= now:
                    a.timed_out = True
                    out.append(a)
        return out

    def _pick(self, me):
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                self.end("max-steps")
                return None
            while self.timers and self.timers[0][0] <= self.now:
                _, _, fn = heapq.heappop(self.timers)
                if fn is not None:
                    fn()
                    if self.ended:
                        return None
            r = self._runnable()
            if r:
                if len(r) == 1:
                    return r[0]
                if me is not None and me in r:
                    r.remove(me)
                    r.insert(0, me)
                    i = self.ch.choose(len(r), 1.0 - self.switch_p)
                else:
                    i = self.ch.choose(len(r))
                return r[i]
            nxt = None
            for a in self.actors:
                if a.state == DONE or a.dead:
                    continue
                c = None
                if a.stall_until > self.now:
                    c = a.stall_until
                elif a.state == BLOCKED and a.deadline is not None:
                    c = a.deadline
                if c is not None and (nxt is None or c < nxt):
                    nxt = c
            if self.timers and (nxt is None or self.timers[0][0] < nxt):
                nxt = self.timers[0][0]
            if nxt is None:
                self.end("deadlock")
                return None
            if nxt > self.max_time:
                self.end("max-time")
                return None
            if nxt > self.now:
                self.now = nxt

    def _switch(self):
        me = _tls.actor
        if self.ended or me.dead:
            raise SimExit()
        nxt = self._pick(me)
        if nxt is me:
            me.state = READY
            return
        if nxt is not None:
            self.switches += 1
            self.hash = (self.hash * 1000003 + nxt.idx + 1) & 0xFFFFFFFFFFFF
            nxt.state = READY
            self.cur = nxt
            nxt.sem.release()
        me.sem.acquire()
        if self.ended or me.dead:
            raise SimExit()

    def _handoff(self, me):
        """me has finished; pass the baton on."""
        nxt = self._pick(None)
        if nxt is not None:
            self.switches += 1
            self.hash = (self.hash * 1000003 + nxt.idx + 1) & 0xFFFFFFFFFFFF
            nxt.state = READY
            self.cur = nxt
            nxt.sem.release()

    def yield_(self):
        if self.ended:
            raise SimExit()
        _tls.actor.state = READY
        self._switch()

    def block(self, cond, timeout=None):
        """Block until cond() holds; False if the timeout passed first."""
        if self.ended:
            raise SimExit()
        me = _tls.actor
        me.state = BLOCKED
        me.cond = cond
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        self._switch()
        me.cond = None
        me.deadline = None
        return cond()

    def sleep(self, dt):
        self.block(_never, dt)

    def end(self, reason):
        if not self.ended:
            self.ended = True
            self.end_reason = reason
            self.done_evt.set()

    # -- run -------------------------------------------------------------
    def run(self, main_fn, proc=None, wall=120.0):
        gc.collect()
        gc.disable()
        try:
            self.main_actor = self.spawn("main", main_fn, proc)
            self.cur = self.main_actor
            self.main_actor.sem.release()
            if not self.done_evt.wait(wall):
                self.ended = True
                self.end_reason = "wall-timeout"
            for a in self.actors:
                for _ in range(200):
                    if not a.thread.is_alive():
                        break
                    a.sem.release()
                    a.thread.join(0.05)
        finally:
            gc.enable()
        return self.end_reason

    # -- clocks ----------------------------------------------------------
    def _tick(self):
        self.now += 1e-6
        self.reads += 1

    def time(self):
        self._tick()
        return self.t0 + self.now + self.clock_off

    def monotonic(self):
        self._tick()
        return 1000.0 + self.now


def _never():
    return False


def hash_mix(h, s):
    x = 1469598103934665603
    for ch in s.encode("utf-8", "replace"):
        x = ((x ^ ch) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return (h * 1000003 + x) & 0xFFFFFFFFFFFF


_tls = threading.local()


def cur_sim():
    s = getattr(_tls, "sim", None)
    return s


def cur_actor():
    return getattr(_tls, "actor", None)


def cur_proc():
    a = getattr(_tls, "actor", None)
    return a.proc if a is not None else None


def quiet_unraisable():
    sys.unraisablehook = lambda *a: None
    threading.excepthook = lambda *a: None
