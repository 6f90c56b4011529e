"""Seams: everything nondeterministic the serving stack touches.

`install()` must run before pymllm is imported.  Every fake falls back to the
real thing when the calling thread is not a simulated actor, so the importing
process itself behaves normally.

Real code kept on top of the fakes: asyncio's BaseSelectorEventLoop (only the
selector and the self-pipe are replaced) and pyzmq's own `zmq/_future.py` and
`zmq/asyncio.py`, loaded from the installed package on top of the fake blocking
socket.
"""
import asyncio
import errno
import importlib.util
import io
import os
import pickle
import queue as _queue
import selectors
import sys
import threading
import time
import types
import uuid

from . import kernel
from .kernel import cur_sim, cur_proc, SimExit, Proc, DONE

_real = types.SimpleNamespace(
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
    sleep=time.sleep, uuid4=uuid.uuid4, getpid=os.getpid, kill=os.kill,
    threading=threading, Thread=threading.Thread, Lock=threading.Lock,
    RLock=threading.RLock, Event=threading.Event, Condition=threading.Condition,
    time_ns=time.time_ns, monotonic_ns=time.monotonic_ns,
    perf_counter_ns=time.perf_counter_ns)


# ----------------------------------------------------------------- clocks
def s_time():
    s = cur_sim()
    return s.time() if s is not None else _real.time()


def s_monotonic():
    s = cur_sim()
    return s.monotonic() if s is not None else _real.monotonic()


def s_perf_counter():
    s = cur_sim()
    return s.monotonic() if s is not None else _real.perf_counter()


def s_time_ns():
    s = cur_sim()
    return int(s.time() * 1e9) if s is not None else _real.time_ns()


def s_monotonic_ns():
    s = cur_sim()
    return int(s.monotonic() * 1e9) if s is not None else _real.monotonic_ns()


def s_sleep(dt):
    s = cur_sim()
    if s is None:
        return _real.sleep(dt)
    s.sleep(dt)


def s_uuid4():
    s = cur_sim()
    if s is None:
        return _real.uuid4()
    s.uuid_n += 1
    x = (s.uuid_n * 0x9E3779B97F4A7C15F39CC0605CEDC835 + 0x1234567) & ((1 << 128) - 1)
    return uuid.UUID(int=x, version=4)


def s_getpid():
    p = cur_proc()
    return p.pid if p is not None else _real.getpid()


# ----------------------------------------------------------------- zmq
PUSH, PULL = 8, 7
POLLIN, POLLOUT, POLLERR = 1, 2, 4
EVENTS, FD, LINGER, RCVTIMEO, SNDTIMEO, SNDHWM, RCVHWM, TYPE = 15, 14, 17, 27, 28, 23, 24, 16
DONTWAIT = NOBLOCK = 1
SNDMORE = 2
FD_BASE = 10_000_000


class ZMQError(Exception):
    def __init__(self, errno_=None, msg=None):
        self.errno = errno_
        self.strerror = msg or (os.strerror(errno_) if errno_ and errno_ < 200 else "zmq error")
        super().__init__(self.strerror)


class ZMQBindError(ZMQError):
    pass


class Again(ZMQError):
    def __init__(self, errno_=errno.EAGAIN, msg=None):
        ZMQError.__init__(self, errno.EAGAIN, "Resource temporarily unavailable")


class ContextTerminated(ZMQError):
    pass


ETERM = 156384765
ENOTSUP = errno.ENOTSUP


class _Pipe:
    """One direction PUSH -> PULL with FIFO delivery and per-message delay."""
    __slots__ = ("q", "last", "src", "dst", "addr")

    def __init__(self, src, dst, addr):
        self.q = []
        self.last = 0.0
        self.src = src
        self.dst = dst
        self.addr = addr


class _Core:
    """State of one zmq socket (shared by shadow sockets)."""

    def __init__(self, sim, typ):
        self.sim = sim
        self.type = typ
        self.proc = cur_proc()
        self.closed = False
        self.opts = {LINGER: -1, RCVTIMEO: -1, SNDTIMEO: -1, SNDHWM: 1000, RCVHWM: 1000}
        self.pipes = []
        self.rr = 0
        self.addrs = []
        sim.fd_n = getattr(sim, "fd_n", FD_BASE) + 1
        self.fd = sim.fd_n
        sim.net.fds[self.fd] = self
        self.signal = False      # edge-triggered FD
        if self.proc is not None:
            self.proc.handles.append(self)

    # -- wiring
    def bind(self, addr):
        net = self.sim.net
        ep = net.ep(addr)
        if ep["bound"] is not None and not ep["bound"].closed:
            raise ZMQError(errno.EADDRINUSE, "Address already in use (addr=%r)" % addr)
        ep["bound"] = self
        self.addrs.append((addr, True))
        net.attach(addr)

    def connect(self, addr):
        net = self.sim.net
        ep = net.ep(addr)
        ep["conn"].append(self)
        self.addrs.append((addr, False))
        net.attach(addr)
        if self.type == PUSH and not any(p.addr == addr for p in self.pipes):
            # a connecting PUSH gets its pipe at once, even with no peer yet
            self.pipes.append(_Pipe(self, None, addr))

    # -- state
    def in_pipe(self):
        now = self.sim.now
        n = len(self.pipes)
        for i in range(n):
            p = self.pipes[(self.rr + i) % n]
            if p.q and p.q[0][0] <= now:
                return p
        return None

    def can_recv(self):
        return self.type == PULL and not self.closed and self.in_pipe() is not None

    def out_pipe(self):
        n = len(self.pipes)
        hwm = self.opts[SNDHWM] + self.opts[RCVHWM]
        for i in range(n):
            p = self.pipes[(self.rr + i) % n]
            if len(p.q) < hwm:
                return p
        return None

    def can_send(self):
        return self.type == PUSH and not self.closed and self.out_pipe() is not None

    def events(self):
        e = 0
        if self.can_recv():
            e |= POLLIN
        if self.can_send():
            e |= POLLOUT
        return e

    def push(self, parts):
        p = self.out_pipe()
        self.rr = (self.pipes.index(p) + 1) % max(1, len(self.pipes))
        sim = self.sim
        d = sim.net.delay(p)
        vis = max(p.last, sim.now + d)
        p.last = vis
        p.q.append((vis, parts))
        sim.event("zmq-send", _short(p.addr), len(parts[0]))
        if p.dst is not None:
            dst = p.dst
            if vis <= sim.now:
                dst.signal = True
            else:
                sim.call_at(vis, lambda: setattr(dst, "signal", True))

    def pull(self):
        p = self.in_pipe()
        self.rr = (self.pipes.index(p) + 1) % max(1, len(self.pipes))
        _, parts = p.q.pop(0)
        if p.src is not None:
            p.src.signal = True
        self.sim.event("zmq-recv", _short(p.addr), len(parts[0]))
        return parts

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.sim.net.detach(self, linger=self.opts[LINGER])

    def proc_dead(self):
        if not self.closed:
            self.closed = True
            self.sim.net.detach(self, linger=0)


def _short(addr):
    return addr.rsplit("/", 1)[-1].split("_")[1:4] and addr.rsplit("/", 1)[-1]


class Net:
    """Address registry and delivery delays."""

    def __init__(self, sim):
        self.sim = sim
        self.eps = {}
        self.fds = {}
        self.p_delay = 0.3
        self.delays = (0.0, 2e-5, 3e-4, 4e-3, 0.05)
        self.p_fault = 0.0       # rare long delay
        self.lost = 0

    def ep(self, addr):
        return self.eps.setdefault(addr, {"bound": None, "conn": []})

    def delay(self, pipe):
        sim = self.sim
        if sim.ch.flip(self.p_delay):
            d = self.delays[1 + sim.ch.choose(len(self.delays) - 1)]
            sim.fault("net-delay")
            return d
        return 0.0

    def attach(self, addr):
        ep = self.ep(addr)
        b = ep["bound"]
        if b is None or b.closed:
            return
        for c in ep["conn"]:
            if c.closed:
                continue
            src, dst = (b, c) if b.type == PUSH else (c, b)
            if src.type != PUSH or dst.type != PULL:
                continue
            have = None
            for p in src.pipes:
                if p.addr == addr and (p.dst is dst or (p.dst is None and src is c)):
                    have = p
            if have is None:
                have = _Pipe(src, dst, addr)
                src.pipes.append(have)
            have.dst = dst
            if have not in dst.pipes:
                dst.pipes.append(have)
            src.signal = True
            dst.signal = True

    def detach(self, core, linger):
        for addr, _ in core.addrs:
            ep = self.ep(addr)
            if ep["bound"] is core:
                ep["bound"] = None
            if core in ep["conn"]:
                ep["conn"].remove(core)
        for p in core.pipes:
            if p.src is core:
                # linger 0: unsent messages are dropped; delivered ones stay
                if linger != 0 and p.dst is None and p.q:
                    core.lingering = True      # nobody will ever take these messages
                    continue
                keep = [m for m in p.q if m[0] <= self.sim.now]
                self.lost += len(p.q) - len(keep)
                p.q[:] = keep
                p.src = None
            elif p.dst is core:
                self.lost += len(p.q)
                src = p.src
                bound_src = src is not None and any(b for a, b in src.addrs if a == p.addr)
                p.q[:] = []
                p.dst = None
                if src is not None:
                    if bound_src:
                        src.pipes.remove(p)   # bound side forgets a dead peer
                    src.signal = True
        self.sim.event("zmq-close", core.fd - FD_BASE)


class Context:
    _instance = None
    _socket_class = None
    closed = False

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, io_threads=1, shadow=0, **kw):
        self._sockets = []
        self.sockopts = {}

    @classmethod
    def instance(cls, io_threads=1):
        return cls(io_threads)

    def socket(self, socket_type, socket_class=None, **kw):
        s = (socket_class or self._socket_class)(self, socket_type, **kw)
        self._sockets.append(s)
        return s

    def setsockopt(self, opt, value):
        self.sockopts[opt] = value

    def term(self):
        s = cur_sim()
        if s is None or s.ended:
            return
        # zmq_ctx_term blocks until every socket of the context is closed
        socks = [x._core for x in self._sockets]
        s.block(lambda: all(c.closed and not getattr(c, "lingering", False) for c in socks))
        self.closed = True

    def destroy(self, linger=None):
        for x in self._sockets:
            x.close(linger=linger)
        self.term()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()


class Socket:
    _core = None

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, context=None, socket_type=-1, shadow=None, copy_threshold=None, **kw):
        if shadow is not None:
            self._core = shadow._core if isinstance(shadow, Socket) else shadow
        else:
            sim = cur_sim()
            if sim is None:
                raise RuntimeError("fake zmq socket used outside the simulation")
            self._core = _Core(sim, socket_type)
        self.context = context

    @classmethod
    def shadow(cls, core):
        return cls(shadow=core)

    @property
    def underlying(self):
        return self._core

    @property
    def closed(self):
        return self._core.closed

    @property
    def socket_type(self):
        return self._core.type

    @property
    def FD(self):
        return self._core.fd

    @property
    def rcvtimeo(self):
        return self._core.opts[RCVTIMEO]

    @property
    def linger(self):
        return self._core.opts[LINGER]

    def __setattr__(self, k, v):
        if k == "linger":
            self._core.opts[LINGER] = v
        else:
            object.__setattr__(self, k, v)

    def fileno(self):
        return self._core.fd

    def _chk(self):
        if self._core.closed:
            raise ZMQError(ENOTSUP, "not a socket")

    def get(self, opt):
        self._chk()
        if opt == EVENTS:
            self._core.signal = False
            return self._core.events()
        if opt == FD:
            return self._core.fd
        if opt == TYPE:
            return self._core.type
        return self._core.opts[opt]

    getsockopt = get

    def set(self, opt, v):
        self._chk()
        self._core.opts[opt] = v

    setsockopt = set
    set_hwm = lambda self, v: (self.set(SNDHWM, v), self.set(RCVHWM, v))

    def bind(self, addr):
        self._chk()
        self._core.bind(addr)

    def connect(self, addr):
        self._chk()
        self._core.connect(addr)

    def unbind(self, addr):
        pass

    disconnect = unbind

    def close(self, linger=None):
        c = self._core
        if not c.closed:
            c.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- io
    def _wait(self, cond, flags, timeo):
        c = self._core
        sim = c.sim
        if flags & DONTWAIT:
            if not cond():
                raise Again()
            return
        sim.yield_()
        self._chk()
        if not cond():
            t = c.opts[timeo]
            sim.block(lambda: c.closed or cond(), None if t < 0 else t / 1000.0)
            self._chk()
            if not cond():
                raise Again()

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        self._chk()
        if self._core.type != PUSH:
            raise ZMQError(ENOTSUP, "Operation not supported")
        parts = [bytes(p) for p in msg_parts]
        self._wait(self._core.can_send, flags, SNDTIMEO)
        self._core.push(parts)

    def send(self, data, flags=0, copy=True, track=False, **kw):
        return Socket.send_multipart(self, [data], flags)

    def recv_multipart(self, flags=0, copy=True, track=False):
        self._chk()
        if self._core.type != PULL:
            raise ZMQError(ENOTSUP, "Operation not supported")
        self._wait(self._core.can_recv, flags, RCVTIMEO)
        return self._core.pull()

    def recv(self, flags=0, copy=True, track=False):
        return Socket.recv_multipart(self, flags)[0]

    # -- serialisation (as in pyzmq's sugar/socket.py)
    def _deserialize(self, recvd, load):
        return load(recvd)

    def send_serialized(self, msg, serialize, flags=0, copy=True, **kw):
        return self.send_multipart(serialize(msg), flags=flags, copy=copy, **kw)

    def recv_serialized(self, deserialize, flags=0, copy=True):
        return self._deserialize(self.recv_multipart(flags=flags, copy=copy), deserialize)

    def send_pyobj(self, obj, flags=0, protocol=-1, **kw):
        return self.send(pickle.dumps(obj, protocol), flags=flags, **kw)

    def recv_pyobj(self, flags=0):
        return self._deserialize(self.recv(flags), pickle.loads)

    def send_json(self, obj, flags=0, **kw):
        import json
        return self.send(json.dumps(obj).encode(), flags=flags, **kw)

    def recv_json(self, flags=0, **kw):
        import json
        return self._deserialize(self.recv(flags), lambda b: json.loads(b))

    def send_string(self, u, flags=0, copy=True, encoding="utf-8", **kw):
        return self.send(u.encode(encoding), flags=flags, **kw)

    def recv_string(self, flags=0, encoding="utf-8"):
        return self._deserialize(self.recv(flags), lambda b: b.decode(encoding))

    def poll(self, timeout=None, flags=POLLIN):
        p = Poller()
        p.register(self, flags)
        return dict(p.poll(timeout)).get(self, 0)


Context._socket_class = Socket


class Poller:
    def __init__(self):
        self.sockets = []

    def __contains__(self, s):
        return any(x is s for x, _ in self.sockets)

    def register(self, socket, flags=POLLIN | POLLOUT):
        self.unregister(socket)
        self.sockets.append((socket, flags))

    modify = register

    def unregister(self, socket):
        self.sockets = [(s, f) for s, f in self.sockets if s is not socket]

    def poll(self, timeout=None):
        sim = cur_sim()
        cores = [(s, s._core, f) for s, f in self.sockets]

        def ready():
            return any(c.events() & f for _, c, f in cores)
        sim.yield_()
        if timeout is None or timeout < 0:
            sim.block(ready)
        elif timeout > 0 and not ready():
            sim.block(ready, timeout / 1000.0)
        return [(s, c.events() & f) for s, c, f in cores if c.events() & f]


def proxy(*a):
    raise ZMQError(ENOTSUP)


def make_zmq():
    m = types.ModuleType("zmq")
    m.__path__ = []
    g = globals()
    for k in ("PUSH PULL POLLIN POLLOUT POLLERR EVENTS FD LINGER RCVTIMEO SNDTIMEO SNDHWM RCVHWM "
              "TYPE DONTWAIT NOBLOCK SNDMORE ZMQError ZMQBindError Again ContextTerminated ETERM "
              "ENOTSUP Context Socket Poller proxy").split():
        setattr(m, k, g[k])
    for i, k in enumerate("PAIR PUB SUB REQ REP DEALER ROUTER".split()):
        setattr(m, k, i)
    m.EAGAIN = errno.EAGAIN
    m.MessageTracker = object
    m.Frame = bytes
    m.HWM = 1
    err = types.ModuleType("zmq.error")
    for k in ("ZMQError", "ZMQBindError", "Again", "ContextTerminated"):
        setattr(err, k, g[k])
    m.error = err
    m.select = None
    m.zmq_version = lambda: "4.3.5"
    m.__version__ = "sim"
    sys.modules["zmq"] = m
    sys.modules["zmq.error"] = err
    base = None
    for p in sys.path:
        d = os.path.join(p, "zmq")
        if os.path.exists(os.path.join(d, "_future.py")):
            base = d
            break
    if base is None:
        raise RuntimeError("pyzmq sources not found")
    for name in ("_future", "asyncio"):
        spec = importlib.util.spec_from_file_location("zmq." + name, os.path.join(base, name + ".py"))
        mod = importlib.util.module_from_spec(spec)
        sys.modules["zmq." + name] = mod
        spec.loader.exec_module(mod)
        setattr(m, name, mod)
    return m


# ----------------------------------------------------------------- event loop
class SimSelector(selectors._BaseSelectorImpl):
    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self.woken = False

    def _fileobj_lookup(self, fileobj):
        return fileobj if isinstance(fileobj, int) else fileobj.fileno()

    def _ready(self):
        if self.woken:
            return True
        fds = self.sim.net.fds
        for fd in self._fd_to_key:
            c = fds.get(fd)
            if c is not None and c.signal:
                return True
        return False

    def select(self, timeout=None):
        sim = self.sim
        sim.yield_()
        if not self._ready() and (timeout is None or timeout > 0):
            sim.block(self._ready, timeout)
        self.woken = False
        out = []
        for fd, key in list(self._fd_to_key.items()):
            c = sim.net.fds.get(fd)
            if c is not None and c.signal and key.events & selectors.EVENT_READ:
                out.append((key, selectors.EVENT_READ))
        return out


class SimEventLoop(asyncio.selector_events.BaseSelectorEventLoop):
    def __init__(self, sim=None):
        self._sim = sim or cur_sim()
        super().__init__(SimSelector(self._sim))
        self.set_exception_handler(self._on_exc)

    def _on_exc(self, loop, ctx):
        e = ctx.get("exception")
        self._sim.probe("loop-exception-handler")
        if e is not None and not self._sim.ended:
            self._sim.event("loop-exc", type(e).__name__, str(e)[:120])

    def time(self):
        return self._sim.monotonic()

    def _make_self_pipe(self):
        self._internal_fds += 1

    def _close_self_pipe(self):
        self._internal_fds -= 1

    def _write_to_self(self):
        sel = self._selector
        if sel is not None:
            sel.woken = True

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as e:
            fut.set_exception(e)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return

    def close(self):
        sel = self._selector
        super().close()
        if sel is not None:
            sel.woken = False


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        s = cur_sim()
        if s is not None:
            return SimEventLoop(s)
        return super().new_event_loop()


def det_as_completed(fs, *, timeout=None):
    """asyncio.as_completed with a deterministic start order (the original
    iterates a set of coroutine objects, i.e. in address order)."""
    from asyncio import ensure_future
    from asyncio.queues import Queue
    from asyncio import events, exceptions
    done = Queue()
    loop = events.get_event_loop()
    todo = {ensure_future(f, loop=loop): None for f in dict.fromkeys(fs)}
    handle = None

    def _on_timeout():
        for f in todo:
            f.remove_done_callback(_on_completion)
            done.put_nowait(None)
        todo.clear()

    def _on_completion(f):
        if not todo:
            return
        todo.pop(f, None)
        done.put_nowait(f)
        if not todo and handle is not None:
            handle.cancel()

    async def _wait_for_one():
        f = await done.get()
        if f is None:
            raise exceptions.TimeoutError
        return f.result()

    for f in list(todo):
        f.add_done_callback(_on_completion)
    if todo and timeout is not None:
        handle = loop.call_later(timeout, _on_timeout)
    for _ in range(len(todo)):
        yield _wait_for_one()


# ----------------------------------------------------------------- multiprocessing
class _ConnCore:
    def __init__(self):
        self.q = []
        self.last = 0.0
        self.writers = 0
        self.readers = 0


class Connection:
    """One end of a pipe, reference-counted per process."""

    def __init__(self, core, sim, readable, writable):
        self.core = core
        self.sim = sim
        self.readable = readable
        self.writable = writable
        self._closed = False
        if writable:
            core.writers += 1
        if readable:
            core.readers += 1
        self.proc = cur_proc() if _rebuild_proc[0] is None else _rebuild_proc[0]
        if self.proc is not None:
            self.proc.handles.append(self)

    def __reduce__(self):
        return (_rebuild_conn, (_reg(self.sim, self.core), self.readable, self.writable))

    @property
    def closed(self):
        return self._closed

    def close(self):
        if not self._closed:
            self._closed = True
            if self.writable:
                self.core.writers -= 1
            if self.readable:
                self.core.readers -= 1

    def proc_dead(self):
        self.close()

    def __del__(self):
        try:
            if not self.sim.ended:
                self.close()
        except Exception:
            pass

    def send(self, obj):
        if self._closed:
            raise OSError("handle is closed")
        if self.core.readers == 0:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.sim.yield_()
        data = pickle.dumps(obj)
        if self.proc is not None and isinstance(obj, dict) and obj.get("status") == "ready":
            self.proc.ready_t = self.sim.now
        self.core.q.append(data)

    def recv(self):
        if self._closed:
            raise OSError("handle is closed")
        c = self.core
        self.sim.yield_()
        self.sim.block(lambda: c.q or c.writers == 0)
        if not c.q:
            raise EOFError
        return pickle.loads(c.q.pop(0))

    def poll(self, timeout=0.0):
        c = self.core
        self.sim.yield_()
        if timeout is None:
            self.sim.block(lambda: c.q or c.writers == 0)
        elif timeout > 0:
            self.sim.block(lambda: c.q or c.writers == 0, timeout)
        return bool(c.q) or c.writers == 0

    def fileno(self):
        return FD_BASE * 2

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_rebuild_proc = [None]


def _reg(sim, core):
    sim.mpobjs[id(core)] = core
    return id(core)


def _rebuild_conn(k, r, w):
    sim = cur_sim()
    return Connection(sim.mpobjs[k], sim, r, w)


def Pipe(duplex=True):
    sim = cur_sim()
    if not duplex:
        c = _ConnCore()
        return Connection(c, sim, True, False), Connection(c, sim, False, True)
    raise NotImplementedError("duplex pipes are not simulated")


class _QCore:
    def __init__(self, maxsize):
        self.q = []
        self.last = 0.0
        self.maxsize = maxsize if maxsize and maxsize > 0 else 2147483647


class MpQueue:
    """multiprocessing.Queue: the feeder thread is a delivery delay."""

    def __init__(self, maxsize=0, *, ctx=None, _core=None):
        lim = getattr(cur_sim(), "mpq_max", None)
        if lim and _core is None:
            maxsize = min(maxsize or lim, lim)
        self._simcore = _core or _QCore(maxsize)
        self._sim = cur_sim()
        self._closed = False

    def __class_getitem__(cls, item):
        return cls

    def __reduce__(self):
        return (_rebuild_queue, (_reg(self._sim, self._simcore),))

    def put(self, obj, block=True, timeout=None):
        if self._closed:
            raise ValueError("Queue is closed")
        sim, c = cur_sim(), self._simcore
        sim.yield_()
        if len(c.q) >= c.maxsize:
            if not block:
                raise _queue.Full
            sim.block(lambda: len(c.q) < c.maxsize, timeout)
            if len(c.q) >= c.maxsize:
                raise _queue.Full
        try:
            data = pickle.dumps(obj)
        except Exception:
            sim.probe("mpqueue-pickle-error")   # the feeder thread drops it
            return
        d = sim.net.delay(None)
        vis = max(c.last, sim.now + d)
        c.last = vis
        c.q.append((vis, data))
        sim.event("mpq-put", len(data))
        if vis > sim.now:
            sim.call_at(vis, _nop)

    def get(self, block=True, timeout=None):
        sim, c = cur_sim(), self._simcore

        def ok():
            return bool(c.q) and c.q[0][0] <= sim.now
        sim.yield_()
        if not ok():
            if not block:
                raise _queue.Empty
            sim.block(ok, timeout)
            if not ok():
                raise _queue.Empty
        sim.event("mpq-get")
        return pickle.loads(c.q.pop(0)[1])

    def put_nowait(self, o):
        return self.put(o, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self._simcore.q)

    def empty(self):
        sim = cur_sim()
        q = self._simcore.q
        return not (q and q[0][0] <= sim.now)

    def full(self):
        return len(self._simcore.q) >= self._simcore.maxsize

    def close(self):
        self._closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


def _nop():
    pass


def _rebuild_queue(k):
    return MpQueue(_core=cur_sim().mpobjs[k])


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._sim = cur_sim()
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name or getattr(target, "__name__", "proc")
        self.daemon = daemon
        self._proc = None

    def start(self):
        sim = self._sim
        proc = Proc(sim, self.name)
        data = pickle.dumps((self._target, self._args, self._kwargs))
        _rebuild_proc[0] = proc
        try:
            target, args, kwargs = pickle.loads(data)
        finally:
            _rebuild_proc[0] = None
        del self._target, self._args, self._kwargs
        self._proc = proc
        sim.procs.append(proc)
        hook = sim.proc_hook
        if hook is not None:
            hook(proc, target)
        box = [args, kwargs]
        del args, kwargs

        def main():
            a, k = box
            del box[:]
            d = sim.net.boot_delay() if hasattr(sim.net, "boot_delay") else 0.0
            if d:
                sim.sleep(d)
            pre = getattr(proc, "boot_fault", None)
            if pre is not None:
                pre(a, k)
            target(*a, **k)

        def on_exit(actor):
            if proc.alive:
                proc.kill(1 if actor.exc is not None else 0)
        act = sim.spawn(self.name, main, proc)
        act.on_exit = on_exit
        sim.yield_()

    @property
    def pid(self):
        return self._proc.pid if self._proc else None

    ident = pid

    @property
    def exitcode(self):
        return self._proc.exitcode if self._proc else None

    def is_alive(self):
        self._sim.yield_()
        return self._proc is not None and self._proc.alive

    def terminate(self):
        p = self._proc
        if p.alive:
            if getattr(p, "stubborn", False):
                self._sim.probe("sigterm-ignored")
                return
            p.kill(-15)

    def kill(self):
        if self._proc.alive:
            self._proc.kill(-9)

    def join(self, timeout=None):
        p = self._proc
        self._sim.block(lambda: not p.alive, timeout)

    def close(self):
        pass


# ----------------------------------------------------------------- shared memory
class SharedMemory:
    def __init__(self, name=None, create=False, size=0):
        sim = cur_sim()
        self._sim = sim
        sim.yield_()
        if not size >= 0:
            raise ValueError("'size' must be a positive integer")
        if create and size == 0:
            raise ValueError("'size' must be a positive number different from zero")
        if name is None:
            sim.uuid_n += 1
            name = "psm_%08x" % sim.uuid_n
        self._check_name(name)
        if create:
            f = sim.shm_fault("create", name)
            if f is not None:
                raise f
            if name in sim.shm:
                raise FileExistsError(errno.EEXIST, "File exists: '/%s'" % name)
            sim.shm[name] = bytearray(size)
            sim.event("shm-create", name[:24], size)
            sim.shm_peak = max(getattr(sim, "shm_peak", 0), len(sim.shm))
        else:
            f = sim.shm_fault("open", name)
            if f is not None:
                raise f
            if name not in sim.shm:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory: '/%s'" % name)
        self._name = name
        self._b = sim.shm[name]
        self._mv = memoryview(self._b)

    @staticmethod
    def _check_name(name):
        if "\0" in name:
            raise ValueError("embedded null character")
        b = name.lstrip("/").encode("utf-8", "surrogateescape")
        if b"/" in b or not b:
            raise OSError(errno.EINVAL, "Invalid argument")
        if len(b) > 255:
            raise OSError(errno.ENAMETOOLONG, "File name too long")

    @property
    def name(self):
        return self._name

    @property
    def size(self):
        return len(self._b)

    @property
    def buf(self):
        return self._mv

    def close(self):
        self._mv = None

    def unlink(self):
        self._sim.yield_()
        if self._name not in self._sim.shm:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory: '/%s'" % self._name)
        del self._sim.shm[self._name]
        self._sim.event("shm-unlink", self._name[:24])


# ----------------------------------------------------------------- threading
class SimThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread"
        self.daemon = daemon
        self._actor = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = cur_sim()
        if self._actor is not None:
            raise RuntimeError("threads can only be started once")
        self._actor = sim.spawn(self.name, self.run, cur_proc())
        sim.yield_()

    def is_alive(self):
        return self._actor is not None and self._actor.state != DONE

    def join(self, timeout=None):
        a = self._actor
        cur_sim().block(lambda: a.state == DONE, timeout)

    @property
    def ident(self):
        return self._actor.idx if self._actor else None


class SimLock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = cur_sim()
        if sim is None or sim.ended:
            return True
        sim.yield_()
        if self.owner is not None:
            if not blocking:
                return False
            sim.probe("lock-contended")
            if not sim.block(lambda: self.owner is None, None if timeout < 0 else timeout):
                return False
        self.owner = kernel.cur_actor()
        return True

    def release(self):
        sim = cur_sim()
        if sim is None or sim.ended:
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        sim.yield_()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self.owner is not None and self.owner is kernel.cur_actor():
            self.n += 1
            return True
        r = super().acquire(blocking, timeout)
        if r:
            self.n = 1
        return r

    def release(self):
        self.n -= 1
        if self.n <= 0:
            super().release()


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True
        s = cur_sim()
        if s is not None and not s.ended:
            s.yield_()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = cur_sim()
        if s.ended:
            raise SimExit()
        s.yield_()
        if not self.flag:
            s.block(lambda: self.flag, timeout)
        return self.flag


class SimCondition:
    def __init__(self, lock=None):
        self.lock = lock or SimRLock()
        self.waiters = []
        self.acquire = self.lock.acquire
        self.release = self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *a):
        self.lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        self.lock.release()
        r = cur_sim().block(lambda: tok[0], timeout)
        if tok in self.waiters:
            self.waiters.remove(tok)
        self.lock.acquire()
        return r

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else cur_sim().now + timeout
        r = pred()
        while not r:
            left = None if end is None else end - cur_sim().now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = pred()
        return r

    def notify(self, n=1):
        for t in self.waiters[:n]:
            t[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))


def _pick_cls(simcls, real):
    def make(*a, **k):
        return simcls(*a, **k) if cur_sim() is not None else real(*a, **k)
    make.__name__ = simcls.__name__
    return make


S_Thread = _pick_cls(SimThread, _real.Thread)
S_Lock = _pick_cls(SimLock, _real.Lock)
S_RLock = _pick_cls(SimRLock, _real.RLock)
S_Event = _pick_cls(SimEvent, _real.Event)
S_Condition = _pick_cls(SimCondition, _real.Condition)


class _ThreadingShim(types.ModuleType):
    def __getattr__(self, k):
        return getattr(_real.threading, k)


threading_shim = _ThreadingShim("threading")
threading_shim.Thread = S_Thread
threading_shim.Lock = S_Lock
threading_shim.RLock = S_RLock
threading_shim.Event = S_Event
threading_shim.Condition = S_Condition


# ----------------------------------------------------------------- install
_installed = False


def install(scratch):
    """Patch the process.  Must run before pymllm / transformers are imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert "pymllm" not in sys.modules
    import tempfile
    import multiprocessing
    import multiprocessing.shared_memory
    import torch
    import torch.multiprocessing as tmp
    tempfile.tempdir = scratch
    time.time, time.monotonic, time.perf_counter = s_time, s_monotonic, s_perf_counter
    time.time_ns, time.monotonic_ns, time.perf_counter_ns = s_time_ns, s_monotonic_ns, s_monotonic_ns
    time.sleep = s_sleep
    uuid.uuid4 = s_uuid4
    os.getpid = s_getpid
    asyncio.as_completed = det_as_completed
    asyncio_tasks = sys.modules["asyncio.tasks"]
    asyncio_tasks.as_completed = det_as_completed
    make_zmq()
    from . import fake_hf
    fake_hf.install()
    rp, rpipe, rq = tmp.Process, tmp.Pipe, tmp.Queue
    shm_real = multiprocessing.shared_memory.SharedMemory
    _real.shm = shm_real
    _real.mpqueue = multiprocessing.Queue
    multiprocessing.Queue = MpQueue
    multiprocessing.shared_memory.SharedMemory = SharedMemory
    for mod in (multiprocessing, tmp):
        mod.Process = Process
        mod.Pipe = Pipe
        mod.Queue = MpQueue
        mod.set_start_method = lambda *a, **k: None
    real_ctx = multiprocessing.get_context
    simctx = types.SimpleNamespace(Process=Process, Pipe=Pipe, Queue=MpQueue)
    multiprocessing.get_context = tmp.get_context = \
        lambda m=None: simctx if cur_sim() is not None else real_ctx(m)
    asyncio.set_event_loop_policy(SimPolicy())


def after_import():
    """Rebind names that pymllm modules imported before (or by value)."""
    import multiprocessing.shared_memory
    swap = {id(_real.time): s_time, id(_real.monotonic): s_monotonic,
            id(_real.perf_counter): s_perf_counter, id(_real.sleep): s_sleep,
            id(_real.uuid4): s_uuid4, id(_real.getpid): s_getpid,
            id(_real.shm): SharedMemory, id(_real.mpqueue): MpQueue,
            id(_real.threading): threading_shim, id(_real.Thread): S_Thread,
            id(_real.Lock): S_Lock, id(_real.RLock): S_RLock, id(_real.Event): S_Event,
            id(_real.Condition): S_Condition}
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "pymllm" or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            r = swap.get(id(v))
            if r is not None:
                setattr(mod, k, r)
    asyncio.set_event_loop_policy(SimPolicy())


def attach(sim):
    """Per-run state of the seams."""
    sim.net = Net(sim)
    sim.mpobjs = {}
    sim.procs = []
    sim.shm = {}
    sim.proc_hook = None
    sim.shm_fault = lambda op, name: None
