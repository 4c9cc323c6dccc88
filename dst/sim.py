"""The simulation kernel.

Real threads, parked and released one at a time: exactly one of them runs, and
which one is decided only by the explicit plan.  Yield points are the source
lines (or bytecodes) executed inside /repo/qmat, observed with sys.settrace;
locks created by qmat are simulated ones.  At a yield point the kernel may
switch to another thread or raise a fault.  Every event goes into a rolling
hash, so two executions of a plan can be compared event by event.
"""
import ast
import dis
import os
import sys
import threading
import _thread
import ctypes
import zlib

QMAT_DIR = os.path.join(os.environ.get("DST_REPO", "/repo"), "qmat") + os.sep
MASK = (1 << 61) - 1


class SimDeadlock(BaseException):
    """All threads wait for locks"""


class SimLivelock(BaseException):
    """The event budget of the run is exhausted"""


# ------------------------------------------------------------------ lines
_noinj_cache = {}


def _protected_lines(filename):
    """Lines at which Python code cannot protect itself from an asynchronous
    exception: headers of with and try statements, finally bodies, clean-up
    handlers that re-raise, and context manager protocols."""
    if filename in _noinj_cache:
        return _noinj_cache[filename]
    lines = set()
    try:
        with open(filename, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except Exception:
        tree = ast.Module(body=[], type_ignores=[])
    span = lambda n: range(n.lineno, n.end_lineno + 1)
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            end = max(i.context_expr.end_lineno for i in node.items)
            lines.update(range(node.lineno, max(end, node.lineno) + 1))
        elif isinstance(node, ast.Try):
            lines.add(node.lineno)
            for st in node.finalbody:
                lines.update(span(st))
            for h in node.handlers:
                broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
                if broad and any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)):
                    lines.update(span(h))
        elif isinstance(node, ast.FunctionDef) and node.name in ("__enter__", "__exit__", "__del__"):
            lines.update(span(node))
    _noinj_cache[filename] = lines
    return lines


class _Info:
    __slots__ = ("cid", "noinj", "noofs")


def cleaning(frame):
    """Is this frame called, at any depth, from lines that cannot be protected
    (clean-up helpers)? A fault is put off until they are done"""
    while frame is not None:
        info = code_info(frame.f_code)
        if info and frame.f_lineno in info.noinj:
            return True
        frame = frame.f_back
    return False


def _inlined(code):
    """Offsets inside inlined comprehensions: CPython 3.12 loses its way when a
    trace function raises there (an enclosing with statement is not left)"""
    out = set()
    names = {i.offset: i.opname for i in dis.get_instructions(code)}
    for e in dis.Bytecode(code).exception_entries:
        if names.get(e.target) == "SWAP":       # the clean-up of an inlined comprehension
            out.update(range(e.start, e.end))
    return frozenset(out)


_infos = {}


def code_info(code):
    info = _infos.get(code)
    if info is None:
        fn = code.co_filename
        if fn.startswith(QMAT_DIR):
            info = _Info()
            info.cid = zlib.crc32((fn[len(QMAT_DIR):] + ":" + code.co_qualname).encode())
            info.noinj = _protected_lines(fn)
            info.noofs = _inlined(code)
        else:
            info = 0
        _infos[code] = info
    return info


def in_qmat(depth=2):
    f = sys._getframe(depth)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(QMAT_DIR)


# ------------------------------------------------------------------ threads
class TState:
    def __init__(self, tid):
        self.tid = tid
        self.preempt = {}               # {event of the current op: choice}
        self.ev = 0                     # yield events in the current op
        self.inj = 0                    # injectable events in the current op
        self.seam = 0                   # numerical kernel calls in the current op
        self.faults = {}                # {injectable event: kind} for the current op
        self.seamfaults = {}
        self.corrupt = {}
        self.fired = None
        self.injected = None            # the exception raised by the simulator in the current op
        self.exempt = False             # ... below foreign code that may handle it
        self.nested = {}                # {injectable event: operations run there}
        self.firsts = {}                # injectable source lines of the current op: first event
        self.op = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.tracer = None
        self.depth = 0


EXC = {}


def make_exc(kind):
    import numpy as np
    if not EXC:
        EXC.update(interrupt=KeyboardInterrupt, memory=MemoryError,
                   linalg=np.linalg.LinAlgError, fpe=FloatingPointError,
                   value=ValueError, oserror=OSError, exit=SystemExit)
    return EXC[kind]("injected by the simulator")


def below_scipy(frame):
    """is this code called back by scipy (whose compiled code handles exceptions its own way)?"""
    while frame is not None:
        if os.sep + "scipy" + os.sep in frame.f_code.co_filename:
            return True
        frame = frame.f_back
    return False


def trip():
    """An object whose end makes the interpreter handle a SIGINT as soon as it can"""
    if not TRIP:
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        TRIP.append((new, ctypes.cast(ctypes.pythonapi.PyErr_SetInterrupt, ctypes.c_void_p)))
    return TRIP[0][0](1, None, TRIP[0][1])


def flush():
    """Python code: pending signals are handled when it is entered"""
    return flush


TRIP = []
SAVED = ("preempt", "ev", "inj", "seam", "faults", "seamfaults", "corrupt", "fired", "injected", "exempt", "nested", "firsts", "op")


class Kernel:
    """One simulated execution"""
    current = None      # the kernel in charge of this process

    def __init__(self, preempt=(), faults=(), gran="line", cap=4_000_000, fin=(), trace=True,
                 nested=(), sites=False):
        self.gran = gran
        self.cap = cap
        self.preempt = {}
        for t, o, n, r in preempt:
            self.preempt.setdefault((t, o), {})[n] = r
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f["t"], f["o"]), []).append(f)
        self.nested = {}
        for n in nested:
            self.nested.setdefault((n["t"], n["o"]), {})[n["at"]] = (n["ops"], bool(n.get("sig")))
        self.sites = {} if sites else None      # (tid, op) -> first events of its source lines
        self.on_nested = None
        self.pending = []               # operations that a signal handler has to run
        self.fin = list(fin)
        self.trace = trace
        self.h = 0
        self.total = 0
        self.switches = 0
        self.fired = []                 # (tid, op, kind, where)
        self.counts = {}                # (tid, op) -> (inj, seam, ev)
        self.threads = {}
        self.main = TState(-1)
        self.threads_live = []
        self.cur = self.main
        self.deadlock = False
        self.livelock = False
        self.probes = {}
        self.visited = set()
        Kernel.current = self

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *what):
        self.h = (self.h*1000003 + zlib.crc32(repr(what).encode())) & MASK

    # -------------------------------------------------------------- tracing
    def _tracer(self, st):
        if st.tracer is not None:
            return st.tracer
        kern = self
        opc = self.gran == "opcode"

        def local(frame, event, arg):
            if event == "line":
                isline = True
            elif event == "opcode":
                isline = False
            else:
                return local
            st.ev += 1
            kern.total += 1
            info = code_info(frame.f_code)
            ln = frame.f_lineno or 0
            kern.h = (kern.h*1000003 + info.cid + ln*8191 + st.tid) & MASK
            if kern.total > kern.cap:
                kern.livelock = True
                raise SimLivelock(f"{kern.total} events")
            if isline and ln not in info.noinj and frame.f_lasti not in info.noofs:
                st.inj += 1
                if kern.sites is not None:
                    st.firsts.setdefault((info.cid, ln), st.inj)
                ops = st.nested.get(st.inj)
                if ops is not None:
                    kern.log("nested", ln)
                    if ops[1]:
                        kern.pending.append((st, ops[0]))
                        tripped = trip()    # noqa: F841  when this function has returned, the signal is there
                    else:
                        kern.interlude(st, ops[0])
                kind = st.faults.get(st.inj)
                if kind is not None and st.fired is None and cleaning(frame.f_back):
                    st.faults.setdefault(st.inj + 1, kind)
                elif kind is not None and st.fired is None:
                    st.exempt = below_scipy(frame)
                    if kind == "exit" and st.exempt:    # scipy would end the process
                        kind = "interrupt"
                    st.fired = kind
                    where = f"{frame.f_code.co_filename[len(QMAT_DIR):]}:{ln}"
                    kern.fired.append((st.tid, st.op, kind, where))
                    kern.log("fault", kind)
                    st.injected = make_exc(kind)
                    raise st.injected
            r = st.preempt.get(st.ev)
            if r is not None:
                kern.switch(st, r, (info.cid, ln))
            return local

        def glob(frame, event, arg):
            info = code_info(frame.f_code)
            if not info:
                return None
            if opc:
                frame.f_trace_opcodes = True
            return local

        st.tracer = glob
        return glob

    def call(self, st, opidx, func):
        """Run func() as operation opidx of a thread. Returns (kind, value)"""
        st.op = opidx
        st.inj = st.seam = st.ev = 0
        st.preempt = self.preempt.get((st.tid, opidx), {})
        st.fired = st.injected = None
        st.exempt = False
        st.firsts = {}
        st.nested = self.nested.get((st.tid, opidx), {})
        st.faults, st.seamfaults, st.corrupt = {}, {}, {}
        for f in self.faults.get((st.tid, opidx), ()):
            if f["kind"] == "corrupt":
                st.corrupt[f["at"]] = f
            else:
                (st.seamfaults if f.get("seam") else st.faults)[f["at"]] = f["kind"]
        self.log("op", st.tid, opidx)
        try:
            if self.trace:
                sys.settrace(self._tracer(st))
            try:
                value = func()
                if self.pending:
                    flush()
            finally:
                if self.trace:
                    sys.settrace(None)
            res = ("ok", value)
        except (SimDeadlock, SimLivelock) as e:
            res = ("stuck", e)
        except BaseException as e:
            e.__traceback__ = None if not os.environ.get("DST_TB") else e.__traceback__
            res = ("exc", e)
        st.faults, st.seamfaults, st.corrupt, st.nested = {}, {}, {}, {}
        if self.sites is not None:
            self.sites.setdefault((st.tid, opidx), sorted(st.firsts.values()))
        old = self.counts.get((st.tid, opidx))
        if old is None:
            self.counts[(st.tid, opidx)] = (st.inj, st.seam, st.ev)
        self.log("end", st.tid, opidx, res[0], type(res[1]).__name__ if res[0] != "ok" else "")
        return res

    def interlude(self, st, ops, trace=False):
        """Operations run by the same thread in the middle of another one"""
        saved = {k: getattr(st, k) for k in SAVED}
        trace, self.trace = self.trace, trace
        try:
            self.on_nested(st, ops)
        finally:
            self.trace = trace
            for k, v in saved.items():
                setattr(st, k, v)

    def on_signal(self, signum, frame):
        """The handler of the signals sent to oneself: runs between two instructions of the traced code"""
        tracer = sys.gettrace()
        sys.settrace(None)
        while self.pending:
            st, ops = self.pending.pop(0)
            self.probe("signals")
            self.interlude(st, ops, self.trace)
        sys.settrace(tracer)

    # ------------------------------------------------------------- switching
    def _runnable(self, but=None):
        return [t for t in self.threads_live
                if not t.done and t is not but
                and (t.blocked is None or t.blocked.free_for(t))]

    def switch(self, st, r, where=None):
        if st.tid < 0:
            return
        cand = self._runnable(but=st)
        if not cand:
            return
        nxt = cand[r % len(cand)]
        self.switches += 1
        self.visited.add((st.tid, nxt.tid, where))
        self._handoff(st, nxt)

    def _handoff(self, st, nxt):
        self.log("switch", st.tid, nxt.tid)
        tr = sys.gettrace()
        sys.settrace(None)
        self.cur = nxt
        nxt.gate.release()
        st.gate.acquire()
        self.cur = st
        sys.settrace(tr)

    def block(self, st, lock):
        """st waits for a simulated lock"""
        st.blocked = lock
        cand = self._runnable(but=st)
        self.probe("lock-wait")
        if not cand:
            self.deadlock = True
            self.log("deadlock", st.tid)
            st.blocked = None
            raise SimDeadlock("no thread can run")
        self._handoff(st, cand[0])
        st.blocked = None

    def run_threads(self, bodies):
        """Run the bodies as simulated threads until all are done"""
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.errors = []
        self.threads_live = [TState(i) for i in range(len(bodies))]

        def boot(st, body):
            st.gate.acquire()
            self.cur = st
            try:
                body(st)
            except BaseException as e:      # harness error
                import traceback
                self.errors.append("".join(traceback.format_exception(e)))
            sys.settrace(None)
            threading._active.pop(_thread.get_ident(), None)    # as a thread that ends does; each one is another object
            st.done = True
            cand = self._runnable()
            if cand:
                r = self.fin.pop(0) if self.fin else 0
                nxt = cand[r % len(cand)]
                self.log("finish", st.tid, nxt.tid)
                self.cur = nxt
                nxt.gate.release()
            else:
                if any(not t.done for t in self.threads_live):
                    self.deadlock = True
                self.back.release()

        for st, body in zip(self.threads_live, bodies):
            _thread.start_new_thread(boot, (st, body))
        if bodies:
            r = self.fin.pop(0) if self.fin else 0
            first = self.threads_live[r % len(bodies)]
            self.cur = first
            first.gate.release()
            self.back.acquire()
        live, self.threads_live = self.threads_live, []
        self.cur = self.main
        if self.errors:
            raise RuntimeError("simulated thread failed:\n" + self.errors[0])


class Sink:
    """standard output of executions that are not about it"""
    encoding, errors, closed = "utf-8", "strict", False

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# ------------------------------------------------------------------ locks
class SimLock:
    """Stands for threading.Lock / RLock in qmat"""

    def __init__(self, reentrant):
        self.reentrant, self.owner, self.count = reentrant, None, 0

    def free_for(self, st):
        return self.count == 0 or (self.reentrant and self.owner is st)

    def acquire(self, blocking=True, timeout=-1):
        k = Kernel.current
        st = k.cur if k is not None else None
        while not self.free_for(st):
            if not blocking or timeout is not None and timeout >= 0:
                if k is not None and st.tid >= 0 and timeout is not None and timeout > 0:
                    k.switch(st, 0)
                    if self.count == 0:
                        break
                return False
            if k is None:
                raise SimDeadlock("lock held forever")
            k.block(st, self)
        self.owner = st
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    # what threading.Condition asks of its lock
    def _is_owned(self):
        k = Kernel.current
        return self.count > 0 and (not self.reentrant or self.owner is (k.cur if k is not None else None))

    def _recursion_count(self):
        return self.count if self._is_owned() else 0

    def _release_save(self):
        state = self.count, self.owner
        self.count, self.owner = 0, None
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count, self.owner = state

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


_real_lock, _real_rlock = threading.Lock, threading.RLock


def install_locks():
    def Lock(*a, **k):
        return SimLock(False) if in_qmat() else _real_lock(*a, **k)

    def RLock(*a, **k):
        return SimLock(True) if in_qmat() else _real_rlock(*a, **k)

    def waiter():       # conditions, events, semaphores
        return SimLock(False) if in_qmat() else _thread.allocate_lock()

    threading.Lock, threading.RLock, threading._allocate_lock = Lock, RLock, waiter


# ------------------------------------------------------------------ seams
SEAMS = [("numpy.linalg", "solve"), ("numpy.linalg", "det"), ("numpy.linalg", "eigvals"),
         ("numpy.linalg", "inv"), ("numpy.fft", "ifft"), ("numpy.polynomial.legendre", "leggauss"),
         ("scipy.linalg", "lu"), ("scipy.linalg", "eigh_tridiagonal"),
         ("scipy.special", "roots_legendre"), ("scipy.optimize", "fsolve"),
         ("scipy.optimize", "minimize")]
SEAM_FILTER = None      # set by a property module: f(kernel, thread, name, args, result, fault) -> result


def install_seams():
    """Numerical kernels called by qmat pass through here: the simulator can
    make them fail or return corrupted results"""
    import importlib
    import functools
    for modname, name in SEAMS:
        mod = importlib.import_module(modname)
        real = getattr(mod, name)

        def make(real, name):
            @functools.wraps(real)
            def seam(*args, **kwargs):
                k = Kernel.current
                if k is None or not in_qmat():
                    return real(*args, **kwargs)
                st = k.cur
                st.seam += 1
                k.log("seam", name)
                kind = st.seamfaults.get(st.seam)
                if kind is not None and st.fired is None and cleaning(sys._getframe(1)):
                    st.seamfaults.setdefault(st.seam + 1, kind)
                elif kind is not None and st.fired is None:
                    st.fired = kind
                    st.exempt = below_scipy(sys._getframe(1))
                    k.fired.append((st.tid, st.op, kind, "seam:" + name))
                    st.injected = make_exc(kind)
                    raise st.injected
                out = real(*args, **kwargs)
                f = st.corrupt.get(st.seam)
                if f is not None and SEAM_FILTER is not None:
                    out = SEAM_FILTER(k, st, name, args, out, f)
                return out
            return seam
        setattr(mod, name, make(real, name))
