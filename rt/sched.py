"""Deterministic cooperative runtime for the real code ("replay side").

Every thread is a real OS thread but only the one holding the baton runs.  Scheduling points: every source line
of aiuti (sys.monitoring LINE events on its code objects), every lock operation, every event-loop select, every
sleep.  Time is virtual: it advances only when no thread is runnable.  A schedule is a dict
{choice number: alternative}, everything else takes the default (keep running the current thread, else lowest id),
so any run can be replayed exactly.
"""
import sys, os, time as _time_mod, threading, _thread, types, importlib.util, importlib.machinery, traceback
import logging, warnings, gc

_real_alloc = _thread.allocate_lock
_real_sleep = _time_mod.sleep
_real_time = _time_mod.time
_real_mono = _time_mod.monotonic
_get_ident = _thread.get_ident

BASE_TIME = 1000.0


class Abort(BaseException):
    """Unwinds leftover threads after a run."""


class Violation(Exception):
    pass


class CT:
    __slots__ = ('id', 'name', 'gate', 'state', 'pred', 'deadline', 'fired', 'essential', 'exc', 'why', 'frame',
                 'yielded', 'ident', 'aborts')

    def __init__(self, id, name, essential):
        self.id, self.name, self.essential = id, name, essential
        self.gate = _real_alloc()
        self.gate.acquire()
        self.state = 'run'
        self.pred = self.deadline = None
        self.fired = False
        self.exc = None
        self.why = ''
        self.yielded = False
        self.ident = None
        self.aborts = 0


S = None            # active scheduler


class Sched:
    def __init__(self, schedule=None, max_steps=60000, max_time=2000.0, lines=True):
        self.schedule = schedule or {}
        self.options = []           # number of alternatives at each choice point
        self.where = []
        self.threads = []
        self.by_ident = {}
        self.now = BASE_TIME
        self.steps = 0
        self.max_steps = max_steps
        self.end_time = BASE_TIME + max_time
        self.lines = lines
        self.finished = _real_alloc()
        self.finished.acquire()
        self.problem = None         # scheduler-level problem (deadlock, ...)
        self.aborting = False
        self.log = []
        self.current = None
        self.spawned = 0
        self.rng = None
        self.p = 0.0
        self.over = False

    # -- events -----------------------------------------------------------
    def event(self, *a):
        self.log.append((round(self.now - BASE_TIME, 6),) + a)

    # -- threads ----------------------------------------------------------
    def spawn(self, fn, name=None, essential=True):
        ct = CT(len(self.threads), name or f't{len(self.threads)}', essential)
        self.threads.append(ct)

        def boot():
            ct.ident = _get_ident()
            self.by_ident[ct.ident] = ct
            ct.gate.acquire()
            try:
                if not self.aborting:
                    fn()
            except Abort:
                pass
            except BaseException as e:      # noqa
                ct.exc = e
                if ct.essential and not self.aborting and not self.problem:
                    self.problem = ('exception', f'{ct.name}: {e!r}',
                                    ''.join(traceback.format_exception(e))[-3000:])
            finally:
                ct.state = 'done'
                self.by_ident.pop(ct.ident, None)
                self._leave(ct)

        _thread.start_new_thread(boot, ())
        return ct

    def me(self):
        return self.by_ident.get(_get_ident())

    # -- core -------------------------------------------------------------
    def _ready(self, t):
        if t.state == 'run':
            return True
        if t.state == 'blocked':
            if t.pred is not None and t.pred():
                t.state, t.fired, t.yielded = 'run', True, False
                return True
            if t.deadline is not None and t.deadline <= self.now + 1e-9:
                t.state, t.fired, t.yielded = 'run', False, False
                return True
        return False

    def _pick(self, cur):
        while True:
            cand = [t for t in self.threads if self._ready(t)]
            if cand:
                fresh = [t for t in cand if not t.yielded]
                if not fresh:
                    for t in cand:
                        t.yielded = False
                    # everybody polls: let time pass a little so that polling loops make progress
                    nxt = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
                    if nxt and len(cand) == 1:
                        self.now = max(self.now, min(min(nxt), self.now + 0.001))
                    fresh = [t for t in cand if t is not cur] or cand
                if cur in fresh and cur is not fresh[0]:
                    fresh.remove(cur)
                    fresh.insert(0, cur)
                if len(fresh) == 1:
                    return fresh[0]
                n = len(self.options)
                alt = self.schedule.get(n)
                if alt is None and self.rng is not None and self.rng.random() < self.p:
                    alt = self.rng.randrange(len(fresh))
                    if alt:
                        self.schedule[n] = alt
                self.options.append(len(fresh))
                return fresh[(alt or 0) % len(fresh)]
            dl = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
            if not dl:
                self._fail('deadlock', 'no thread can run and no timer is armed')
                return None
            self.now = max(self.now, min(dl))
            if self.now > self.end_time:
                self._fail('no-termination', f'virtual time limit reached ({self.end_time - BASE_TIME}s)')
                return None

    def _fail(self, kind, text):
        if not self.problem:
            lines = [text]
            fr = sys._current_frames()
            for t in self.threads:
                if t.state != 'done':
                    st = ''
                    f = fr.get(t.ident)
                    while f is not None:
                        if 'aiuti' in f.f_code.co_filename:
                            st = f' at {os.path.basename(f.f_code.co_filename)}:{f.f_lineno} {f.f_code.co_name}'
                            break
                        f = f.f_back
                    lines.append(f'  {t.name}: {t.state} {t.why}{st}')
            self.problem = (kind, '\n'.join(lines), '')

    def _switch(self, cur):
        """cur gives up the baton until it is chosen again."""
        nxt = self._pick(cur)
        if nxt is None:
            self._finish()
            cur.gate.acquire()      # parked; woken only to abort
            raise Abort
        if nxt is not cur:
            nxt.gate.release()
            cur.gate.acquire()
        if self.aborting:
            cur.aborts += 1
            raise Abort

    def _leave(self, cur):
        if self.aborting:
            self.abort_ack.release()
            return
        if self.problem or all(t.state == 'done' for t in self.threads if t.essential):
            self._finish()
            return
        nxt = self._pick(cur)
        if nxt is None:
            self._finish()
            return
        nxt.gate.release()

    def _finish(self):
        if not self.over:
            self.over = True
            self.finished.release()

    def yield_point(self, why='', force=False):
        t = self.by_ident.get(_get_ident())
        if t is None:
            return
        if self.aborting:
            t.aborts += 1
            raise Abort
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail('livelock', f'step limit {self.max_steps} reached')
            self._finish()
            t.gate.acquire()
            raise Abort
        t.why = why
        if force:
            t.yielded = True
        for o in self.threads:
            if o is not t and not force:
                o.yielded = False
        self._switch(t)

    def block(self, pred, timeout=None, why=''):
        """Block until pred() or timeout (virtual seconds); True iff pred."""
        t = self.by_ident.get(_get_ident())
        if t is None:       # uncontrolled thread (set-up code)
            if pred is None or pred():
                return True
            if timeout is not None:
                self.now += timeout
                return bool(pred and pred())
            raise RuntimeError('uncontrolled thread would block: ' + why)
        if self.aborting:
            t.aborts += 1
            raise Abort
        self.steps += 1
        for o in self.threads:
            if o is not t:
                o.yielded = False
        t.pred, t.deadline = pred, (None if timeout is None else self.now + timeout)
        t.state, t.fired, t.why = 'blocked', False, why
        self._switch(t)
        t.pred = t.deadline = None
        return t.fired

    # -- run ----------------------------------------------------------------
    def run(self):
        """Run until all essential threads are done."""
        ess = [t for t in self.threads if t.essential]
        if ess:
            first = self._pick(None)
            if first is None:
                self._finish()
            else:
                first.gate.release()
            self.finished.acquire()
        self.over = True
        # reap leftovers
        self.aborting = True
        self.abort_ack = _real_alloc()
        self.abort_ack.acquire()
        for t in list(self.threads):
            if t.state != 'done':
                t.state = 'run'
                t.gate.release()
                if not self.abort_ack.acquire(timeout=2):
                    leaked.append(t)
        return self.problem


leaked = []


# ------------------------------------------------------------------------------------------------ primitives

class CoopLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if blocking and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        if timeout > threading.TIMEOUT_MAX:
            raise OverflowError("timeout value is too large")
        if S is not None:
            S.yield_point('acquire')
        if self._locked:
            if not blocking:
                return False
            if S is None:
                raise RuntimeError('lock would block outside a run')
            end = None if timeout == -1 else S.now + timeout
            while self._locked:     # several waiters may have been woken
                if not S.block(lambda: not self._locked, None if end is None else max(0, end - S.now), 'lock'):
                    return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if S is not None and not S.aborting:
            S.yield_point('release')

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self._locked = False


class CoopRLock:
    def __init__(self):
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if blocking and timeout < 0 and timeout != -1:
            raise ValueError("timeout value must be a non-negative number")
        me = _get_ident()
        if S is not None:
            S.yield_point('racquire')
        if self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if S is None:
                raise RuntimeError('rlock would block outside a run')
            end = None if timeout == -1 else S.now + timeout
            while self._owner is not None:
                if not S.block(lambda: self._owner is None, None if end is None else max(0, end - S.now), 'rlock'):
                    return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            if S is not None and not S.aborting:
                S.yield_point('rrelease')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        while self._owner is not None:
            S.block(lambda: self._owner is None, None, 'rlock')
        self._owner, self._count = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def vtime():
    return S.now if S is not None else BASE_TIME


def vsleep(secs):
    if secs < 0:
        raise ValueError('sleep length must be non-negative')
    if S is None:
        return
    if secs == 0:
        S.yield_point('sleep0', force=True)
    else:
        S.block(None, secs, f'sleep {secs}')


_installed = False


def install():
    """Patch the primitives.  Must run before aiuti is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    _time_mod.sleep = vsleep
    _time_mod.time = vtime
    _time_mod.monotonic = vtime
    _time_mod.perf_counter = vtime
    threading.Lock = threading._allocate_lock = CoopLock
    threading.RLock = threading._CRLock = threading._PyRLock = CoopRLock
    threading._time = vtime
    import queue
    queue.time = vtime
    queue.SimpleQueue = queue._PySimpleQueue
    T = threading.Thread
    orig_start = T.start

    def start(self):
        if S is None or S.me() is None:
            return orig_start(self)
        if self._started.is_set():
            raise RuntimeError("threads can only be started once")
        started = self._started

        def body():
            self._ident = _get_ident()
            threading._active[self._ident] = self
            started.set()
            try:
                self.run()
            except Abort:
                raise
            except SystemExit:
                pass
            except BaseException as e:      # noqa
                S.event('thread-exception', self.name, repr(e))
            finally:
                threading._active.pop(self._ident, None)
                self._is_stopped = True
        self._coop = S.spawn(body, self._name, essential=False)
        S.spawned += 1
        S.block(lambda: started._flag, None, 'thread start')

    def join(self, timeout=None):
        ct = getattr(self, '_coop', None)
        if ct is None:
            return
        S.block(lambda: ct.state == 'done', timeout, 'join')

    def is_alive(self):
        ct = getattr(self, '_coop', None)
        return ct is not None and ct.state != 'done'

    T.start, T.join, T.is_alive = start, join, is_alive
    import concurrent.futures, concurrent.futures.thread as cft, concurrent.futures._base as cfb
    cft._global_shutdown_lock = CoopLock()
    cft._threads_queues = __import__('weakref').WeakKeyDictionary()
    import asyncio, asyncio.base_events as be

    class CoopSelector:
        def __init__(self):
            self.woken = False

        def select(self, timeout=None):
            if S is None:
                self.woken = False
                return []
            if timeout is not None and timeout <= 0:
                S.yield_point('loop')
            elif self.woken:
                S.yield_point('loop')
            else:
                S.block(lambda: self.woken, timeout, 'select')
            self.woken = False
            return []

        def close(self):
            pass

        def get_map(self):
            return {}

    class CoopLoop(be.BaseEventLoop):
        def __init__(self, selector=None):
            super().__init__()
            self._selector = CoopSelector()
            self._clock_resolution = 1e-9

        def _process_events(self, ev):
            pass

        def _write_to_self(self):
            self._selector.woken = True

        def time(self):
            return vtime()

        def close(self):
            if self.is_running():
                raise RuntimeError("Cannot close a running event loop")
            super().close()

    class Policy(asyncio.events.BaseDefaultEventLoopPolicy):
        _loop_factory = CoopLoop

    asyncio.set_event_loop_policy(Policy())
    asyncio.SelectorEventLoop = CoopLoop
    sys.modules[__name__].CoopLoop = CoopLoop
    import fcntl
    real_flock = fcntl.flock
    sys.modules[__name__].real_flock = real_flock

    def coop_flock(fd, op):
        S and S.yield_point('flock')
        if S is None or S.me() is None or op & fcntl.LOCK_NB or not op & (fcntl.LOCK_EX | fcntl.LOCK_SH):
            r = real_flock(fd, op)
            S and not S.aborting and S.yield_point('flocked')
            return r

        got = []

        def attempt():      # taken on behalf of the blocked thread, like the kernel does
            if not got:
                try:
                    real_flock(fd, op | fcntl.LOCK_NB)
                    got.append(1)
                except BlockingIOError:
                    return False
            return True
        S.block(attempt, None, 'flock')
    fcntl.flock = coop_flock


# ------------------------------------------------------------------------------------------------ loading aiuti

REPO = os.environ.get('VERIF_REPO', '/repo')
_codes = {}
TOOL = 3


def _code(mod):
    if mod not in _codes:
        path = f'{REPO}/aiuti/{mod}.py'
        with open(path, 'rb') as f:
            src = f.read()
        code = compile(src, path, 'exec')
        _codes[mod] = code
        _instrument(code, path)
    return _codes[mod]


def _instrument(code, path):
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'verif')
        m.register_callback(TOOL, m.events.LINE, _on_line)
    todo = [c for c in code.co_consts if isinstance(c, types.CodeType)]
    while todo:
        c = todo.pop()
        m.set_local_events(TOOL, c, m.events.LINE)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def _on_line(code, line):
    s = S
    if s is not None and s.lines:
        t = s.by_ident.get(_get_ident())
        if t is not None and not s.aborting:
            h = s.line_hook
            if h is not None:
                h(t, code, line)
            s.yield_point(('L', line))


Sched.line_hook = None


def load(*mods):
    """Fresh copies of the aiuti modules (current source of /repo)."""
    for k in [k for k in sys.modules if k == 'aiuti' or k.startswith('aiuti.')]:
        del sys.modules[k]
    pkg = types.ModuleType('aiuti')
    pkg.__path__ = [f'{REPO}/aiuti']
    sys.modules['aiuti'] = pkg
    for mod in os.listdir(f'{REPO}/aiuti'):
        if mod.endswith('.py') and mod not in ('__init__.py', '_version.py', 'typing.py'):
            pass
    sys.modules['aiuti.typing'] = _typing()
    pkg.typing = sys.modules['aiuti.typing']
    out = []
    for m in mods:
        out.append(_load1(pkg, m))
    return out[0] if len(out) == 1 else out


def _load1(pkg, m):
    mod = types.ModuleType(f'aiuti.{m}')
    mod.__file__ = f'{REPO}/aiuti/{m}.py'
    mod.__package__ = 'aiuti'
    sys.modules[f'aiuti.{m}'] = mod
    setattr(pkg, m, mod)
    exec(_code(m), mod.__dict__)
    return mod


class _Finder:
    """Lets the modules import sibling modules of /repo/aiuti (also new ones)."""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith('aiuti.'):
            m = name.split('.', 1)[1]
            if os.path.exists(f'{REPO}/aiuti/{m}.py'):
                return importlib.machinery.ModuleSpec(name, _Finder)
        return None

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(module):
        m = module.__name__.split('.', 1)[1]
        module.__file__ = f'{REPO}/aiuti/{m}.py'
        exec(_code(m), module.__dict__)


sys.meta_path.insert(0, _Finder)

_typing_mod = None


def _typing():
    global _typing_mod
    if _typing_mod is None:
        mod = types.ModuleType('aiuti.typing')
        mod.__file__ = f'{REPO}/aiuti/typing.py'
        mod.__package__ = 'aiuti'
        with open(mod.__file__, 'rb') as f:
            exec(compile(f.read(), mod.__file__, 'exec'), mod.__dict__)
        _typing_mod = mod
    return _typing_mod
