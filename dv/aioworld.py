"""Model event loop.  Tasks, futures, shield, wait, wait_for, gather, Event, Semaphore are CPython's own (pure Python)
asyncio code, executed like the code under contract; modelled are only the loop itself (FIFO ready list, timers,
clock) and containers of unbounded size.  Between any two callbacks the environment may act."""
import sys
sys.modules['_asyncio'] = None
import asyncio, asyncio.tasks, asyncio.futures, asyncio.queues, asyncio.locks, asyncio.timeouts, asyncio.events, asyncio.mixins
import collections
import types
import z3
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, num, ENGINE_FILES
from focus import Atom, Many, DList, DSet, DDict, Mod, It, CallIter, materialize, NoContract
import core

ENGINE_FILES.add(__file__)
assert asyncio.Task is asyncio.tasks._PyTask
asyncio.tasks._task_name_counter = lambda: 0
asyncio.tasks._scheduled_tasks = type('NoSet', (), {'add': lambda s, x: None, '__iter__': lambda s: iter(()), 'discard': lambda s, x: None})()
Task, Future = asyncio.Task, asyncio.Future


def _fut_state(f):
    return (f._state, f._result, f._exception, [c[0] for c in f._callbacks], f._asyncio_future_blocking)


def _task_state(t):
    return _fut_state(t) + (t._coro, t._fut_waiter, t._must_cancel, t._num_cancels_requested)


Future._dv_state = _fut_state
Task._dv_state = _task_state


class AnyNum:
    """A number nothing is known about: comparisons are case splits."""

    def __init__(self, what='number', positive=None):
        self.what = what

    def _dv_state(self):
        return (self.what,)

    def _cmp(self, o):
        return bool(cur().choose(2))
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _cmp

    def _op(self, *o):
        return AnyNum(self.what)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = __pos__ = _op

    def __bool__(self):
        return bool(cur().choose(2))

    def __hash__(self):
        raise Unsupported('number hashed')

    def __index__(self):
        raise Unsupported('unknown number used as an index')

    def __repr__(self):
        return f'<{self.what}>'

    def __format__(self, s):
        return repr(self)

    def __deepcopy__(self, m):
        return self


class AnyPos(AnyNum):
    """A number > 0"""

    def _cmp0(self, o):
        if isinstance(o, (int, float)) and o <= 0:
            return True
        return self._cmp(o)

    def __gt__(self, o):
        return self._cmp0(o)

    __ge__ = __ne__ = __gt__

    def __lt__(self, o):
        return not self > o

    __le__ = __eq__ = __lt__

    def __bool__(self):
        return True

    def __hash__(self):
        return id(self)

    def _dv_state(self):
        return ()


class Instant:
    """A point in time: an unknown one plus known delays.  Known to be equal only if made of the same parts."""

    def __init__(self, base=None, ds=()):
        self.base, self.ds = base or object(), ds

    def _dv_state(self):
        w = cur().world
        h = getattr(w, 'instants', None)
        if h is None:
            return (self.base, self.ds)
        for n, x in h():            # those the contract is interested in; nothing is known about others
            if self.base is x.base:
                return (n, self.same(x), self.ds)
        return ()

    def same(self, o):
        return isinstance(o, Instant) and o.base is self.base and len(o.ds) == len(self.ds) and all(
            x is y or type(x) is type(y) in (int, float) and x == y for x, y in zip(self.ds, o.ds))

    def __add__(self, d):
        if isinstance(d, (int, float)) and d == 0:
            return self
        if isinstance(d, (int, float, AnyNum)):
            return Instant(self.base, self.ds + (d,))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Instant):
            if self.same(o):
                return 0
            if self.base is o.base and not o.ds and len(self.ds) == 1:
                return self.ds[0]
            return AnyNum('duration')
        return Instant(self.base, self.ds + (('-', o),))

    def _later(self, o):
        """+1 self is later, 0 same, -1 earlier, None unknown"""
        if self.same(o):
            return 0
        if isinstance(o, Instant) and self.base is o.base:
            pos = lambda ds: all(isinstance(d, AnyPos) or isinstance(d, (int, float)) and d > 0 for d in ds)
            if not o.ds and pos(self.ds):
                return 1
            if not self.ds and pos(o.ds):
                return -1
        f = getattr(cur().world, 'order', None)
        return f and f(self, o)

    def _cmp(self, o, f):
        l = self._later(o)
        return bool(cur().choose(2, ['not yet', 'already'])) if l is None else f(l)

    def __lt__(self, o):
        return self._cmp(o, lambda l: l < 0)

    def __le__(self, o):
        return self._cmp(o, lambda l: l <= 0)

    def __gt__(self, o):
        return self._cmp(o, lambda l: l > 0)

    def __ge__(self, o):
        return self._cmp(o, lambda l: l >= 0)

    def __eq__(self, o):
        return self._cmp(o, lambda l: l == 0)

    def __bool__(self):
        return True

    __hash__ = None

    def __repr__(self):
        return '<time>'

    def __format__(self, s):
        return repr(self)


class Clock:
    """The current time; unchanged while callbacks are ready."""

    def __init__(self):
        self.now = Instant()

    def _dv_state(self):
        return ()


class Handle:
    def __init__(self, loop, fn, args, when=None):
        self.loop, self.fn, self.args, self._when = loop, fn, args, when
        self._cancelled = False

    def _dv_state(self):
        return (self.fn, self.args, self._when, self._cancelled)

    def cancel(self):
        if not self._cancelled:
            self._cancelled = True
            self.fn = self.args = None
            for q in (self.loop.ready, self.loop.timers):
                for i, h in enumerate(q):
                    if h is self:
                        del q[i]
                        break

    def cancelled(self):
        return self._cancelled

    def when(self):
        return self._when


class Loop:
    """asyncio event loop; also the clock."""

    def __init__(self, w, clock=None):
        self.w, self.clock = w, clock
        self.ready, self.timers = [], []
        self.errors = []
        self.running = True
        self.closed = False

    def _dv_state(self):
        return (self.ready, self.timers, self.clock, self.running, self.closed)

    def call_soon(self, fn, *args, context=None):
        r = cur()
        r.alive()
        h = Handle(self, fn, args)
        self.ready.append(h)
        return h

    def call_soon_threadsafe(self, fn, *args, context=None):
        return self.call_soon(fn, *args)

    def time(self):
        cur().alive()
        return AnyNum('time') if self.clock is None else self.clock.now

    def call_at(self, when, fn, *args, context=None):
        cur().alive()
        h = Handle(self, fn, args, when)
        self.timers.append(h)
        return h

    def call_later(self, delay, fn, *args, context=None):
        return self.call_at(self.time() + delay, fn, *args)

    def create_future(self):
        return Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        t = self.w.Task(coro, loop=self, name=name)
        return t

    def get_debug(self):
        return False

    def is_running(self):
        return self.running

    def is_closed(self):
        return self.closed

    def call_exception_handler(self, ctx):
        pass

    def default_exception_handler(self, ctx):
        pass

    def set_exception_handler(self, h):
        pass

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported(f'loop.{n}')

    # ---- driver side
    def run_one(self, i=0):
        h = self.ready.pop(i)
        if not h._cancelled:
            self.invoke(h)

    def fire(self, h):
        """A timer is due: its callback is queued."""
        self.timers = [x for x in self.timers if x is not h]
        self.ready.append(Handle(self, h.fn, h.args))

    def invoke(self, h):
        try:
            h.fn(*h.args)
        except (PathEnd, Unsupported):
            raise
        except (SystemExit, KeyboardInterrupt):
            raise Unsupported('interrupt')
        except BaseException as e:
            cur().alive()
            self.errors.append(e)


class QList(DList):
    """Contents of a queue."""

    def __init__(self, it=()):
        self.items = list(it)


class Queue(asyncio.Queue):
    """asyncio.Queue with contents of any size (its own code, other container)."""
    counted = False

    def __init__(self, maxsize=0):
        super().__init__(maxsize)
        w = cur().world
        w.queues.append(self)
        self._loop = w.loop
        self._finished._loop = w.loop

    def _dv_state(self):
        return (self._queue, self._getters, self._putters, self._maxsize, self.counted and (self._unfinished_tasks, self._finished))

    def _init(self, maxsize):
        self._queue = cur().world.queue_list()

    def _get(self):
        return self._queue.popleft()

    def _put(self, item):
        cur().world.on_put(self, item)
        self._queue.append(item)

    def put_nowait(self, item):
        cur().alive()
        super().put_nowait(item)
        if not self.counted:
            self._unfinished_tasks = 0
            self._finished._value = False

    def qsize(self):
        cur().alive()
        if self._queue.abstract():
            return AnyLen(self._queue)
        return len(self._queue.items)

    def empty(self):
        cur().alive()
        return not self._queue

    def task_done(self):
        if not self.counted:
            raise Unsupported('task_done()')
        super().task_done()

    def join(self):
        if not self.counted:
            raise Unsupported('join()')
        return super().join()


class AnyLen(AnyNum):
    """Length of an unbounded collection; only emptiness is known."""

    def __init__(self, c):
        self.c = c

    def _dv_state(self):
        return (self.c,)

    def __bool__(self):
        return bool(self.c)

    def __eq__(self, o):
        if o == 0:
            return not self.c
        return bool(cur().choose(2))

    def __gt__(self, o):
        if o == 0:
            return bool(self.c)
        return bool(cur().choose(2))

    def __ge__(self, o):
        if o == 1:
            return bool(self.c)
        return bool(cur().choose(2))

    def __lt__(self, o):
        return not self >= o

    def __le__(self, o):
        return not self > o

    def _op(self, *o):
        return AnyNum('length')
    __add__ = __radd__ = __sub__ = __rsub__ = _op

    def __repr__(self):
        return '<len>'


class ISlice:
    def __init__(self, it, *a):
        if len(a) != 1:
            raise Unsupported('islice(start, ...)')
        self.it, self.n = iter(it), a[0]
        if isinstance(self.n, SymNum) and self.n < 0 or isinstance(self.n, int) and self.n < 0:
            raise ValueError('Stop argument for islice() must be None or an integer: 0 <= x <= sys.maxsize.')

    def _dv_state(self):
        return (self.it, self.n)

    def _dv_abstract(self):
        return True

    def __iter__(self):
        return self

    def __next__(self):
        cur().alive()
        if self.n is None:
            return next(self.it)
        if isinstance(self.n, (AnyNum, SymNum)):
            if self.n <= 0:
                raise StopIteration
        elif not self.n:
            raise StopIteration
        self.n = self.n - 1
        return next(self.it)


def model_asyncio(w, **over):
    a = {n: getattr(asyncio, n) for n in (
        'shield', 'wait_for', 'wait', 'gather', 'ensure_future', 'Event', 'Future', 'CancelledError', 'TimeoutError',
        'InvalidStateError', 'QueueEmpty', 'QueueFull', 'ALL_COMPLETED', 'FIRST_COMPLETED', 'FIRST_EXCEPTION', 'iscoroutine',
        'isfuture', 'sleep', 'current_task', 'timeout', 'timeout_at', 'Lock', 'Condition')}

    class TaskM(Task):
        """asyncio.Task, known to the world."""

        def __init__(self, coro, *, loop=None, name=None, **k):
            cur().alive()
            super().__init__(coro, loop=loop or w.loop, name=name or 'task')
            w.task_created(self)
    TaskM.__qualname__ = 'Task'
    w.Task = TaskM
    a.update(Queue=Queue, Task=TaskM, get_running_loop=w.running_loop, get_event_loop=w.running_loop,
             create_task=lambda c, **k: w.running_loop().create_task(c, **{x: k[x] for x in k if x == 'name'}),
             AbstractEventLoop=core.TName('AbstractEventLoop'), Semaphore=w.semaphore, BoundedSemaphore=w.semaphore,
             run_coroutine_threadsafe=NoContract('run_coroutine_threadsafe'), wrap_future=NoContract('wrap_future'))
    a.update(over)
    return Mod('asyncio', **a)


def begin(loop):
    asyncio._set_running_loop(loop)
    asyncio.tasks._current_tasks.clear()


for m in (asyncio.tasks, asyncio.futures, asyncio.queues, asyncio.locks, asyncio.timeouts):
    pass
