"""C03, C07, C08: one arbitrary submission S to a buffer (any kind, from the loop's thread or a foreign one), any number of
other submissions from the loop's thread and from foreign threads, waiters with any `cancel`, a function that fails any
number of times, and a shutdown at any moment.

The real BufferAsyncCalls runs on the model loop (aioworld.py).  A foreign thread's call is its sequence of operations on
shared objects (recorded from the real code), each of which may happen between any two callbacks and around every
operation the loop's thread performs on the completion flag.
"""
import types
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
import focus
from focus import Atom, Many, DList, DSet, DDict, Mod, NoContract
import aioworld
from aioworld import AnyNum, AnyPos, Instant, Clock, AnyLen, Loop, QList, Queue, ISlice, Task, Future, Handle, asyncio
import core

ENGINE_FILES.add(__file__)
BFS = True
PROPS = ['C03', 'C07', 'C08', 'C15']
_F = ['aiuti.asyncio.BufferAsyncCalls.' + n for n in (
    '__init__', '__call__', 'await_', 'map', 'amap', 'wait', 'wait_from_anywhere', '_waiter', '_process_queue', '_run_func',
    '_schedule_with_timeout', '_put', '_empty_queue')] + ['aiuti.asyncio._obj_to_aiter', 'aiuti.asyncio._awaitable_to_aiter']
FUNCTIONS = {p: _F for p in PROPS}
_A = ['the event loop runs callbacks in FIFO order, one at a time; timers and other completions are queued at any time after they are due',
      'tasks, futures, queues, events, wait, gather and wait_for behave as the pure Python asyncio of CPython 3.12 (executed as is)',
      'to_async_iter and ensure_aw behave as C16 and C17 state',
      'the wrapped function succeeds some time when it is called again and again; producers end some time; submitted elements are pairwise different',
      'one other submission of the loop thread and one of a foreign thread are on their way to the queue at a time (any number one after another)']
ASSUMES = {p: _A for p in PROPS}
EXPECT = {'C03': ['C03.once', 'C03.thread', 'C03.submitted', 'C03.delivered'],
          'C07': ['C07.barrier', 'C07.returns', 'C07.shutdown'],
          'C08': ['C08.overlap', 'C08.empty', 'C08+C15.quiet'], 'C15': ['C08+C15.quiet']}


class X(Atom):
    """The focus element."""

    def _dv_state(self):
        cur().world.x_seen = True
        return ()


class OtherElem:
    def __init__(self):
        pass

    def _dv_state(self):
        return ()

    def __bool__(self):
        return bool(cur().choose(2, ['other element falsy', 'other element truthy']))

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def other_elems(some):
    return Many(OtherElem, 'other elements', some)


class ESet(DSet):
    """Set of arguments."""

    def _add(self, x):
        if isinstance(x, OtherElem):
            x = other_elems(True)
        if isinstance(x, Many) and x.tag == 'other elements':
            for i, y in enumerate(self.items):
                if isinstance(y, Many) and y.tag == x.tag:
                    self.items[i] = other_elems(x.some or y.some)
                    return
        super()._add(x)

    def copy(self):
        return ESet(list(self.items))

    def _dv_state(self):
        return tuple(sorted(self.items, key=lambda x: type(x).__name__))

    def __sub__(self, o):
        raise Unsupported('set difference')

    __rsub__ = __isub__ = __and__ = __xor__ = __sub__

    def __getattr__(self, n):
        if not n.startswith('_') and hasattr(set, n):
            raise Unsupported(f'set.{n}')
        raise AttributeError(n)


def own_others(co):
    """Does the coroutine deal with other submissions only?"""
    f = getattr(co, 'cr_frame', None) or getattr(co, 'ag_frame', None) or getattr(co, 'gi_frame', None)
    if f is None or f.f_lasti > 4 and not isinstance(co, types.CoroutineType):
        return False
    c = f.f_code
    vals = [f.f_locals[n] for n in c.co_varnames[:c.co_argcount] if n in f.f_locals]
    return bool(vals) and any(isinstance(v, Src) and v.other for v in vals) and not any(isinstance(v, Src) and not v.other for v in vals)


def started(co):
    return co.cr_frame is None or co.cr_running or __import__('inspect').getcoroutinestate(co) != 'CORO_CREATED'


class CList(DList):
    """List; one coroutine for other submissions stands for any number of them."""

    def append(self, x):
        super().append(x)
        cur().world.fold_items(self)

    def dlen(self):
        if self.abstract():
            return AnyLen(self)
        return len(self.items)


class CallSrc:
    """What an opaque producer is."""


class Src:
    """Producer of arguments: async iterable / sync iterable / awaitable as the caller likes."""

    def __init__(self, w, other, immediate=False):
        self.w, self.other, self.immediate = w, other, immediate
        self.wait = None
        self.over = False

    def _dv_state(self):
        return (self.other, self.over, self.wait)

    def __aiter__(self):
        return self

    def __await__(self):
        return self._item().__await__()

    def __iter__(self):
        raise Unsupported('synchronous iteration outside to_async_iter')

    async def pause(self):
        w, r = self.w, cur()
        r.alive()
        if self.immediate or not r.choose(2, ['producer is ready', 'producer is slow']):
            return
        self.wait = w.loop.create_future()
        w.srcs.append(self)
        try:
            await self.wait
        except asyncio.CancelledError:
            if not self.other:
                w.S.failed()
            self.over = True
            raise
        finally:
            self.wait = None
            if self in w.srcs:
                w.srcs.remove(self)

    def fail(self, o):
        if not self.other:
            self.w.S.failed()
        self.over = True
        raise {'fails': Failed, 'fails (base)': Base}[o]('producer')

    async def _item(self):
        await self.pause()
        if self.immediate or not cur().choose(2, ['awaitable returns', 'awaitable raises']):
            if self.other:
                return OtherElem()
            return self.w.S.produce()
        self.fail('fails')

    async def __anext__(self):
        r = cur()
        r.alive()
        if self.over:
            raise StopAsyncIteration
        await self.pause()
        S = self.w.S
        if self.other:
            o = r.pick(['end', 'yields'] if self.immediate else ['end', 'yields', 'fails', 'fails (base)'], 'other producer')
        elif self.immediate:
            o = 'end' if S.produced else 'yields'
        else:
            o = r.pick(['yields other', 'fails', 'end'] + (['yields'] if not S.produced else []), 'producer of S')
        if o == 'yields':
            return OtherElem() if self.other else S.produce()
        if o == 'yields other':
            return OtherElem()
        if o == 'end':
            if not self.other:
                S.failed()
            self.over = True
            raise StopAsyncIteration
        self.fail(o)


class Failed(Exception):
    pass


class Base(BaseException):
    pass


class Sub:
    """The focus submission."""

    def __init__(self, w):
        self.w = w
        self.x = X('x')
        self.stage = None           # None, then a list of operations left for the foreign thread, then 'in'
        self.produced = self.void = False
        self.delivered = 0
        self.idle = False

    def _dv_state(self):
        return (self.stage, self.produced, self.void, self.delivered, self.idle)

    def produce(self):
        self.produced = True
        return self.x

    def failed(self):
        if not self.produced:
            self.void = True

    def due(self):
        return self.stage == 'in' and not self.void and not self.delivered


class EventM(asyncio.Event):
    def __init__(self):
        super().__init__()
        cur().world.events.append(self)

    def _dv_state(self):
        return (self._value, self._waiters)

    def set(self):
        cur().alive()
        if cur().world.recording is not None:
            cur().fail('C03.thread', 'a foreign thread sets an asyncio event')
        self.touch()
        super().set()
        self.touch()

    def clear(self):
        w = cur().world
        cur().alive()
        if w.recording is not None:
            w.recording.append(('clear', self))
            return
        self.touch()
        super().clear()

    def is_set(self):
        self.touch()
        return super().is_set()

    def touch(self):
        r = cur()
        r.alive()
        w = r.world
        if w.recording is not None:
            raise Unsupported('a foreign thread reads or sets the completion flag')
        if w.in_callback:
            w.foreign_now()


class FuncRun:
    def __init__(self, inputs):
        w, r = cur().world, cur()
        self.w = w
        self.wait = None
        self.over = False
        r.check('C08.overlap', w.func is None, 'the function is called while it is running')
        items = focus.materialize(inputs) if not isinstance(inputs, DSet) else list(inputs.items)
        r.check('C08.empty', bool(inputs), 'the function is called without arguments')
        S = w.S
        self.has_x = False
        for x in items:
            if x is S.x:
                r.check('C03.submitted', S.produced, 'x is passed before it was produced')
                self.has_x = True
            else:
                r.check('C03.submitted', isinstance(x, (OtherElem, Many)), f'{x!r} was not submitted')
        w.func = self
        w.starts(self)

    def _dv_state(self):
        return (self.has_x, self.wait, self.over)

    async def run(self):
        self.wait = self.w.loop.create_future()
        w = self.w
        try:
            e = await self.wait
        except asyncio.CancelledError:
            self.finish(False)
            raise
        except BaseException:
            self.finish(False)
            raise
        if e is not None:
            self.finish(False)
            raise e
        self.finish(True)

    def finish(self, ok):
        cur().alive()
        w, S = self.w, self.w.S
        w.func = None
        self.over = True
        w.idle_since()
        if ok and self.has_x:
            S.delivered = min(S.delivered + 1, 2)
            cur().check('C03.once', S.delivered == 1 or w.foreign, 'x is passed to a second successful call')


class BQueue(Queue):
    """Unfinished items = items in the queue + items taken and not marked done."""
    counted = True
    _unfinished_tasks = 0

    def __init__(self, maxsize=0):
        self.debt = 0
        super().__init__(maxsize)

    def _dv_state(self):
        return (self._queue, self._getters, self.debt, self._finished)

    def put_nowait(self, item):
        cur().alive()
        if cur().world.recording is not None:
            cur().fail('C03.thread', 'a foreign thread calls put_nowait() of an asyncio queue')
        self._put(item)
        self._finished.clear()
        self._wakeup_next(self._getters)

    def _get(self):
        x = self._queue.popleft()
        self.debt = min(self.debt + 1, 4)
        return x

    def _none_left(self):
        return not self._queue

    def task_done(self):
        cur().alive()
        if self.debt <= 0:
            if self.debt < 0 or self._queue.abstract():
                raise Unsupported('task_done() called too often')
            if not self._queue.items:
                raise ValueError('task_done() called too many times')
        if self.debt < 4 or cur().choose(2):
            self.debt -= 1
        if self.debt == 0 and self._none_left():
            self._finished.set()

    async def join(self):
        cur().alive()
        if self.debt or not self._none_left():
            await self._finished.wait()


class Waiter:
    def __init__(self, after):
        self.after = after          # called after S was submitted
        self.task = None

    def _dv_state(self):
        return (self.after, self.task)


class W:
    nested = False
    list_class = CList
    drop_dead = True
    recording = None
    in_callback = False

    def __init__(self, run, opt):
        self.run = run
        self.opt = opt
        self.srcs = []
        self.queues, self.events, self.tasks_ = [], [], []
        self.foreign = 'foreign' in opt
        self.S = Sub(self)
        self.Wt = []
        self.func = None
        self.ftodo = None           # operations left of the other foreign submission
        self.down = None
        self.clock = Clock()
        self.loop = Loop(self, self.clock)
        self.last = self.fired = None     # debounce ghosts
        self.buf = None
        self.others = None

    def _dv_state(self):
        return (self.loop, self.S, self.Wt, self.func, self.ftodo, self.down, self.last, self.fired, self.buf, self.queues)

    def instants(self):
        if 'quiet' in self.opt:
            if self.loop.ready:
                yield 'now', self.clock.now
            if self.last is not None and self.last[0] is not None:
                yield 'last', self.last[0]

    def queue_list(self):
        return QList()

    def running_loop(self):
        return self.loop

    def semaphore(self, value=1):
        raise Unsupported('semaphore')

    def on_put(self, q, item):
        pass

    def task_created(self, t):
        self.tasks_ = [x for x in self.tasks_ if not x.done()] + [t]

    def fold_items(self, seq):
        seen = None
        out = []
        for x in seq.items:
            if isinstance(x, types.CoroutineType) and not started(x) and own_others(x):
                if seen is not None:
                    x.close()
                    continue
                seen = x
            out.append(x)
        seq.items[:] = out

    # ---- foreign threads
    def record(self, fn, *a):
        """Operations of a call made by a foreign thread."""
        self.recording = ops = []
        try:
            fn(*a)
        finally:
            self.recording = None
        return ops

    def play(self, ops):
        op = ops.pop(0)
        if op[0] == 'clear':
            op[1]._value = False
        elif op[0] == 'call':
            self.loop.ready.append(Handle(self.loop, op[1], op[2]))

    def foreign_steps(self, mid=False):
        out = []
        S = self.S
        if self.foreign and not self.down:
            if S.stage is None or isinstance(S.stage, list) and (not mid or S.stage[0][0] == 'clear'):
                out.append('foreign S')
        if 'foreign others' in self.opt and not self.down and (self.ftodo is None or not mid or self.ftodo[0][0] == 'clear'):
            if self.ftodo is not None or not self.other_on_the_way():
                out.append('foreign other')
        return out

    def foreign_now(self):
        """Between two operations of a callback."""
        acts = self.foreign_steps(True)
        if acts:
            o = self.run.pick(['nothing'] + acts, 'foreign thread')
            if o != 'nothing':
                self.foreign_step(o)

    def foreign_step(self, o):
        S = self.S
        if o == 'foreign S':
            if S.stage is None:
                S.stage = self.record(self.submit_S)
                self.run.check('C03.thread')
            self.play(S.stage)
            if not S.stage:
                S.stage = 'in'
        else:
            if self.ftodo is None:
                self.ftodo = self.record(self.submit_other)
            self.play(self.ftodo)
            if not self.ftodo:
                self.ftodo = None

    def submit_other(self):
        if 'quiet' in self.opt:
            return self.buf(OtherElem()) if 0 else self.buf.amap(Src(self, True, True))
        return self.buf.amap(Src(self, True))

    def submit_S(self):
        S, k, quiet = self.S, self.opt[0], 'quiet' in self.opt
        if k == 'call':
            S.produced = True
            self.buf(S.x)
        elif k == 'await_':
            self.buf.await_(Src(self, False, quiet))
        elif k == 'map':
            self.given = Src(self, False, quiet)
            self.buf.map(self.given)
        else:
            self.buf.amap(Src(self, False, quiet))

    def other_on_the_way(self):
        return any(isinstance(a, Src) and a.other for h in self.loop.ready for a in h.args or ())

    # ---- debounce
    def arrives(self, x):
        if 'quiet' in self.opt:
            self.last = (self.clock.now, self.func is None)
            for h in self.loop.timers:
                h.armed = False
            self.fired = self.loop.ready and self.fired is not None and 'tie' or None
            if x:
                self.S.idle = self.func is None

    def idle_since(self):
        pass

    def starts(self, f):
        if 'quiet' not in self.opt:
            return
        r = cur()
        if self.last is not None and self.fired != 'tie':
            at, idle = self.last
            r.check('C08+C15.quiet', self.fired is not None and self.fired,
                    'the function is called less than timeout after the last submission')
            if idle:
                r.check('C08+C15.quiet', self.clock.now.same(at + self.timeout), 'the function is not called timeout after the last submission of a burst')
            if self.S.idle and not self.S.delivered:
                r.check('C08+C15.quiet', f.has_x, 'x is not delivered with the burst it belongs to')
        self.last = None
        self.S.idle = False


class QLoop(Loop):
    def call_at(self, when, fn, *args, context=None):
        h = super().call_at(when, fn, *args)
        h.armed = True
        return h

    def call_soon_threadsafe(self, fn, *args, context=None):
        w = cur().world
        if w.recording is not None:
            cur().alive()
            w.recording.append(('call', fn, args))
            return None
        return self.call_soon(fn, *args)

    def call_soon(self, fn, *args, context=None):
        if cur().world.recording is not None:
            cur().fail('C03.thread', 'a foreign thread calls loop.call_soon()')
        return super().call_soon(fn, *args)

    def fire(self, h):
        self.timers = [x for x in self.timers if x is not h]
        self.ready.append(Handle(self, h.fn, h.args))


Handle.armed = None
Handle._dv_state = lambda s: (s.fn, s.args, s._when, s._cancelled, s.armed)


def body(*opt):
    def go(run):
        w = run.world = W(run, opt)
        w.loop = QLoop(w, w.clock)
        aioworld.begin(w.loop)
        aio = aioworld.model_asyncio(w, Queue=BQueue, Event=EventM)
        imports = {'asyncio': aio, 'itertools': Mod('itertools', islice=ISlice), 'queue': Mod('queue'), 'threading': Mod('threading'),
                   'concurrent.futures': Mod('concurrent.futures'), 'weakref': Mod('weakref'), 'time': Mod('time'),
                   'collections': Mod('collections', deque=CList)}
        m = core.load('asyncio', imports, list=CList, set=ESet)
        m.to_async_iter = to_async_iter
        m.ensure_aw = ensure_aw
        w.timeout = AnyPos('timeout')

        async def func(inputs):
            await FuncRun(inputs).run()
        w.buf = m.BufferAsyncCalls(func, timeout=w.timeout)
        drive(run, w)
    return go


def to_async_iter(it):
    """Contract (C16): the elements of the iterable, then its exception."""
    cur().alive()
    if not isinstance(it, Src):
        raise Unsupported('to_async_iter() of something else')
    return it


class Ensure:
    def __init__(self):
        self.done = False

    def __await__(self):
        return (yield self)


async def ensure_aw(aw, loop):
    """Contract (C17): evaluated on the given loop, gives its outcome."""
    w = cur().world
    cur().alive()
    if loop is not w.loop:
        raise Unsupported('another loop')
    fut = w.loop.create_future()

    async def there():
        try:
            v = await aw
        except BaseException as e:
            fut.set_exception(e)
            raise
        fut.set_result(v)
    w.loop.ready.append(Handle(w.loop, lambda: w.Task(there(), loop=w.loop), ()))
    return await fut


def drive(run, w):
    loop, S = w.loop, w.S
    q = w.queues[0] if w.queues else None
    own_others_ = 'no others' not in w.opt
    waits = 'waits' in w.opt
    while True:
        run.alive()
        after(run, w)
        for q in w.queues:
            fold(w, q._queue)
        p = []
        if w.down:
            p.append('C07.shutdown')
        else:
            if S.due():
                p.append('C03.delivered')
            if w.Wt:
                p.append('C07.returns')
        run.pending = tuple(p)
        w.x_seen = False
        run.cut('drive')
        if S.stage == 'in' and (S.void or S.delivered) and not w.down and run.decide(lambda: not w.x_seen):
            if any(x.after for x in w.Wt):
                run.check('C07.barrier')
            S = w.S = Sub(w)        # nothing refers to x any more: the next submission takes its place
            for x in w.Wt:
                x.after = False
            continue
        acts = []
        idle = not loop.ready or 'anytime' in w.opt
        if loop.ready:
            acts.append('run the next callback')
        if not w.down:
            if not w.foreign and S.stage is None:
                acts.append('S submits')
            acts += w.foreign_steps()
            if own_others_ and (idle or 'others anytime' in w.opt) and not w.other_on_the_way() and not any(isinstance(x, Many) for q in w.queues for x in q._queue.items):
                acts.append('other submits')
            if waits and len(w.Wt) < (2 if 'second wait' in w.opt else 1) and (w.foreign is False or S.stage in (None, 'in')):
                acts += [('wait', True), ('wait', False)]
            if 'shutdown' in w.opt:
                acts += ['shutdown', 'shutdown of everything']
            if idle and w.func is not None and w.func.wait is not None and not w.func.wait.done():
                acts += ['function succeeds', 'function fails']
            for src in sources(w):
                if idle and src.wait is not None and not src.wait.done():
                    acts.append(('producer proceeds', src))
            for h in loop.timers:
                acts.append(('timer', h))
        if p and not loop.ready and not loop.timers and w.func is None and not w.srcs and w.ftodo is None and (
                not isinstance(S.stage, list) or w.down) or w.down and not acts:
            for n in p:
                run.check(n, False, 'nothing is going to happen any more')
        act(run, w, run.pick(acts, 'step'))


def sources(w):
    return list(w.srcs)


def fold(w, q):
    out = []
    for x in q.items:
        if isinstance(x, Src) and x.other:
            x = Many(lambda: Src(w, True, 'quiet' in w.opt), 'others', True)
        if isinstance(x, Many) and out and isinstance(out[-1], Many):
            out[-1] = out[-1].again(out[-1].some or x.some)
            continue
        out.append(x)
    q.items[:] = out


PROG = ('run the next callback', 'function succeeds')


def act(run, w, a):
    loop, S = w.loop, w.S
    if not loop.ready:
        w.clock.now = Instant()
        w.fired = None
    n = a if isinstance(a, str) else a[0]
    if n not in ('run the next callback', 'function succeeds', 'producer proceeds', 'timer') and not (
            n == 'foreign S' and isinstance(S.stage, list) or n == 'foreign other' and w.ftodo is not None):
        run.env = True
    if n == 'run the next callback':
        w.in_callback = True
        loop.run_one()
        w.in_callback = False
    elif n == 'S submits':
        w.arrives(True)
        w.submit_S()
        S.stage = 'in'
    elif n in ('foreign S', 'foreign other'):
        w.foreign_step(n)
    elif n == 'other submits':
        w.arrives(False)
        w.submit_other()
    elif n == 'wait':
        wt = Waiter(S.stage == 'in')
        w.Wt.append(wt)
        if w.foreign:
            wt.task = w.Task(w.buf.wait_from_anywhere(cancel=a[1]), loop=loop)
        else:
            wt.task = w.Task(w.buf.wait(cancel=a[1]), loop=loop)
        loop.run_one(-1)
    elif n in ('function succeeds', 'function fails'):
        w.func.wait.set_result(None if n == 'function succeeds' else run.pick([Failed, Base, asyncio.CancelledError], 'raises')('function'))
    elif n == 'producer proceeds':
        a[1].wait.set_result(None)
    elif n == 'timer':
        h = a[1]
        if 'quiet' in w.opt:
            if not loop.ready:
                w.clock.now = h._when
                w.fired = h.armed
            else:
                w.fired = 'tie'
        loop.fire(h)
    elif n == 'shutdown':
        w.down = 'shutdown'
        w.buf._waiting.cancel()
    elif n == 'shutdown of everything':
        w.down = 'shutdown'
        for t in w.tasks_:
            t.cancel()


def after(run, w):
    S = w.S
    if w.down:
        if w.buf._waiting.done():
            run.check('C07.shutdown')
            run.end()
        return
    for wt in list(w.Wt):
        if wt.task.done():
            if wt.task.cancelled() or wt.task.exception() is not None:
                run.fail('C07.returns', 'wait() raises')
            if wt.after:
                run.check('C07.barrier', S.void or S.delivered > 0, 'wait() returns although x, submitted before, has not been delivered')
            w.Wt.remove(wt)


TASKS = [
    ('C03 C07 C08', 'amap', 'waits'),
    ('C03 C07', 'call', 'foreign', 'waits'),
    ('C03 C08', 'call', 'others anytime', 'anytime'),
    ('C03', 'call', 'foreign others'),
    ('C03 C07', 'amap', 'foreign'),
    ('C03', 'await_'),
    ('C03', 'map'),
    ('C07', 'call', 'waits'),
    ('C07', 'call', 'waits', 'second wait', 'no others'),
    ('C07', 'amap', 'shutdown'),
    ('C07', 'amap', 'shutdown', 'no others', 'anytime'),
    ('C08 C15', 'call', 'quiet'),
    ('C08', 'map', 'quiet'),
    ('C03 C07', 'call', 'waits', 'others anytime'),
]
THOROUGH = ['call, waits, others anytime']


def tasks():
    return [(', '.join(t[1:]), t[0].split(), body(*t[1:])) for t in TASKS]
