"""C16: to_async_iter / to_sync_iter.

Source: any number of elements, two arbitrary ones (A before B) individually, the end or a failure anywhere.
Producer and consumer are joined by what the producer has sent ("flight"): callbacks scheduled with call_soon_threadsafe,
entries of thread-safe queues, and at last the end of its job.  As the two share nothing else (checked: no variable or
container in the closure of the job changes), the producer's messages do not depend on the consumer, so the job is followed
first (all the way, any number of iterations) and the consumer afterwards against any timing of the arrivals.
"""
import functools
import inspect
import types
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, Mod, DList, DDict, DSet
import core
from core import Susp, LenientTyping

ENGINE_FILES.add(__file__)
PROPS = ['C16']
FUNCTIONS = {'C16': ['aiuti.asyncio.to_async_iter', 'aiuti.asyncio.to_sync_iter']}
ASSUMES = {'C16': ['executors, futures, queues and call_soon_threadsafe behave as documented (contract models in dv/c_bridge.py); '
                   'callbacks of one thread and entries of a queue keep their order',
                   'iteration is carried on to the end or the error (the consumer neither is cancelled nor gives up)',
                   'the source does not fail with StopIteration, '
                   'StopAsyncIteration, GeneratorExit or a cancellation']}
EXPECT = {'C16': ['C16.sequence', 'C16.error', 'C16.ends', 'C16.not_blocked', 'C16.no_thread']}


class Elem(Atom):
    def __eq__(self, o):
        if self is o and not self.other:
            return True
        return bool(cur().choose(2, ['different', 'equal']))

    __hash__ = Atom.__hash__


class ElemExc(Exception):
    pass


class Boom(Exception):
    pass


class Weird(RuntimeError, ValueError, TypeError, KeyError, IndexError, AssertionError, ArithmeticError):
    """An exception any handler for a built-in class catches."""


class BoomBase(BaseException):
    pass


class CancelledError(BaseException):
    pass


class InvalidStateError(Exception):
    pass


class Full(Exception):
    pass


class Empty(Exception):
    pass


class Source:
    """The given iterator."""

    def __init__(self, w):
        self.w = w

    def _dv_state(self):
        return ()

    def _dv_isinstance(self, name):
        return name in ('Iterator', 'Iterable')

    def __iter__(self):
        return self

    def __next__(self):
        return self.w.element(StopIteration)


class Given:
    """A given iterable that is no iterator (a list, a range)."""

    def __init__(self, w):
        self.w = w

    def _dv_state(self):
        return ()

    def _dv_isinstance(self, name):
        return name in ('Iterable', 'Collection', 'Sequence', 'Sized', 'Container', 'Reversible')

    def __iter__(self):
        return Source(self.w)


class ASource:
    def __init__(self, w):
        self.w = w

    def _dv_state(self):
        return ()

    def _dv_isinstance(self, name):
        return name in ('AsyncIterator', 'AsyncIterable')

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.w.run.choose(2, ['at once', 'after a while']):
            await Wait('source')
        return self.w.element(StopAsyncIteration)


class Wait:
    def __init__(self, kind):
        self.kind = kind

    def __await__(self):
        yield Susp(self.kind)

    def _dv_state(self):
        return (self.kind,)


class Others:
    """Any number of messages with another element each."""

    def __init__(self, msg):
        self.msg = msg

    def _dv_state(self):
        return (self.msg,)


def has_other(x):
    if isinstance(x, Atom):
        return x.other
    if isinstance(x, (tuple, list)):
        return any(map(has_other, x))
    if isinstance(x, functools.partial):
        return has_other(x.args) or any(map(has_other, x.keywords.values()))
    if isinstance(x, DList):
        return any(map(has_other, x.items))
    if isinstance(x, types.FunctionType) and x.__closure__:
        return any(has_other(c.cell_contents) for c in x.__closure__ if not isinstance(c.cell_contents, types.FunctionType))
    return False


def fresh(x):
    if isinstance(x, Atom) and x.other:
        return Elem('another element', True)
    if isinstance(x, tuple):
        return tuple(map(fresh, x))
    if isinstance(x, functools.partial):
        return functools.partial(x.func, *map(fresh, x.args), **{k: fresh(v) for k, v in x.keywords.items()})
    if isinstance(x, types.FunctionType) and has_other(x):
        return types.FunctionType(x.__code__, x.__globals__, x.__name__, fresh(x.__defaults__),
                                  tuple(types.CellType(fresh(c.cell_contents)) for c in x.__closure__))
    if has_other(x):
        raise Unsupported('message of a shape that is not followed')
    return x


def like(a, b):
    if isinstance(a, Atom) and isinstance(b, Atom):
        return a.other and b.other
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(like, a, b))
    if isinstance(a, functools.partial) and isinstance(b, functools.partial):
        return like((a.func, *a.args), (b.func, *b.args)) and not a.keywords and not b.keywords
    if isinstance(a, types.FunctionType) and isinstance(b, types.FunctionType) and a.__code__ is b.__code__:
        return all(like(x.cell_contents, y.cell_contents) for x, y in zip(a.__closure__ or (), b.__closure__ or ()))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a == b
    return a is b or type(a) is type(b) and isinstance(a, (int, str)) and a == b


class Chan:
    """Messages in order, consecutive ones with other elements taken together."""

    def __init__(self):
        self.msgs = []

    def _dv_state(self):
        return tuple(self.msgs)

    def push(self, m):
        last = self.msgs[-1] if self.msgs else None
        if has_other(m):
            if isinstance(last, Others) and like(last.msg, m):
                return
            fresh(m)
            if last is not None and like(last, m):
                m = Others(m)
        self.msgs.append(m)
        if len(self.msgs) > 12:
            raise Unsupported('more messages than elements')

    def __bool__(self):
        """Is there one?  (Says how many others there are.)"""
        while self.msgs and isinstance(self.msgs[0], Others):
            m = self.msgs[0].msg
            if cur().choose(2, ['no more others', 'another one']):
                self.msgs.insert(0, fresh(m))
                return True
            del self.msgs[0]
        return bool(self.msgs)

    def pop(self):
        return self.msgs.pop(0)


class World:
    def __init__(self, run):
        self.run = run
        self.thread = 'main'
        self.loop = None            # running loop of the current thread
        self.flight = Chan()
        self.pools = []
        self.phase = 0              # elements A, B obtained from the source
        self.want = None            # which of A, B the source has
        self.ended = None           # 'end' or the exception of the source
        self.got = 0                # focus elements received
        self.default_pool = False
        self.inline = False
        self.blocked = False        # is a call of the source in the loop thread blocking the loop
        self.given_loop = None
        self.job_cells = []
        self.a = self.b = None

    def _dv_state(self):
        return (self.thread, self.flight, tuple(self.pools), self.phase, self.want, self.ended, self.got, self.a, self.b,
                self.default_pool, tuple(self.snap()))

    def setup(self):
        r = self.run
        self.want = r.pick([0, 1, 2], 'elements that are followed')
        mk = {'object': lambda n: Elem(n), 'None': lambda n: None, 'exception': lambda n: ElemExc(n)}
        if self.want:
            self.a = mk[r.pick(list(mk), 'A is')]('A')
        if self.want > 1:
            self.b = Elem('B') if self.run.choose(2, ['A twice', 'A and B']) else self.a
        self.focus = [self.a, self.b][:self.want]

    def element(self, stop):
        """Next element of the source."""
        r = self.run
        r.alive()
        if self.ended is not None:
            raise stop()
        r.check('C16.not_blocked', not (self.blocked and self.thread == 'loop'), 'the source is advanced in the thread of the event loop')
        if stop is StopAsyncIteration and self.given_loop is not None:
            r.check('C16.sequence', self.loop is self.given_loop, 'the source is not iterated on the loop given')
        opts = ['another element'] + ([f'element {"AB"[self.phase]}'] if self.phase < self.want else
                                      ['end', 'fails', 'fails (RuntimeError etc.)', 'fails (BaseException)'])
        k = r.pick(opts, 'source')
        if k == 'another element':
            return Elem('another element', True)
        if k.startswith('element'):
            self.phase += 1
            return self.focus[self.phase - 1]
        if k == 'end':
            self.ended = 'end'
            raise stop()
        self.ended = {'f': Boom, 'R': Weird, 'B': BoomBase}[k[k.find('(') + 1]]('source')
        raise self.ended

    def received(self, x):
        if isinstance(x, Elem) and x.other:
            return
        ok = self.got < self.want and x is self.focus[self.got]
        self.run.check('C16.sequence', ok, f'the consumer receives {x!r} as focus element number {self.got + 1} of {self.want}')
        self.got += 1

    def finished(self, exc=None):
        r = self.run
        r.check('C16.sequence', self.got == self.want, f'the consumer receives {self.got} of {self.want} focus elements')
        r.check('C16.sequence', self.ended is not None, 'iteration ends before the source does')
        if exc is None:
            r.check('C16.error', self.ended == 'end', f'the error of the source does not reach the consumer: {self.ended!r}')
        else:
            r.check('C16.error', exc is self.ended, f'the consumer sees {exc!r}, the source {self.ended!r}')
        r.check('C16.ends', True)
        left = [p for p in self.pools if p.jobs and not p.down]
        r.check('C16.no_thread', not left and not self.default_pool, 'a helper thread is left when iteration has finished')

    # ---- producer side
    def send(self, *msg):
        if self.thread != 'pool':
            raise Unsupported(f'{msg[0]} message sent by the consumer')
        self.flight.push(msg)

    def job(self, fut, fn, args):
        if self.job_cells:
            raise Unsupported('several jobs')
        self.cells_of(fn, self.job_cells, 0)
        self.cells_of(args, self.job_cells, 0)
        self.job_cells.append((None, None, None))
        before = self.snap()
        save = self.thread, self.loop
        self.thread, self.loop = 'pool', None
        try:
            out = ('value', fn(*args))
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            out = ('raise', e)
        finally:
            self.thread, self.loop = save
        if self.snap() != before:
            raise Unsupported('the job changes a variable it shares with the consumer')
        self.before = before
        self.flight.push(('end', fut, out))

    def cells_of(self, x, out, depth):
        if depth > 4:
            return
        if isinstance(x, types.FunctionType):
            for n, c in zip(x.__code__.co_freevars, x.__closure__ or ()):
                if any(c is o[0] for o in out):
                    continue
                try:
                    v = c.cell_contents
                except ValueError:
                    v = None
                out.append((c, n, v))
                self.cells_of(v, out, depth + 1)
        elif isinstance(x, functools.partial):
            self.cells_of((x.func, *x.args), out, depth)
        elif isinstance(x, tuple):
            for y in x:
                self.cells_of(y, out, depth)

    def snap(self):
        out = []
        for c, n, _ in self.job_cells:
            if c is None:
                continue
            try:
                v = c.cell_contents
            except ValueError:
                v = None
            if isinstance(v, (DList, DDict, DSet)):
                raise Unsupported('the job shares a container with the consumer')
            out.append(v)
        return out

    # ---- consumer side
    def deliver(self):
        """The next message arrives; False if there is none."""
        if not self.flight:
            return False
        m = self.flight.pop()
        if m[0] == 'end':
            m[1].out = m[2]
        elif m[0] == 'put':
            m[1].items.push(m[2])
        else:
            save = self.thread
            self.thread = 'callback'
            try:
                m[1](*m[2])
            except Exception as e:      # the loop logs it and goes on
                if isinstance(e, (PathEnd, Unsupported)):
                    raise
            finally:
                self.thread = save
        return True

    def deliver_all(self):
        """Everything arrives (one other element stands for all between two messages)."""
        ms = self.flight.msgs
        while ms:
            many = ms[0] if isinstance(ms[0], Others) else None
            self.deliver()
            if many is not None and ms and ms[0] is many:
                del ms[0]

    def arrivals(self):
        """Anything may have arrived by now (asked without waiting)."""
        if self.flight.msgs:
            k = self.run.pick(['nothing', 'a message', 'everything'], 'arrives meanwhile')
            if k == 'a message':
                self.deliver()
            elif k == 'everything':
                self.deliver_all()

    def producing(self):
        """Can the job still be waiting for the source?"""
        return any(isinstance(m, Others) or m[0] != 'end' for m in self.flight.msgs)

    def unchanged(self):
        if self.job_cells and self.snap() != self.before:
            raise Unsupported('the consumer changes a variable it shares with the job')


class AFut:
    """asyncio future of a job."""

    def __init__(self, src):
        self.src = src

    def _dv_state(self):
        return (self.src,)

    def __await__(self):
        if self.src.out is None:
            yield Susp('future')
        if self.src.out is None:
            cur().fail('C16.ends', 'the consumer waits for a job that does not end')
        return self.src.get()

    __iter__ = __await__

    def done(self):
        cur().world.arrivals()
        return self.src.out is not None

    def _need(self):
        if self.src.out is None:
            raise InvalidStateError()
        return self.src.out

    def result(self):
        self._need()
        return self.src.get()

    def exception(self):
        k, v = self._need()
        return v if k == 'raise' else None

    def cancelled(self):
        return False


class CFut:
    def __init__(self):
        self.out = None

    def _dv_state(self):
        return (self.out,)

    def get(self):
        k, v = self.out
        if k == 'raise':
            raise v
        return v

    def _block(self, timeout):
        w = cur().world
        if timeout is not None:
            raise Unsupported('future with a timeout')
        if w.thread == 'loop' and w.producing():
            w.run.fail('C16.not_blocked', 'the event loop waits for the job')
        w.deliver_all()
        if self.out is None:
            w.run.fail('C16.ends', 'waits for a job that does not end')

    def result(self, timeout=None):
        self._block(timeout)
        return self.get()

    def exception(self, timeout=None):
        self._block(timeout)
        return self.out[1] if self.out[0] == 'raise' else None

    def done(self):
        cur().world.arrivals()
        return self.out is not None

    def cancelled(self):
        return False


class Pool:
    def __init__(self, max_workers=None, *a, **k):
        self.jobs, self.down = 0, False
        cur().world.pools.append(self)

    def _dv_state(self):
        return (self.jobs, self.down)

    def submit(self, fn, *a):
        if self.down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        self.jobs += 1
        f = CFut()
        cur().world.job(f, fn, a)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        w = cur().world
        if not wait or cancel_futures:
            raise Unsupported('shutdown(wait=False)')
        if w.thread == 'loop' and w.producing():
            w.run.fail('C16.not_blocked', 'the event loop waits for the helper thread while the source may block')
        if self.jobs:
            w.deliver_all()
        self.down = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class AQueue:
    """asyncio.Queue: used by its loop."""

    def __init__(self, maxsize=0):
        self.items, self.maxsize = Chan(), maxsize

    def _dv_state(self):
        return (self.maxsize, self.items)

    def _mine(self):
        if cur().world.thread == 'pool':
            cur().world.run.fail('C16.ends', 'an asyncio queue is changed by another thread: its reader does not wake')

    def put_nowait(self, x):
        self._mine()
        if self.maxsize > 0 and cur().choose(2, ['room in the queue', 'queue full']):
            raise QueueFull()
        self.items.push(x)

    async def get(self):
        while not self.items:
            await Wait('get')
        return self.items.pop()

    def get_nowait(self):
        if not self.items:
            cur().world.arrivals()
        if not self.items:
            raise QueueEmpty()
        return self.items.pop()

    def empty(self):
        if not self.items:
            cur().world.arrivals()
        return not self.items

    def task_done(self):
        pass


class QueueFull(Exception):
    pass


class QueueEmpty(Exception):
    pass


class TQueue:
    """queue.Queue / SimpleQueue."""

    def __init__(self, maxsize=0):
        self.items, self.maxsize = Chan(), maxsize

    def _dv_state(self):
        return (self.maxsize, self.items)

    def put(self, x, block=True, timeout=None):
        w = cur().world
        if timeout is not None or w.thread != 'pool':
            raise Unsupported('put with a timeout or by the consumer')
        if not block and self.maxsize > 0 and w.run.choose(2, ['room in the queue', 'queue full']):
            raise Full()
        w.send('put', self, x)

    def put_nowait(self, x):
        self.put(x, False)

    def get(self, block=True, timeout=None):
        w = cur().world
        if not block:
            return self.get_nowait()
        if w.thread == 'pool':
            raise Unsupported('get by the job')
        while not self.items:
            if timeout is not None and w.run.choose(2, ['arrives in time', 'timeout']):
                raise Empty()
            if w.thread == 'loop':
                w.run.fail('C16.not_blocked', 'the event loop waits for a thread-safe queue')
            if not w.deliver():
                w.run.fail('C16.ends', 'the consumer waits for something that never comes')
        return self.items.pop()

    def get_nowait(self):
        if not self.items:
            cur().world.arrivals()
        if not self.items:
            raise Empty()
        return self.items.pop()

    def empty(self):
        if not self.items:
            cur().world.arrivals()
        return not self.items

    def task_done(self):
        pass


class Loop:
    def __init__(self, name):
        self.name = name

    def _dv_state(self):
        return (self.name,)

    def call_soon_threadsafe(self, fn, *args):
        cur().world.send('call', fn, args)

    def run_in_executor(self, pool, fn, *args):
        w = cur().world
        if pool is None:
            w.default_pool = True
            f = CFut()
            w.job(f, fn, args)
            return AFut(f)
        return AFut(pool.submit(fn, *args))

    def run_until_complete(self, co):
        w = cur().world
        if w.thread == 'main' and w.run.choose(2, ['no loop runs in the thread of the caller', 'one does']):
            co.close()
            raise RuntimeError('Cannot run the event loop while another loop is running')
        if not inspect.iscoroutine(co):
            raise Unsupported('run_until_complete() of a future')
        save, w.loop = w.loop, self
        try:
            while True:
                w.run.alive()
                s = co.send(None)
                if not isinstance(s, Susp) or s.what != 'source':
                    raise Unsupported(f'the loop of the job waits for {s!r}')
        except StopIteration as e:
            return e.value
        finally:
            w.loop = save

    def is_running(self):
        return self is cur().world.loop

    def is_closed(self):
        return False

    def close(self):
        pass

    def shutdown_asyncgens(self):
        return nothing()

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported(f'loop.{n} has no contract')


async def nothing():
    return None


def load(w):
    def running_loop():
        if w.loop is None:
            raise RuntimeError('no running event loop')
        return w.loop

    def run(co):
        return Loop('new').run_until_complete(co)

    def to_thread(fn, *a):
        return main_loop.run_in_executor(None, fn, *a)
    main_loop = Loop('main')
    aio = Mod('asyncio', get_running_loop=running_loop, get_event_loop=lambda: w.loop or Loop('other'), new_event_loop=lambda: Loop('new'),
              set_event_loop=lambda x: None, run=run, Queue=AQueue, QueueFull=QueueFull, QueueEmpty=QueueEmpty,
              wrap_future=AFut, to_thread=to_thread, iscoroutine=inspect.iscoroutine,
              CancelledError=CancelledError, InvalidStateError=InvalidStateError, AbstractEventLoop=Loop, Future=AFut,
              Task=type('Task', (type('F', (), {'__del__': lambda s: None}),), {}))
    imps = {'asyncio': aio, 'queue': Mod('queue', Queue=TQueue, SimpleQueue=TQueue, Full=Full, Empty=Empty),
            'concurrent.futures': Mod('concurrent.futures', ThreadPoolExecutor=Pool, Future=CFut)}
    for n in ('threading', 'weakref', 'time', 'itertools', 'collections', 'concurrent'):
        imps[n] = Mod(n)
    m = core.load('asyncio', imps)
    return m, main_loop


def async_body(kind):
    def go(run):
        w = run.world = World(run)
        m, loop = load(w)
        w.setup()
        w.thread, w.loop = 'loop', loop
        w.blocked = kind == 'iterator'
        it = m.to_async_iter(Source(w) if kind == 'iterator' else Given(w))
        it = type(it).__aiter__(it)
        w.keep = it
        while True:
            run.cut('consumer')
            co = type(it).__anext__(it)
            try:
                s = send(co)
                while True:
                    if not isinstance(s, Susp):
                        raise Unsupported(f'suspended on {s!r}')
                    if s.what == 'source':
                        raise Unsupported('suspended')
                    if s.what == 'future':
                        w.deliver_all()
                        s = send(co)
                        continue
                    if not w.deliver():
                        run.fail('C16.ends', 'the consumer waits for something that never comes')
                    s = send(co)
            except StopIteration as e:
                w.received(e.value)
            except StopAsyncIteration:
                w.unchanged()
                return w.finished()
            except (PathEnd, Unsupported):
                raise
            except BaseException as e:
                w.unchanged()
                return w.finished(e)
    return go


def send(co):
    s = getattr(co, 'send', None)
    return s(None)


def sync_body(given):
    def go(run):
        w = run.world = World(run)
        m, loop = load(w)
        w.setup()
        if given:
            w.given_loop = Loop('given')
            it = m.to_sync_iter(ASource(w), loop=w.given_loop)
        else:
            it = m.to_sync_iter(ASource(w))
        it = iter(it)
        w.keep = it
        while True:
            run.cut('consumer')
            try:
                x = next(it)
            except StopIteration:
                w.unchanged()
                return w.finished()
            except (PathEnd, Unsupported):
                raise
            except BaseException as e:
                w.unchanged()
                return w.finished(e)
            w.received(x)
    return go


def tasks():
    return [('to_async_iter, iterator', ['C16'], async_body('iterator')), ('to_async_iter, other iterable', ['C16'], async_body('iterable')),
            ('to_sync_iter', ['C16'], sync_body(False)), ('to_sync_iter, given loop', ['C16'], sync_body(True))]
