"""C01, C05, C06: one arbitrary call P of a threadsafe_async_cache function for one key K, any number of other calls.

Rely/guarantee.  The environment (all other calls, in any threads and loops) is the most general one that obeys the
guarantee that is proved for P itself:
  - a call claims K (enters its in-flight marker) only while no live marker is there, under the shared lock;
  - only its owner removes a marker, or whoever finds its loop closed or not running;
  - the owner stores a successful result in the cache before its marker goes, wakes its waiters when it ends in any way.
A marker of the environment is whatever the real code itself stores: a ghost call on an independent instance is run by
the engine up to its invocation of the wrapped function and the entries it made are transplanted.  Environment steps
are interposed before every access of P to shared state that isn't protected by a lock shared between calls, and at
every suspension.  Loops of the environment run, stop, shut down (run again to cancel what is left) and close at any time.
"""
import inspect
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, DList, DDict, Mod, same_key, materialize, Many, DSet
import core
from core import load

ENGINE_FILES.add(__file__)
PROPS = ['C01', 'C05', 'C06']
_F = ['aiuti.asyncio.threadsafe_async_cache', 'aiuti.asyncio.threadsafe_async_cache.<locals>._wrapper']
FUNCTIONS = {p: _F for p in PROPS}
_A = ['threading.Lock/RLock, concurrent.futures.Future, asyncio.wrap_future/wait/wait_for/shield behave as documented',
      'dict/mapping operations are atomic; the cache mapping retains entries',
      'loops are not restarted after stopping with a call pending, except to cancel what is left (asyncio.run)',
      'other calls obey the guarantee proved for this call (rely/guarantee, by induction over steps)']
ASSUMES = {p: _A for p in PROPS}
EXPECT = {'C01': ['C01.single_flight', 'C01.never_again', 'C01.value', 'C01+C06.marker'],
          'C05': ['C05.wake', 'C05.bounded_wait', 'C05.wait_for_live', 'C05.no_spin', 'C05.lock', 'C05.gc_safe'],
          'C06': ['C06.own_outcome', 'C06.cache_only_success', 'C01+C06.marker']}


class CancelledError(BaseException):
    pass


class InvalidStateError(Exception):
    pass


class Own(Exception):
    """Raised by P's own invocation of the wrapped function."""


NO = 'nothing yet'


class Susp:
    def __init__(self, kind, obj=None, timeout=None):
        self.kind, self.obj, self.timeout = kind, obj, timeout

    def __await__(self):
        return (yield self)

    def _dv_state(self):
        return (self.kind, self.obj, self.timeout)


# ------------------------------------------------------------------------------------------------ models

class LoopM:
    def __init__(self, w, tag):
        self.w, self.tag = w, tag
        self.owner = None           # environment call living on it
        self.stopped = False        # P's loop only

    def _dv_state(self):
        return (self.tag, self.owner, self.stopped)

    def is_running(self):
        self.w.step()
        if self.owner is not None:
            return self.owner.loop_running()
        return not self.stopped

    def is_closed(self):
        self.w.step()
        return self.owner is not None and self.owner.loop_closed()

    def create_future(self):
        return AioFut(self)

    def create_task(self, coro, **k):
        return Sub(coro, self)

    def call_soon_threadsafe(self, fn, *a, **k):
        self.w.step()
        if self.is_closed():
            raise RuntimeError('Event loop is closed')
        raise Unsupported('call_soon_threadsafe')

    def time(self):
        raise Unsupported('loop.time()')


class CFut:
    """concurrent.futures.Future"""

    def __init__(self):
        self.st, self.val = 'pending', None
        self.env = None             # environment call that owns it
        self.w = cur().world
        self.w.made(self)

    def _dv_state(self):
        return (self.st, self.val, self.env)

    def sync(self):
        self.w.step()
        if self.st == 'pending' and self.env is None and self.w.published(self) and cur().choose(2, ['', 'a waiter cancels the future']):
            self.st = 'cancelled'

    def set_running_or_notify_cancel(self):
        self.sync()
        if self.st == 'cancelled':
            return False
        self.st = 'running'
        return True

    def done(self):
        self.sync()
        return self.st in ('done', 'cancelled')

    def cancelled(self):
        self.sync()
        return self.st == 'cancelled'

    def running(self):
        self.sync()
        return self.st == 'running'

    def cancel(self):
        self.sync()
        if self.st == 'pending':
            if self.env is not None and not self.env.ended:
                cur().fail('C06.no_effect', 'the future of another call is cancelled')
            self.st = 'cancelled'
        return self.st == 'cancelled'

    def set_result(self, v):
        self.sync()
        if self.st in ('done', 'cancelled'):
            raise InvalidStateError('invalid state')
        if self.env is not None and not self.env.ended and not self.env.dead():
            cur().fail('C06.no_effect', 'the future of another call is completed')
        self.st, self.val = 'done', ('value', v)

    def set_exception(self, e):
        self.set_result(None)
        self.val = ('exc', e)

    def result(self, timeout=None):
        if not self.done():
            raise Unsupported('blocking result()')
        if self.st == 'cancelled':
            raise CancelledError()
        if self.val[0] == 'exc':
            raise self.val[1]
        return self.val[1]

    def exception(self, timeout=None):
        if not self.done():
            raise Unsupported('blocking exception()')
        if self.st == 'cancelled':
            raise CancelledError()
        return self.val[1] if self.val[0] == 'exc' else None

    def add_done_callback(self, fn):
        raise Unsupported('add_done_callback')


class Wrapped:
    """asyncio.wrap_future(cf)"""

    def __init__(self, cf):
        self.cf = cf
        self.self_cancelled = False

    def _dv_state(self):
        return (self.cf, self.self_cancelled)

    def done(self):
        return self.self_cancelled or self.cf.done()

    def cancelled(self):
        return self.self_cancelled or self.cf.cancelled()

    def cancel(self, *a):
        if self.done():
            return False
        self.self_cancelled = True
        self.cf.cancel()
        return True

    def result(self):
        if self.self_cancelled:
            raise CancelledError()
        if not self.done():
            raise InvalidStateError('Result is not set.')
        return self.cf.result()

    def exception(self):
        if not self.done():
            raise InvalidStateError('Exception is not set.')
        return self.cf.exception()

    def __await__(self):
        if not self.done():
            try:
                yield from Susp('wait', self.cf).__await__()
            except CancelledError:
                self.cancel()
                raise
        return self.result()


class Shield:
    def __init__(self, inner):
        self.inner = inner

    def done(self):
        return self.inner.done()

    def cancel(self, *a):
        return True

    def _dv_state(self):
        return (self.inner,)

    def __await__(self):
        if not self.inner.done():
            yield from Susp('wait', root(self.inner)).__await__()
        return self.inner.result()


class AioFut:
    def __init__(self, loop):
        raise Unsupported('asyncio future')


class Sub:
    def __init__(self, coro, loop):
        raise Unsupported('subtask')


def root(f):
    while isinstance(f, (Wrapped, Shield)):
        f = f.cf if isinstance(f, Wrapped) else f.inner
    return f


def wrap_future(cf, *, loop=None):
    cur().alive()
    if isinstance(cf, (Wrapped, Shield)):
        return cf
    if not isinstance(cf, CFut):
        raise AssertionError('concurrent.futures.Future is expected')
    return Wrapped(cf)


def shield(x):
    if not isinstance(x, (Wrapped, Shield)):
        raise Unsupported('shield()')
    return Shield(x)


def aio_wait(fs, *, timeout=None, return_when='ALL_COMPLETED'):
    fs = materialize(fs)
    if not fs:
        raise ValueError('Set of Tasks/Futures is empty.')
    if len(fs) != 1 or not isinstance(fs[0], (Wrapped, Shield)):
        raise Unsupported('wait() for something else')
    f = fs[0]

    async def go():
        if not f.done():
            await Susp('wait', root(f), timeout)
        return (DSet([f]), DSet([])) if f.done() else (DSet([]), DSet([f]))
    return go()


class TimeoutE(Exception):
    pass


def wait_for(aw, timeout):
    if not isinstance(aw, (Wrapped, Shield)):
        raise Unsupported('wait_for() something else')

    async def go():
        if not aw.done():
            try:
                v = await Susp('wait', root(aw), timeout)
            except CancelledError:
                aw.cancel()
                raise
            if v == 'timeout' and not aw.done():
                aw.cancel()
                raise TimeoutE()
        return aw.result()
    return go()


def aio_sleep(t, *a):
    return Susp('sleep', None, t)


class LockM:
    reentrant = False

    def __init__(self):
        self.depth = 0
        w = cur().world
        self.w = w
        self.shared = w.setup
        w.locks.append(self)

    def _dv_state(self):
        return (self.depth, self.shared, self.reentrant)

    def acquire(self, blocking=True, timeout=-1):
        r = cur()
        r.alive()
        w = self.w
        w.step()
        w.note_gc(self)
        if self.depth and not self.reentrant:
            if not blocking:
                return False
            r.fail('C05.lock', 'acquires a lock it already holds')
        if not blocking or timeout != -1:
            if r.choose(2, ['lock free', 'lock busy']):
                return False
        self.depth += 1
        return True

    def release(self):
        if cur().dead:
            return
        if not self.depth:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth and self.shared:
            self.w.released()
            self.w.step()

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLockM(LockM):
    reentrant = True


class Env:
    """The environment call whose marker is (or was) in the tables."""

    def __init__(self, w, n):
        self.w = w
        self.n = n
        self.phase = 'live'         # live, stopped, closing, closed   (of its loop)
        self.stored = False
        self.ended = False          # its invocation ended and it did its bookkeeping
        self.entries = None

    def _dv_state(self):
        return (self.phase, self.ended, self.stored)

    def dead(self):
        return self.phase != 'live'

    def loop_running(self):
        return self.phase in ('live', 'closing')

    def loop_closed(self):
        return self.phase == 'closed'


class SharedDict(DDict):
    """A dictionary made by the decorator (or the module): shared by all calls."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        w = cur().world
        self.w = w
        self.inst = w.inst
        w.tables[w.inst].append(self)

    def _pre(self):
        self.w.step()

    def __getitem__(self, k):
        self._pre()
        return super().__getitem__(k)

    def __contains__(self, k):
        self._pre()
        return super().__contains__(k)

    def get(self, k, d=None):
        self._pre()
        e = self._find(k)
        return e[1] if e is not None else d

    def __setitem__(self, k, v):
        self._pre()
        self.w.table_write(self, k, v)
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self._pre()
        self.w.table_write(self, k, None)
        super().__delitem__(k)

    def pop(self, k, *d):
        self._pre()
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.w.table_write(self, k, None)
        self.entries.remove(e)
        return e[1]

    def setdefault(self, k, v=None):
        self._pre()
        e = self._find(k)
        if e is not None:
            return e[1]
        self.w.table_write(self, k, v)
        self.entries.append([k, v])
        return v

    def _no(self, *a, **k):
        if cur().world.setup:
            return
        raise Unsupported('operation on a whole shared table')
    clear = keys = values = items = __iter__ = copy = _no

    def update(self, *a, **k):
        if a or k:
            self._no()

    def __bool__(self):
        self._pre()
        return bool(self.entries)

    def __len__(self):
        return self._no()
    dlen = __len__


class CacheM:
    """The cache mapping (retains its entries)."""

    def __init__(self, w, inst):
        self.w, self.inst = w, inst
        self.has = False
        self.val = None
        self.key = None

    def _dv_state(self):
        return (self.has, self.val)

    def _key(self, k):
        if self.key is None:
            self.key = k
        elif not same_key(self.key, k):
            raise Unsupported('another key')

    def __getitem__(self, k):
        self.w.step()
        self._key(k)
        if not self.has:
            raise KeyError(k)
        return self.val

    def __contains__(self, k):
        self.w.step()
        self._key(k)
        return self.has

    def get(self, k, d=None):
        self.w.step()
        self._key(k)
        return self.val if self.has else d

    def __setitem__(self, k, v):
        self.w.step()
        self._key(k)
        self.w.cache_write(self, v)

    def setdefault(self, k, v=None):
        self.w.step()
        self._key(k)
        if self.has:
            return self.val
        self.w.cache_write(self, v)
        return v

    def __bool__(self):
        return self.has or bool(cur().choose(2, ['cache mapping empty', 'cache mapping has other entries']))

    def __len__(self):
        raise Unsupported('len(cache)')

    def _no(self, *a, **k):
        raise Unsupported('operation on the cache mapping')
    __delitem__ = pop = clear = update = keys = items = values = __iter__ = popitem = _no

    def _dv_isinstance(self, name):
        return name in ('MutableMapping', 'Mapping')


class World:
    dict_class = None

    def __init__(self, run, env=True):
        self.run = run
        self.setup = True
        self.locks, self.tables, self.inst = [], {0: [], 1: []}, 0
        self.ghost = False
        self.caches = {}
        self.env_on = False
        self.env = None             # current owner in the tables (None / Env / 'P')
        self.envs = 0
        self.olds = []
        self.pmarker = {}           # table -> entry object written by P
        self.p_phase = 'idle'       # idle, computing, ended(loop stopped), done
        self.p_closing = False
        self.succeeded = NO       # value of the successful invocation
        self.live_at_release = None
        self.mine = []              # futures made by P
        self.invoked = 0
        self.heads = 0
        self.roots = ()
        self.ended_loop = False
        self.shown = []             # futures of P that others could see
        self.gcing = False
        self.injected = None
        self.own_exc = None
        self.own_val = NO
        self.key = None

    def _dv_state(self):
        return (self.locks, tuple(self.tables[0]), self.caches.get(0), self.env, self.olds, self.pmarker, self.p_phase, self.succeeded,
                self.live_at_release, self.mine, self.invoked, self.heads, self.gcing, self.injected, self.own_exc,
                self.own_val, self.ploop, self.ended_loop, self.shown)

    # ---- bookkeeping of P
    def made(self, fut):
        if self.ghost or self.setup:
            return
        self.mine.append(fut)

    def published(self, fut):
        return any(reach(fut, e) for e in self.pmarker.values())

    def note_gc(self, lock):
        if self.gcing and lock.shared:
            self.run.check('C05.gc_safe', lock.reentrant,
                           'closing an abandoned call (garbage collection, at any point of any thread) acquires a non-reentrant lock')

    def table_write(self, t, k, v):
        if self.setup or self.ghost:
            return
        e = t._find(k)
        old = e[1] if e is not None else None
        if isinstance(self.env, Env) and old is not None and old is self.env.entries.get(self.tables[0].index(t)):
            ok = self.env.dead() or self.env.ended
            self.run.check('C01+C06.marker', ok, 'the in-flight marker of a live call is removed or replaced')
            self.env = None
        else:
            self.run.check('C01+C06.marker', True)
        ti = self.tables[0].index(t)
        if v is None:
            self.pmarker.pop(ti, None)
        else:
            self.pmarker[ti] = v
            self.shown += [f for f in self.mine if reach(f, v) and f not in self.shown]

    def cache_write(self, c, v):
        if self.ghost:
            c.has, c.val = True, v
            return
        self.run.check('C06.cache_only_success', self.own_val is not NO and v is self.own_val,
                       f'{v!r} stored which is not the result of a successful invocation')
        c.has, c.val = True, v

    def locked(self):
        return any(lk.shared and lk.depth for lk in self.locks)

    def released(self):
        if not self.ghost and not self.setup:
            self.live_at_release = self.env is None or not isinstance(self.env, Env) or self.env.loop_running()

    # ---- environment
    def marker_of(self):
        """Who owns what is in the tables."""
        for ti, t in enumerate(self.tables[0]):
            if t.entries:
                if ti in self.pmarker and t.entries[0][1] is self.pmarker[ti]:
                    return 'P'
                return self.env
        return None

    def step(self, suspended=False):
        """Any number of environment steps."""
        r = self.run
        if r.dead or self.setup or self.ghost or not self.env_on:
            return
        n = 0
        while True:
            opts = self.options(suspended)
            if len(opts) == 1:
                return
            if suspended:
                r.cut(f'env {suspended}', extra=self.roots)
            elif not r.mid_cut():
                n += 1
                if n > 3:
                    raise Unsupported('shared access in the middle of an expression')
            what = r.pick(opts, 'environment')
            if what == '-':
                return
            self.heads = 0
            self.do(what, self.marker_of(), suspended)

    def options(self, suspended):
        owner = self.marker_of()
        p_dead = self.p_phase == 'ended'
        locked = self.locked()
        cache = self.caches[0]
        opts = ['-']
        if isinstance(owner, Env):
            same = owner.same
            if same and not suspended:
                pass
            elif locked:
                if not owner.dead():
                    if not owner.stored:
                        opts += ['stop']
                    if not cache.has:
                        opts += ['store']
                elif owner.phase in ('stopped', 'closing'):
                    opts += ['advance']
                if owner.dead() and any(lk.reentrant and lk.depth and lk.shared for lk in self.locks):
                    opts += ['collect']
            else:
                opts += ['end']
                if not cache.has:
                    opts += ['new', 'end ok'] + ([] if same or owner.dead() else ['store'])
                if not same and not owner.stored:
                    opts += ['stop'] if not owner.dead() else ['advance'] if owner.phase != 'closed' else []
        elif owner is None or p_dead:
            if not locked and not cache.has:
                opts += ['new', 'end ok']
        return opts

    def do(self, what, owner, suspended=False):
        r = self.run
        cache = self.caches[0]
        if what == '-':
            return
        if what == 'stop':
            owner.phase = r.pick(['stopped', 'closed'], 'loop of the other call')
        elif what == 'advance':
            owner.phase = 'closing' if owner.phase == 'stopped' and r.choose(2) == 0 else 'closed'
        elif what == 'store':
            owner.stored = True     # its marker goes before its loop can stop (no suspension between)
            self.success(self.other_result())
        elif what in ('end', 'collect'):
            self.finish(owner)
        elif what == 'end ok':
            if isinstance(owner, Env):
                if owner.dead():
                    r.end()
                self.success(self.other_result())
                self.finish(owner)
            else:
                self.claimed()
                self.clear_tables()
                self.env = None
                self.success(self.other_result())
        elif what == 'new':
            if isinstance(owner, Env):
                if not owner.dead() or r.choose(2, ['other call ended', 'other call abandoned']) == 0:
                    self.finish(owner)
            self.claimed()
            self.clear_tables()
            self.install(suspended)

    def claimed(self):
        """Another call claims K and invokes the function."""
        self.run.check('C01.single_flight', self.p_phase != 'computing',
                       'another call starts an invocation while this one is in progress (no live in-flight marker)')
        self.run.check('C01.never_again', self.succeeded is NO, 'another call can start an invocation after one has succeeded')

    def other_result(self):
        return self.run.pick([Atom('result of another call'), None], 'result of another call')

    def success(self, v):
        c = self.caches[0]
        if not c.has:
            c.has, c.val = True, v
            self.succeeded = v

    def finish(self, owner):
        """Its bookkeeping at its end: marker removed, waiters woken."""
        owner.ended = True
        for f in owner.futs:
            if f.st not in ('done', 'cancelled'):
                f.st, f.val = 'done', ('value', None)
        if self.env is owner:
            self.clear_tables()
            self.env = None

    def clear_tables(self):
        for t in self.tables[0]:
            t.entries.clear()

    def install(self, suspended):
        r = self.run
        e = Env(self, self.envs)
        self.envs += 1
        same = bool(suspended and r.choose(2, ['on another loop', 'on the same loop']))
        e.same = same
        e.loop = self.ploop if same else LoopM(self, 'env loop')
        if not same:
            e.loop.owner = e
        entries = self.ghost_call(e)
        e.entries = entries
        e.futs = [f for f in self.ghost_futs]
        for f in e.futs:
            f.env = e
        for ti, (k, v) in entries.items():
            self.tables[0][ti].entries.append([k, v])
        e.entries = {ti: v for ti, (k, v) in entries.items()}
        self.env = e

    def ghost_call(self, e):
        """Run the real code of another call on an independent instance up to its invocation."""
        self.ghost = True
        self.cur_loop, old = e.loop, self.cur_loop
        made = []
        self.made, oldm = made.append, self.made
        self.tables[1].clear()
        self.inst, self.dict_class, self.setup = 1, SharedDict, True
        saved = list(self.locks)
        gcache = CacheM(self, 1)
        try:
            started = []

            def ginvoke(*a, **k):
                return Susp('ghost')
            fn = self.m.threadsafe_async_cache(ginvoke, cache=gcache)
            self.setup, self.dict_class = False, None
            coro = fn(*self.args)
            s = coro.send(None)
            if not isinstance(s, Susp) or s.kind != 'ghost':
                raise Unsupported('another call does not invoke the function at once')
            out = {}
            for ti, t in enumerate(self.tables[1]):
                for k, v in t.entries:
                    out[ti] = (k, v)
            self.ghosts.append(coro)
            self.ghost_futs = made
            return out
        except StopIteration:
            raise Unsupported('another call does not invoke the function')
        finally:
            self.setup = False
            self.dict_class = None
            self.inst = 0
            self.ghost = False
            self.cur_loop = old
            del self.made
            self.locks = saved

    def at_head(self):
        if self.ghost or self.setup:
            return
        self.heads += 1
        self.run.check('C05.no_spin', self.heads <= 2, 'spins without suspending although nothing changes')

    # ---- P's invocation
    def invoke(self, *a, **k):
        r = self.run
        self.step()
        owner = self.marker_of()
        live = isinstance(self.env, Env) and not self.env.dead() and not self.env.ended
        r.check('C01.single_flight', not live, 'invoked while another invocation is in progress on a running loop')
        r.check('C01.never_again', self.succeeded is NO, 'invoked after an invocation has succeeded')
        r.check('C05.lock', not self.locked(), 'the function is invoked while the shared lock is held')
        self.invoked += 1
        self.p_phase = 'computing'

        async def run_func():
            if r.choose(2, ['returns at once', 'suspends']):
                try:
                    await Susp('func')
                except CancelledError:
                    if self.p_phase == 'ended' and self.ended_loop or r.choose(2, ['lets the cancellation through', 'handles the cancellation']) == 0:
                        if not self.ended_loop:
                            self.p_phase = 'done'
                        raise
            return self.finish_own()
        return run_func()

    def running_loop(self):
        if self.gcing and not self.ghost:
            raise RuntimeError('no running event loop')
        return self.cur_loop

    def finish_own(self):
        r = self.run
        self.p_phase = 'done'
        if r.choose(2, ['invocation succeeds', 'invocation fails']):
            self.own_exc = r.pick([Own('own failure'), KeyError('own failure')], 'exception')
            raise self.own_exc
        self.own_val = r.pick([Atom('own result'), None], 'result')
        self.succeeded = self.own_val
        return self.own_val


def reach(x, o, depth=0):
    if o is x:
        return True
    if depth > 4:
        return False
    if isinstance(o, (tuple, list)):
        return any(reach(x, y, depth + 1) for y in o)
    if isinstance(o, DList):
        return any(reach(x, y, depth + 1) for y in o.items)
    if type(o).__module__.startswith('aiuti'):
        return any(reach(x, getattr(o, n, None), depth + 1) for n in
                   list(getattr(o, '__dict__', ())) + [n for c in type(o).__mro__ for n in getattr(c, '__slots__', ())])
    return False


def stub_imports(**k):
    d = dict(k)
    for n in ('queue', 'weakref', 'time', 'itertools', 'concurrent', 'collections', 'operator'):
        d.setdefault(n, Mod(n))
    return d


def make(run, w=None, cache=0, over={}, deco=None):
    w = w or World(run)
    run.world = w
    w.ploop = LoopM(w, 'own loop')
    w.cur_loop = w.ploop
    w.ghosts = []
    w.ghost_futs = []
    w.dict_class = SharedDict
    w.inst = 0
    asyncio = Mod('asyncio', CancelledError=CancelledError, TimeoutError=TimeoutE, InvalidStateError=InvalidStateError, wait=aio_wait,
                  wait_for=wait_for, shield=shield, wrap_future=wrap_future, sleep=aio_sleep,
                  get_running_loop=w.running_loop, get_event_loop=w.running_loop, ALL_COMPLETED='ALL_COMPLETED',
                  FIRST_COMPLETED='FIRST_COMPLETED', iscoroutine=inspect.iscoroutine,
                  Task=type('Task', (type('F', (), {'__del__': lambda s: None}),), {}), Future=AioFut,
                  AbstractEventLoop=LoopM)
    imps = stub_imports(asyncio=asyncio, threading=Mod('threading', Lock=LockM, RLock=RLockM))
    cfm = Mod('concurrent.futures', Future=CFut, CancelledError=CancelledError, TimeoutError=TimeoutE)
    imps['concurrent.futures'] = cfm
    w.m = load('asyncio', imps, **over)
    w.tables[0].clear()         # tables of the module itself belong to all instances
    w.args = (Atom('K'),)
    w.caches[0] = CacheM(w, 0) if cache == 0 else cache
    fn = (deco or w.m.threadsafe_async_cache)(w.invoke, cache=w.caches[0])
    w.setup = False
    w.dict_class = None
    return w, fn


def body(run):
    w, fn = make(run)
    # arbitrary initial situation
    w.env_on = True
    st = run.pick(['nothing', 'cached', 'in flight elsewhere', 'in flight on the same loop'], 'initially')
    if st == 'cached':
        w.success(w.other_result())
    elif st.startswith('in flight'):
        run.choose(1)
        w.install_as = st
        w.do_install = True
        w.install(False) if st.endswith('elsewhere') else install_same(w)
    coro = fn(*w.args)
    val = None
    send = coro.send
    arg = None
    while True:
        try:
            s = send(arg)
        except StopIteration as e:
            out = ('value', e.value)
            break
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            out = ('exc', e)
            break
        if not isinstance(s, Susp):
            raise Unsupported(f'suspended on {s!r}')
        send, arg = suspended(run, w, coro, s)
    finished(run, w, out)


def install_same(w):
    e_choose = w.run.choose
    w.run.choose = lambda n, label='': 1 if isinstance(label, list) and label[:1] == ['on another loop'] else e_choose(n, label)
    try:
        w.install(True)
    finally:
        del w.run.choose


def suspended(run, w, coro, s):
    run.check('C05.lock', not w.locked(), 'suspended while the shared lock is held')
    w.heads = 0
    if s.kind == 'wait':
        f = s.obj
        env = f.env
        run.check('C05.bounded_wait', s.timeout is not None and not isinstance(s.timeout, str) and s.timeout <= 60,
                  f'waits without the 60 s bound (timeout={s.timeout})')
        if env is not None:
            run.check('C05.wait_for_live', bool(w.live_at_release), 'waits for a call whose loop was already dead when it was looked up')
        else:
            run.fail('C05.wait_for_live', 'waits for a future nobody completes')
        w.roots = (coro, s.timeout is not None)
        w.step(suspended='wait')
        opts = ['own cancellation', 'closed']
        if f.st in ('done', 'cancelled'):
            opts.append('woken')
        elif s.timeout is not None:
            opts.append('timeout')
        k = run.pick(opts, 'resumed')
        if k == 'own cancellation':
            w.injected = CancelledError('own')
            return coro.throw, w.injected
        if k == 'closed':
            w.gcing = True
            w.injected = GeneratorExit()
            return coro.throw, w.injected
        return coro.send, k
    if s.kind == 'func':
        k = run.pick(['finishes', 'own cancellation', 'loop stops', 'abandoned'], 'invocation')
        if k in ('loop stops', 'abandoned'):
            w.p_phase = 'ended'
            w.ploop.stopped = True
        w.roots = (coro, k)
        w.step(suspended='func')
        if k == 'finishes':
            return coro.send, None
        w.ended_loop = k != 'own cancellation'
        if w.ended_loop:
            w.p_phase = 'ended'
        if k == 'abandoned':
            w.gcing = True
            w.injected = GeneratorExit()
        else:
            w.ploop.stopped = False     # shutdown: the loop runs again to cancel what is left
            w.injected = CancelledError(k)
        return coro.throw, w.injected
    if s.kind == 'sleep':
        run.check('C05.bounded_wait', not isinstance(s.timeout, str) and s.timeout is not None and s.timeout <= 60, 'sleeps for more than 60 s')
        w.roots = (coro,)
        w.step(suspended='sleep')
        if run.choose(2, ['sleep over', 'own cancellation']):
            w.injected = CancelledError('own')
            return coro.throw, w.injected
        return coro.send, None
    raise Unsupported(s.kind)


def finished(run, w, out):
    w.step()
    run.check('C05.lock', not any(lk.depth for lk in w.locks), 'ended with a lock held')
    kind, v = out
    if kind == 'value':
        c = w.caches[0]
        run.check('C01.value', (w.own_val is not NO and v is w.own_val) or (c.has and v is c.val),
                  f'returns {v!r} which is neither the cached nor the own result')
        run.check('C06.own_outcome', True)
        if w.own_val is not NO and v is w.own_val:
            run.check('C01.value', c.has and c.val is v, 'a successful result is not in the cache')
    else:
        own = w.own_exc is not None and v is w.own_exc or w.injected is not None and v is w.injected
        run.check('C06.own_outcome', own, f'raises {v!r} which neither its own invocation nor its own cancellation raised')
    if w.invoked:
        stale = [t for t in w.tables[0] for k, e in t.entries if any(e is x for x in w.pmarker.values())]
        run.check('C05.wake', not stale, 'ended, but its in-flight marker is still there')
        for f in w.shown:
            run.check('C05.wake', f.st in ('done', 'cancelled'), 'ended without waking its waiters')
        run.check('C05.wake', True)


def tasks():
    return [('call', ['C01', 'C05', 'C06'], body)]
