"""C04, C09, C11: one arbitrary call P of a batcher for one key K, one other caller Q at a time (for K or another key L,
cancelled at any moment, followed by any number of further ones), any number of calls for other keys.

The real batcher runs on the model loop (aioworld.py); the batch function is the most general one.  Batches of only
other keys are not followed: what a batch of another key can do to K's call is what L's batch (followed) can do to it.
"""
import types
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, ENGINE_FILES
from focus import Atom, Many, DList, DSet, DDict, DTuple, DSeq, Mod, materialize, same_key, NoContract
import aioworld
from aioworld import AnyNum, AnyPos, Instant, Clock, AnyLen, Loop, QList, Queue, ISlice, Task, Future, asyncio
import core

ENGINE_FILES.add(__file__)
BFS = True
PROPS = ['C04', 'C09', 'C11', 'C15']
_F = ['aiuti.asyncio.AsyncBackgroundBatcher.' + n for n in (
    '__init__', '__call__', '_forget', '_daemon_task', '_processing_loop', '_get_next_batch', '_process_batch')] + ['aiuti.asyncio._raisable']
FUNCTIONS = {p: _F for p in PROPS}
_A = ['the event loop runs callbacks in FIFO order, one at a time, and timers at any time after they are due',
      'tasks, futures, queues, shield and wait_for behave as the pure Python asyncio of CPython 3.12 (executed as is)',
      'asyncio.Semaphore grants at most its value of permits and grants one whenever holders keep releasing',
      'the batch function makes progress; KeyboardInterrupt/SystemExit are not raised by it',
      'besides P, one caller at a time is followed individually (any number one after another); callers of other keys and '
      'batches of only other keys influence P only in the ways shown for the one other key that is followed']
ASSUMES = {p: _A for p in PROPS}
EXPECT = {'C04': ['C04+C09.answer', 'C04+C09.always', 'C04+C09.progress', 'C04.item', 'C04.slot_released'],
          'C09': ['C04+C09.answer', 'C04+C09.always', 'C04+C09.progress'],
          'C11': ['C11.once', 'C11.same', 'C11.fresh', 'C11+C15.window'], 'C15': ['C11+C15.window']}


class Key(str):
    """Explicit key: any text."""
    truth = None

    def _dv_state(self):
        return (str.__str__(self), self.truth)

    def __bool__(self):
        if self.truth is None:
            self.truth = bool(cur().choose(2, [f'key {str.__str__(self)} is empty', f'key {str.__str__(self)} is not empty']))
        return self.truth


class OtherKey(str):
    _dv_unique = True

    def __new__(cls):
        k = str.__new__(cls, 'other')
        k.found = {}
        return k

    def _dv_state(self):
        return tuple(self.found.values())

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __bool__(self):
        return bool(cur().choose(2, ['other key empty', 'other key not empty']))


class Arg:
    def __init__(self, tag, text, key=None):
        self.tag, self.text = tag, text
        self.key = key

    def _dv_state(self):
        return (self.tag, self.text)

    def __str__(self):
        return self.text

    def __repr__(self):
        return f'<arg of {self.tag}>'

    def __bool__(self):
        return bool(cur().choose(2, [f'{self.tag} falsy', f'{self.tag} truthy']))

    __hash__ = None

    def __eq__(self, o):
        return self is o or bool(cur().choose(2))


class OtherArg(Arg):
    def __init__(self):
        super().__init__('other', 'other')

    def _dv_state(self):
        return ()

    def __str__(self):
        return OtherKey()


class OtherFut:
    """Future of a call for another key."""

    def __init__(self):
        self.st = None

    def _dv_state(self):
        return (self.st,)

    def done(self):
        return self.st is not None

    def cancelled(self):
        return False

    def _set(self, v):
        cur().alive()
        if self.st is not None:
            raise asyncio.InvalidStateError('invalid state')
        self.st = 'done'

    set_result = set_exception = _set

    def add_done_callback(self, *a, **k):
        pass

    def cancel(self, *a):
        raise Unsupported('cancels a future of another call')


class OtherItem(tuple):
    def _dv_state(self):
        return ()


class FDict(DDict):
    def __init__(self, *a, **k):
        self.shared = cur().world.setup
        super().__init__(*a, **k)

    def _dv_state(self):
        return (self.shared, tuple(self.entries))

    def _find(self, k):
        if isinstance(k, OtherKey):
            if self.shared:
                return None
            for e in self.entries:
                if isinstance(e[0], Many):
                    if id(self) not in k.found:
                        k.found[id(self)] = bool(cur().choose(2, ['key not in the batch', 'key in the batch']))
                    return e if k.found[id(self)] else None
            return None
        for e in self.entries:
            if not isinstance(e[0], Many) and not isinstance(e[0], OtherKey) and e[0] == k:
                return e
        return None

    def __getitem__(self, k):
        cur().alive()
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        return e[1].make() if isinstance(e[0], Many) else e[1]

    def __setitem__(self, k, v):
        if isinstance(k, OtherKey):
            if not self.shared and not any(isinstance(e[0], Many) for e in self.entries):
                m = Many(OtherKey, 'others')
                self.entries.append([m, m.then(lambda k, v=v: transplant(v))])
            return
        super().__setitem__(k, v)

    def _pair(self, p):
        if not isinstance(p, Many):
            return super()._pair(p)
        if not any(isinstance(e[0], Many) for e in self.entries):
            super()._pair(p)

    def _value(self, v, x):
        return v.make()

    def __delitem__(self, k):
        if isinstance(k, OtherKey):
            return
        super().__delitem__(k)

    def pop(self, k, *d):
        cur().alive()
        if isinstance(k, OtherKey) and self.shared:
            return None
        if isinstance(k, OtherKey):
            e = self._find(k)
            if e is None:
                if d:
                    return d[0]
                raise KeyError(k)
            v = e[1].make()
            k.found[id(self)] = False
            return v
        return super().pop(k, *d)


class CList(DList):
    """List; others in it are not counted."""

    def __init__(self, it=()):
        super().__init__(it)
        fold(self)

    def append(self, x):
        super().append(x)
        fold(self)

    def extend(self, x):
        try:
            super().extend(x)
        finally:
            if not cur().dead:
                fold(self)

    def dlen(self):
        if self.abstract():
            return AnyLen(self)
        return len(self.items)


class SemM:
    def __init__(self, value=1):
        self.w = cur().world
        self.value = value
        self.holders = []
        self.waiters = []
        self.w.sems.append(self)

    def _dv_state(self):
        return (len(self.holders), self.waiters)

    async def acquire(self):
        r = cur()
        r.alive()
        if self.w.task_info.get(id(asyncio.current_task(self.w.loop))) != 'small' and r.choose(2, ['slot free', 'all slots taken']):
            f = self.w.loop.create_future()
            self.waiters.append(f)
            try:
                await f
            finally:
                if f in self.waiters:
                    self.waiters.remove(f)
        self.holders.append(asyncio.current_task(self.w.loop))
        return True

    def release(self):
        cur().alive()
        if not self.holders:
            cur().fail('C04.slot_released', 'a slot is released twice')
        cur().check('C04.slot_released')
        t = asyncio.current_task(self.w.loop)
        self.holders.remove(t if t in self.holders else self.holders[0])

    def locked(self):
        return bool(cur().choose(2, ['slots free', 'all slots taken']))

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Comp:
    """One computation of a focus key."""

    def __init__(self, key, owner):
        self.key, self.owner = key, owner
        self.pending = True
        self.outs = []              # acceptable outcomes
        self.orig_done = self.orig_cancelled = False
        self.due = self.past = None             # when it is not to be remembered any more (retention)
        self.expired = False

    def _dv_state(self):
        return (self.key, self.owner, self.pending, self.outs, self.orig_done, self.orig_cancelled, self.due, self.expired)

    def outcome(self, w, o):
        self.outs.append(o)
        if self.pending and w.ret:
            self.due = w.clock.now + w.ret
        self.pending = False


class Caller:
    def __init__(self, w, tag, key):
        self.w, self.tag, self.key = w, tag, key
        self.put = None
        self.at_arrival = w.comps.get(key)
        self.fresh = w.must_be_fresh(key)
        self.arg = Arg(tag, key if not w.explicit else 'other text', key)
        self.cancelled = False

    def _dv_state(self):
        return (self.tag, self.key, self.put, self.at_arrival, self.fresh, self.cancelled, self.task)


class W:
    nested = False

    def __init__(self, run, qkey, ret):
        self.run = run
        self.setup = True
        self.queues, self.sems = [], []
        self.P = self.Q = None
        self.comps = {}
        self.runs = []
        self.clock = Clock()
        self.loop = Loop(self, self.clock if ret else None)
        self.qkey = qkey
        self.template = None
        self.ghost = False
        self.task_info, self.hold, self.items = {}, [], {}
        self.asked = False

    dict_class = FDict
    drop_dead = True
    list_class = CList

    def _dv_state(self):
        return (self.loop, self.clock.now if self.loop.ready and self.ret else None, self.P, self.Q, self.comps, self.runs, self.sems, self.queues, self.b)

    def queue_list(self):
        return QList()

    def running_loop(self):
        return self.loop

    def semaphore(self, value=1):
        return SemM(value)

    # ---- queue
    def on_put(self, q, item):
        self.items[id(item)] = item
        args = [x for x in leaves(item) if isinstance(x, Arg)]
        if self.ghost:
            self.template = (q, item)
            return
        for a in args:
            for c in (self.P, self.Q):
                if c is not None and a is c.arg:
                    old = self.comps.get(c.key)
                    cur().check('C11.once', c.put is None and (old is None or not old.pending),
                                f'{c.tag} adds work for a key that is pending')
                    if self.ret:
                        cur().check('C11+C15.window', old is None or old.expired, f'{c.tag} adds work for a key that was answered less than retention_timeout ago')
                    c.put = self.comps[c.key] = Comp(c.key, c.tag)
                    c.at_arrival = None

    def must_be_fresh(self, key):
        """The key is not to be remembered any more by now."""
        c = self.comps.get(key)
        if c is None:
            return True
        if c.pending:
            return False
        if self.ret == 0:
            return c.orig_done and not c.orig_cancelled or not self.loop.ready
        return c.expired is True

    def pass_to(self, when):
        if isinstance(when, Instant):
            self.clock.now = when
            for c in self.comps.values():
                if c.due is not None and c.due.same(when):
                    c.expired = c.expired or 'now'

    def instants(self):
        if self.loop.ready:
            yield 'now', self.clock.now
        for k, c in self.comps.items():
            if c.due is not None:
                yield k, c.due

    def order(self, a, b):
        """+1: a is later, ..."""
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if x is self.clock.now or self.clock.now.same(x):
                for c in self.comps.values():
                    if c.due is not None and c.due.same(y):
                        return s if c.expired else -s
                    if c.expired and c.past is not None and c.past.same(y):
                        return s
        return None

    # ---- tasks
    def caller(self, co):
        self.mine = True
        try:
            return self.Task(co, loop=self.loop)
        finally:
            self.mine = False

    mine = False
    others = None

    def task_created(self, t):
        if self.mine:
            return
        kinds = set()
        co = t.get_coro()
        f = getattr(co, 'cr_frame', None)
        if f is not None:
            for v in f.f_locals.values():
                if v is not self.b:
                    for x in leaves(v):
                        if isinstance(x, (OtherArg, OtherItem, Many, OtherFut)):
                            kinds.add('other')
                        elif isinstance(x, (Arg, Key)):
                            kinds.add('K' if 'K' in (getattr(x, 'key', None), x) else 'L')
        if kinds == {'other'}:
            self.loop.ready.pop()
        elif 'K' not in kinds:
            self.task_info[id(t)] = 'small'
            self.hold.append(t)

    b = None


def leaves(x, depth=0):
    yield x
    if depth > 6:
        return
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from leaves(y, depth + 1)
    elif isinstance(x, DSeq):
        for y in x.items:
            yield from leaves(y, depth + 1)
    elif isinstance(x, DDict):
        for y in x.entries:
            yield from leaves(y, depth + 1)
    elif isinstance(x, dict):
        for kv in x.items():
            yield from leaves(kv, depth + 1)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('aiuti') and not callable(x):
        yield from leaves(x.__dict__, depth + 1)


def transplant(x):
    """An item like x for another key."""
    if isinstance(x, Future):
        return OtherFut()
    if isinstance(x, OtherKey):
        return OtherKey()
    if isinstance(x, OtherArg):
        return OtherArg()
    if isinstance(x, tuple):
        ys = [transplant(y) for y in x]
        if type(x) in (tuple, OtherItem):
            return OtherItem(ys)
        c = type(type(x).__name__, (type(x),), {})
        return tuple.__new__(c, ys)
    if isinstance(x, list):
        return [transplant(y) for y in x]
    if hasattr(x, '__dict__'):
        y = object.__new__(type(x))
        y.__dict__.update({k: transplant(v) for k, v in x.__dict__.items()})
        return y
    return x


class BatchRun:
    """One execution of the batch function."""

    def __init__(self, w, args):
        r = cur()
        self.w = w
        self.has = {}
        self.others = None
        self.yielded = {}
        self.wait = None
        self.over = False
        seen = []
        for x in materialize(args):
            if isinstance(x, Many):
                self.others = True
                x = x.make()
                ok = isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], OtherKey) and isinstance(x[1], OtherArg)
                r.check('C04.item', ok, f'the batch function is given {x!r}')
                continue
            try:
                k, a = x
            except (TypeError, ValueError):
                k = a = None
            if isinstance(k, OtherKey):
                self.others = True
                r.check('C04.item', isinstance(a, OtherArg), f'the batch function is given {x!r}')
                continue
            who = [c for c in (w.P, w.Q) if c is not None and c.arg is a]
            gone = isinstance(a, Arg) and not isinstance(a, OtherArg) and not who
            key = who[0].key if who else w.qkey if gone else None
            r.check('C04.item', key is not None and isinstance(k, str) and k == key, f'the batch function is given key {k!r} for {a!r}')
            r.check('C11.once', key not in seen, 'a batch carries a key twice')
            seen.append(key)
            c = w.comps.get(key)
            r.check('C11.once', c is not None and c.pending, f'{key} is computed again')
            self.has[key] = c
        self.task = asyncio.current_task(w.loop)
        old = [b for b in w.runs if not b.over]
        for b in old[:-1]:              # (earlier ones take for ever)
            w.runs.remove(b)
            for s in w.sems:
                s.holders[:] = [t for t in s.holders if t is not b.task]
        w.runs.append(self)

    def _dv_state(self):
        return (sorted(self.has), self.yielded, self.wait, self.over, self.others)

    def __aiter__(self):
        return self

    def __anext__(self):
        return self._next()

    async def _next(self):
        w, r = self.w, cur()
        r.alive()
        if self.over:
            raise StopAsyncIteration
        if 'K' in self.has:
            self.wait = w.loop.create_future()
            try:
                await self.wait
            finally:
                self.wait = None
        opts = []
        few = w.ret == 0 and w.P is None or 'K' not in self.has
        for k in self.has:
            n = self.yielded.get(k, 0)
            if not n:
                opts += [('yield', k, o) for o in (('value', 'exception') if few or k != 'K' else ('value', 'exception', 'StopIteration', 'BaseException object'))]
            elif n == 1 and k == 'K':
                opts.append(('yield', k, 'value'))
        opts += [('yield other',), ('end',), ('raise', 'Exception')]
        if not few and not self.yielded.get('K'):
            opts += [('raise', 'BaseException'), ('raise', 'CancelledError')]
        o = r.pick(opts, 'batch function')
        if o[0] == 'yield':
            k = o[1]
            n = self.yielded.get(k, 0) + 1
            self.yielded[k] = 1
            v = {'value': lambda: Atom(f'value of {k}'), 'exception': lambda: Yielded(k), 'StopIteration': lambda: StopIteration(k),
                 'BaseException object': lambda: Base(k)}[o[2]]()
            c = self.has[k]
            if c.pending or n > 1 and len(c.outs) < 2:
                c.outcome(w, ('raise' if isinstance(v, Exception) else 'return', v))
            return str(k), v
        if o[0] == 'yield other':
            return OtherKey(), Atom('value of another key', True) if r.choose(2) else Yielded('other')
        self.over = True
        if o[0] == 'end':
            self.settle(('missing', None))
            raise StopAsyncIteration
        e = {'Exception': Failed, 'BaseException': Base, 'CancelledError': asyncio.CancelledError}[o[1]]('batch')
        self.settle(('raise', e))
        raise e

    def settle(self, out):
        for c in self.has.values():
            if c.pending:
                c.outcome(self.w, out)


class Yielded(Exception):
    pass


class Failed(Exception):
    pass


class Base(BaseException):
    pass


def body(qkey, ret):
    def go(run):
        w = run.world = W(run, qkey, ret)
        aioworld.begin(w.loop)
        aio = aioworld.model_asyncio(w)
        imports = {'asyncio': aio, 'itertools': Mod('itertools', islice=ISlice), 'queue': Mod('queue'), 'threading': Mod('threading'),
                   'concurrent.futures': Mod('concurrent.futures'), 'weakref': Mod('weakref'), 'time': Mod('time'),
                   'collections': Mod('collections', OrderedDict=FDict, deque=CList)}
        m = core.load('asyncio', imports, list=CList)
        w.explicit = (qkey == 'K') == bool(ret)
        w.ret = 0 if ret == 0 else AnyPos('retention_timeout')

        def func(batch):
            cur().alive()
            b = BatchRun(w, batch)
            return b
        w.b = w.batcher = m.AsyncBackgroundBatcher(func, max_batch_size=AnyNum('max_batch_size'), max_concurrent_batches=AnyNum('max_concurrent'),
                                      batch_timeout=AnyPos('batch_timeout'), retention_timeout=w.ret)
        # what the item of a call for another key looks like
        w.ghost = True
        co = w.batcher(OtherArg(), key=OtherKey())
        t = w.caller(co)
        w.loop.run_one(-1)
        if w.template is None:
            raise Unsupported('a call does not put an item on a queue')
        w.ghost = w.setup = False
        q, item = w.template
        w.queue = q
        q._queue.items[:] = [x for x in q._queue.items if x is not item]
        make = lambda: transplant(item)
        w.others = Many(make, 'others')
        w.keep = [co, t]
        drive(run, w)
    return go


def call(w, tag, key):
    c = Caller(w, tag, key)
    setattr(w, tag, c)
    co = w.batcher(c.arg, key=Key(key)) if w.explicit else w.batcher(c.arg)
    c.task = w.caller(co)
    w.loop.run_one(-1)
    if c.at_arrival is not None and c.put is None:
        pass


def drive(run, w):
    loop = w.loop
    while True:
        run.alive()
        after(run, w)
        if not loop.ready:
            for c in w.comps.values():
                if c.expired:
                    c.expired, c.past, c.due = True, c.due or c.past, None
        q = w.queue._queue
        fold(q)
        if not q.items and not any(not g.done() for g in w.queue._getters):
            q.items[:] = [w.others.again(False)]
        run.pending = ('C04+C09.progress',) if w.P is not None else ()
        run.cut('drive')
        acts = []
        if loop.ready:
            acts.append('run the next callback')
        if w.P is None:
            acts.append('P calls')
        if w.Q is None:
            acts.append('Q calls')
        elif not w.Q.task.done() and not w.Q.cancelled:
            acts.append('Q is cancelled')
        live = 0
        if w.P is not None and any(getattr(h.fn, '__self__', None) is w.P.task for h in loop.ready):
            loop.run_one()          # P resumes in this round
            continue
        c = w.P is not None and (w.P.put or w.P.at_arrival)
        if c and not c.pending and loop.ready:      # K's outcome is known: P is resumed before anybody else calls
            act(run, w, run.pick([a for a in acts if a in ('run the next callback', 'Q is cancelled')], 'step'))
            continue
        for b in w.runs:
            if b.wait is not None and not b.wait.done():
                acts.append(('batch function proceeds', b))
                live = 1
        for s in w.sems:
            if s.waiters and not all(f.done() for f in s.waiters):
                acts.append(('slot frees', s))
                live = 1
        for h in loop.timers:
            acts.append(('timer', h))
        for c in w.comps.values():
            if c.due is not None and not c.expired and not any(c.due.same(h._when) for h in loop.timers):
                acts.append(('window ends', c))
        if not q.items:
            acts.append('others call')
        if w.P is not None and not loop.ready and not live and not loop.timers:
            run.fail('C04+C09.always', 'P is never answered')
        if loop.ready:              # external events are looked at when all callbacks have run
            acts = [a for a in acts if not isinstance(a, tuple) and a != 'others call']
        act(run, w, run.pick(acts, 'step'))


def act(run, w, a):
    loop = w.loop
    if not loop.ready:
        w.clock.now = Instant()
    run.env = run.env or a in ('P calls', 'Q calls', 'Q is cancelled', 'others call')
    if a == 'run the next callback':
        loop.run_one()
    elif a == 'P calls':
        call(w, 'P', 'K')
    elif a == 'Q calls':
        call(w, 'Q', w.qkey)
    elif a == 'Q is cancelled':
        w.Q.cancelled = True
        w.Q.task.cancel()
    elif a == 'others call':
        w.queue.put_nowait(w.others.make())
    elif a[0] == 'batch function proceeds':
        wake(loop, a[1].wait)
    elif a[0] == 'slot frees':
        wake(loop, next(f for f in a[1].waiters if not f.done()))
    elif a[0] == 'window ends':
        w.pass_to(a[1].due)
    elif a[0] == 'timer':
        h = a[1]
        w.pass_to(h._when)
        loop.timers = [x for x in loop.timers if x is not h]
        loop.invoke(h)


def wake(loop, f):
    n = len(loop.ready)
    f.set_result(None)
    while len(loop.ready) > n:
        loop.run_one(n)
        n = min(n, len(loop.ready))
        break


def fold(q):
    out = []
    for x in q.items:
        run = x if isinstance(x, Many) else getattr(x, '_dv_run', None)
        if run is not None:
            some = run.some or x is not run
            if out and isinstance(out[-1], Many):
                out[-1] = out[-1].again(out[-1].some or some)
                continue
            x = run.again(some)
        out.append(x)
    q.items[:] = saturate(out)


def saturate(items):
    """Any number of others, possibly none, around everything."""
    m = cur().world.others
    if m is None or all(isinstance(x, Many) for x in items) or not all(isinstance(x, Many) or id(x) in cur().world.items for x in items):
        return items
    out = [m.again(False)]
    for x in items:
        if not isinstance(x, Many):
            out += [x, m.again(False)]
    return out


def after(run, w):
    """After every step."""
    P, Q = w.P, w.Q
    w.runs[:] = [b for b in w.runs if not b.over]
    if P is not None and P.task.done():
        judge(run, w, P)
        run.end()
    if Q is not None and Q.task.done():
        c = Q.put
        if c is not None:
            c.orig_done = True
            c.orig_cancelled = Q.cancelled
        w.Q = None
        if not Q.cancelled and not Q.task.cancelled():
            Q.task.exception()
    for s in w.sems:
        for t in s.holders:
            if t.done():
                run.fail('C04.slot_released', 'a finished batch keeps its slot')


def judge(run, w, P):
    t = P.task
    run.check('C04+C09.always', True)
    if t.cancelled():
        kind, v = 'raise', 'cancelled'
    elif t.exception() is not None:
        kind, v = 'raise', t.exception()
    else:
        kind, v = 'return', t.result()
    c = P.put or P.at_arrival
    run.check('C11.fresh', P.put is not None or not P.fresh, 'P gets a remembered outcome that should be forgotten')
    run.check('C04+C09.answer', c is not None and not c.pending, f'P is answered ({kind} {v!r}) before the batch function produced anything')
    ok = any(agrees(kind, v, o) for o in c.outs)
    run.check('C11.same' if P.put is None else 'C04+C09.answer', ok, f'P: {kind} {v!r}, the batch function produced {c.outs}')
    run.check('C04+C09.answer', ok, f'P: {kind} {v!r}, the batch function produced {c.outs}')


def agrees(kind, v, o):
    k, x = o
    if k == 'missing':
        return kind == 'raise' and isinstance(v, Exception)
    if isinstance(x, asyncio.CancelledError):
        return kind == 'raise' and (v == 'cancelled' or isinstance(v, asyncio.CancelledError))
    if isinstance(x, StopIteration):
        return kind == 'raise' and (v is x or getattr(v, '__cause__', None) is x)
    return k == kind and v is x


def tasks():
    out = []
    for q in ('K', 'L'):
        for ret in (0, 1):
            out.append((f'Q on {q}, {"retention" if ret else "no retention"}', PROPS if q == 'K' and ret else PROPS[:3], body(q, ret)))
    return out
