"""C10: one arbitrary call P and its immediate successor Q among any number of other calls.

Batch sizes are symbolic integers (any number of items, any max_batch_size >= 1), at cut points related by the templates
of widen(); time is symbolic (aioworld.Instant).  That every call x with the next call y satisfies the obligations gives
the property for whole batches: the last member of a batch is handed over at the latest when batch_timeout is over since
it arrived, and if its successor is not in the batch, it is full or the successor came later.
"""
import functools
import sys
import time
import weakref
import z3
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, live_syms, collect, ENGINE_FILES
from focus import Many, DList, DSeq, DTuple, Mapped, It, Mod, materialize, map_items
import aioworld
from aioworld import AnyNum, AnyPos, Instant, Clock, Loop, QList, ISlice, Task, asyncio
import core
from c_batcher import (FDict, Key, OtherKey, OtherArg, OtherItem, OtherFut, Arg, leaves, transplant, wake, Failed,
                       FUNCTIONS as _FB)

ENGINE_FILES.add(__file__)
BFS = True
PROPS = ['C10', 'C15']
THOROUGH = ['P and its successor, limit changes at any time']
FUNCTIONS = {p: _FB['C04'] for p in PROPS}
_A = ['the event loop runs callbacks in FIFO order, one at a time, and timers exactly when they are due',
      'tasks, futures, queues, shield, wait_for and timeouts behave as the pure Python asyncio of CPython 3.12 (executed as is)',
      'asyncio.Semaphore grants at most its value of permits, in FIFO order',
      'the batch function makes progress; batch_timeout > 0, max_batch_size >= 1',
      'calls are made while no other callback is ready, except P and Q, which may call at any moment; batches without P '
      'and Q are followed up to the point where they are separate tasks',
      'when max_batch_size changes while P waits, either value is accepted for its batch',
      'calls at the very instant at which batch_timeout is over may go either way']
ASSUMES = {p: _A for p in PROPS}
EXPECT = {p: (['C10.fifo'] if p == 'C10' else []) + ['C10+C15.nonempty', 'C10+C15.size', 'C10+C15.concurrency', 'C10+C15.together', 'C10+C15.prompt',
              'C10+C15.progress'] for p in PROPS}


class NList(DList):
    """List of calls with its (symbolic) length."""

    def __init__(self, it=()):
        n = count_of(it)
        super().__init__(it)
        if n is None and not any(isinstance(x, Many) for x in self.items):
            n = SymNum(z3.IntVal(len(self.items)))
        self._n = n
        fold(self)

    @property
    def n(self):
        if self._n is None:
            raise Unsupported('list of unknown length')
        return self._n

    @n.setter
    def n(self, n):
        self._n = n

    def _dv_state(self):
        return (self._n, *self.items)

    def __iter__(self):
        return It(self) if self._n is None else NIt(self)

    def __getitem__(self, i):
        if isinstance(i, slice) and (i.start, i.stop, i.step) in ((None, None, -1), (None, None, None)):
            c = NList(self)
            if i.step:
                c.reverse()
            return c
        return super().__getitem__(i)

    def reverse(self):
        self.items.reverse()
        fold(self)

    def insert(self, i, x):
        if i != 0:
            raise Unsupported('insert into a batch')
        self.items.insert(0, x)
        self.n = self.n + 1
        fold(self)

    def append(self, x):
        super().append(x)
        self.n = self.n + 1
        fold(self)

    def extend(self, it):
        r = cur()
        r.alive()
        n = count_of(it)
        if n is not None:
            self.items.extend(materialize(it))
            self.n = self.n + n
            fold(self)
            return
        src = iter(it)
        act = ('extend', self, src)
        r.active.append(act)
        try:
            while True:
                r.cut('extend', extra=tuple(r.active), frame=sys._getframe(1))
                try:
                    e = next(src)
                except StopIteration:
                    break
                self.append(e)
        finally:
            if act in r.active:
                r.active.remove(act)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def dlen(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def copy(self):
        return NList(self)

    def clear(self):
        super().clear()
        self.n = SymNum(z3.IntVal(0))

    def _other(self, *a):
        raise Unsupported('list operation on a batch')
    __add__ = __radd__ = pop = popleft = __setitem__ = __delitem__ = __mul__ = _other


class NIt(It):
    """Iterator over a counted list: as many steps as it has elements."""

    def __init__(self, seq):
        super().__init__(seq)
        self.k, self.n = SymNum(z3.IntVal(0)), seq.n

    def _dv_state(self):
        return super()._dv_state() + (self.k, self.n)

    def __next__(self):
        try:
            v = super().__next__()
        except StopIteration:
            cur().assume(self.k.z == self.n.z)
            raise
        cur().assume(self.k.z < self.n.z)
        self.k = self.k + 1
        return v


def count_of(x):
    """Length of something derived from a counted list, element by element."""
    if isinstance(x, NList):
        return x._n
    if isinstance(x, It) and x.i == 0 and not x.in_run and isinstance(x.seq, NList):
        return x.seq._n
    if isinstance(x, Mapped) and len(x.its) == 1 and not x.buf:
        return count_of(x.its[0])
    return getattr(x, 'n_items', None)


def fold(q):
    out = []
    for x in q.items:
        run = x if isinstance(x, Many) else getattr(x, '_dv_run', None)
        if run is not None:
            x = run.again(False)
            if out and isinstance(out[-1], Many):
                continue
        out.append(x)
    w = cur().world
    n = [i for i, x in enumerate(out) if not isinstance(x, Many)]
    if n and w.others is not None and all(any(out[i] is y for y in w.items.values()) for i in n):
        if n[0] == 0:
            out.insert(0, w.others.again(False))
    q.items[:] = out


UNARY = [lambda a, M: a < M, lambda a, M: a <= M, lambda a, M: a >= M]
UNARY0 = [lambda a, M: a >= 0, lambda a, M: a <= 0, lambda a, M: a >= 1]
BINARY = [lambda a, b, M: a + b == M, lambda a, b, M: a + b <= M]
BINARY0 = [lambda a, b, M: a <= b, lambda a, b, M: b <= a]


_simple = {}


def simplify(z):
    v = _simple.get(z.get_id())
    if v is None:
        v = _simple[z.get_id()] = (z3.simplify(z), z)
    return v[0]


@functools.cache
def var(i):
    return z3.Int(f'w{i}')


@functools.cache
def templates(n, limits):
    return [(f, i, None, M) for i in range(n) for M in limits for f in UNARY] + [(f, i, None, None) for i in range(n) for f in UNARY0] + [
        (f, i, j, M) for i in range(n) for j in range(i + 1, n) for M in limits for f in BINARY] + [
        (f, i, j, None) for i in range(n) for j in range(i + 1, n) for f in BINARY0]


def instance(t, xs):
    f, i, j, M = t
    return f(xs[i], M) if j is None else f(xs[i], xs[j], M)


@functools.cache
def facts(n, mask, limits):
    vs = [var(i) for i in range(n)]
    return (*[M >= 1 for M in limits], *[instance(t, vs) for k, t in enumerate(templates(n, limits)) if mask >> k & 1])


_implied = {}


def implied(r, fs):
    """Those of the facts which follow from the path condition (bit mask)."""
    key = (frozenset([p.get_id() for p in r.pc]), tuple([f.get_id() for f in fs]))
    c = _implied.get(key)
    if c is not None:
        return c[0]
    left = list(enumerate(fs))
    s = z3.Solver()
    s.set('timeout', r.eng.z3_timeout)
    s.add(*r.pc)
    t = time.perf_counter()
    while left:
        s.push()
        s.add(z3.Not(z3.And([f for _, f in left])))
        a = s.check()
        r.eng.report.queries += 1
        if a == z3.unsat:
            break
        if a != z3.sat:
            left = []
            break
        m = s.model()
        s.pop()
        left = [(i, f) for i, f in left if z3.is_true(m.eval(f, model_completion=True))]
    r.eng.report.solver_time += time.perf_counter() - t
    mask = sum(1 << i for i, _ in left)
    _implied[key] = (mask, list(r.pc), fs)
    return mask


class SemM:
    def __init__(self, value=1):
        self.w = cur().world
        self.value, self.early = value, self.w.setup
        self.holders = []
        self.waiters = []
        self.w.sems.append(self)

    def _dv_state(self):
        return (len(self.holders), self.waiters, self.value is self.w.C)

    async def acquire(self):
        r = cur()
        r.alive()
        t = asyncio.current_task(self.w.loop)
        if any(not f.done() for f in self.waiters) or r.choose(2, ['slot free', 'all slots taken']):
            f = self.w.loop.create_future()
            self.waiters.append(f)
            try:
                await f
            finally:
                if f in self.waiters:
                    self.waiters.remove(f)
        self.holders.append(t)
        return True

    def release(self):
        if self.w.run is not cur():     # (left over from a path that was given up)
            return
        cur().alive()
        t = asyncio.current_task(self.w.loop)
        for b in self.w.runs:
            if b.task is t and b.started and not b.over:
                cur().fail('C10+C15.concurrency', 'the slot is released while the batch function is in progress')
        if self.holders:
            self.holders.remove(t if t in self.holders else self.holders[0])

    def locked(self):
        return bool(cur().choose(2, ['slots free', 'all slots taken']))

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Caller:
    def __init__(self, w, tag, key):
        self.w, self.tag, self.key = w, tag, key
        self.arg = Arg(tag, 'other text' if w.explicit else key, key)
        self.handed = False
        self.early = False

    def _dv_state(self):
        return (self.tag, self.handed, self.early, self.task)


M_, M2_ = z3.Int('M'), z3.Int('M2')


class W:
    nested = False
    drop_dead = True
    list_class = NList
    dict_class = FDict
    others = None
    mine = False
    b = None
    batch_task = last = None
    foreign = ()

    def __init__(self, run, explicit, late, changes):
        self.run = run
        self.setup = True
        self.explicit = explicit
        self.queues, self.sems, self.runs = [], [], []
        self.P = self.Q = None
        self.clock = Clock()
        self.loop = Loop(self, self.clock)
        self.template, self.ghost = None, False
        self.hold, self.items = [], {}
        self.due = self.past = None     # batch_timeout after P's arrival
        self.expired = False
        self.waited = False
        self.keep = None                # sizes of P's batch once it is a separate task
        self.M = SymNum(M_)
        self.C = AnyNum('max_concurrent_batches')
        self.bt = AnyPos('batch_timeout')
        run.assume(self.M.z >= 1)
        self.limits = (M_,)
        self.changes = changes          # max_batch_size will change
        if changes:
            self.limits = (M_, M2_)
            run.assume(M2_ >= 1)

    def _dv_state(self):
        return (self.loop, self.clock.now if self.loop.ready else None, self.P, self.Q, self.due, self.expired, self.waited, self.changes, self.runs,
                self.sems, self.queues, self.b)

    def widen(self, r):
        """Numbers the program holds are forgotten except for these relations."""
        for again in (0, 1):
            groups, order = {}, []
            for s in live_syms(r):
                z = simplify(s.z)
                if any(z.eq(m) for m in self.limits) or not z.is_int():
                    continue
                if z.get_id() not in groups:
                    groups[z.get_id()] = (z, [])
                    order.append(z.get_id())
                groups[z.get_id()][1].append(s)
            if len(order) > 4 and not again:
                collect()           # (some are garbage in cycles)
        if self.keep is not None and self.last is self.batch_task:
            old = [x for x in (f() for f in self.foreign) if x is not None]
            self.keep += [s for k in order for s in groups[k][1] if not any(s is x for x in old) and not any(s is x for x in self.keep)]
        elif self.keep is not None:
            self.foreign = [weakref.ref(s) for k in order for s in groups[k][1] if not any(s is x for x in self.keep)]
        if self.keep is not None:       # only P's batch matters
            for i, k in enumerate(order):
                if not any(s is x for s in groups[k][1] for x in self.keep):
                    for s in groups[k][1]:
                        s.z = var(100 + i)
            order = [k for k in order if any(s is x for s in groups[k][1] for x in self.keep)]
        n = len(order)
        if n > 9:
            raise Unsupported('too many numbers')
        if r.pos < len(r.prefix):
            mask = r.prefix[r.pos]
        else:
            xs = [groups[k][0] for k in order]
            mask = implied(r, [instance(t, xs) for t in templates(n, self.limits)])
        r.pos += 1
        r.trail.append(mask)
        for i, k in enumerate(order):
            for s in groups[k][1]:
                s.z = var(i)
        r.pc[:] = facts(n, mask, self.limits)

    def now_limits(self):
        return self.limits[:1] if self.changes else self.limits

    def comp(self, kind, where, it, fn):
        n = count_of(it)
        if n is None or kind not in ('list', 'gen'):
            return NotImplemented
        if kind == 'gen':
            return NotImplemented
        src = materialize(it)
        out = DList(map_items(src, fn, True))
        if len(out.items) != len(src):
            return NotImplemented
        out.n_items = n
        return NList(out)

    def queue_list(self):
        return QList()

    def running_loop(self):
        return self.loop

    def semaphore(self, value=1):
        return SemM(value)

    def on_put(self, q, item):
        if self.ghost:
            self.template = (q, item)
            return
        self.items[id(item)] = item

    # ---- time
    def instants(self):
        if self.loop.ready:
            yield 'now', self.clock.now
        if self.due is not None:
            yield 'P', self.due

    def order(self, a, b):
        for x, y, s in ((a, b, 1), (b, a, -1)):
            if self.clock.now.same(x):
                d = self.due or self.past
                if d is not None and d.same(y):
                    return s if self.expired else -s
        return None

    def pass_to(self, when):
        if isinstance(when, Instant):
            self.clock.now = when
            if self.due is not None and self.due.same(when):
                self.expired = 'now'

    # ---- tasks
    def caller(self, co):
        self.mine = True
        try:
            return self.Task(co, loop=self.loop)
        finally:
            self.mine = False

    def task_created(self, t):
        if self.mine:
            return
        kinds = set()
        f = getattr(t.get_coro(), 'cr_frame', None)
        if f is not None:
            for v in f.f_locals.values():
                if v is not self.b:
                    if self.P is not None and any(x is self.P.arg for x in leaves(v)):
                        self.batch_task = t
                        self.keep = [x._n for x in leaves(v) if isinstance(x, NList)]
                    for x in leaves(v):
                        if isinstance(x, (OtherArg, OtherItem, Many, OtherFut)):
                            kinds.add('other')
                        elif isinstance(x, (Arg, Key)):
                            kinds.add('focus')
        if kinds == {'other'}:
            self.loop.ready.pop()
        else:
            self.hold.append(t)


class BatchRun:
    """One execution of the batch function."""

    def __init__(self, w, args):
        self.w = w
        self.n = count_of(args)
        self.has = []
        self.order = True
        self.started = self.over = False
        self.wait = None
        self.left = 2
        self.some = False
        for x in materialize(args):
            self.some = True
            if isinstance(x, Many):
                continue
            for y in leaves(x):
                for c in (w.P, w.Q):
                    if c is not None and c.arg is y:
                        self.has.append(c)
        if self.n is None:
            raise Unsupported('batch of unknown size')
        w.runs.append(self)

    def _dv_state(self):
        return ([c.tag for c in self.has], self.started, self.over, self.wait, self.left, self.task)

    task = None

    def start(self):
        w, r = self.w, cur()
        P, Q = w.P, w.Q
        self.task = asyncio.current_task(w.loop)
        self.started = True
        if P not in self.has:
            r.check('C10+C15.nonempty', self.some, 'the batch function is given an empty batch')
            if Q is not None and Q in self.has and not P.handed:
                r.fail('C10.fifo', 'a later call is handed over before an earlier one')
            return
        r.check('C10+C15.nonempty', self.n.z >= 1, 'the batch function is given an empty batch')
        r.check('C10+C15.size', z3.Or([self.n.z <= m for m in w.now_limits()]), 'the batch function is given more than max_batch_size items')
        mine = [s for s in w.sems if s.value is w.C and self.task in s.holders]
        r.check('C10+C15.concurrency', any(s.early for s in mine), 'the batch function is started without one of the max_concurrent_batches slots')
        tags = [c.tag for c in self.has]
        if Q in self.has:
            r.check('C10.fifo', P.handed or tags == ['P', 'Q'], 'a later call is handed over before an earlier one')
        if P in self.has and not P.handed:
            if Q not in self.has:
                if w.expired is False or Q is not None and Q.early:
                    r.check('C10+C15.together', z3.Or([self.n.z >= m for m in w.now_limits()]), 'a batch that is not full is closed, the next call comes less than batch_timeout later')
                else:
                    r.check('C10+C15.together')
                r.check('C10+C15.prompt', w.expired is not True or w.waited, 'a call is handed over later than batch_timeout after the last arrival in its batch')
        for c in self.has:
            c.handed = True

    def __aiter__(self):
        return self

    def __anext__(self):
        return self._next()

    async def _next(self):
        w, r = self.w, cur()
        r.alive()
        if not self.started:
            self.start()
        if self.over:
            raise StopAsyncIteration
        self.wait = w.loop.create_future()
        try:
            await self.wait
        finally:
            self.wait = None
        mine = [s for s in w.sems if s.value is w.C and self.task in s.holders]
        r.check('C10+C15.concurrency', bool(mine), 'the batch function goes on without a slot')
        opts = ['end', 'raise'] + (['yield'] if self.left else [])
        o = r.pick(opts, 'batch function')
        if o == 'yield':
            self.left -= 1
            if self.left:
                return 'K', object()
            return OtherKey(), object()
        self.over = True
        if o == 'end':
            raise StopAsyncIteration
        raise Failed('batch')


def body(explicit, late, follow, changes=False):
    def go(run):
        w = run.world = W(run, explicit, late, changes)
        aioworld.begin(w.loop)
        aio = aioworld.model_asyncio(w)
        imports = {'asyncio': aio, 'itertools': Mod('itertools', islice=ISlice), 'queue': Mod('queue'), 'threading': Mod('threading'),
                   'concurrent.futures': Mod('concurrent.futures'), 'weakref': Mod('weakref'), 'time': Mod('time'),
                   'collections': Mod('collections', OrderedDict=FDict, deque=NList)}
        m = core.load('asyncio', imports, list=NList)

        def func(batch):
            cur().alive()
            return BatchRun(w, batch)
        M0 = SymNum(z3.Int('M0')) if late else w.M
        w.b = b = m.AsyncBackgroundBatcher(func, max_batch_size=M0, max_concurrent_batches=w.C, batch_timeout=w.bt)
        if late:
            b.max_batch_size = w.M
            del M0
        w.ghost = True
        co = b(OtherArg(), key=OtherKey())
        t = w.caller(co)
        w.loop.run_one(-1)
        if w.template is None:
            raise Unsupported('a call does not put an item on a queue')
        w.ghost = w.setup = False
        q, item = w.template
        w.queue = q
        q._queue.items[:] = [x for x in q._queue.items if x is not item]
        w.others = Many(lambda: transplant(item), 'others')
        w.alive = [co, t]
        drive(run, w, follow)
    return go


def call(w, tag, key):
    c = Caller(w, tag, key)
    if tag == 'Q':
        c.early = w.expired is False
    else:
        w.due = w.clock.now + w.bt
    setattr(w, tag, c)
    co = w.b(c.arg, key=Key(key)) if w.explicit else w.b(c.arg)
    c.task = w.caller(co)
    w.loop.run_one(-1)


def drive(run, w, follow):
    loop = w.loop
    while True:
        run.alive()
        P, Q = w.P, w.Q
        w.runs[:] = [b for b in w.runs if not b.over]
        if P is not None and P.handed and (not follow or not any(P in b.has for b in w.runs)):
            run.end()
        full = [s for s in w.sems if any(not f.done() for f in s.waiters)]
        if P is not None and not loop.ready and not P.handed and w.expired:
            if full:
                w.waited = True
            else:
                run.check('C10+C15.prompt', Q is not None and not Q.handed and not w.waited, 'batch_timeout is over, a slot is free, and the call is not handed over')
        if not loop.ready and w.expired == 'now':
            w.expired, w.past, w.due = True, w.due, None
        q = w.queue._queue
        fold(q)
        free = P is None or Q is not None
        if free and not q.items and not any(not g.done() for g in w.queue._getters):
            q.items[:] = [w.others.again(False)]
        run.pending = ('C10+C15.progress',) if P is not None and not P.handed else ()
        run.cut('drive')
        acts = []
        if loop.ready:
            acts.append('run the next callback')
        if P is None:
            acts.append('P calls')
        elif Q is None and not follow:
            acts.append('Q calls')
        if w.changes and (P is None or not P.handed):
            acts.append('max_batch_size is changed')
        if not loop.ready:
            for b in w.runs:
                if b.wait is not None and not b.wait.done():
                    acts.append(('batch function proceeds', b))
            for s in full:
                acts.append(('slot frees', s))
            for h in loop.timers:
                acts.append(('timer', h))
            if w.due is not None and not any(w.due.same(h._when) for h in loop.timers):
                acts.append(('window ends',))
            if free and not q.items:
                acts.append('others call')
            if P is not None and not P.handed and not [a for a in acts if a not in ('Q calls', 'max_batch_size is changed')]:
                run.fail('C10+C15.progress', 'P is never handed over')
        act(run, w, run.pick(acts, 'step'))


def act(run, w, a):
    loop = w.loop
    if not loop.ready:
        w.clock.now = Instant()
    run.env = run.env or a in ('P calls', 'Q calls', 'others call', 'max_batch_size is changed')
    w.last = getattr(loop.ready[0].fn, '__self__', None) if a == 'run the next callback' else w.batch_task if isinstance(a, tuple) else None
    if a == 'run the next callback':
        loop.run_one()
    elif a == 'P calls':
        call(w, 'P', 'K')
    elif a == 'Q calls':
        call(w, 'Q', 'L')
    elif a == 'max_batch_size is changed':
        w.changes = False
        w.b.max_batch_size = w.M = SymNum(M2_)
    elif a == 'others call':
        w.queue.put_nowait(w.others.make())
    elif a[0] == 'batch function proceeds':
        wake(loop, a[1].wait)
    elif a[0] == 'slot frees':
        wake(loop, next(f for f in a[1].waiters if not f.done()))
    elif a[0] == 'window ends':
        w.pass_to(w.due)
    elif a[0] == 'timer':
        h = a[1]
        w.pass_to(h._when)
        loop.timers = [x for x in loop.timers if x is not h]
        loop.invoke(h)


def tasks():
    return [('P and its successor', PROPS, body(True, False, False)),
            ('P and its successor, limit changed after construction', PROPS, body(False, True, False)),
            ('P and its successor, limit changes at any time', PROPS, body(True, False, False, True)),
            ('P until its batch is over', PROPS, body(True, False, True))]


def feature(w):
    def where(c):
        if c is None:
            return '-'
        if c.handed:
            return 'handed'
        if any(c.arg in leaves(x) for x in w.queue._queue.items):
            return 'queue'
        return 'out'
    return (where(w.P), where(w.Q), sum(len(s.waiters) for s in w.sems), w.expired, len(w.loop.ready), len(w.loop.timers))
