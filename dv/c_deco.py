"""C15: the decorator forms.

The two constructors are replaced by their contracts ("configured with these arguments"; that each argument has its
documented effect is what the C15 obligations of c_limits, c_batcher, c_buffer and c_cachekey say).  Proved here: the
decorator called with options passes every option on unchanged, whatever is given and whatever is left out, exactly like
the direct form; each running loop has one batcher of its own, made while that loop runs, for any number of calls from a
loop that is gone and from two loops running in different threads.
"""
import inspect
import z3
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, ENGINE_FILES
from focus import Atom, DDict, DList, Mod
import core
from core import Susp

ENGINE_FILES.add(__file__)
PROPS = ['C15']
FUNCTIONS = {'C15': ['aiuti.asyncio.async_background_batcher', 'aiuti.asyncio.async_background_batcher.<locals>._wrapper',
                     'aiuti.asyncio.buffer_until_timeout']}
ASSUMES = {'C15': ['a WeakKeyDictionary maps loops by identity; a batcher keeps its loop alive, so the id() of a loop whose '
                   'batcher is stored is not used again',
                   'calls on different loops run in different threads; one acts at operations of the other on shared mappings',
                   'up to two calls of one loop, one of another and one of a loop used before are in progress at once']}
EXPECT = {'C15': ['C15.options', 'C15.own_loop', 'C15.one_per_loop', 'C15.call', 'C15.buffer']}

OPTS = [('max_batch_size', 'Int', 1), ('max_concurrent_batches', 'Int', 1), ('batch_timeout', 'Real', 0),
        ('retention_timeout', 'Real', 0)]
DOC = {'max_batch_size': 256, 'max_concurrent_batches': 5, 'batch_timeout': .05, 'retention_timeout': 0}


def option(name, sort, low):
    """A given option: any number from `low` on."""
    r = cur()
    v = SymNum(r.fresh(name, sort))
    r.assume(v.z >= low)
    return v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if not all(isinstance(x, (SymNum, int, float)) for x in (a, b)):
            return False
        c = a == b
        return c.z if isinstance(c, SymBool) else c
    return type(a) is type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


class Loop:
    """An event loop: equal to itself only."""

    def __init__(self, name):
        self.name = name

    def is_closed(self):
        return self.name == 'D' and cur().world.phase == 1

    def is_running(self):
        w = cur().world
        return not (self.name == 'D' and w.phase == 1)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        raise Unsupported(f'loop.{n} has no contract')

    def __repr__(self):
        return f'loop {self.name}'

    def _dv_state(self):
        return (self.name,)


class Reg(DDict):
    """A mapping other threads may use: one of their calls may run at each operation."""

    def __init__(self, *a, **k):
        self.shared = False
        super().__init__(*a, **k)
        self.shared = not cur().world.active    # what a call makes for itself nobody else uses

    def interpose(self):
        if self.shared:
            cur().world.interpose()

    def _op(n):
        def op(self, *a, **k):
            self.interpose()
            return getattr(DDict, n)(self, *a, **k)
        return op
    for n in ('__getitem__', '__contains__', '__setitem__', '__delitem__', 'pop'):
        locals()[n] = _op(n)

    def get(self, k, default=None):
        self.interpose()
        e = self._find(k)
        return default if e is None else e[1]

    def setdefault(self, k, v=None):
        self.interpose()
        e = self._find(k)
        if e is None:
            self.entries.append([k, v])
            return v
        return e[1]


class LockM:
    def __enter__(self):
        w = cur().world
        w.interpose()
        w.locked += 1
        return self

    def __exit__(self, *a):
        w = cur().world
        w.locked -= 1
        w.interpose()

    def _dv_state(self):
        return ()


class Local:
    """threading.local: the loop that is gone ran in the thread of L."""

    def __init__(self):
        self.__dict__['_d'] = {}

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        try:
            return self._d[cur().world.ident(), n]
        except KeyError:
            raise AttributeError(n) from None

    def __setattr__(self, n, v):
        self._d[cur().world.ident(), n] = v

    def _dv_state(self):
        return tuple(sorted(((k, v) for k, v in self._d.items()), key=lambda e: e[0]))


class Stub:
    """AsyncBackgroundBatcher by its contract."""

    def __init__(self, *a, **k):
        w = cur().world
        try:
            b = w.sig.bind(None, *a, **k)
        except TypeError as e:
            w.run.fail('C15.options', f'the batcher is made with other arguments than it takes: {e}')
        b.apply_defaults()
        args = list(b.arguments.items())[1:]
        self.loop = w.loop
        self.args = dict(args)
        if w.loop is None:
            w.run.fail('C15.own_loop', 'a batcher is made while no event loop is running')
        if w.ref is not None:
            w.compare(self)

    def __call__(self, *a, **k):
        w = cur().world
        try:
            b = w.csig.bind(None, *a, **k)
        except TypeError as e:
            w.run.fail('C15.call', f'the batcher is called with other arguments than it takes: {e}')
        b.apply_defaults()
        c = w.call
        if w.ref is None:
            w.last = self
            return idle()
        k = b.arguments['key']     # without a key, the text of the argument is the key
        ok = b.arguments['arg'] is c.arg and (k is c.key or c.key is None and k == str(c.arg))
        w.run.check('C15.call', ok, f'the batcher is called with {dict(b.arguments)} for a call with {c.arg}, key={c.key}')
        w.run.check('C15.own_loop', self.loop is c.loop, f'a call on {c.loop} uses a batcher made on {self.loop}')
        u = w.used.setdefault(c.loop.name, self)
        w.run.check('C15.one_per_loop', u is self, f'calls on {c.loop} use different batchers')
        c.asked += 1

        async def answer():
            return await Wait(c)
        return answer()

    def __getattr__(self, n):
        if n.startswith('_dv') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'AsyncBackgroundBatcher.{n}')

    def _dv_state(self):
        return (self.loop,)


async def idle():
    return None


class Wait:
    def __init__(self, c):
        self.c = c

    def __await__(self):
        r = yield Susp('batcher')
        return r

    def _dv_state(self):
        return ()


class Boom(Exception):
    pass


class CancelledError(BaseException):
    pass


class Call:
    def __init__(self, w, loop, key):
        self.w, self.loop = w, loop
        self.arg = Atom('argument', True)
        self.key = Atom('key', True) if key else None
        self.asked = 0
        self.done = False
        self.coro = None

    def _dv_state(self):
        return (self.loop, self.key is None, self.asked, self.arg, self.key, self.coro, self.done)

    def step(self, what=None, v=None):
        """Run until suspended or done; `what`: the answer of the batcher."""
        w = self.w
        before = w.loop, w.call
        w.loop, w.call = self.loop, self
        out = None
        try:
            if self.coro is None:
                co = w.fn(self.arg, key=self.key) if self.key is not None or w.run.choose(2, ['key=None', 'no key']) == 0 \
                    else w.fn(self.arg)
                if not inspect.iscoroutine(co):
                    raise Unsupported('a call of the decorated function does not give a coroutine')
                self.coro = co
            s = self.coro.throw(v) if what in ('raise', 'cancel') else self.coro.send(v)
            if not isinstance(s, Susp):
                raise Unsupported(f'suspended on {s!r}')
        except StopIteration as e:
            out = ('return', e.value)
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            out = ('cancel' if isinstance(e, CancelledError) else 'raise', e)
        finally:
            w.loop, w.call = before
        if out is None:
            return
        self.done = True
        w.run.check('C15.call', self.asked == 1 and what is not None, f'a call ends without an answer of its batcher: {out}')
        w.run.check('C15.call', out[0] == what and out[1] is v, f'a call ends with {out}, its batcher with {what} {v!r}')


class DecoWorld:
    def __init__(self, run):
        self.run = run
        self.loop = self.call = self.ref = self.last = self.fn = None
        self.loops = {n: Loop(n) for n in 'RDLM'}
        self.phase = 0
        self.used = {}
        self.calls = []
        self.nested = False
        self.locked = 0
        self.given = {}
        self.active = False

    def _dv_state(self):
        return (self.phase, [self.used.get(n) for n in 'DLM'], tuple(self.calls), self.fn)

    def running_loop(self):
        if self.loop is None:
            raise RuntimeError('no running event loop')
        return self.loop

    def get_loop(self):
        return self.loop or self.loops['R']

    def ident(self):
        return 'thread of M' if self.loop is self.loops['M'] else 'main thread'

    def interpose(self):
        if not self.active or self.nested or self.locked or self.call is None or self.loop is self.loops['D']:
            return
        other = 'M' if self.loop is self.loops['L'] else 'L'
        acts = ['nothing'] + [a for a in self.acts() if a[1] == other]
        a = self.run.pick(acts, 'the other thread')
        if a != 'nothing':
            self.nested = True
            try:
                self.do(a)
            finally:
                self.nested = False

    def compare(self, b):
        """The batcher made for a call is configured as the direct form configures it."""
        r = self.run
        r.check('C15.options', b.args['func'] is self.func, f'a batcher is made for {b.args["func"]}')
        for n, _, _ in OPTS:
            got, ref = b.args[n], self.ref[n]
            if n in self.given:
                r.check('C15.options', same(got, self.given[n]), f'{n} is given as {self.given[n]}, used as {got}')
            r.check('C15.options', same(got, ref), f'{n} is {got}, with the direct form {ref}')

    def acts(self):
        out = []
        if self.phase == 0:
            if not any(c.loop.name == 'D' for c in self.calls):
                out += [('call', 'D', 0)]
            out += [('close', 'D')]
        else:
            for n, cap in (('L', 2), ('M', 1)):
                if sum(c.loop.name == n for c in self.calls) < cap:
                    out += [('call', n, k) for k in (0, 1)]
        seen = set()
        for c in self.calls:
            if c is not self.call and c.asked and c.loop.name not in seen:
                seen.add(c.loop.name)
                out += [('answer', c.loop.name, how) for how in ('return', 'raise', 'cancel')]
        return out

    def do(self, a):
        if a[0] == 'close':
            self.calls = [c for c in self.calls if c.loop.name != 'D']
            self.phase = 1
        elif a[0] == 'call':
            c = Call(self, self.loops[a[1]], a[2])
            self.calls.append(c)
            c.step()
            if c.done:
                self.calls.remove(c)
        else:
            c = next(c for c in self.calls if c.loop.name == a[1] and c is not self.call)
            self.calls.remove(c)
            v = Atom('answer') if a[2] == 'return' else Boom() if a[2] == 'raise' else CancelledError()
            c.step(a[2], v)
            if not c.done:
                raise Unsupported('a call waits again after the answer of its batcher')


def load(w):
    aio = Mod('asyncio', get_running_loop=w.running_loop, get_event_loop=w.get_loop, AbstractEventLoop=Loop,
              Task=type('Task', (type('F', (), {'__del__': lambda s: None}),), {}), CancelledError=CancelledError,
              Future=type('Future', (), {}))
    weak = Mod('weakref', WeakKeyDictionary=Reg)
    imps = {'asyncio': aio, 'weakref': weak,
            'threading': Mod('threading', Lock=LockM, RLock=LockM, local=Local, get_ident=w.ident, current_thread=w.ident)}
    for n in ('queue', 'concurrent.futures', 'time', 'itertools', 'collections', 'concurrent'):
        imps[n] = Mod(n)
    w.dict_class = Reg
    return core.load('asyncio', imps, dict=Reg)


def given(run, opts):
    """Which options are given: none, one, all but one, all."""
    names = [o[0] for o in opts]
    sets = [[]] + [[n] for n in names] + [names]
    if len(names) > 2:
        sets += [[m for m in names if m != n] for n in names]
    on = run.pick(sets, 'options')
    return {n: option(n, s, low) for n, s, low in opts if n in on}


def forms(run, deco, f, o, other, few=False):
    """The decorated function: directly, or with the options first."""
    try:
        return _forms(run, deco, f, o, other, few)
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        run.fail('C15.options', f'decorating raises {e!r}')


def _forms(run, deco, f, o, other, few):
    form = run.pick(['direct', 'options', 'options, None', 'options, for two functions'][:2 if few else 4], 'form')
    if form == 'direct':
        return deco(f, **o)
    if form == 'options, None':
        return deco(None, **o)(f)
    d = deco(**o)
    if not callable(d):
        cur().fail('C15.options', f'the decorator with options is {d!r}')
    if form.endswith('functions'):
        if run.choose(2, ['other function first', 'other function last']):
            g = d(f)
            d(other)
            return g
        d(other)
    return d(f)


def batcher_body(loops):
    return lambda run: batcher(run, loops)


def batcher(run, loops):
    w = run.world = DecoWorld(run)
    m = load(w)
    real = m.AsyncBackgroundBatcher
    w.sig, w.csig = inspect.signature(real.__init__), inspect.signature(real.__call__)
    m.AsyncBackgroundBatcher = Stub

    async def func(batch):
        yield

    async def other(batch):
        yield
    w.func = func
    w.given = {} if loops else given(run, OPTS)
    deco = m.async_background_batcher
    inside = not loops and run.choose(2, ['decorated while no loop runs', 'decorated while a loop runs'])
    w.loop = w.loops['R'] if inside else None
    ref = deco(func, **w.given)
    # the direct form, used once
    w.loop = w.loops['R']
    try:
        ref(Atom('argument')).send(None)
    except StopIteration:
        pass
    if w.last is None:
        raise Unsupported('the direct form does not use an AsyncBackgroundBatcher')
    args = w.last.args
    w.ref = args
    w.compare(w.last)
    cls = {n: p.default for n, p in w.sig.parameters.items()}
    for n, v in args.items():
        if n in DOC and n not in w.given:
            run.check('C15.options', same(v, cls.get(n)), f'{n} is {v} by default, with AsyncBackgroundBatcher {cls.get(n)}')
    del ref
    w.last = None
    w.loop = w.loops['R'] if inside else None
    w.fn = forms(run, deco, func, w.given, other, loops)
    w.loop = None
    if not loops:
        w.phase = 1
        w.do(run.pick([('call', 'L', 0), ('call', 'L', 1)], 'call'))
        w.do(('call', 'M', 0))
        return
    w.active = True
    while True:
        run.cut('driver')
        w.do(run.pick(w.acts(), 'next'))


class Buffer:
    """BufferAsyncCalls by its contract."""

    def __init__(self, *a, **k):
        w = cur().world
        try:
            b = w.sig.bind(None, *a, **k)
        except TypeError as e:
            w.run.fail('C15.buffer', f'the buffer is made with other arguments than it takes: {e}')
        b.apply_defaults()
        self.made_with = dict(list(b.arguments.items())[1:])
        w.made.append(self)

    def __call__(self, *a):
        raise Unsupported('call')

    def _dv_state(self):
        return ()


def buffer_body(run):
    w = run.world = DecoWorld(run)
    m = load(w)
    w.sig = inspect.signature(m.BufferAsyncCalls.__init__)
    m.BufferAsyncCalls = Buffer
    w.made = []

    async def func(args):
        pass

    async def other(args):
        pass
    o = given(run, [('timeout', 'Real', 0)])
    deco = m.buffer_until_timeout
    a = deco(func, **o)
    cls = w.sig.parameters['timeout'].default
    b = forms(run, deco, func, o, other)
    for x, how in ((a, 'direct form'), (b, 'decorator')):
        run.check('C15.buffer', isinstance(x, Buffer), f'the {how} gives {x!r}')
        run.check('C15.buffer', x.made_with.get('func') is func, f'{how}: the buffer is made for another function')
        t = x.made_with.get('timeout')
        run.check('C15.buffer', same(t, o.get('timeout', cls)), f'{how}: timeout {t} for {o.get("timeout", cls)}')
        rest = {k: v for k, v in x.made_with.items() if k not in ('func', 'timeout')}
        run.check('C15.buffer', rest == {k: v for k, v in a.made_with.items() if k not in ('func', 'timeout')},
                  f'{how}: other arguments {rest}')
    run.check('C15.buffer', a is not b, 'two decorated functions share one buffer')
    first = [x for x in w.made if x.made_with.get('func') is func]
    run.check('C15.buffer', len(first) == 2, f'{len(first)} buffers for 2 decorated functions')


def tasks():
    return [('batcher options', ['C15'], batcher_body(False)), ('batcher per loop', ['C15'], batcher_body(True)), ('buffer decorator', ['C15'], buffer_body)]
