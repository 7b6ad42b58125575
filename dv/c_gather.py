"""C20: gather_excs / raise_first_exc.

Focus: two arbitrary positions A before B of the given awaitables (possibly holding the same awaitable), any number of
others before, between and after.  An awaitable's outcome is arbitrary: a value, a *returned* exception object, a raised
exception (Exception or bare BaseException) that is or isn't an instance of `only`, or cancellation.
"""
import inspect
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, Many, DList, DSet, DTuple, It, DDict, Mod, materialize, star, collapse
import core
from core import load, Awaits

ENGINE_FILES.add(__file__)

PROPS = ['C20']
FUNCTIONS = {'C20': ['aiuti.asyncio.gather_excs', 'aiuti.asyncio.raise_first_exc']}
ASSUMES = {'C20': [
    'asyncio.gather/wait/wait_for/as_completed/ensure_future/Future accessors behave as documented (contract models in '
    'dv/c_gather.py)',
    'the caller itself is not cancelled while it waits',
    'an awaitable object occurs at most twice in the input',
    'focus awaitables and others are not both cancelled (cancellations do not say whose they are)',
]}


class W:
    """World of one path."""

    def __init__(self, run):
        self.run = run
        self.only_all = False
        self.cancel_matches = self.cancels = None
        self.done_tags = set()
        self.aws = []
        self.over = False

    def can_cancel(self, aw):
        """Either focus awaitables or others can be cancelled (reports of cancellations can't be told apart)."""
        if self.cancels is None:
            self.cancels = cur().pick(['focus', 'others'], 'cancellable')
        return self.cancels == ('others' if aw.other else 'focus')

    def _dv_state(self):
        return (self.cancels, self.only_all, tuple(self.aws), self.over, self.cancel_matches, tuple(sorted(self.done_tags)))


def match(t):
    """Is class t a subclass of `only`?"""
    if not issubclass(t, BaseException):
        return False
    if t is CancelledError:
        w = cur().world
        if w.cancel_matches is None:
            w.cancel_matches = bool(cur().choose(2, ['cancellation is not an `only`', 'cancellation is an `only`']))
        return w.cancel_matches
    if t._dv_cls is None:
        t._dv_cls = bool(cur().choose(2, [f'{t.__name__} is not an `only`', f'{t.__name__} is an `only`']))
    return t._dv_cls


def only_class(w):
    class Meta(type):
        def __instancecheck__(cls, x):
            return match(type(x))

        def __subclasscheck__(cls, t):
            return match(t)
    return Meta('only', (BaseException,), {})


class CancelledError(BaseException):
    pass


class InvalidStateError(Exception):
    pass


class Aw:
    """One of the given awaitables."""

    def __init__(self, w, tag, other, kind):
        self.w, self.tag, self.other, self.kind = w, tag, other, kind
        self.fut = None
        self.done = other and tag in w.done_tags
        self.out = None      # (kind, object)
        self.cancelled_by_us = False
        self.started = 0

    def _dv_state(self):
        return (self.tag, self.other, self.kind, self.fut is not None, self.done, self.out, self.started)

    def matches(self, exc):
        return self.w.only_all or match(type(exc))

    def finish(self):
        """It runs to completion with an arbitrary outcome (split when looked at)."""
        self.done = True

    def how(self):
        """'cancelled', 'raised' or 'returned'."""
        if self.out is None:
            assert self.done
            k = cur().pick(['returned', 'raised', 'cancelled'] if self.w.can_cancel(self) else ['returned', 'raised'], self.tag)
            self.out = (k, CancelledError() if k == 'cancelled' else None)
        return self.out[0]

    def obj(self):
        k = self.how()
        if self.out[1] is None:
            if k == 'returned' and not cur().choose(2, [f'{self.tag} returns a value', f'{self.tag} returns an exception']):
                v = Atom(f'value of {self.tag}', self.other)
            else:
                base = cur().pick([Exception, BaseException], f'exception of {self.tag}')
                v = type(f'E_{self.tag}', (base,), {'_dv_cls': None, '_dv_src': self})(self.tag)
            self.out = (k, v)
        return self.out[1]

    @property
    def outcome(self):
        if not self.done:
            return None
        return (self.how(), self.obj())

    def raised(self):
        return self.done and self.how() != 'returned'

    def __await__(self):
        if self.kind == 'coro':
            self.started += 1
            if self.started > 1:
                raise RuntimeError('cannot reuse already awaited coroutine')
        yield ('wait', [self])
        return self.result()

    def result(self):
        if self.raised():
            raise self.outcome[1]
        return self.outcome[1]

    # Future interface (kind == 'future')
    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if self.kind == 'future':
            return getattr(ensure_future(self), n)
        if n in ('close', 'throw', 'send'):
            cur().fail('C20.runs_to_completion', f'{n}() called on an awaitable')
        raise AttributeError(n)


class Fut:
    """Task/Future for one Aw (or a coroutine around one)."""

    def __init__(self, aw):
        self.aw = aw

    def _dv_state(self):
        return (self.aw,)

    def sync(self):
        a = self.aw
        if not a.done and a.other and a.tag in a.w.done_tags:
            a.finish()

    def _chk(self):
        self.sync()
        if not self.aw.done:
            raise InvalidStateError('Result is not set.')

    def done(self):
        self.sync()
        if not self.aw.done and cur().choose(2, [f'{self.aw.tag} not done yet', f'{self.aw.tag} done']):
            self.aw.finish()
        return self.aw.done

    def cancelled(self):
        return self.done() and self.aw.how() == 'cancelled'

    def exception(self):
        self._chk()
        if self.aw.how() == 'cancelled':
            raise self.aw.outcome[1]
        return self.aw.outcome[1] if self.aw.raised() else None

    def result(self):
        self._chk()
        return self.aw.result()

    def cancel(self, *a):
        if not self.aw.done:
            cur().fail('C20.runs_to_completion', f'{self.aw.tag} cancelled')
        return False

    def add_done_callback(self, *a, **k):
        raise Unsupported('add_done_callback')

    def __await__(self):
        if not self.aw.done:
            yield ('wait', [self.aw])
        return self.aw.result()

    def _dv_isinstance(self, name):
        return name in ('Awaitable', 'Future', 'Task')


def ensure_future(x, **k):
    cur().alive()
    if isinstance(x, Fut):
        return x
    if isinstance(x, Aw):
        if x.fut is None or x.kind == 'coro':
            x.started += 1
            if x.kind == 'coro' and x.started > 1:
                raise Unsupported('coroutine scheduled twice')
            x.fut = Fut(x)
        return x.fut
    if inspect.iscoroutine(x):
        return Fut(Wrapped(x))
    raise TypeError('An asyncio.Future, a coroutine or an awaitable is required')


class Wrapped:
    """A task around a coroutine of the code under test: run when first needed (its steps only await Aws)."""
    other = False

    def __init__(self, coro):
        self.coro, self.done, self.outcome, self.tag = coro, False, None, coro.__qualname__

    def _dv_state(self):
        return (self.coro, self.done, self.outcome)

    def finish(self):
        if self.done:
            return
        self.done = True
        try:
            v = None
            while True:
                s = self.coro.send(v)
                v = None
                resume(s)
        except StopIteration as e:
            self.outcome = ('returned', e.value)
        except CancelledError as e:
            self.outcome = ('cancelled', e)
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            self.outcome = ('raised', e)

    result = Aw.result

    def how(self):
        return self.outcome[0]

    def raised(self):
        return self.outcome is not None and self.outcome[0] != 'returned'


def resume(s):
    kind, aws = s
    for a in aws:
        if isinstance(a, str):
            cur().world.done_tags.add(a)
        else:
            a.finish()


def fut_of(x):
    return x if isinstance(x, Fut) else ensure_future(x)


def each(fs, fn):
    out = []
    for f in fs:
        out.append(f.then(fn) if isinstance(f, Many) else fn(f))
    return out


class Gather:
    def __init__(self, fs, rex):
        self.fs, self.rex = fs, rex

    def _dv_state(self):
        return (tuple(self.fs), self.rex)

    def cancel(self, *a):
        cur().fail('C20.runs_to_completion', 'gather() cancelled')

    def add_done_callback(self, *a, **k):
        raise Unsupported('add_done_callback')

    def __await__(self):
        r = cur()
        fs = dedupe([f for f in self.fs if not isinstance(f, Many)])
        if not self.rex:
            # the first failure (in time) is raised at once: any subset may be finished by then
            k = r.choose(len(fs) + 2, 'gather outcome')
            if k < len(fs):
                yield ('wait', [fs[k].aw])
                if not fs[k].aw.raised():
                    r.end()
                raise fs[k].aw.outcome[1]
            if k == len(fs):
                for f in self.fs:
                    if isinstance(f, Many):
                        g = f.make()
                        yield ('wait', [g.aw])
                        if g.aw.raised():
                            raise g.aw.outcome[1]
                r.end()
        yield ('wait', [f.tag if isinstance(f, Many) else f.aw for f in self.fs])

        def res(f):
            f.sync()
            if not self.rex and f.aw.raised():
                cur().end()
            return f.aw.outcome[1]
        return DList(each(self.fs, res))


def dedupe(fs):
    out = []
    for f in fs:
        if not any(f is g for g in out):
            out.append(f)
    return out


@star
def gather(*aws, return_exceptions=False):
    memo = {}
    out = []
    for a in aws:
        if isinstance(a, Many):
            out.append(a.then(fut_of))
        else:
            if id(a) not in memo:
                memo[id(a)] = fut_of(a)
            out.append(memo[id(a)])
    return Gather(out, bool(return_exceptions))


class Wait:
    def __init__(self, fs, timeout, when):
        self.fs, self.timeout, self.when = fs, timeout, when

    def __await__(self):
        r = cur()
        fs = dedupe([f for f in self.fs if not isinstance(f, Many)])
        if self.timeout is None and self.when == 'ALL_COMPLETED':
            yield ('wait', [f.tag if isinstance(f, Many) else f.aw for f in self.fs])
            return DSet(self.fs), DSet([])
        done = [f for f in fs if f.aw.done or r.choose(2, [f'{f.aw.tag} pending', f'{f.aw.tag} done'])]
        yield ('wait', [f.aw for f in done])
        if any(isinstance(f, Many) for f in self.fs):
            raise Unsupported('partial wait() for an unbounded collection')
        return DSet(done), DSet([f for f in fs if f not in done])


def wait(fs, *, timeout=None, return_when='ALL_COMPLETED'):
    items = materialize(fs)
    if not items:
        raise ValueError('Set of Tasks/Futures is empty.')
    if all(isinstance(f, Many) and not f.some for f in items):
        if not DList(items):
            raise ValueError('Set of Tasks/Futures is empty.')
    return Wait([f if isinstance(f, (Many, Fut)) else ensure_future(f) for f in items], timeout, return_when)


def as_completed(fs, *, timeout=None):
    raise Unsupported('as_completed')


class Sleep:
    def __await__(self):
        yield ('wait', [])


class LoopM:
    def create_task(self, c, **k):
        return ensure_future(c)

    def _dv_state(self):
        return ()


def make_world(run, one_shot=True):
    w = W(run)
    run.world = w
    asyncio = Mod('asyncio', gather=gather, wait=wait, ensure_future=ensure_future, create_task=ensure_future,
                  as_completed=as_completed, CancelledError=CancelledError, TimeoutError=TimeoutError,
                  InvalidStateError=InvalidStateError, ALL_COMPLETED='ALL_COMPLETED', FIRST_EXCEPTION='FIRST_EXCEPTION',
                  FIRST_COMPLETED='FIRST_COMPLETED', Task=type('Task', (type('F', (), {'__del__': lambda s: None}),), {}), Future=Fut, sleep=lambda *a: Sleep(),
                  iscoroutine=lambda x: inspect.iscoroutine(x) or isinstance(x, Aw) and x.kind == 'coro',
                  isfuture=lambda x: isinstance(x, Fut) or isinstance(x, Aw) and x.kind == 'future',
                  get_running_loop=LoopM, get_event_loop=LoopM, AbstractEventLoop=type('Loop', (), {}))
    m = load('asyncio', stub_imports(asyncio=asyncio))
    kind = run.pick(['coro', 'future'], 'awaitables')

    def other(tag):
        def make():
            return Aw(w, tag, True, kind)
        return Many(make, tag)
    a = Aw(w, 'A', False, kind)
    b = a if run.choose(2, ['A and B differ', 'A and B are the same awaitable']) else Aw(w, 'B', False, kind)
    w.aws = [a, b]
    items = DList([other('others0'), a, other('others1'), b, other('others2')])
    shape = run.pick(['list', 'iterator', 'empty'], 'aws') if one_shot else 'list'
    if shape == 'empty':
        w.aws = []
        items = DList([])
    arg = iter(items) if shape == 'iterator' else items
    w.only_all = bool(run.choose(2, ['only given', 'only defaulted']))
    args = (arg,) if w.only_all else (arg, only_class(w))
    return w, m, args


def stub_imports(**k):
    d = dict(k)
    for n in ('queue', 'threading', 'concurrent.futures', 'weakref', 'time', 'itertools', 'concurrent', 'collections', 'operator'):
        d.setdefault(n, Mod(n))
    return d


def expected(w):
    return [a.outcome[1] for a in w.aws if a.raised() and a.matches(a.outcome[1])]


def source(w, exc):
    for a in w.aws:
        if a.outcome is not None and a.outcome[1] is exc:
            return a
    return None


def b_gather(run):
    w, m, args = make_world(run)
    agen = m.gather_excs(*args)
    got = []
    while True:
        an = agen.__anext__()
        v = None
        try:
            while True:
                s = an.send(None)
                resume(s)
        except StopIteration as e:
            run.check('C20.all_finish_first', all(a.done for a in w.aws), 'exception yielded before every awaitable finished')
            got_exc(run, w, got, e.value)
            run.cut('yield', extra=(agen, tuple(got)))
            continue
        except StopAsyncIteration:
            break
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            run.fail('C20.only_raised', f'gather_excs itself raised {e!r}')
    run.check('C20.all_finish_first', all(a.done for a in w.aws), 'ended before every awaitable finished')
    exp = [a for a in w.aws if a.raised() and a.matches(a.outcome[1])]
    run.check('C20.exact_in_order', len(got) == len(exp) and all(g is e for g, e in zip(got, exp)),
              f'focus awaitables that failed: {[a.tag for a in exp]}, reported {[g.tag for g in got]}')


def got_exc(run, w, got, exc):
    run.check('C20.only_raised', isinstance(exc, BaseException), f'{exc!r} reported which is not an exception')
    if isinstance(exc, CancelledError):
        # cancellation may be reported by a new object: attribute it to the next position that was cancelled
        cand = [a for a in w.aws[len(got):] if a.done and a.how() == 'cancelled']
        own = [a for a in w.aws if a.outcome is not None and a.outcome[1] is exc]
        if cand:
            got.append(cand[0])
            return
        if own:
            run.fail('C20.exact_in_order', 'cancellation reported again')
        run.check('C20.matching', w.only_all or match(CancelledError), 'cancellation reported despite `only`')
        return
    src = None
    for a in w.aws:
        if a.outcome is not None and a.outcome[1] is exc:
            src = a
    if src is None:     # one of the others: its own obligations follow from taking it as the focus
        return
    run.check('C20.only_raised', src.raised(), f'{src.tag} merely returned the exception that was reported')
    run.check('C20.matching', src.matches(exc), f'exception of {src.tag} reported which is not an instance of `only`')
    got.append(src)


def b_raise(run):
    w, m, args = make_world(run)
    coro = m.raise_first_exc(*args)
    out = None
    try:
        while True:
            s = coro.send(None)
            resume(s)
    except StopIteration as e:
        run.check('C20.raise_first', e.value is None, f'returned {e.value!r}')
    except (PathEnd, Unsupported):
        raise
    except BaseException as e:
        out = e
    run.check('C20.all_finish_first', all(a.done for a in w.aws), 'ended before every awaitable finished')
    exp = [a for a in w.aws if a.raised() and a.matches(a.outcome[1])]
    if out is None:
        run.check('C20.raise_first', not exp, 'nothing raised although an awaitable failed')
        return
    if isinstance(out, CancelledError):
        return run.check('C20.raise_first', not exp or exp[0].how() == 'cancelled' or first_other(out, w, exp),
                         'cancellation raised although an earlier awaitable failed')
    src = source(w, out)
    if src is not None:
        run.check('C20.raise_first', bool(exp) and exp[0].outcome[1] is out, f'{out!r} of {src.tag} raised but it is not the first')
        return
    tag = type(out).__name__
    run.check('C20.only_raised', tag.startswith('E_others'), f'{out!r} raised by no awaitable')
    if tag.startswith('E_others'):
        run.check('C20.raise_first', not exp or tag == 'E_others0' or tag == 'E_others1' and exp[0] is not w.aws[0],
                  f'exception of {tag[2:]} raised although {exp and exp[0].tag} failed earlier')


def first_other(out, w, exp):
    return True


def tasks():
    return [('gather_excs', ['C20'], b_gather), ('raise_first_exc', ['C20'], b_raise)]


def guard(rep):
    pass
