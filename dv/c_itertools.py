"""C18: split / exhaust.

split is verified at one arbitrary index: source element X, condition value (condition(X), or the condition iterable's
value) with arbitrary truth.  Streams are elementwise terms over that index: the models of tee/compress/map/filter/zip
keep order and laziness (their contract), ownership is linear (an iterator that was handed on may not be advanced by
anybody else) and every stream knows the set of inputs that limit its length.
"""
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, Many, DList, It, Mod, materialize, drain, Mapped
import core
from core import load

ENGINE_FILES.add(__file__)
PROPS = ['C18']
FUNCTIONS = {'C18': ['aiuti.itertools.split', 'aiuti.itertools.exhaust']}
ASSUMES = {'C18': ['itertools.tee/compress/filterfalse, map, filter, zip, collections.deque behave as documented (lazy, '
                   'order-preserving)', 'the truth value of a condition result does not change between evaluations']}
EXPECT = {'C18': ['C18.partition', 'C18.evaluated_once', 'C18.lazy', 'C18.length', 'C18.exhaust_all', 'C18.consumed_once']}


class Stream:
    """Lazy one-shot iterator; at(): its values at the focus index."""

    def __init__(self, fn, limits, space, parents=(), what=''):
        self.fn, self.limits, self.space, self.what = fn, frozenset(limits), space, what
        self.val = None
        self.moved = False

    def at(self):
        if self.val is None:
            self.val = list(self.fn())
        return self.val

    def take(self):
        """Ownership moves to whoever consumes this iterator."""
        if self.moved:
            cur().fail('C18.consumed_once', f'{self.what} is consumed by two different consumers')
        self.moved = True
        return self

    def __iter__(self):
        return self

    def __next__(self):
        w = cur().world
        if w.constructing:
            cur().fail('C18.lazy', f'split() itself consumes {self.what}')
        raise Unsupported('element-by-element consumption of a stream')

    def _dv_items(self):
        self.__next__()

    def _dv_isinstance(self, name):
        return name in ('Iterable', 'Iterator')

    def _dv_state(self):
        return (self.what, self.moved, tuple(sorted(self.limits)))


class Input:
    """A given iterable: a list (fresh iterator each time) or an iterator."""

    def __init__(self, name, value, one_shot):
        self.name, self.value, self.one_shot = name, value, one_shot
        self.stream = None

    def __iter__(self):
        if self.one_shot:
            if self.stream is None:
                self.stream = Stream(lambda: [self.value], {self.name}, (), what=self.name)
            return self.stream
        if self.stream is not None:
            cur().fail('C18.consumed_once', f'{self.name} is iterated more than once')
        self.stream = Stream(lambda: [self.value], {self.name}, (), what=self.name)
        return self.stream

    def __next__(self):
        if self.one_shot:
            return next(iter(self))
        raise TypeError('not an iterator')

    def __len__(self):
        raise Unsupported('len() of the input')

    def __getitem__(self, i):
        raise Unsupported('index into the input')

    def _dv_isinstance(self, name):
        return name in ('Iterable',) or name in ('Iterator', 'Generator') and self.one_shot or \
            name in ('Sequence', 'Collection', 'Sized', 'List') and not self.one_shot

    def _dv_state(self):
        return (self.name, self.one_shot, self.stream)


def stream(x):
    if isinstance(x, (list, tuple, DList)):
        raise Unsupported('concrete collection as stream')
    s = iter(x)
    if not isinstance(s, Stream):
        raise Unsupported(f'stream of {x!r}')
    return s


def tee(x, n=2):
    s = stream(x).take()
    return tuple(Stream(s.at, s.limits, s.space, what=f'tee of {s.what}') for _ in range(n))


def align(ss):
    if len({s.space for s in ss}) != 1:
        raise Unsupported('streams over different index spaces')
    return ss


def compress(data, sel):
    d, s = align([stream(data).take(), stream(sel).take()])

    def at():
        (v,), (c,) = d.at(), s.at()
        return [v] if c else []
    return Stream(at, d.limits | s.limits, (object(),), what='compress')


def d_map(fn, *its):
    if not all(isinstance(i, (Stream, Input)) for i in its):
        raise Unsupported('map over something else')
    ss = align([stream(i).take() for i in its])
    return Stream(lambda: [fn(*[x for s in ss for x in s.at()])], frozenset().union(*[s.limits for s in ss]), ss[0].space, what='map')


def d_zip(*its):
    return d_map(lambda *a: a, *its)


def d_filter(fn, it):
    s = stream(it).take()
    return Stream(lambda: [v for v in s.at() if (v if fn is None else fn(v))], s.limits, (object(),), what='filter')


def filterfalse(fn, it):
    s = stream(it).take()
    return Stream(lambda: [v for v in s.at() if not (v if fn is None else fn(v))], s.limits, (object(),), what='filterfalse')


def starmap(fn, it):
    return d_map(lambda t: fn(*t), it)


class World:
    constructing = True

    def __init__(self):
        self.evals = []

    def comp(self, kind, where, it, fn):
        """Generator expression over a stream."""
        if isinstance(it, (Stream, Input)):
            if kind != 'gen':
                next(iter(it))
            s = stream(it).take()
            return Stream(lambda: [w for v in s.at() for w in fn(v)], s.limits, (object(),) if has_if(fn) else s.space, what='genexp')
        return NotImplemented

    def _dv_state(self):
        return (len(self.evals),)


def has_if(fn):
    """Does the (wrapped) comprehension filter?  Its elements at any index are 0 or 1; decided per use."""
    import dis
    names = [i.opname for i in dis.get_instructions(fn.__code__)] + [
        i.opname for c in fn.__code__.co_consts if hasattr(c, 'co_code') for i in dis.get_instructions(c)]
    return any(n.startswith('POP_JUMP') for n in names)


def imports(over):
    import operator
    it = Mod('itertools', tee=tee, compress=compress, filterfalse=filterfalse, starmap=starmap)
    col = Mod('collections', deque=deque)
    return {'itertools': it, 'collections': col, 'operator': operator}, over


def deque(it=(), maxlen=None):
    if isinstance(it, (Stream, Input)):
        next(iter(it))
    d = DList()
    drain('deque', it, d)
    if maxlen == 0:
        d.items = []
    return d


def b_split(kind):
    def body(run):
        w = run.world = World()
        imps, over = imports(dict(map=d_map, zip=d_zip, filter=d_filter))
        m = load('itertools', imps, **over)
        x = Atom('X')
        src = Input('source', x, bool(run.choose(2, ['source: list', 'source: iterator'])))
        t = Atom('condition value')
        if kind == 'callable':
            def condition(v):
                w.evals.append(v)
                return t
            run.check('C18.lazy', True)
        else:
            condition = Input('condition', t, bool(run.choose(2, ['condition: list', 'condition: iterator'])))
        outs = m.split(src, condition)
        run.check('C18.lazy', not w.evals, 'condition evaluated before anything is consumed')
        w.constructing = False
        outs = list(outs)
        run.check('C18.partition', len(outs) == 2, 'split() returned something else than two iterators')
        for o in outs:
            if not isinstance(o, Stream):
                raise Unsupported(f'{type(o).__name__} returned by split()')
        outs[0].take(), outs[1].take()
        run.check('C18.consumed_once', True)
        lim = {'source'} if kind == 'callable' else {'source', 'condition'}
        for o in outs:
            run.check('C18.length', o.limits == lim, f'length of the result is limited by {sorted(o.limits)}, not by {sorted(lim)}')
        order = run.choose(2, ['true first', 'false first'])
        for i in ((0, 1), (1, 0))[order]:
            v = outs[i].at()
            want = bool(t) == (i == 0)
            run.check('C18.partition', len(v) == (1 if want else 0) and all(e is x for e in v),
                      f'condition is {bool(t)} but where_{("true", "false")[i]} yields {v}')
        if kind == 'callable':
            run.check('C18.evaluated_once', len(w.evals) == 1 and w.evals[0] is x, f'condition evaluated {len(w.evals)} times')
    return body


def b_exhaust(run):
    run.world = None
    imps, over = imports({})
    m = load('itertools', imps)
    log = []
    n = {'X': 0}

    class X(Atom):
        pass
    x = X('X')
    items = DList([Many(lambda: Atom('other', True), 'others0'), x, Many(lambda: Atom('other', True), 'others1')])
    shape = run.pick(['iterator', 'list', 'empty'], 'argument')
    if shape == 'empty':
        items = DList()

    class Src:
        """Counts how often the focus element is taken and whether the end was reached."""
        def __init__(self):
            self.it = It(items)
            self.taken, self.ended = 0, 0

        def __iter__(self):
            return self

        def __next__(self):
            try:
                v = next(self.it)
            except StopIteration:
                self.ended = 1
                raise
            if v is x:
                self.taken += 1
            return v

        def _dv_abstract(self):
            return self.it._dv_abstract()

        def _dv_state(self):
            return (self.it, self.taken, self.ended)

    class Lst:
        def __init__(self):
            self.its = []

        def __iter__(self):
            self.its.append(Src())
            return self.its[-1]

        def _dv_state(self):
            return tuple(self.its)
    src = Src()
    arg = src
    if shape == 'list':
        arg = Lst()
    res = m.exhaust(arg)
    if shape == 'list':
        run.check('C18.exhaust_all', len(arg.its) == 1, f'argument iterated {len(arg.its)} times')
        src = arg.its[0]
    run.check('C18.exhaust_all', src.ended == 1 and src.taken == (shape != 'empty'), 'argument not consumed completely')
    run.check('C18.exhaust_all', res is None, f'returned {res!r}')


def tasks():
    return [('split_callable', ['C18'], b_split('callable')), ('split_iterable', ['C18'], b_split('iterable')), ('exhaust', ['C18'], b_exhaust)]
