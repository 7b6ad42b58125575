"""C14: which calls of a threadsafe_async_cache function share an entry.

Positional and keyword arguments are opaque terms A, K of any length; a second call has A', K'.  All four relations
(equal / different, each) are explored, keyword order and the types of equal arguments may differ.  What the code makes
of them (tuples, sets of items, concatenations, hashes, names only ...) is a term too, whose equality is decided by the
relation if the operation is injective and a free choice otherwise.  A third call comes after.  Two arbitrary calls
suffice: dictionaries only compare keys pairwise.
"""
import builtins
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, DDict, DList, StarArg
import c_cache
from c_cache import World, Susp, CancelledError

ENGINE_FILES.add(__file__)
PROPS = ['C14', 'C15']
FUNCTIONS = {p: c_cache._F for p in PROPS}
ASSUMES = {'C14': ['asyncio/threading primitives as for C01; argument values have a consistent __eq__/__hash__',
                   'dict/mapping operations compare keys pairwise with ==']}
EXPECT = {'C14': ['C14.share', 'C14.separate', 'C14.args', 'C14.value', 'C14+C15.only_store', 'C14.evict'],
          'C15': ['C15.cache', 'C14+C15.only_store']}
ASSUMES['C15'] = ASSUMES['C14']


class Term:
    """op over operands; `inj`: different operands give different values; `cong`: equal operands give equal values."""

    def __init__(self, op, *xs, inj=False, cong=True):
        self.op, self.xs, self.inj, self.cong = op, xs, inj, cong

    def _dv_state(self):
        return (self.op,) + self.xs

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, (Term, tuple)):
            return False
        e = equal(self, o)
        if e is None:
            m = cur().world.memo
            for a, b, v in m:
                if a is self and b is o or a is o and b is self:
                    return v
            e = bool(cur().choose(2, [f'{self!r} != {o!r}', f'{self!r} == {o!r}']))
            m.append((self, o, e))
        return e

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0

    def __repr__(self):
        return f'{self.op}({", ".join(map(repr, self.xs))})'

    def __format__(self, s):
        raise Unsupported('formatted key')

    def __str__(self):
        raise Unsupported('key made into text')

    def __bool__(self):
        raise Unsupported(f'truth of {self!r}')

    def __len__(self):
        raise Unsupported(f'len of {self!r}')

    def __iter__(self):
        raise Unsupported(f'iteration over {self!r}')

    dlen = __len__


def equal(a, b):
    """True, False or None (may be either)."""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        es = [equal(x, y) for x, y in zip(a, b)]
        return False if False in es else None if None in es else True
    if isinstance(a, Term) and isinstance(b, Term):
        if a.op != b.op:
            if 'args' in (a.op, b.op) and any(private(x) for t in (a, b) if t.op == 'cat' for x in t.xs):
                return False
            if {a.op, b.op} & {'hash', 'len'}:
                return False
            return None
        if a.op in ('args', 'kwargs'):
            return a.xs[0] == b.xs[0] or cur().world.rel[a.op]
        if a.op == 'cat':
            if len(a.xs) != len(b.xs):
                return None
            es = [equal(x, y) for x, y in zip(a.xs, b.xs)]
            if all(e is True for e in es):
                return True
            marks = [not isinstance(x, Term) for x in a.xs]
            syms = [i for i, m in enumerate(marks) if not m]
            if any(e is not True for e, m in zip(es, marks) if m):
                return False
            if any(j - i == 1 for i, j in zip(syms, syms[1:])) and sum(e is not True for e in es) > 1:
                return None     # the boundary between the parts is lost
            return False if False in es else None
        es = [equal(x, y) for x, y in zip(a.xs, b.xs)]
        if len(a.xs) != len(b.xs):
            return None
        if all(e is True for e in es):
            return True if a.cong else None
        if False in es and a.inj:
            return False
        return None
    if isinstance(a, Term) or isinstance(b, Term):
        t, o = (a, b) if isinstance(a, Term) else (b, a)
        if t.op in ('args', 'cat', 'tup') and isinstance(o, tuple):
            return False if any(map(private, o)) else None      # a user's argument may be anything (else)
        return False if t.op in ('hash', 'len') else None
    return same(a, b)


def private(x):
    return type(x) is object


def same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (int, str, float, bool)) and a == b)


class SymArgs(Term):
    def __init__(self, i):
        super().__init__('args', i, inj=True)

    def _dv_items(self):
        return [self]

    def __bool__(self):
        w = cur().world
        i = self.xs[0]
        if w.rel['args'] or i not in w.nonempty:
            k = 0 if w.rel['args'] else i
            if k not in w.nonempty:
                w.nonempty[k] = bool(cur().choose(2, ['no positional arguments', 'some positional arguments']))
            if not w.rel['args'] and len([v for kk, v in w.nonempty.items() if kk in (1, 2) and v is False]) > 1:
                cur().end()     # two empty tuples are equal
            return w.nonempty[k]
        return w.nonempty[i]

    def __add__(self, o):
        if isinstance(o, tuple):
            return Term('cat', self, *o, inj=True) if not isinstance(o, Term) else None
        if isinstance(o, Term):
            return Term('cat', self, *(o.xs if o.op == 'cat' else (o,)), inj=True)
        return NotImplemented

    def __radd__(self, o):
        return Term('cat', *o, self, inj=True)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self
            return Term('slice', self, i.start, i.stop)
        raise Unsupported('positional argument by index')


def _cat_add(self, o):
    if self.op not in ('cat', 'tup', 'items', 'slice'):
        raise TypeError('unsupported operand')
    xs = self.xs if self.op == 'cat' else (self,)
    if isinstance(o, tuple):
        return Term('cat', *xs, *o, inj=True)
    if isinstance(o, Term):
        return Term('cat', *xs, *(o.xs if o.op == 'cat' else (o,)), inj=True)
    return NotImplemented


Term.__add__ = _cat_add
Term.__radd__ = lambda self, o: Term('cat', *o, self, inj=True)


class SymKwargs(Term):
    def __init__(self, i):
        super().__init__('kwargs', i, inj=True)

    def items(self):
        return Term('items', self, inj=True)

    def values(self):
        return Term('values', self, cong=False)

    def keys(self):
        return Term('names', self)

    def copy(self):
        return self

    def __bool__(self):
        w = cur().world
        k = ('k', 0 if w.rel['kwargs'] else self.xs[0])
        if k not in w.nonempty:
            w.nonempty[k] = bool(cur().choose(2, ['no keyword arguments', 'some keyword arguments']))
            if not w.rel['kwargs'] and w.nonempty.get(('k', 1)) is False and w.nonempty.get(('k', 2)) is False:
                cur().end()
        return w.nonempty[k]

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __getitem__(self, k):
        raise Unsupported('keyword argument by name')


def ordered(x):
    """Does the order of keyword arguments show in x?"""
    return isinstance(x, Term) and (x.op in ('items', 'values', 'names', 'kwargs') or x.op == 'map' and ordered(x.xs[0]))


def f_frozenset(x=()):
    if isinstance(x, SymKwargs):
        x = x.keys()
    if isinstance(x, Term):
        return Term('fset', x, inj=x.inj and x.op != 'args')
    if isinstance(x, DList):
        x = x.items
    return builtins.frozenset(x)


def f_tuple(x=()):
    if isinstance(x, SymArgs):
        return x
    if isinstance(x, SymKwargs):
        x = x.keys()
    if isinstance(x, Term):
        return Term('tup', x, inj=x.inj, cong=x.cong and not ordered(x))
    if isinstance(x, DList):
        x = x.items
    return builtins.tuple(x)


class Listy(Term):
    def __hash__(self):
        raise TypeError('unhashable type')


def f_sorted(x, **k):
    if k:
        k.clear()
    if isinstance(x, SymKwargs):
        x = x.keys()
    if isinstance(x, Term):
        return Listy('sorted', x, inj=x.inj and x.op != 'args')
    raise Unsupported('sorted()')


def f_list(x=()):
    if isinstance(x, Term):
        return Listy('list', x, inj=x.inj, cong=not ordered(x))
    return DList(x)


def f_dict(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SymKwargs):
        return a[0]
    return DDict(*a, **k)


def f_hash(x):
    return Term('hash', x)


def f_text(x=''):
    if has_term(x):
        return Term('text', x, cong=False)
    return builtins.str(x)


def f_len(x):
    if isinstance(x, Term):
        return Term('len', x)
    return x.dlen() if hasattr(type(x), 'dlen') else len(x)


def f_map(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], Term):
        if f is f_text or f is builtins.repr:
            return Term('map', xs[0], cong=False)
        return Term('map', xs[0], cong=False)
    raise Unsupported('map()')


def has_term(x):
    return isinstance(x, Term) or isinstance(x, tuple) and any(map(has_term, x))


class CacheK:
    """Caller-supplied mapping, falsy while empty, retains what nobody evicts."""

    def __init__(self):
        self.entries = []

    def _dv_state(self):
        return tuple(tuple(e) for e in self.entries)

    def _find(self, k):
        hash(k)
        for e in self.entries:
            if k is e[0] or k == e[0]:
                return e
        return None

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        return e[1]

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[1]

    def __setitem__(self, k, v):
        e = self._find(k)
        if e is None:
            self.entries.append([k, v])
        else:
            e[1] = v

    def setdefault(self, k, v=None):
        e = self._find(k)
        if e is None:
            self.entries.append([k, v])
            return v
        return e[1]

    def __bool__(self):
        return bool(self.entries)

    def __len__(self):
        return len(self.entries)

    def _no(self, *a, **k):
        raise Unsupported('operation on the cache mapping')
    __delitem__ = pop = clear = update = keys = items = values = __iter__ = popitem = _no

    def _dv_isinstance(self, name):
        return name in ('MutableMapping', 'Mapping')


class KeyWorld(World):
    def _dv_state(self):
        return super()._dv_state() + (self.calls, self.given, self.rel, self.nonempty, self.none, self.memo, self.ends)

    def varargs(self, a, k):
        if len(a) == 1 and isinstance(a[0], SymArgs) and len(k) == 1 and 'dv__kw' in k:
            return a[0], k['dv__kw']
        if any(isinstance(x, Term) for x in a):
            raise Unsupported('arguments taken apart')
        return a, DDict(k)

    def at_head(self):
        pass

    def cache_write(self, c, v):
        raise Unsupported('')

    def invoke(self, *a, **k):
        r = self.run
        kw = k.pop('dv__star', None)
        whole = len(a) == 1 and isinstance(a[0], SymArgs) and isinstance(kw, SymKwargs) and not k
        r.check('C14.args', whole and a[0].xs == kw.xs, f'the function is invoked with {a!r} {kw!r} {k!r}')
        i = a[0].xs[0]
        call = next((c for c in self.calls if c.i == i and not c.out and c.active), None)
        r.check('C14.args', call is not None, 'the function is invoked with the arguments of another call')
        call.invoked += 1
        call.val = v = None if call.n == self.none else Atom(f'result {call.n}')

        async def run_func():
            await Susp('func')
            return v
        return run_func()
    invoke._dv_kwcall = True


class Call:
    def __init__(self, w, n, i, fn):
        self.n, self.i = n, i
        self.invoked, self.val, self.out = 0, None, None
        self.active = False
        self.w = w
        self.at = None
        self.coro = fn(SymArgs(i), dv__kw=SymKwargs(i))
        w.calls.append(self)

    def _dv_state(self):
        return (self.n, self.i, self.invoked, self.val, self.out, self.at, self.coro)

    def go(self, v=None):
        """Run until suspended or done."""
        self.active = True
        try:
            self.at = self.coro.send(v)
            if not isinstance(self.at, Susp):
                raise Unsupported(f'suspended on {self.at!r}')
        except StopIteration as e:
            self.out = ('value', e.value)
            self.at = None
        except (PathEnd, Unsupported):
            raise
        except BaseException as e:
            self.w.run.fail('C14.value', f'call raises {e!r}')
        finally:
            self.active = False
        return self

    def finish(self):
        while self.at is not None:
            if self.at.kind == 'wait' and self.at.obj.st not in ('done', 'cancelled'):
                self.w.run.fail('C14.share', 'call waits for something that does not end')
            self.go('woken' if self.at.kind == 'wait' else None)
        return self.out[1]


def body(options):
    return lambda run: keys(run, options)


def keys(run, options):
    given = run.pick(['a cache of the caller', 'the default cache'], 'store')
    w = KeyWorld(run)
    w.rel, w.nonempty, w.memo, w.calls = {'args': False, 'kwargs': False}, {}, [], []
    cache = CacheK() if given.startswith('a') else None
    w.given = cache
    w.ends = None
    w.none = run.pick([0, 1], 'None returned by call')
    over = dict(frozenset=f_frozenset, tuple=f_tuple, sorted=f_sorted, list=f_list, dict=lambda *a, **k: f_dict2(w, *a, **k),
                hash=f_hash, str=f_text, repr=f_text, len=f_len, map=f_map, set=f_set)
    g = gval = None
    if options:
        # the decorator with options first, also used for a second function
        deco = lambda f, cache: options_form(run, w, f, cache)
        w, fn = c_cache.make(run, w, cache=cache, over=over, deco=deco)
        if w.second is not None and cache is None:
            g, gval = w.second
    else:
        w, fn = c_cache.make(run, w, cache=cache, over=over)
    rel = run.pick([(a, k) for a in (True, False) for k in (True, False)], 'arguments, keyword arguments equal')
    w.rel['args'], w.rel['kwargs'] = rel
    eq = rel == (True, True)
    second = run.pick(['first', 'meanwhile', 'last'], 'the second function is called') if g is not None else None
    if second == 'first':
        call_second(run, g, gval)
    a = Call(w, 1, 1, fn).go()
    if second == 'meanwhile':
        call_second(run, g, gval)
    if options:
        run.check('C15.cache', a.invoked == 1, 'the first call with these arguments does not invoke the function')
    run.check('C14.separate', a.invoked == 1, 'first call with these arguments does not invoke the function')
    if run.pick(['during', 'after'], 'second call') == 'during':
        b = Call(w, 2, 2, fn).go()
        if eq:
            run.check('C14.share', b.invoked == 0, 'a call with equal arguments invokes the function again (while in progress)')
        else:
            run.check('C14.separate', b.invoked == 1, 'a call with other arguments waits for the first')
        w.ends = run.pick(["first", "second"], "ends first")
        if w.ends == "second" and not eq:
            vb = b.finish()
            va = a.finish()
        else:
            va = a.finish()
            vb = b.finish()
    else:
        va = a.finish()
        if cache is not None:
            run.check('C14+C15.only_store', len(cache.entries) == 1 and cache.entries[0][1] is a.val,
                      'the result is not in the cache mapping given')
            if eq and run.choose(2, ['entry kept', 'entry evicted']):
                cache.entries.clear()
                b = Call(w, 2, 2, fn)
                vb = b.go().finish()
                run.check('C14.evict', b.invoked == 1 and vb is b.val, 'no recomputation after the entry was evicted')
                c = Call(w, 3, run.pick([1, 2], 'third call'), fn)
                vc = c.go().finish()
                run.check('C14.evict', c.invoked == 0 and vc is b.val, 'another recomputation after the recomputation')
                return
        b = Call(w, 2, 2, fn)
        vb = b.go().finish()
        if eq:
            run.check('C14.share', b.invoked == 0, 'a call with equal arguments invokes the function again')
        else:
            run.check('C14.separate', b.invoked == 1, 'a call with other arguments does not invoke the function')
    run.check('C14.value', va is a.val, f'first call returns {va}')
    run.check('C14.value', vb is (a.val if eq else b.val), f'second call returns {vb}')
    if second == 'last':
        call_second(run, g, gval)
    if options:
        run.check('C15.cache', va is a.val, f'first call returns {va}')
    c = Call(w, 3, run.pick([1, 2], 'third call'), fn)
    vc = c.go().finish()
    run.check('C14.share', c.invoked == 0, 'a third call with the arguments of the first or second invokes the function again')
    run.check('C14.value', vc is (a.val if eq or c.i == 1 else b.val), f'third call returns {vc}')


def options_form(run, w, f, cache):
    how = run.pick(['options', 'options, None', 'for two functions'], 'form')
    deco = w.m.threadsafe_async_cache
    w.second = None
    if how == 'options, None':
        return deco(None, cache=cache)(f)
    d = deco(cache=cache) if cache is not None or run.choose(2, ['cache=None', 'no options']) == 0 else deco()
    if how == 'options':
        return d(f)
    v = Atom('result of the second function')

    async def g(*a, **k):
        return v
    g._dv_kwcall = True
    if run.choose(2, ['second function decorated last', 'second function decorated first']):
        dg = d(g)
        fn = d(f)
    else:
        fn = d(f)
        dg = d(g)
    w.second = (dg, v)
    return fn


def call_second(run, g, v):
    try:
        g(SymArgs(1), dv__kw=SymKwargs(1)).send(None)
        run.fail('C15.cache', 'a call of another function decorated with the same options waits for this one')
    except StopIteration as e:
        run.check('C15.cache', e.value is v, f'a call of another function decorated with the same options returns {e.value}')


def f_set(x=()):
    if isinstance(x, Term):
        return Listy('set', x)
    from focus import DSet
    return DSet(x)


def f_dict2(w, *a, **k):
    if len(a) == 1 and not k and isinstance(a[0], SymKwargs):
        return a[0]
    return DDict(*a, **k)


def tasks():
    return [('keys', ['C14'], body(False)), ('keys, options first', ['C15'], body(True))]
