"""Unbounded collections: a few focus elements in arbitrary positions, runs of arbitrary other elements between them.

A property about every element (every pair of elements) is proved for one arbitrary focus element (pair); the others
are represented by `Many`s, from which any number of fresh elements can be drawn.
"""
import sys
import builtins
import functools
import z3
from engine import cur, Unsupported, PathEnd, SymNum, SymBool, SymStr, ENGINE_FILES

ENGINE_FILES.add(__file__)
_len, _list, _iter, _tuple, _dict, _set, _map, _isinstance = len, list, iter, tuple, dict, set, map, isinstance


class Atom:
    """Opaque value: the code may move and compare it (outcome unknown), nothing else."""
    _n = 0

    def __init__(self, tag, other=False, hashable=True):
        self.tag, self.other = tag, other
        self.truth = None
        self.hashable = hashable

    def _dv_state(self):
        return (self.tag, self.other, self.truth)

    def __bool__(self):
        if self.truth is None:
            self.truth = bool(cur().choose(2, [f'{self.tag} is falsy', f'{self.tag} is truthy']))
        return self.truth

    def __eq__(self, o):
        if self is o and not self.other:
            return True
        return bool(cur().choose(2, [f'{self.tag} != {o!r}', f'{self.tag} == {o!r}']))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if not self.hashable:
            raise TypeError('unhashable')
        return id(self)

    def __repr__(self):
        return f'<{self.tag}>'

    def __format__(self, s):
        return repr(self)

    __str__ = __repr__


class Many:
    """Any number of other elements: images under `fns` of elements made by `base`."""

    def __init__(self, base, tag, some=False, fns=()):
        self.base, self.tag, self.some, self.fns = base, tag, some, tuple(fns)

    def make(self):
        x = self.base()
        x._dv_origin = self.tag
        x._dv_run = Many(self.base, self.tag)
        v = self.apply(x)
        if v is not x and hasattr(v, '__dict__') and not _isinstance(v, type):
            try:
                v._dv_run = self.again(False)
            except AttributeError:
                pass
        return v

    def apply(self, x):
        """Image of base element x (computed once per element and stage)."""
        if not self.fns:
            return x
        memo = x.__dict__.setdefault('_dv_memo', {})
        v = x
        for fn in self.fns:
            if id(fn) not in memo:
                memo[id(fn)] = (fn, fn(v))
            v = memo[id(fn)][1]
        return v

    def then(self, fn, some=None):
        return Many(self.base, self.tag, self.some if some is None else some, self.fns + (fn,))

    def again(self, some):
        return Many(self.base, self.tag, some, self.fns)

    def _dv_state(self):
        return (self.tag, self.some, tuple(getattr(getattr(f, '__code__', None), 'co_firstlineno', 0) for f in self.fns))


def is_abstract(x):
    return _isinstance(x, DSeq) and x.abstract() or hasattr(x, '_dv_abstract') and x._dv_abstract()


class It:
    """Iterator over a DSeq (live, like list iterators)."""

    def __init__(self, seq):
        self.seq, self.i, self.in_run, self.drawn = seq, 0, False, False

    def _dv_state(self):
        return (self.seq, self.i, self.in_run, self.drawn)

    def _dv_abstract(self):
        return self.seq is not None and any(_isinstance(x, Many) for x in self.seq.items[self.i:])

    def __iter__(self):
        return self

    def __next__(self):
        r = cur()
        r.alive()
        while True:
            if self.seq is None or self.i >= _len(self.seq.items):
                self.seq = None
                raise StopIteration
            x = self.seq.items[self.i]
            if not _isinstance(x, Many):
                self.i += 1
                return x
            if not self.in_run:
                self.in_run, self.drawn = True, not x.some
            more = 1 if not self.drawn else r.choose(2, [f'no more {x.tag}', f'another {x.tag}'])
            if more:
                self.drawn = True
                return x.make()
            self.in_run = False
            self.i += 1

    def rest(self):
        """Everything not yet consumed, as a sequence (consumes)."""
        s = DList()
        if self.seq is not None:
            s.items = self.seq.items[self.i:]
            if self.in_run and s.items:
                s.items[0] = s.items[0].again(False)
        self.seq = None
        return s


class DSeq:
    def __init__(self, items=()):
        self.items = _list(items)

    def abstract(self):
        return any(_isinstance(x, Many) for x in self.items)

    def _dv_state(self):
        return _tuple(self.items)

    def __iter__(self):
        return It(self)

    def __bool__(self):
        if any(not _isinstance(x, Many) or x.some for x in self.items):
            return True
        if not self.items:
            return False
        if cur().choose(2, ['collection is empty', 'collection is not empty']):
            k = cur().choose(_len(self.items)) if _len(self.items) > 1 else 0
            x = self.items[k]
            self.items[k] = x.again(True)
            return True
        self.items = []
        return False

    def __len__(self):
        if self.abstract():
            raise Unsupported('length of an unbounded collection')
        return _len(self.items)

    def dlen(self):
        if not self.abstract():
            return _len(self.items)
        raise Unsupported('length of an unbounded collection')

    def __getitem__(self, i):
        if _isinstance(i, slice):
            if i == slice(None, None, None):
                return type(self)(self.items)
            if not self.abstract():
                return type(self)(self.items[i])
            raise Unsupported('slice of an unbounded collection')
        if _isinstance(i, int):
            its = self.items
            if i >= 0 and not any(_isinstance(x, Many) for x in its[:i + 1]):
                return its[i]
            if i < 0 and not any(_isinstance(x, Many) for x in its[i:]):
                return its[i]
        raise Unsupported('index into an unbounded collection')

    def __contains__(self, x):
        for y in self.items:
            if not _isinstance(y, Many) and (y is x or y == x):
                return True
        if self.abstract():
            return bool(cur().choose(2, ['not contained', 'contained']))
        return False

    def __repr__(self):
        return f'{type(self).__name__}{self.items}'

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of collections')

    __hash__ = None


def materialize(x):
    """Anything iterable as a list of items (consumes iterators)."""
    if _isinstance(x, DSeq):
        return _list(x.items)
    if _isinstance(x, It):
        return x.rest().items
    f = getattr(type(x), '_dv_items', None)
    if f is not None:
        return f(x)
    if _isinstance(x, (list, tuple, dict, set, frozenset, str, range)) or type(x) in (type({}.values()), type({}.items()),
                                                                                     type({}.keys())):
        return _list(x)
    return drain('materialize', x)


def drain(where, x, into=None):
    """Consume an iterator of unknown length; cut at every step."""
    out = DList() if into is None else into
    r = cur()
    it = _iter(x)
    act = ('drain', out, it)
    r.active.append(act)
    try:
        while True:
            if is_abstract(it) or not _isinstance(it, It):
                collapse(out)
                r.cut(where, extra=_tuple(r.active), frame=sys._getframe(1))
            try:
                e = next(it)
            except StopIteration:
                break
            out.items.append(e)
    finally:
        if act in r.active:
            r.active.remove(act)
    collapse(out)
    return out.items


def collapse(seq):
    """Adjacent others become a run."""
    out = []
    for x in seq.items:
        run = x if _isinstance(x, Many) else getattr(x, '_dv_run', None)
        if run is not None:
            some = run.some or x is not run
            if out and _isinstance(out[-1], Many) and out[-1].tag == run.tag and out[-1].fns == run.fns:
                out[-1] = run.again(out[-1].some or some)
            else:
                out.append(run.again(some))
        else:
            out.append(x)
    seq.items[:] = out
    h = getattr(cur().world, 'fold_items', None)
    if h is not None:
        h(seq)


class DList(DSeq):
    def __getattr__(self, n):
        if not n.startswith('_') and (hasattr(_list, n) or n in ('appendleft', 'extendleft', 'rotate')):
            raise Unsupported(f'list.{n}')
        raise AttributeError(n)

    def __init__(self, it=()):
        self.items = materialize(it) if not _isinstance(it, list) else _list(it)

    def append(self, x):
        cur().alive()
        self.items.append(x)

    def extend(self, it):
        cur().alive()
        if _isinstance(it, (DSeq, list, tuple)):
            self.items.extend(materialize(it))
        else:
            got = DList()
            try:
                drain('extend', it, got)
            finally:
                if not cur().dead:
                    self.items.extend(got.items)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return DList(self.items + materialize(o))

    def __radd__(self, o):
        return DList(materialize(o) + self.items)

    def clear(self):
        self.items.clear()

    def copy(self):
        return DList(_list(self.items))

    def insert(self, i, x):
        if self.abstract() and i != 0:
            raise Unsupported('insert into an unbounded collection')
        self.items.insert(i, x)

    def pop(self, i=-1):
        if not self.items:
            raise IndexError('pop from empty list')
        if self.abstract():
            if i == 0 and not _isinstance(self.items[0], Many) or i == -1 and not _isinstance(self.items[-1], Many):
                return self.items.pop(i)
            if i not in (0, -1):
                raise Unsupported('pop from the middle of an unbounded collection')
            if not self:
                raise IndexError('pop from empty list')
            return self._take(i)
        return self.items.pop(i)

    def popleft(self):
        return self.pop(0)

    def _take(self, i):
        """Remove the first (0) or last (-1) element, splitting runs."""
        r = cur()
        while self.items:
            x = self.items[i]
            if not _isinstance(x, Many):
                return self.items.pop(i)
            if x.some or r.choose(2, [f'no {x.tag} there', f'{x.tag} there']):
                self.items[i] = x.again(False)
                return x.make()
            self.items.pop(i)
        raise IndexError('pop from empty list')

    def reverse(self):
        self.items.reverse()

    def sort(self, **k):
        if _len(self.items) > 1 or self.abstract():
            raise Unsupported('sort')

    def remove(self, x):
        raise Unsupported('remove')

    def index(self, *a):
        raise Unsupported('index')

    def count(self, *a):
        raise Unsupported('count')

    def __setitem__(self, i, v):
        if self.abstract():
            raise Unsupported('assignment into an unbounded collection')
        self.items[i] = v

    def __delitem__(self, i):
        if i == slice(None, None, None):
            self.items.clear()
        elif self.abstract():
            raise Unsupported('deletion from an unbounded collection')
        else:
            del self.items[i]

    def __mul__(self, n):
        if self.abstract():
            raise Unsupported('repetition')
        return DList(self.items * n)


class Mapped:
    """map()/generator expression: lazy, effects happen when drawn."""

    def __init__(self, fn, its, flat=False):
        self.fn, self.its, self.flat, self.buf = fn, [_iter(i) for i in its], flat, []

    def _dv_state(self):
        return (self.fn, _tuple(self.its), self.flat, _tuple(self.buf))

    def _dv_abstract(self):
        return any(map(is_abstract, self.its))

    def __iter__(self):
        return self

    def __next__(self):
        cur().alive()
        while True:
            if self.buf:
                return self.buf.pop(0)
            if not self.its:
                raise StopIteration
            try:
                xs = [next(i) for i in self.its]
            except StopIteration:
                self.its = []
                raise
            v = self.fn(*xs)
            if not self.flat:
                return v
            self.buf.extend(v)

    def _dv_items(self):
        if _len(self.its) != 1 or self.buf or not _isinstance(self.its[0], (It, Mapped)):
            return drain('map', self)
        src = materialize(self.its[0])
        self.its = []
        return map_items(src, self.fn, self.flat)


def map_items(items, fn, flat):
    out = []
    for x in items:
        if not _isinstance(x, Many):
            out.extend(fn(x) if flat else [fn(x)])
        elif flat:
            def one(v, fn=fn):
                w = fn(v)
                if _len(w) != 1:
                    cur().end()
                return w[0]
            out.append(x.then(one, False))
        else:
            out.append(x.then(fn))
    return out


class DTuple(DSeq):
    pass


def d_tuple(it=()):
    items = materialize(it)
    if any(_isinstance(x, Many) for x in items):
        return DTuple(items)
    return _tuple(items)


class DSet(DSeq):
    def __init__(self, it=()):
        self.items = []
        for x in (it if _isinstance(it, list) else materialize(it)):
            self._add(x)

    def _add(self, x):
        if _isinstance(x, Many):
            self.items.append(x)
            return
        for y in self.items:
            if y is x:
                return
            if not _isinstance(y, Many) and type(x) in (int, str, bool, type(None)) and y == x:
                return
        self.items.append(x)

    def add(self, x):
        cur().alive()
        if _isinstance(x, Atom):
            hash(x)
        self._add(x)

    def update(self, *its):
        for it in its:
            for x in materialize(it):
                self._add(x)

    def clear(self):
        self.items.clear()

    def copy(self):
        return DSet(_list(self.items))

    def discard(self, x):
        for i, y in enumerate(self.items):
            if y is x:
                del self.items[i]
                return

    def remove(self, x):
        for y in self.items:
            if y is x:
                return self.discard(x)
        raise KeyError(x)

    def __or__(self, o):
        s = self.copy()
        s.update(o)
        return s

    def __ior__(self, o):
        self.update(o)
        return self


class DDict:
    """Insertion-ordered; entries (key, value), or a Many of keys with a function giving their values."""

    def __init__(self, *a, **k):
        self.entries = []       # [key, value] | [Many, valfn]
        if a:
            (src,) = a
            if _isinstance(src, DDict):
                self.entries = [_list(e) for e in src.entries]
            elif _isinstance(src, dict):
                for kk, v in src.items():
                    self[kk] = v
            else:
                for p in materialize(src):
                    self._pair(p)
        for kk, v in k.items():
            self[kk] = v

    def _pair(self, p):
        if _isinstance(p, Many):
            self.entries.append([p.then(lambda kv: kv[0]), p.then(lambda kv: kv[1])])
        else:
            k, v = p
            self[k] = v

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for x in materialize(it):
            if _isinstance(x, Many):
                d.entries.append([x, x.then(lambda k: value)])
            else:
                d[x] = value
        return d

    def _dv_state(self):
        return _tuple(self.entries)

    def _find(self, k):
        for e in self.entries:
            if not _isinstance(e[0], Many) and same_key(e[0], k):
                return e
        for e in self.entries:
            if _isinstance(e[0], Many) and getattr(k, '_dv_origin', None) == e[0].tag and e[0].apply(k) is k:
                return e
        return None

    def __getitem__(self, k):
        cur().alive()
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        return e[1].apply(k) if _isinstance(e[0], Many) else e[1]

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def __contains__(self, k):
        return self._find(k) is not None

    def __setitem__(self, k, v):
        cur().alive()
        e = self._find(k)
        if e is None:
            self.entries.append([k, v])
        elif _isinstance(e[0], Many):
            raise Unsupported('store to another key')
        else:
            e[1] = v

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        if not _isinstance(e[0], Many):
            self.entries.remove(e)

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self[k]

    _no = object()

    def pop(self, k, default=_no):
        cur().alive()
        e = self._find(k)
        if e is None:
            if default is DDict._no:
                raise KeyError(k)
            return default
        v = self[k]
        del self[k]
        return v

    def __getattr__(self, n):
        if not n.startswith('_') and hasattr(_dict, n):
            raise Unsupported(f'dict.{n}')
        raise AttributeError(n)

    def popitem(self, last=True):
        cur().alive()
        if not self:
            raise KeyError('popitem(): dictionary is empty')
        i = -1 if last else 0
        while True:
            k, v = self.entries[i]
            if not _isinstance(k, Many):
                del self.entries[i]
                return k, v
            if k.some or _len(self.entries) == 1 or cur().choose(2, [f'no {k.tag} there', f'{k.tag} there']):
                self.entries[i][0] = k.again(False)
                x = k.make()
                return x, self._value(v, x)
            del self.entries[i]

    def _value(self, v, x):
        return v.apply(x)

    def clear(self):
        self.entries.clear()

    def copy(self):
        return DDict(self)

    def update(self, *a, **k):
        for kk, v in DDict(*a, **k).entries:
            if _isinstance(kk, Many):
                self.entries.append([kk, v])
            else:
                self[kk] = v

    def keys(self):
        return DList([k for k, _ in self.entries])

    def __iter__(self):
        return _iter(self.keys())

    def _dv_items(self):
        return [k for k, _ in self.entries]

    def values(self):
        return DList(map_entries(self.entries, lambda k, v: v))

    def items(self):
        return DList(map_entries(self.entries, lambda k, v: (k, v)))

    def __bool__(self):
        if any(not _isinstance(k, Many) or k.some for k, _ in self.entries):
            return True
        if not self.entries:
            return False
        if cur().choose(2, ['mapping is empty', 'mapping is not empty']):
            e = self.entries[0]
            e[0] = e[0].again(True)
            return True
        self.entries.clear()
        return False

    def __len__(self):
        if any(_isinstance(k, Many) for k, _ in self.entries):
            return 0 if not self else _fail('length of an unbounded mapping')
        return _len(self.entries)

    def dlen(self):
        if any(_isinstance(k, Many) for k, _ in self.entries):
            return SomeLen(self)
        return _len(self.entries)

    def __repr__(self):
        return f'DDict{self.entries}'


class SomeLen:
    """Length of an unbounded collection of which only emptiness matters."""

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return bool(self.c)

    def __repr__(self):
        return '<len>'

    def __format__(self, s):
        return '<len>'

    def __eq__(self, o):
        if o == 0:
            return not self.c
        raise Unsupported('length of an unbounded collection')

    def __gt__(self, o):
        if o == 0:
            return bool(self.c)
        raise Unsupported('length of an unbounded collection')

    __hash__ = None


def _fail(m):
    raise Unsupported(m)


def map_entries(entries, fn):
    out = []
    for k, v in entries:
        if _isinstance(k, Many):
            out.append(Many(k.base, k.tag, k.some, (lambda x, k=k, v=v: fn(k.apply(x), v.apply(x)),)))
        else:
            out.append(fn(k, v))
    return out


def same_key(a, b):
    if a is b:
        return True
    if getattr(a, '_dv_unique', False) or getattr(b, '_dv_unique', False):
        return False
    if _isinstance(a, Atom) and _isinstance(b, Atom) and (a.other or b.other):
        return False
    return a == b


class LoopIt:
    """Iterator of a for loop: a cut point when the number of iterations is unknown."""

    def __init__(self, where, src):
        self.where, self.src = where, _iter(src)
        r = cur()
        r.active.append(self)

    def _dv_state(self):
        return (self.where, self.src)

    def __iter__(self):
        return self

    def __next__(self):
        r = cur()
        r.alive()
        if not _isinstance(self.src, It) or self.src._dv_abstract():
            r.cut(self.where, extra=_tuple(r.active), frame=sys._getframe(1))
        try:
            return next(self.src)
        except BaseException:
            if self in r.active:
                r.active.remove(self)
            raise


class ALoopIt:
    def __init__(self, where, src):
        self.where = where
        self.src = type(src).__aiter__(src)
        self.frame = None
        cur().active.append(self)

    def _dv_state(self):
        return (self.where, self.src)

    def __aiter__(self):
        return self

    def __anext__(self):
        r = cur()
        r.alive()
        r.cut(self.where, extra=_tuple(r.active), frame=sys._getframe(1))
        return self._next()

    async def _next(self):
        try:
            return await type(self.src).__anext__(self.src)
        except BaseException:
            r = cur()
            if self in r.active:
                r.active.remove(self)
            raise


class StarArg:
    def __init__(self, items):
        self.items = items


class DStar:
    def __init__(self, d):
        self.d = d


class DV:
    """The `dv__` object seen by the instrumented code."""

    @staticmethod
    def head(where):
        r = cur()
        r.alive()
        h = getattr(r.world, 'at_head', None)
        if h is not None:
            h()
        r.cut(where, extra=_tuple(r.active), frame=sys._getframe(1))
        return True

    @staticmethod
    def it(where, src):
        cur().alive()
        if _isinstance(src, (list, tuple, dict, str, range, set)):
            return src
        return LoopIt(where, src)

    @staticmethod
    def ait(where, src):
        cur().alive()
        return ALoopIt(where, src)

    @staticmethod
    def mk_list(x):
        return getattr(cur().world, 'list_class', DList)(_list(x))

    @staticmethod
    def mk_set(x):
        return DSet(_list(x))

    @staticmethod
    def mk_dict(*parts):
        d = getattr(cur().world, 'dict_class', DDict)()
        for p in parts:
            if _isinstance(p, (DDict, dict, type(d))):
                d.update(p)
            elif type(p) is list:
                for k, v in p:
                    d[k] = v
            else:
                d.update(DDict(p))
        return d

    @staticmethod
    def mk_gen(x):
        return x

    @staticmethod
    def comp(kind, where, it, fn):
        h = getattr(cur().world, 'comp', None)
        if h is not None:
            v = h(kind, where, it, fn)
            if v is not NotImplemented:
                return v
        if kind == 'gen':
            return Mapped(fn, [it], flat=True)
        if kind == 'dict' and hasattr(cur().world, 'dict_class'):
            return cur().world.dict_class(Mapped(fn, [it], flat=True))
        items = map_items(materialize(it), fn, True)
        if kind == 'list':
            return getattr(cur().world, 'list_class', DList)(items)
        if kind == 'set':
            return DSet(items)
        return getattr(cur().world, 'dict_class', DDict)(DList(items))

    @staticmethod
    def star(x):
        items = materialize(x)
        return StarArg(items)

    @staticmethod
    def dstar(x):
        return DStar(x)

    @staticmethod
    def call(f, *args, **kw):
        out = []
        ab = False
        for a in args:
            if _isinstance(a, StarArg):
                ab = ab or any(_isinstance(x, Many) for x in a.items)
                out.extend(a.items)
            elif _isinstance(a, DStar):
                d = a.d
                if _isinstance(d, DDict):
                    d = {k: v for k, v in d.entries}
                if not _isinstance(d, dict):
                    g = getattr(f, '_dv_kwcall', None)
                    if g is not None:
                        kw['dv__star'] = d
                        continue
                    raise Unsupported('** of a symbolic mapping')
                kw.update(d)
            elif type(a).__name__ == 'SymArgs':
                out.append(a)
            else:
                out.append(a)
        if ab and not getattr(f, '_dv_star', False):
            raise Unsupported(f'call of {f} with an unbounded number of arguments')
        return f(*out, **kw)

    varargs_hook = None

    @staticmethod
    def varargs(a, k):
        h = cur().world and getattr(cur().world, 'varargs', None)
        if h:
            return h(a, k)
        return a, DDict(k)

    @staticmethod
    def varargs1(a):
        return a

    @staticmethod
    def fstr(*parts):
        out = ''
        for p in parts:
            if _isinstance(p, str):
                out = out + p
            else:
                v, conv, spec = p
                if spec and not _isinstance(v, (int, float, str)):
                    v = '<?>'
                if conv == ord('r') or not _isinstance(v, (str, SymStr)):
                    try:
                        v = repr(v) if conv == ord('r') else str(v)
                    except (PathEnd, Unsupported):
                        raise
                out = out + v
        return out


def star(f):
    f._dv_star = True
    return f


# ---------------------------------------------------------------- builtins seen by the instrumented code

def d_len(x):
    f = getattr(type(x), 'dlen', None)
    return f(x) if f else _len(x)


def d_iter(x, *sentinel):
    if sentinel:
        return CallIter(x, sentinel[0])
    return _iter(x)


class CallIter:
    """iter(callable, sentinel)"""

    def __init__(self, fn, sentinel):
        self.fn, self.sentinel, self.over = fn, sentinel, False

    def _dv_state(self):
        return (self.fn, self.sentinel, self.over)

    def _dv_abstract(self):
        return True

    def __iter__(self):
        return self

    def __next__(self):
        if self.over:
            raise StopIteration
        x = self.fn()
        if x is self.sentinel:
            self.over = True
            raise StopIteration
        return x


class Zip:
    def __init__(self, *its):
        self.its = aligned(its) or [_iter(i) for i in its]

    def _dv_state(self):
        return _tuple(self.its)

    def _dv_abstract(self):
        return any(map(is_abstract, self.its))

    def __iter__(self):
        return self

    def __next__(self):
        if _len(self.its) == 1 and _isinstance(self.its[0], Aligned):
            return next(self.its[0])
        return _tuple([next(i) for i in self.its])

    def _dv_items(self):
        if _len(self.its) == 1 and _isinstance(self.its[0], Aligned):
            return self.its[0].rest().items
        return drain('zip', self)


class Aligned(It):
    pass


def aligned(srcs):
    """zip() of unbounded collections that are images of the same one."""
    cols = []
    for s in srcs:
        if _isinstance(s, It) and s.i == 0 and not s.in_run and s.seq is not None:
            s = s.seq
        if _isinstance(s, (list, tuple)):
            s = DList(_list(s))
        if _isinstance(s, Mapped) and not s.buf:
            s = DList(materialize(s))
        if not _isinstance(s, DSeq):
            if hasattr(type(s), '_dv_items'):
                s = DList(materialize(s))
            else:
                return None
        cols.append(s.items)
    if not any(_isinstance(x, Many) for c in cols for x in c):
        return None
    if _len({_len(c) for c in cols}) != 1:
        raise Unsupported('zip of unbounded collections of different shape')
    out = DList()
    for col in builtins.zip(*cols):
        if any(_isinstance(x, Many) for x in col):
            if not all(_isinstance(x, Many) and x.tag == col[0].tag for x in col):
                raise Unsupported('zip of unbounded collections of different shape')
            out.items.append(Many(col[0].base, col[0].tag, any(x.some for x in col),
                                  (lambda x, col=col: _tuple([m.apply(x) for m in col]),)))
        else:
            out.items.append(_tuple(col))
    return [Aligned(out)]


def d_enumerate(it, start=0):
    if is_abstract(it) or is_abstract(_iter(it) if not _isinstance(it, It) else it):
        def one(x):
            r = cur()
            return (SymNum(r.fresh('index')), x)
        return Mapped(one, [it])
    return enumerate(it, start)


def d_map(fn, *its):
    return Mapped(fn, its)


def d_filter(fn, it):
    if fn is None:
        fn = bool
    return Mapped(lambda x: [x] if fn(x) else [], [it], flat=True)


class DEnum:
    pass


def d_sum(*a):
    raise Unsupported('sum')


def d_any(it):
    for x in LoopIt('any', it):
        if x:
            return True
    return False


def d_all(it):
    for x in LoopIt('all', it):
        if not x:
            return False
    return True


def d_sorted(it, **k):
    items = materialize(it)
    if _len(items) > 1 or any(_isinstance(x, Many) for x in items):
        raise Unsupported('sorted')
    return DList(items)


def d_reversed(x):
    if _isinstance(x, DList):
        return _iter(DList(x.items[::-1]))
    return reversed(x)


def base_builtins(imports, **over):
    b = dict(vars(builtins))
    b.update(len=d_len, list=DList, dict=DDict, set=DSet, tuple=type('tuple', (), {'__new__': lambda c, it=(): d_tuple(it)}),
             map=d_map, iter=d_iter, zip=Zip, filter=d_filter, any=d_any, all=d_all, sorted=d_sorted, sum=d_sum,
             reversed=d_reversed, enumerate=d_enumerate, print=lambda *a, **k: None)
    for n in ('eval', 'exec', 'compile', 'open', 'input', 'globals', 'vars', 'breakpoint'):
        def bad(*a, _n=n, **k):
            raise Unsupported(f'{_n}() called')
        b[n] = bad
    b.update(over)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        key = ('.' * level) + name
        if key in imports:
            m = imports[key]
            if m is ImportError:
                raise ImportError(f'No module named {key}')
        elif level:
            raise Unsupported(f'import of {key}')
        elif name.split('.')[0] in ALLOWED:
            m = __import__(name, {}, {}, fromlist, 0)
            return m
        else:
            raise Unsupported(f'import of {name}: no contract')
        if not fromlist and '.' in name:
            return imports.get(name.split('.')[0], m)
        return m
    b['__import__'] = imp
    b['dv__'] = DV
    return b


ALLOWED = {'typing', 'functools', 'sys', '__future__', 'abc', 'types', 'contextlib', 'inspect', 'enum', 'dataclasses',
           'typing_extensions', 'warnings', 'errno'}


class Mod:
    """A model module; anything not under contract is rejected when used."""

    def __init__(self, __modname, **attrs):
        self.__dict__['_name'] = __modname
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('_dv_state', '_dv_items', '_dv_abstract', '_dv_run', '_dv_other', '_dv_origin'):
            raise AttributeError(n)
        return NoContract(f'{self._name}.{n}')

    def _dv_state(self):
        return (self._name,)


LOADING = []


class NoContract:
    """Library name without a contract: harmless until used."""

    def __init__(self, name):
        self.__dict__['name'] = name

    def __call__(self, *a, **k):
        if LOADING:
            return NoContract(f'{self.name}()')
        raise Unsupported(f'{self.name}() has no contract')

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return NoContract(f'{self.name}.{n}')

    def __getitem__(self, i):
        return self

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self

    __ror__ = __or__

    def _dv_state(self):
        return (self.name,)


class NullLogger:
    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('_dv'):
            raise AttributeError(n)
        return lambda *a, **k: None

    def _dv_state(self):
        return ()


def null_logging():
    lg = NullLogger()
    return Mod('logging', getLogger=lambda *a: lg, exception=lg.exception, error=lg.error, debug=lg.debug, warning=lg.warning,
               info=lg.info, Logger=NullLogger, DEBUG=10, INFO=20, WARNING=30, ERROR=40)
