"""C19: parse_to_dict.

Two arbitrary items F before G among any others; an item is an arbitrary string (z3 string theory), a pair, or an entry
of a mapping; keys and values are arbitrary strings or non-strings; the parser is the default one or any callable, and
every call of it returns or raises arbitrarily.  The spec is the sequence of stores into the result.
"""
import sys
import z3
from engine import cur, Unsupported, PathEnd, ENGINE_FILES
from focus import Atom, Many, DList, DDict, It, Mod, materialize, drain
from core import load, TName

ENGINE_FILES.add(__file__)
PROPS = ['C19']
FUNCTIONS = {'C19': ['aiuti.parsing.parse_to_dict']}
ASSUMES = {'C19': ['ast.literal_eval constructs literals only (it is the default parser by identity; its own code is not verified)',
                   'the parser is a function of its argument; keys are hashable; the separator is not empty',
                   'a parser failure is an instance of Exception']}
EXPECT = {'C19': ['C19.model', 'C19.no_eval', 'C19.no_sep', 'C19.only_value_error']}


def term(s):
    return s.z if isinstance(s, SStr) else z3.StringVal(s)


class SStr(str):
    """Arbitrary string."""

    def __new__(cls, z, tag=''):
        o = str.__new__(cls, '<symbolic>')
        o.z, o.tag = z, tag
        return o

    def _dv_state(self):
        return (self.z,)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return cur().branch(self.z == term(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __contains__(self, o):
        return cur().branch(z3.Contains(self.z, term(o)))

    def __bool__(self):
        return cur().branch(z3.Length(self.z) > 0)

    def __len__(self):
        raise Unsupported('len() of a symbolic string')

    def dlen(self):
        from engine import SymNum
        return SymNum(z3.Length(self.z))

    def parts(self, sep):
        i = z3.IndexOf(self.z, term(sep), 0)
        return (SStr(z3.SubString(self.z, 0, i)),
                SStr(z3.SubString(self.z, i + z3.Length(term(sep)), z3.Length(self.z))))

    def rparts(self, sep):
        r = cur()
        a, b = SStr(r.fresh('rhead', 'String')), SStr(r.fresh('rtail', 'String'))
        r.assume(self.z == z3.Concat(a.z, term(sep), b.z))
        r.assume(z3.Not(z3.Contains(b.z, term(sep))))
        return a, b

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split() at whitespace')
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator'):
            return DList([self])
        if maxsplit == 0:
            return DList([self])
        k, v = self.parts(sep)
        if maxsplit == 1:
            return DList([k, v])
        return DList([k] + materialize(v.split(sep, maxsplit - 1 if maxsplit > 0 else -1 if k.tag else -1)) if maxsplit > 0
                     else [k] + v.some_parts(sep))

    def some_parts(self, sep):
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator again'):
            return [self]
        return list(self.parts(sep))

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('rsplit() at whitespace')
        if maxsplit < 0:
            return self.split(sep)
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator'):
            return DList([self])
        if maxsplit != 1:
            raise Unsupported('rsplit')
        return DList(list(self.rparts(sep)))

    def partition(self, sep):
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator'):
            return (self, '', '')
        k, v = self.parts(sep)
        return (k, sep, v)

    def rpartition(self, sep):
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator'):
            return ('', '', self)
        k, v = self.rparts(sep)
        return (k, sep, v)

    def find(self, sep, *a):
        from engine import SymNum
        if a:
            raise Unsupported('find from a position')
        return SymNum(z3.IndexOf(self.z, term(sep), 0))

    def index(self, sep, *a):
        if not cur().branch(z3.Contains(self.z, term(sep)), 'item contains the separator'):
            raise ValueError('substring not found')
        return self.find(sep, *a)

    def __getitem__(self, i):
        from engine import num
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported('index into a symbolic string')
        a = z3.IntVal(0) if i.start is None else num(i.start)
        n = z3.Length(self.z)
        b = n if i.stop is None else num(i.stop)
        r = cur()
        if r.branch(a < 0):
            a = a + n
        if r.branch(a < 0):
            a = z3.IntVal(0)
        if i.stop is None:
            return SStr(z3.SubString(self.z, a, n))
        if r.branch(b < 0):
            b = b + n
        return SStr(z3.simplify(z3.SubString(self.z, a, b - a)))

    def strip(self, *a):
        return self._uf('strip', a)

    def lstrip(self, *a):
        return self._uf('lstrip', a)

    def rstrip(self, *a):
        return self._uf('rstrip', a)

    def lower(self):
        return self._uf('lower', ())

    def _uf(self, name, a):
        return SStr(z3.Function(name, z3.StringSort(), z3.StringSort())(self.z))

    def startswith(self, p, *a):
        return cur().branch(z3.PrefixOf(term(p), self.z))

    def endswith(self, p, *a):
        return cur().branch(z3.SuffixOf(term(p), self.z))

    def __str__(self):
        return self

    def __repr__(self):
        return f'<string {self.tag}>'

    def __format__(self, s):
        return '<string>'

    def __add__(self, o):
        return SStr(z3.Concat(self.z, term(o)))

    def __radd__(self, o):
        return SStr(z3.Concat(term(o), self.z))


for _n in dir(str):
    if not _n.startswith('__') and _n not in SStr.__dict__:
        def _bad(self, *a, _n=_n, **k):
            raise Unsupported(f'str.{_n} of a symbolic string')
        setattr(SStr, _n, _bad)


class Result(dict):
    pass


class LogDict:
    """The dictionary under construction: the sequence of its stores."""

    def __init__(self, *a, **k):
        self.log = DList()
        if k:
            raise Unsupported('dict(**kwargs)')
        if a:
            self.update(*a)

    def update(self, src):
        cur().alive()
        if isinstance(src, (Map, LogDict)):
            src = src.items()
        if isinstance(src, list):
            src = DList(src)
        r = cur()
        it = iter(src)
        act = ('dict', self, it)
        r.active.append(act)
        try:
            while True:
                r.cut('dict', extra=tuple(r.active), frame=sys._getframe(1))
                try:
                    p = next(it)
                except StopIteration:
                    break
                k, v = p
                self[k] = v
        finally:
            if act in r.active:
                r.active.remove(act)

    def __setitem__(self, k, v):
        self.log.items.append((k, v))
        compact(self.log)

    def _dv_state(self):
        return (self.log,)

    def items(self):
        return self.log

    def _no(self, *a, **k):
        raise Unsupported('reading the dictionary under construction')
    def setdefault(self, k, v=None):
        cur().fail('C19.model', 'the first of two equal keys wins')

    __getitem__ = __contains__ = pop = get = keys = values = __len__ = __iter__ = __delitem__ = _no


def compact(log):
    """Stores for other items are not remembered individually."""
    log.items[:] = [p for p in log.items if isinstance(p, tuple) and not any(getattr(x, 'other', False) or other_str(x) for x in p)]


def other_str(x):
    return isinstance(x, SStr) and x.tag == 'other'


class Map:
    def __init__(self, entries):
        self.entries = entries
        self.views = 0

    def items(self):
        return Seq(self.entries)

    def keys(self):
        raise Unsupported('keys of the mapping')

    __iter__ = keys
    __getitem__ = lambda self, k: self.keys()

    def _dv_isinstance(self, name):
        return name in ('Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Dict')

    def _dv_state(self):
        return (self.entries,)


class Seq:
    def __init__(self, entries):
        self.entries = entries

    def __iter__(self):
        return It(self.entries)

    def _dv_isinstance(self, name):
        return name in ('Iterable',)

    def _dv_state(self):
        return (self.entries,)


class World:
    dict_class = LogDict

    def __init__(self):
        self.invalid_other = False

    def _dv_state(self):
        return (self.invalid_other,)


class Parsed(Atom):
    def __init__(self, arg):
        super().__init__(f'literal({arg!r})')
        self.arg = arg

    def _dv_state(self):
        return (self.arg,)


def field(run, tag):
    """A key or value: arbitrary string or arbitrary non-string."""
    if run.choose(2, [f'{tag}: non-string', f'{tag}: string']):
        return SStr(run.fresh(tag, 'String'), tag)
    return Atom(tag)


def b_parse(custom, order=False):
    def body(run):
        w = run.world = World()
        calls = {}
        parser = {}

        def parse(x):
            run.check('C19.model', isinstance(x, str), f'parser called with a non-string {x!r}')
            if not isinstance(x, SStr):
                return Parsed(x)
            key = z3.simplify(x.z).sexpr()
            if key not in calls:
                e = 'returns' if order else run.pick(['returns', ValueError, SyntaxError, TypeError, RecursionError, MemoryError, 'other'], 'parse')
                calls[key] = Parsed(x) if e == 'returns' else e if e != 'other' else type('ParserError', (Exception,), {})
            v = calls[key]
            if isinstance(v, Parsed):
                return v
            raise v('not a literal')

        def evil(*a, **k):
            run.fail('C19.no_eval', 'input is evaluated instead of parsed')
        lit = parse
        ast = Mod('ast', literal_eval=lit)
        m = load('parsing', {'ast': ast}, dict=LogDict, eval=evil, exec=evil)
        fn = m.parse_to_dict
        kw = {}
        if custom:
            kw['parse'] = parse
            ast.__dict__['literal_eval'] = evil
        run.check('C19.no_eval', custom or fn.__kwdefaults__ is not None and fn.__kwdefaults__.get('parse') in (lit, None)
                  or fn.__kwdefaults__ is None, 'the default parser is not ast.literal_eval')
        pk = 'default' if order else run.pick(['default', True, False], 'parse_keys')
        if pk != 'default':
            kw['parse_keys'] = pk
        parse_keys = pk is not False
        if not order and run.choose(2, ['sep defaulted', 'sep given']):
            sep = kw['sep'] = SStr(run.fresh('sep', 'String'), 'sep')
            run.assume(z3.Length(sep.z) > 0)
        else:
            sep = '='
        mapping = run.choose(2, ['items: sequence', 'items: mapping'])
        foci = []

        def item(tag):
            if not mapping and run.choose(2, [f'{tag} is a pair', f'{tag} is a string']):
                s = SStr(run.fresh(tag, 'String'), tag)
                foci.append((tag, s, None))
                return s
            k, v = (Atom(f'key {tag}'), Atom(f'value {tag}')) if order else (field(run, f'key {tag}'), field(run, f'value {tag}'))
            foci.append((tag, None, (k, v)))
            return (k, v)

        class Pair(tuple):
            _dv_run = None

        def other():
            if not mapping and not w.invalid_other and run.choose(2, ['other is a valid pair', 'other is an invalid string']):
                w.invalid_other = True
                s = SStr(z3.StringVal(''), 'other')
                s.__dict__['_dv_invalid'] = True
                return Other(s)
            return Other((Atom('other key', True), Atom('other value', True)))
        items = DList([Many(other, 'others0').then(lambda o: o.item), item('F'), Many(other, 'others1').then(lambda o: o.item)])
        if order:
            items.items += [item('G'), Many(other, 'others2').then(lambda o: o.item)]
        arg = Map(items) if mapping else run.pick([Seq, It], 'shape')(items)
        bad = None
        try:
            res = fn(arg, **kw)
        except (PathEnd, Unsupported):
            raise
        except ValueError as e:
            bad = e
        except BaseException as e:
            run.fail('C19.only_value_error', f'{type(e).__name__}: {e} raised')
        run.check('C19.only_value_error', True)
        if bad is not None:
            if w.invalid_other:
                return
            conds = [z3.Not(z3.Contains(s.z, term(sep))) for _, s, p in foci if s is not None]
            run.check('C19.no_sep', z3.Or(*conds) if conds else False, f'ValueError raised although every item is valid')
            return
        for _, s, p in foci:
            if s is not None:
                run.check('C19.no_sep', z3.Contains(s.z, term(sep)), 'no ValueError although an item lacks the separator')
        if not isinstance(res, LogDict):
            raise Unsupported(f'{type(res).__name__} returned')
        got = [p for p in res.log.items if not isinstance(p, Many) and not any(getattr(x, 'other', False) or other_str(x) for x in p)]
        run.check('C19.model', len(got) == len(foci), f'{len(foci)} items give {len(got)} stores')
        for (tag, s, p), (gk, gv) in zip(foci, got):
            k, v = s.parts(sep) if s is not None else p
            same(run, f'key of {tag}', gk, k, parse_keys, calls)
            same(run, f'value of {tag}', gv, v, True, calls)
    return body


class Other:
    def __init__(self, item):
        self.item = item


def same(run, what, got, want, parsed, calls):
    """got is what the spec demands for `want`."""
    if not isinstance(want, SStr):
        run.check('C19.model', got is want, f'{what} is {got!r} instead of the (non-string) {want!r}')
        return
    if isinstance(got, Parsed):
        run.check('C19.model', bool(parsed), f'{what} was parsed')
        run.check('C19.model', got.arg.z == want.z if isinstance(got.arg, SStr) else term(got.arg) == want.z,
                  f'{what} is the literal of something else')
        return
    if not isinstance(got, str):
        run.fail('C19.model', f'{what} is {got!r}')
    run.check('C19.model', term(got) == want.z, f'{what} is another string')
    if parsed:
        v = calls.get(z3.simplify(want.z).sexpr())
        if v is None:
            # parser never asked for exactly this term: equal to a failing one?
            fails = [k for k, x in calls.items() if not isinstance(x, Parsed)]
            if not fails:
                run.fail('C19.model', f'{what} was not parsed')
            raise Unsupported('cannot relate the parsed string to the item')
        run.check('C19.model', not isinstance(v, Parsed), f'{what} denotes a literal but was kept')


def tasks():
    return [('parse_default', ['C19'], b_parse(False)), ('parse_custom', ['C19'], b_parse(True)),
            ('order', ['C19'], b_parse(False, True))]
