"""Programs and oracle for split/exhaust (C18), parse_to_dict (C19), gather_excs/raise_first_exc (C20)."""
import asyncio as aio
import ast
import builtins
import collections
import itertools
import types
import sched

PROPS = ('C18', 'C19', 'C20')


def programs(prop, rng, tier):
    yield from {'C18': p18, 'C19': p19, 'C20': p20}[prop](rng, tier)


def build(P):
    return {'C18': b18, 'C19': b19, 'C20': b20}[P['c']](P)


def _scn(prop, body_of):
    def scn(S):
        viol = []
        S.spawn(body_of(S, lambda m: viol.append((prop, m))), 'main')
        return lambda S: viol
    scn.problem_props = (prop,)
    scn.schedules = False
    scn.lines = False
    return scn


# ------------------------------------------------------------------------------------------------ C18

TRUTHY = [1, 0, True, False, 'x', '', None, [], [0], 2.5, 0.0, 'obj1', 'obj0', 'len0', 'len2', 'nan', 'notimpl']


class B1:
    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b


class L:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def tv(x):
    return {'obj1': B1(True), 'obj0': B1(False), 'len0': L(0), 'len2': L(2), 'nan': float('nan')}.get(
        x if isinstance(x, str) else None, x)


def p18(rng, tier):
    for n in range(0, 5):
        for conds in itertools.product((0, 1), repeat=n):
            for order in set(itertools.product((0, 1), repeat=min(n + 1, 4))) if n <= 3 else [(0,), (1,), (0, 1)]:
                for form in ('call', 'list'):
                    yield {'c': 'C18', 'n': n, 'conds': list(conds), 'order': list(order), 'src': 'iter', 'form': form}
    for nc in range(0, 5):
        for n in range(0, 5):
            for form in ('list', 'iter'):
                yield {'c': 'C18', 'n': n, 'conds': [1, 0, 0, 1, 1][:nc], 'order': [0, 1], 'src': 'list', 'form': form}
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8, 20])
        nc = max(0, n + rng.choice([0, 0, 0, -1, -2, 1, 3]))
        form = rng.choice(['call', 'call', 'list', 'iter', 'cycle', 'method'])
        yield {'c': 'C18', 'n': n, 'conds': [rng.choice(TRUTHY) for _ in range(nc if form not in ('call', 'method') else n)],
               'order': [rng.choice([0, 1]) for _ in range(rng.choice([1, 2, 5, 12]))],
               'src': rng.choice(['iter', 'iter', 'list', 'tuple', 'gen', 'infinite', 'iterable', 'same']), 'form': form,
               'fail': rng.choice([None, None, None, rng.randrange(n + 1)]), 'ex': rng.random() < .3}


def b18(P):
    def body_of(S, v):
        def body():
            mod = sched.load('itertools')
            n, conds = P['n'], [tv(x) for x in P['conds']]
            els = [f'e{i}' if P['src'] != 'same' else 'e' for i in range(n)]
            if P['src'] == 'same':
                els = [['e'] for _ in range(n)]
            pulls, evals = [], []
            inf = P['src'] == 'infinite' and P['form'] in ('call', 'method', 'list', 'iter')

            class It:
                def __init__(self):
                    self.i = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    if self.i >= n:
                        if inf:
                            self.i += 1
                            if self.i > n + 40:
                                v('an unbounded source was consumed without being asked for elements')
                                raise StopIteration
                            pulls.append(self.i - 1)
                            return None
                        raise StopIteration
                    pulls.append(self.i)
                    self.i += 1
                    return els[self.i - 1]
            src = {'iter': It, 'infinite': It, 'same': It, 'list': lambda: list(els), 'tuple': lambda: tuple(els),
                   'gen': lambda: (x for x in It()), 'iterable': lambda: Iterable_()}[P['src']]

            class Iterable_:
                def __iter__(self):
                    return It()
            source = src()
            idmap = {id(x): i for i, x in enumerate(els)}

            def pred(x):
                if x is None:
                    return False
                i = idmap[id(x)]
                evals.append(i)
                return conds[i]

            class Meth:
                def m(self, x):
                    return pred(x)
            cpulls = []
            if P['form'] == 'call':
                cond = pred
            elif P['form'] == 'method':
                cond = Meth().m
            elif P['form'] == 'list':
                cond = list(conds)
            elif P['form'] == 'cycle':
                if not conds:
                    conds = [1]
                cond = itertools.cycle(list(conds))
                conds = list(itertools.islice(itertools.cycle(conds), n))
            else:
                def ci():
                    for i, c in enumerate(conds):
                        cpulls.append(i)
                        yield c
                cond = ci()
            m = min(n, len(conds))
            want = [[els[i] for i in range(m) if bool(conds[i]) == b] for b in (True, False)]
            its = mod.split(source, cond)
            if len(tuple(its)) != 2:
                v(f'split returned {its!r}')
                return
            if (pulls and P['src'] in ('iter', 'gen', 'infinite', 'iterable')) or evals or cpulls:
                v(f'split() consumed {len(pulls)} elements / evaluated {len(evals)} conditions before being asked')
            got = [[], []]
            done = [False, False]
            if inf:
                # only ask for what is known to exist
                order = [k for k in P['order']]
                for k in order:
                    if len(got[k]) < len(want[k]):
                        got[k].append(next(its[k]))
                for k in (0, 1):
                    if any(a is not b for a, b in zip(got[k], want[k])):
                        v(f'iterator {k} yielded {got[k]}, expected {want[k]}')
                return
            order = list(P['order'])
            while not all(done):
                k = order.pop(0) if order else (0 if not done[0] else 1)
                if done[k]:
                    continue
                try:
                    got[k].append(next(its[k]))
                except StopIteration:
                    done[k] = True
                    try:
                        next(its[k])
                    except StopIteration:
                        pass
                    else:
                        v('an iterator continued after its end')
                need = max([els.index(x) if P['src'] != 'same' else idmap[id(x)] for g in got for x in g] or [-1])
                if len(pulls) > n or len(set(pulls)) != len(pulls):
                    v(f'source elements pulled more than once: {pulls}')
            S.event('split', got)
            for k in (0, 1):
                if len(got[k]) != len(want[k]) or any(a is not b for a, b in zip(got[k], want[k])):
                    v(f'iterator {k} yielded {got[k]}, expected {want[k]}')
            if P['form'] in ('call', 'method') and sorted(evals) != list(range(n)):
                v(f'condition evaluated for elements {evals}, expected each of {n} once')
            if P.get('ex'):
                seen = []
                r = mod.exhaust(map(seen.append, range(n)))
                if r is not None or seen != list(range(n)):
                    v(f'exhaust returned {r!r} after consuming {seen}')
                r = mod.exhaust(list(range(n)))
                if r is not None:
                    v(f'exhaust returned {r!r}')
        return body
    return _scn('C18', body_of)


# ------------------------------------------------------------------------------------------------ C19

TRIP = []


class Trip:
    def __init__(self, path):
        self.path = path

    def __call__(self, *a, **k):
        TRIP.append((self.path, 'call'))
        return 'tripped'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        TRIP.append((self.path, n))
        return self

    def __repr__(self):
        TRIP.append((self.path, 'repr'))
        return 'tripwire'


ATOMS = ['a', '1', '2', '"b"', "'c=d'", '', ' ', ' 1', '1 ', '[1, 2]', '{"x": 1}', '{1, 2}', '(1,)', 'None', 'True', '1.5', '-3',
         '1+2j', 'x y', '==', '=', 'a=b', 'TRIPWIRE()', 'TRIPWIRE', 'TRIPWIRE.x', '[TRIPWIRE()]', "{'a': TRIPWIRE()}",
         '__import__("os")', "().__class__", '1+1', '"a" "b"', "b'x'", 'f"{TRIPWIRE()}"', '\n1', '\t', '0x10', '1_0', '...', 'é',
         '\x00', '(' * 300, 'lambda: 1', '[x for x in (1,)]', "'unterminated", '{}', '[]', 'set()', '()', '-1', '--1', '1:2', ':',
         '::', 'a::b', '-', '"', "'", '\\', 'nan', 'inf', '1e400', 'print', '1;2', 'a[0]', '{**{}}', "{'k': 'v'}"]
SEPS = ['=', '=', '=', ':', '::', '=>', ' ', 'a', '==', '\n', "'", '1']


def p19(rng, tier):
    for k in ATOMS:
        for val in ATOMS:
            yield {'c': 'C19', 'pairs': [[k, val]], 'sep': '=', 'pk': len(k) % 2 == 0, 'form': 'str'}
    while True:
        pairs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            k = rng.choice(ATOMS) if rng.random() < .8 else ''.join(rng.choice('a1=: "\'[],') for _ in range(rng.choice([1, 3, 6])))
            val = rng.choice(ATOMS) if rng.random() < .8 else ''.join(rng.choice('a1=: "\'[],') for _ in range(rng.choice([1, 3, 6])))
            if rng.random() < .2:
                val = rng.choice([None, 3, 1.5, True, [1], {'o': 1}, {'b': 'bytes'}])
            if rng.random() < .1:
                k = rng.choice([None, 3, True])
            pairs.append([k, val])
        yield {'c': 'C19', 'pairs': pairs, 'sep': rng.choice(SEPS), 'pk': rng.random() < .6,
               'form': rng.choice(['str', 'str', 'dict', 'pairs', 'lists', 'mixed', 'mapping', 'iter', 'items', 'nosep', 'view']),
               'parse': rng.choice([None, None, None, 'upper', 'raise', 'raisebase', 'none', 'int'])}


class Map(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def same19(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same19(x, y) for x, y in zip(a, b)) and all(same19(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same19, a, b))
    return a is b or a == b or (a != a and b != b)


def b19(P):
    def body_of(S, v):
        def body():
            mod = sched.load('parsing')
            sep, pk = P['sep'], P['pk']
            pairs = [(k, val) for k, val in P['pairs']]
            calls = []

            def custom(x):
                calls.append(x)
                m = P['parse']
                if type(x) is not str:
                    v(f'the parser was called with {x!r}')
                if m == 'upper':
                    return x.upper()
                if m == 'none':
                    return None
                if m == 'raise':
                    raise KeyError('no')
                if m == 'raisebase':
                    raise ZeroDivisionError
                return int(x)
            parse = custom if P.get('parse') else None

            def lit(x):
                if not isinstance(x, str):
                    return x
                try:
                    return custom(x) if parse else ast.literal_eval(x)
                except Exception:
                    return x

            def model(items):
                out = {}
                for it in items:
                    if isinstance(it, str):
                        i = it.find(sep)
                        if i < 0:
                            raise ValueError
                        k, val = it[:i], it[i + len(sep):]
                    else:
                        k, val = it
                    out[lit(k) if pk else k] = lit(val)
                return out
            form = P['form']
            strs = [f'{k}{sep}{val}' for k, val in pairs if isinstance(k, str) and isinstance(val, str)]
            if form == 'str':
                arg, ref = list(strs), list(strs)
            elif form == 'iter':
                arg, ref = iter(strs), list(strs)
            elif form == 'dict':
                arg = dict(pairs)
                ref = list(arg.items())
            elif form == 'mapping':
                arg = Map(dict(pairs))
                ref = list(dict(pairs).items())
            elif form == 'view':
                arg = types.MappingProxyType(dict(pairs))
                ref = list(dict(pairs).items())
            elif form == 'items':
                arg = dict(pairs).items()
                ref = list(dict(pairs).items())
            elif form == 'lists':
                arg, ref = [list(p) for p in pairs], pairs
            elif form == 'nosep':
                arg = [s.replace(sep, '') for s in strs]
                ref = list(arg)
            elif form == 'mixed':
                arg = [s if i % 2 else p for i, (s, p) in enumerate(zip(strs, pairs))]
                ref = list(arg)
            else:
                arg, ref = tuple(pairs), pairs
            del TRIP[:]
            builtins.TRIPWIRE = Trip('TRIPWIRE')
            kw = {'sep': sep, 'parse_keys': pk}
            if parse:
                kw['parse'] = parse
            elif sep == '=' and len(strs) % 2:
                del kw['sep']
            if pk and len(pairs) % 2:
                del kw['parse_keys']
            try:
                try:
                    got, gx = mod.parse_to_dict(arg, **kw), None
                except sched.Abort:
                    raise
                except Exception as e:
                    got, gx = None, e
            finally:
                del builtins.TRIPWIRE
            trips = list(TRIP)
            try:
                want, wx = model(ref), None
            except Exception as e:
                want, wx = None, e
            S.event('parse', repr(arg)[:200], repr(got)[:200], repr(gx)[:80])
            if trips and parse is None:
                v(f'parsing {ref!r} evaluated {trips}')
            if wx is not None:
                if not isinstance(gx, type(wx)):
                    v(f'parse_to_dict({ref!r}, {kw}) gave {got!r}/{gx!r}, expected {wx!r}')
            elif gx is not None or type(got) is not dict or not same19(got, want):
                v(f'parse_to_dict({ref!r}, {kw}) gave {got!r}/{gx!r}, expected {want!r}')
            else:
                # non-string values pass through untouched
                if form in ('dict', 'pairs'):
                    for k, val in ref:
                        if not isinstance(val, str) and sum(1 for kk, _ in ref if lit(kk) == lit(k)) == 1:
                            kk = lit(k) if pk else k
                            if got[kk] is not val:
                                v(f'value {val!r} was replaced by {got[kk]!r}')
        return body
    return _scn('C19', body_of)


# ------------------------------------------------------------------------------------------------ C20

class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class EB(BaseException):
    pass


EXC = {'E1': E1, 'E2': E2, 'E3': E3, 'EB': EB, 'C': aio.CancelledError, 'V': ValueError, 'T': aio.TimeoutError,
       'BE': BaseException, 'X': Exception, 'SAI': StopAsyncIteration}
OUT = ['ok', 'ok', 'E1', 'E2', 'E3', 'EB', 'C', 'V', 'none', 'retE1', 'retE2', 'T', 'ownC', 'extC']


def p20(rng, tier):
    for k in OUT:
        for only in (None, 'E1', 'BE', 'X', 'C', 'EB'):
            yield {'c': 'C20', 'aws': [{'d': .2, 'o': 'ok'}, {'d': .3, 'o': k}, {'d': .1, 'o': 'E2'}, {'d': .5, 'o': k}], 'only': only}
    yield {'c': 'C20', 'aws': [], 'only': None}
    for kind in ('coro', 'task', 'future', 'object', 'dup'):
        yield {'c': 'C20', 'aws': [{'d': .3, 'o': 'E1', 'k': kind}, {'d': .2, 'o': 'ok'}, {'d': 1, 'o': 'E2', 'k': kind}], 'only': None}
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8])
        yield {'c': 'C20', 'aws': [{'d': rng.choice([0, 0, .1, .2, .5, 1]), 'o': rng.choice(OUT),
                                    'k': rng.choice(['coro', 'coro', 'task', 'future', 'object', 'dup'])} for _ in range(n)],
               'only': rng.choice([None, None, 'E1', 'E2', 'E3', 'BE', 'X', 'C', 'EB', 'T', 'V', 'tuple']), 'src': rng.choice(['list', 'gen', 'tuple'])}


def b20(P):
    def body_of(S, v):
        async def once(mod, raising):
            loop = aio.get_running_loop()
            loop.set_exception_handler(lambda l, c: None)
            aws, want, ended, started = [], [], {}, set()
            only = {'tuple': (E1, ValueError), None: BaseException}.get(P['only']) or EXC.get(P['only'])

            def mk(i, a):
                o = a['o']
                exc = EXC[o](f'aw {i}') if o in EXC else (aio.CancelledError() if o in ('ownC', 'extC') else None)

                async def coro():
                    started.add(i)
                    try:
                        await aio.sleep(a['d'])
                        if o in EXC or o == 'ownC':
                            raise exc
                        return {'ok': i, 'none': None, 'retE1': E1('returned'), 'retE2': E2('returned'), 'extC': i}[o]
                    finally:
                        ended[i] = S.now
                        S.event('end', i)
                k = a.get('k', 'coro')
                if o == 'extC' and k != 'future':
                    k = 'task'
                if k == 'coro' or k == 'dup':
                    aw = coro()
                elif k == 'task':
                    aw = loop.create_task(coro())
                    if o == 'extC':
                        loop.call_later(a['d'] * .5, aw.cancel)
                elif k == 'object':
                    class O:
                        def __await__(self):
                            return coro().__await__()
                    aw = O()
                else:
                    aw = loop.create_future()
                    started.add(i)

                    def fire():
                        ended[i] = S.now
                        S.event('end', i)
                        if o in ('C', 'ownC', 'extC'):
                            aw.cancel()
                        elif exc is not None:
                            aw.set_exception(exc)
                        else:
                            aw.set_result({'ok': i, 'none': None, 'retE1': E1('returned'), 'retE2': E2('returned')}[o])
                    loop.call_later(a['d'], fire)
                fails = exc
                return aw, fails
            for i, a in enumerate(P['aws']):
                aw, fails = mk(i, a)
                rep = 2 if a.get('k') == 'dup' and False else 1
                aws.append(aw)
                if fails is not None and isinstance(fails, only):
                    want.append((i, fails))
            n = len(aws)
            dups = [i for i, a in enumerate(P['aws']) if a.get('k') == 'dup']
            order = list(range(n))
            for i in dups:          # the same awaitable given again at the end
                aws.append(aws[i])
                order.append(i)
                w = [x for x in want if x[0] == i]
                want += w[:1]
            src = {'gen': lambda: (x for x in aws), 'tuple': lambda: tuple(aws)}.get(P.get('src'), lambda: list(aws))()
            cancelled = {i for i, a in enumerate(P['aws']) if a['o'] in ('extC', 'ownC', 'C')}
            got = []
            first = True
            args = (src,) if P['only'] is None else (src, only)

            def done_check():
                missing = [i for i in range(n) if i not in ended and not (P['aws'][i]['o'] == 'extC')]
                if missing:
                    v(f'an exception was reported before awaitables {missing} had finished')
            if raising:
                try:
                    r = await mod.raise_first_exc(*args)
                    got = []
                    if r is not None:
                        v(f'raise_first_exc returned {r!r}')
                except sched.Abort:
                    raise
                except BaseException as e:
                    got = [e]
                want = want[:1]
                done_check()
            else:
                async for e in mod.gather_excs(*args):
                    if first:
                        done_check()
                        first = False
                    got.append(e)
                done_check()
            S.event('got', [repr(e) for e in got])

            def eq(e, w):
                i, exc = w
                return e is exc or (isinstance(exc, aio.CancelledError) and isinstance(e, aio.CancelledError)
                                    and P['aws'][i]['o'] in ('C', 'ownC', 'extC'))
            if len(got) != len(want) or not all(map(eq, got, want)):
                v(f'{"raise_first_exc" if raising else "gather_excs"}: got {got!r}, expected {[w[1] for w in want]!r}')

        def body():
            mod = sched.load('asyncio')
            for raising in (False, True):
                loop = aio.new_event_loop()
                loop.run_until_complete(once(mod, raising))
        return body
    return _scn('C20', body_of)
