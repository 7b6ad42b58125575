"""Programs and oracle for threadsafe_async_cache (C01, C05, C06, C14)."""
import asyncio as aio
import collections.abc
import sched

PROPS = ('C01', 'C05', 'C06', 'C14')
EPS = 0.02


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


class Bounded(collections.abc.MutableMapping):
    """Retains everything unless told otherwise; records every use."""

    def __init__(self, limit=None):
        self.d, self.limit, self.evicted = {}, limit, []

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d.pop(k, None)
        self.d[k] = v
        if self.limit is not None and len(self.d) > self.limit:
            old = next(iter(self.d))
            self.evicted.append(old)
            del self.d[old]

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


def _caller(rng, small):
    c = {'delay': rng.choice([0, 0, 0, 1, 2, 3]), 'key': rng.choice([0, 0, 0, 1]) if not small else 0}
    r = rng.random()
    if r < .2:
        c['cancel'] = c['delay'] + rng.choice([0, .5, 1, 2, 2.5])
    elif r < .35:
        c['timeout'] = rng.choice([0.5, 1, 2, 2.5])
    return c


def programs(prop, rng, tier):
    if prop == 'C14':
        yield from programs14(rng, tier)
        return
    base = [
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}]}] * 2, 'plan': [{'dur': 0}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}]}] * 2, 'plan': [{'dur': 2}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': 1, 'key': 0}]}] * 2,
         'plan': [{'dur': 2, 'out': 'raise'}, {'dur': 1}]},
        {'threads': [{'life': 'cancel', 'stop': 1, 'gap': 1, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 1.5, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 2.5, 'key': 0}]}], 'plan': [{'dur': 9}, {'dur': 3}]},
        {'threads': [{'life': 'close', 'stop': 1, 'gap': 1, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0}]}], 'plan': [{'dur': 9}, {'dur': 3}]},
        {'threads': [{'life': 'close', 'stop': 1, 'gap': 1, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 1.5, 'key': 0}, {'delay': 2.5, 'key': 0}]}],
         'plan': [{'dur': 9}, {'dur': 3}]},
        {'threads': [{'life': 'cancel', 'stop': 1, 'gap': 0, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0}]}], 'plan': [{'dur': 9}, {'dur': 1}]},
        {'threads': [{'life': 'cancel', 'stop': 2, 'gap': 0, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0}]}], 'plan': [{'dur': 2}, {'dur': 1}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0, 'cancel': 1}, {'delay': .5, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0, 'timeout': 1}]}],
         'plan': [{'dur': 2}, {'dur': 2}, {'dur': 2}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': .5, 'key': 0, 'cancel': 1},
                                                 {'delay': .5, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0, 'cancel': 1}, {'delay': .5, 'key': 0}]}],
         'plan': [{'dur': 2}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': .5, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0}]}],
         'plan': [{'dur': 1, 'out': 'cancelself'}, {'dur': 1, 'out': 'base'}, {'dur': 1}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': .5, 'key': 0}, {'delay': 3, 'key': 0}]}],
         'plan': [{'dur': 1, 'out': 'keyerror'}, {'dur': 1, 'out': 'keyerror'}, {'dur': 1}], 'cache': 'map'},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': .5, 'key': 0}]}],
         'plan': [{'dur': 1, 'val': 'none'}, {'dur': 1}], 'cache': 'map'},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}, {'delay': .5, 'key': 0}, {'delay': 2, 'key': 0}]}],
         'plan': [{'dur': 1, 'val': 'exc'}, {'dur': 1}]},
        # a waiter on one loop outlives a very long computation of another one
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 1, 'key': 0}, {'delay': 70, 'key': 0}]}],
         'plan': [{'dur': 150}]},
        {'threads': [{'life': 'cancel', 'stop': 30, 'gap': 100, 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 1, 'key': 0}, {'delay': 20, 'key': 0}]}],
         'plan': [{'dur': 150}, {'dur': 1}]},
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0, 'cancel': 1}, {'delay': 0, 'key': 0}]}],
         'plan': [{'dur': 2, 'out': 'swallow'}, {'dur': 1}]},
        # shutdown of a loop whose tasks only wait for another loop
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'cancel', 'stop': 2, 'gap': 0, 'callers': [{'delay': 1, 'key': 0}]},
                     {'life': 'close', 'stop': 2, 'gap': 0, 'callers': [{'delay': 1, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': 1, 'key': 0}]}], 'plan': [{'dur': 3}]},
        # the computing loop finishes its task and stops at once, waiters elsewhere
        {'threads': [{'life': 'run', 'callers': [{'delay': 0, 'key': 0}]},
                     {'life': 'run', 'callers': [{'delay': .5, 'key': 0}, {'delay': 1, 'key': 0}]}],
         'plan': [{'dur': 1, 'out': 'raise'}, {'dur': 1, 'out': 'raise'}, {'dur': 1}]},
    ]
    yield from base
    while True:
        small = rng.random() < .7
        nt = rng.choice([1, 2, 2, 2, 3, 3] + ([4] if tier != 'quick' else []))
        ths = []
        for _ in range(nt):
            life = rng.choice(['run', 'run', 'cancel', 'close'])
            t = {'life': life, 'callers': [_caller(rng, small) for _ in range(rng.choice([1, 1, 2, 3]))]}
            if life != 'run':
                t['stop'], t['gap'] = rng.choice([.5, 1, 2, 2.5]), rng.choice([0, .5, 1, 3])
            ths.append(t)
        plan = []
        for _ in range(8):
            d = {'dur': rng.choice([0, 1, 2, 2, 3])}
            if rng.random() < .35:
                d['out'] = rng.choice(['raise', 'raise', 'base', 'cancelself', 'keyerror', 'timeout', 'swallow'])
            if rng.random() < .1:
                d['val'] = rng.choice(['none', 'exc'])
            plan.append(d)
        yield {'threads': ths, 'plan': plan, 'cache': rng.choice([None, None, 'map'])}


class Inv:
    def __init__(self, key, n, loop, caller, t):
        self.key, self.n, self.loop, self.caller, self.start = key, n, loop, caller, t
        self.end = self.ok = self.exc = self.val = None
        self.died = False


def build(P):
    if 'calls' in P:
        return build14(P)

    def scn(S):
        mod = sched.load('asyncio')
        invs, viol, callers = [], [], []
        stopped = {}

        def v(p, m):
            viol.append((p, m))
        cache = Bounded() if P.get('cache') else None

        async def f(key):
            me = aio.current_task().get_name()
            loop = aio.get_running_loop()
            now = S.now
            for o in invs:
                if o.key == key and o.end is None:
                    v('C01', f'invocation {len(invs)} of key {key} started by {me} while invocation {o.n} '
                             f'by {o.caller} is in progress')
                if o.key == key and o.ok:
                    v('C01', f'key {key} computed again by {me} after invocation {o.n} had returned')
            inv = Inv(key, len(invs), loop, me, now)
            invs.append(inv)
            S.event('start', key, me)
            plan = P['plan'][inv.n % len(P['plan'])] if inv.n < 40 else {'dur': 0}
            out = plan.get('out')
            try:
                if plan['dur']:
                    try:
                        await aio.sleep(plan['dur'])
                    except aio.CancelledError:
                        if out != 'swallow' or inv.end is not None:
                            raise
                if out in (None, 'swallow'):
                    val = {None: ('val', key, inv.n), 'none': None, 'exc': Own('returned')}[plan.get('val')]
                    inv.val = val
                    if inv.end is None:
                        inv.ok = True
                    return val
                raise {'raise': Own, 'base': OwnBase, 'cancelself': aio.CancelledError, 'keyerror': KeyError,
                       'timeout': aio.TimeoutError}[out](f'from invocation {inv.n}')
            except BaseException as e:
                inv.exc = e
                raise
            finally:
                if inv.end is None:
                    inv.end = S.now
                S.event('end', key, me, 'ok' if inv.ok else repr(inv.exc))

        wrapped = mod.threadsafe_async_cache(f, cache=cache) if cache is not None else mod.threadsafe_async_cache(f)

        def end_loop(loop):
            for o in invs:
                if o.loop is loop and o.end is None:
                    o.end, o.died = S.now, True
                    S.event('died', o.key, o.caller)

        def judge(rec):
            if rec.get('abandoned'):
                return
            key, kind, x = rec['key'], rec['kind'], rec['x']
            mine = [o for o in invs if o.caller == rec['name']]
            if kind == 'ret':
                src = [o for o in invs if o.key == key and o.ok and o.val is x]
                if not src:
                    v('C06', f"{rec['name']} (key {key}) returned {x!r} which no successful invocation of its key returned")
                    v('C14', f"{rec['name']} (key {key}) returned {x!r}")
                elif any(o.ok and o.n < src[0].n for o in invs if o.key == key):
                    v('C01', f"{rec['name']} got the result of a second computation")
            elif isinstance(x, aio.CancelledError) and rec['cancelled']:
                pass
            elif not any(o.exc is x for o in mine):
                v('C06', f"{rec['name']} (key {key}) raised {x!r} which none of its own invocations raised"
                         + ('' if rec['cancelled'] else ' and its task was not cancelled'))
            if not rec['cancelled']:
                rel = [o for o in invs if o.key == key]
                ends = [o.end for o in rel if o.end is not None and o.end <= S.now + EPS]
                late = S.now - max([rec['start']] + ends)
                died = [o for o in rel if o.died and o.end <= S.now + EPS and o.end >= rec['start'] - 61]
                if late > (60 + EPS if died else EPS):
                    v('C05', f"{rec['name']} (key {key}) completed {late:g}s after the last computation of its key had "
                             f"ended (computing loop died: {bool(died)})")
                # promptness of (re)computation: time the caller spent with no computation in progress at all
                if not died:
                    ivs = sorted((o.start, o.end if o.end is not None else S.now) for o in rel)
                    t = rec['start']
                    for a, b in ivs:
                        if a - t > EPS and a < S.now:
                            v('C05', f"{rec['name']} (key {key}) waited from {t - sched.BASE_TIME:g} to "
                                     f"{a - sched.BASE_TIME:g} with nothing being computed")
                        t = max(t, b)

        async def call(rec, c):
            await aio.sleep(c['delay'])
            rec['start'] = S.now
            S.event('call', rec['name'], c['key'])
            try:
                x = await wrapped(c['key'])
            except Exception as e:
                rec['kind'], rec['x'] = 'exc', e
            except aio.CancelledError as e:
                rec['kind'], rec['x'] = 'exc', e
            except GeneratorExit:
                raise
            except BaseException as e:
                rec['kind'], rec['x'] = 'exc', e
            else:
                rec['kind'], rec['x'] = 'ret', x
            S.event('done', rec['name'], rec['kind'], repr(rec['x']))
            judge(rec)

        def thread(ti, T):
            def start_callers(loop):
                tasks = []
                for ci, c in enumerate(T['callers']):
                    rec = {'name': f'T{ti}C{ci}', 'key': c['key'], 'cancelled': False, 'kind': None, 'x': None,
                           'start': None, 'life': T['life']}
                    callers.append(rec)
                    t = loop.create_task(call(rec, c), name=rec['name'])
                    tasks.append((t, rec))
                    at = c.get('cancel')
                    if 'timeout' in c:
                        at = c['delay'] + c['timeout']
                    if at is not None:
                        def do(t=t, rec=rec):
                            if not t.done():
                                rec['cancelled'] = True
                                t.cancel()
                        loop.call_later(at, do)
                return tasks

            async def main():
                tasks = start_callers(aio.get_running_loop())
                await aio.wait([t for t, _ in tasks])

            def body():
                loop = aio.new_event_loop()
                if T['life'] == 'run':
                    loop.run_until_complete(main())
                    end_loop(loop)
                    loop.close()
                    return
                tasks = start_callers(loop)
                loop.run_until_complete(aio.sleep(T['stop']))
                end_loop(loop)
                sched.vsleep(T['gap'])
                if T['life'] == 'cancel':
                    for t, rec in tasks:
                        if not t.done():
                            rec['cancelled'] = True
                            t.cancel()
                    loop.run_until_complete(aio.gather(*(t for t, _ in tasks), return_exceptions=True))
                    loop.close()
                else:
                    loop.close()
                    S.event('closed', ti)
                    sched.vsleep(T['gap'])
                    for t, rec in tasks:
                        rec['cancelled'] = rec['abandoned'] = True
                        t._log_destroy_pending = False
                        try:
                            t.get_coro().close()
                        except RuntimeError as e:
                            if 'ignored GeneratorExit' in str(e):
                                v('C05', f"abandoned call {rec['name']} can't be closed: {e}")
            return body

        for ti, T in enumerate(P['threads']):
            S.spawn(thread(ti, T), f'T{ti}')

        def check(S):
            if not S.problem:
                for rec in callers:
                    if rec['kind'] is None and rec['life'] == 'run' and not rec['cancelled']:
                        v('C05', f"{rec['name']} never finished")
            return viol
        return check
    scn.problem_props = ('C05', 'C06')
    scn.max_time = 900
    return scn


# ------------------------------------------------------------------------------------------------ C14

class Eq:
    """Equal-but-distinct objects."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Eq) and o.x == self.x

    def __hash__(self):
        return hash(('Eq', self.x))

    def __repr__(self):
        return f'Eq({self.x})'


VALS = ['1', '2', "'1'", "'a'", 'None', '()', "('a', 1)", "(('a', 1),)", 'Eq(1)', 'Eq(2)', 'True', '1.0', "''", '-1', '-2',
        "frozenset({('a', 1)})", "frozenset()", "'b'", "(1, 2)"]


def programs14(rng, tier):
    sigs = [['1', '2'], ['1', '2', "'a'", "'b'"]]
    fixed = [
        [["('a', 1)"], []], [[], [['a', '1']]],
        [["(('a', 1),)"], []], [['1'], [['a', '1']]], [['1', "('a', 1)"], []], [[], [['a', '1'], ['b', '2']]],
        [[], [['b', '2'], ['a', '1']]], [[], [['a', '2'], ['b', '1']]], [['1', '2'], []], [['2', '1'], []],
        [["'a'", '1'], []], [["frozenset({('a', 1)})"], []], [['(1, 2)'], []], [['-1'], []], [['-2'], []],
        [[], []], [['()'], []], [["'1'"], []], [['1'], []], [['None'], []], [[], [['a', 'None']]], [['1', "'a'", '1'], []],
    ]
    n = 0
    for caching in (None, 'map'):
        yield {'calls': [{'sig': s} for s in fixed + fixed], 'cache': caching}
    for i, a in enumerate(fixed):
        for b in fixed[i + 1:]:
            yield {'calls': [{'sig': a, 'par': True}, {'sig': b, 'par': True}, {'sig': a}], 'cache': None}
    while True:
        def sig():
            names = rng.sample(['a', 'b', 'c'], rng.choice([0, 0, 1, 2, 3]))
            return [[rng.choice(VALS) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                    [[nm, rng.choice(VALS[:9])] for nm in names]]
        pool = [sig() for _ in range(rng.choice([2, 3, 5]))]
        for s in list(pool):
            if len(s[1]) > 1:
                pool.append([s[0], list(reversed(s[1]))])
            if s[0] and rng.random() < .5:
                pool.append([s[0][:-1], s[1] + ([] if any(k == 'a' for k, _ in s[1]) else [['a', s[0][-1]]])])
        calls = []
        for _ in range(rng.choice([4, 8, 14])):
            c = {'sig': rng.choice(pool)}
            if rng.random() < .25:
                c['par'] = True
            if rng.random() < .15:
                c['evict'] = rng.random()
            calls.append(c)
        cache = rng.choice([None, 'map', 'map', 1, 2, 3])
        if isinstance(cache, int):
            for c in calls:
                c.pop('par', None)
        yield {'calls': calls, 'cache': cache}


def build14(P):
    def scn(S):
        mod = sched.load('asyncio')
        viol = []
        env = {'Eq': Eq}
        kind = P['cache']
        cache = None if kind is None else Bounded(None if kind == 'map' else kind)
        runs = []

        def canon(sig):
            a = tuple(eval(x, env) for x in sig[0])
            k = {n: eval(x, env) for n, x in sig[1]}
            return a, k

        async def f(*a, **k):
            runs.append((a, k))
            await aio.sleep(1)
            return ('result', a, k)
        wrapped = (mod.threadsafe_async_cache(f) if cache is None else mod.threadsafe_async_cache(f, cache=cache))

        def same(x, y):
            return x[0] == y[0] and x[1] == y[1]

        async def main():
            model = []          # (sig, result) retained, oldest first

            def lookup(s):
                return next((m for m in model if same(m[0], s)), None)
            i = 0
            while i < len(P['calls']):
                group = [P['calls'][i]]
                i += 1
                while group[-1].get('par') and i < len(P['calls']) and P['calls'][i].get('par'):
                    group.append(P['calls'][i])
                    i += 1
                ev = group[0].get('evict')
                if ev is not None and cache is not None and len(cache):
                    ks = list(cache)
                    ek = ks[int(ev * len(ks))]
                    model[:] = [m for m in model if m[1] is not cache[ek]]
                    del cache[ek]
                sigs = [canon(c['sig']) for c in group]
                before = len(runs)
                expect = []
                for s in sigs:
                    if lookup(s) is None and not any(same(s, e) for e in expect):
                        expect.append(s)
                hits = [lookup(s) for s in sigs]
                res = await aio.gather(*(wrapped(*s[0], **s[1]) for s in sigs), return_exceptions=True)
                S.event('calls', sigs, 'ran', runs[before:])
                got = runs[before:]
                if kind in (None, 'map') and len(got) != len(expect):
                    viol.append(('C14', f'calls {sigs} caused {len(got)} computations {got}, expected {expect}'))
                if isinstance(kind, int) and len(sigs) == 1 and len(got) != len(expect):
                    viol.append(('C14', f'call {sigs} caused {len(got)} computations {got}, expected {expect} '
                                        f'(cache holds {len(cache)} of {kind})'))
                for s, r, h in zip(sigs, res, hits):
                    if not (isinstance(r, tuple) and r[0] == 'result' and same(r[1:], s)):
                        viol.append(('C14', f'call {s} received {r!r}'))
                    elif h is not None and r is not h[1]:
                        viol.append(('C14', f'call {s} did not get the cached object'))
                for s, r in zip(sigs, res):
                    if any(same(s, e) for e in expect):
                        old = lookup(s)
                        if old is None:
                            model.append((s, r))
                            if isinstance(kind, int) and len(model) > kind:
                                model.pop(0)
                if cache is not None:
                    if len(cache) != len(model):
                        viol.append(('C14', f'the given mapping holds {len(cache)} entries, expected {len(model)}'))
                if viol:
                    return
        loop = aio.new_event_loop()
        S.spawn(lambda: loop.run_until_complete(main()), 'main')
        return lambda S: viol
    scn.problem_props = ('C14',)
    scn.schedules = False
    scn.lines = False
    return scn
