"""Programs and oracle for the decorator forms and the per-loop batchers (C15).

Reuses the oracles of g_batcher (size, concurrency, timeout, retention), g_buffer (timeout) and a small one for the
cache mapping, with the function decorated in every accepted way.
"""
import asyncio as aio
import copy
import functools
import sched
import g_batcher
import g_buffer

PROPS = ('C15',)


def programs(prop, rng, tier):
    gens = {'batcher': [g_batcher.programs('C10', rng, tier), g_batcher.programs('C11', rng, tier)],
            'buffer': [g_buffer.programs('C08', rng, tier)]}
    forms = ['direct', 'kw', 'opts', 'none', 'noneopts']
    for f in forms:
        for cache in ('map', 'empty', 'none'):
            for two in (False, True):
                yield {'kind': 'cache', 'form': f, 'cache': cache, 'two': two}
    for f in forms + ['bare']:
        for what in ('batch_timeout', 'max_batch_size', 'max_concurrent_batches', 'retention_timeout', 'defaults'):
            yield {'kind': 'opt', 'form': f, 'what': what}
        yield {'kind': 'bufopt', 'form': f, 'default': True}
        for t in (.3, 2, 0.05):
            if f != 'bare':
                yield {'kind': 'bufopt', 'form': f, 'T': t}
    for n in (2, 3):
        for how in ('succ', 'conc'):
            for rep in (1, 2):
                yield {'kind': 'loops', 'n': n, 'how': how, 'rep': rep, 'mbs': 2, 'mcb': 1}
    while True:
        r = rng.random()
        if r < .6:
            yield {'kind': 'batcher', 'form': rng.choice(forms), 'two': rng.random() < .2,
                   'sub': next(rng.choice(gens['batcher']))}
        elif r < .8:
            sub = next(gens['buffer'][0])
            if any(s['by'] != 'L' for s in sub['subs'] + sub['waits']):
                continue
            yield {'kind': 'buffer', 'form': rng.choice(forms), 'sub': sub}
        else:
            yield {'kind': 'loops', 'n': rng.choice([2, 3, 4]), 'how': rng.choice(['succ', 'conc', 'conc', 'mixed']),
                   'rep': rng.choice([1, 2, 4]), 'mbs': rng.choice([1, 2, 3]), 'mcb': rng.choice([1, 2]),
                   'ret': rng.choice([0, 2])}


def wrap(deco, form, f, kw, two=False):
    """Decorate f in the given way; `two` decorates an unrelated function with the same options object first."""
    async def other(*a):
        raise AssertionError('the other function was called')

    async def othergen(batch):
        raise AssertionError('the other function was called')
        yield
    if form == 'direct':
        if two:
            deco(other, **kw)
        return deco(f, **kw)
    if form == 'kw':
        return deco(func=f, **kw)
    if form == 'bare':
        return deco(f)
    if form == 'opts':
        d = deco(**kw)
    elif form == 'none':
        d = deco(None, **kw)
    else:
        d = deco(func=None, **kw)
    if two:
        d(other)
    return d(f)


def build(P):
    return {'batcher': b_sub, 'buffer': b_sub, 'cache': b_cache, 'opt': b_opt, 'bufopt': b_bufopt, 'loops': b_loops}[P['kind']](P)


class Proxy:
    def __init__(self, mod, **over):
        self.__dict__.update({k: getattr(mod, k) for k in dir(mod)}, **over)


def b_sub(P):
    g = g_batcher if P['kind'] == 'batcher' else g_buffer
    name = 'async_background_batcher' if P['kind'] == 'batcher' else 'buffer_until_timeout'
    sub = copy.deepcopy(P['sub'])
    if P['kind'] == 'batcher':
        sub['form'] = 'deco'
        sub.pop('mutate', None)
    inner = g.build(sub)

    def scn(S):
        real = sched.load

        def load(*m):
            mod = real(*m)
            deco = getattr(mod, name)
            return Proxy(mod, **{name: lambda f, **kw: wrap(deco, P['form'], f, kw, P.get('two'))})
        sched.load = load
        try:
            check = inner(S)
        finally:
            sched.load = real

        def chk(S):
            return [('C15', f'[{P["form"]}] {m}') for p, m in check(S) if m]
        return chk
    scn.problem_props = PROPS
    scn.schedules = False
    scn.lines = False
    scn.max_time = 500
    return scn


def _one(P, main, threads=None):
    def scn(S):
        mod = sched.load('asyncio')
        viol = []

        def v(m):
            viol.append(('C15', f'[{P.get("form", P.get("how"))}] {m}'))

        def body():
            loop = aio.new_event_loop()
            aio.set_event_loop(loop)
            loop.run_until_complete(main(S, mod, v))
            for t in aio.all_tasks(loop):
                t.cancel()
        S.spawn(body, 'main')
        return lambda S: viol
    scn.problem_props = PROPS
    scn.schedules = False
    scn.lines = False
    return scn


def b_cache(P):
    async def main(S, mod, v):
        runs = []

        async def f(x):
            runs.append(x)
            await aio.sleep(.1)
            return ('r', x, len(runs))

        class Map(dict):
            pass
        m = None if P['cache'] == 'none' else Map()
        if P['cache'] == 'map':
            m['unrelated'] = 1
        kw = {'cache': m} if m is not None else {}
        w = wrap(mod.threadsafe_async_cache, P['form'], f, kw, P.get('two'))
        if not callable(w):
            return v(f'not callable: {w!r}')
        if getattr(w, '__name__', None) != 'f':
            v(f'__name__ is {getattr(w, "__name__", None)!r}')
        a = await w(1)
        b = await w(1)
        if a is not b or runs != [1]:
            v(f'results {a} {b} after runs {runs}')
        if m is not None:
            n = 1 if P['cache'] == 'map' else 0
            if len(m) != n + 1:
                v(f'the given mapping holds {dict(m)}')
            else:
                for k in list(m):
                    if m[k] is a:
                        del m[k]
                c = await w(1)
                if runs != [1, 1] or c is a:
                    v(f'evicting the entry caused runs {runs}')
        else:
            w2 = wrap(mod.threadsafe_async_cache, P['form'], f, kw)
            await w2(1)
            if runs != [1, 1]:
                v(f'two decorated functions share a cache: {runs}')
    return _one(P, main)


DEFAULT = {'max_batch_size': 256, 'max_concurrent_batches': 5, 'batch_timeout': .05, 'retention_timeout': 0.}


def b_opt(P):
    what = P['what']
    val = {'batch_timeout': .7, 'max_batch_size': 3, 'max_concurrent_batches': 2, 'retention_timeout': 5}.get(what)
    bare = P['form'] == 'bare'

    async def main(S, mod, v):
        kw = {} if bare or what == 'defaults' else {what: val}
        eff = dict(DEFAULT, **kw)
        batches, active, peak = [], [0], [0]

        async def f(batch):
            batch = list(batch)
            batches.append((S.now, len(batch)))
            active[0] += 1
            peak[0] = max(peak[0], active[0])
            await aio.sleep(10)
            for k, a in batch:
                yield k, (k, len(batches))
            active[0] -= 1
        w = wrap(mod.async_background_batcher, P['form'], f, kw)
        if getattr(w, '__name__', None) != 'f':
            v(f'__name__ is {getattr(w, "__name__", None)!r}')
        t0 = S.now
        n = 300 if eff['max_batch_size'] > 10 else 10
        if what in ('batch_timeout', 'max_batch_size', 'defaults') or bare:
            await aio.gather(*(w(i) for i in range(n)))
            sizes = [s for _, s in batches]
            want = [eff['max_batch_size']] * (n // eff['max_batch_size'])
            if n % eff['max_batch_size']:
                want.append(n % eff['max_batch_size'])
            if sizes != want:
                v(f'{n} simultaneous calls gave batches {sizes}, expected {want} with {kw}')
            if n % eff['max_batch_size'] and len(batches) <= eff['max_concurrent_batches']:
                d = batches[-1][0] - t0
                if abs(d - eff['batch_timeout']) > .012:
                    v(f'incomplete batch started after {d:g}s, expected {eff["batch_timeout"]} with {kw}')
        if what in ('max_concurrent_batches', 'defaults') or bare:
            del batches[:]
            peak[0] = 0
            ts = []
            for i in range(eff['max_concurrent_batches'] + 3):
                ts.append(aio.ensure_future(w(f'c{i}')))
                await aio.sleep(eff['batch_timeout'] * 2)
            await aio.wait(ts)
            if peak[0] != eff['max_concurrent_batches']:
                v(f'up to {peak[0]} concurrent batches, expected {eff["max_concurrent_batches"]} with {kw}')
        if what in ('retention_timeout', 'defaults') or bare:
            a = await w('r')
            await aio.sleep(4.9 if eff['retention_timeout'] else 0)
            b = await w('r')
            if (a is b) != bool(eff['retention_timeout']):
                v(f'reuse within the retention window: {a is b} with {kw}')
            if eff['retention_timeout']:
                await aio.sleep(.2)
                c = await w('r')
                if c is a:
                    v(f'result reused after the retention window with {kw}')
    return _one(P, main)


def b_bufopt(P):
    T = P.get('T', 1)

    async def main(S, mod, v):
        calls = []

        async def f(args):
            calls.append((S.now, set(args)))
        w = wrap(mod.buffer_until_timeout, P['form'], f, {} if P.get('default') else {'timeout': T})
        if getattr(w, '__name__', None) != 'f':
            v(f'__name__ is {getattr(w, "__name__", None)!r}')
        w(1)
        await aio.sleep(T * .5)
        w(2)
        t = S.now
        await aio.sleep(T * 4)
        if len(calls) != 1 or abs(calls[0][0] - t - T) > .012 or calls[0][1] != {1, 2}:
            v(f'calls {[(round(c[0] - t, 3), c[1]) for c in calls]} after the last submission, expected one after {T}')
    return _one(P, main)


def b_loops(P):
    """One decorated function used by several loops, successively and/or concurrently."""
    def scn(S):
        mod = sched.load('asyncio')
        viol = []

        def v(m):
            viol.append(('C15', f'[{P["how"]}] {m}'))
        active = {}

        async def f(batch):
            batch = list(batch)
            loop = aio.get_running_loop()
            S.event('batch', [repr(a) for _, a in batch])
            if len(batch) > P['mbs']:
                v(f'batch of {len(batch)}, max_batch_size {P["mbs"]}')
            owners = {a.owner for _, a in batch}
            if len(owners) != 1 or next(iter(owners)) is not loop:
                v(f'a batch of one loop carries calls of another: {batch}')
            active[loop] = active.get(loop, 0) + 1
            if active[loop] > P['mcb']:
                v(f'{active[loop]} concurrent batches on one loop, limit {P["mcb"]}')
            await aio.sleep(.5)
            active[loop] -= 1
            for k, a in batch:
                yield k, (loop, k)
        kw = dict(max_batch_size=P['mbs'], max_concurrent_batches=P['mcb'], batch_timeout=.2, retention_timeout=P.get('ret', 0))
        w = mod.async_background_batcher(**kw)(f) if P.get('rep', 1) % 2 else mod.async_background_batcher(f, **kw)

        class A:
            def __init__(self, owner, i):
                self.owner, self.i = owner, i

            def __str__(self):
                return f'k{self.i}'
            __repr__ = __str__
        ended = [0]

        def user(n, delay):
            def body():
                if P['how'] != 'succ':
                    sched.vsleep(delay)
                else:
                    S.block(lambda: ended[0] == n, None, 'turn')
                for rep in range(P['rep']):
                    loop = aio.new_event_loop()
                    lid = id(loop)

                    async def main():
                        me = aio.get_running_loop()
                        t = S.now
                        rs = await aio.gather(*(w(A(me, i)) for i in range(3)), return_exceptions=True)
                        for i, r in enumerate(rs):
                            if not (isinstance(r, tuple) and r[0] is me and r[1] == f'k{i}'):
                                v(f'thread {n} rep {rep}: call k{i} got {r!r}')
                        want = {1: 1.5, 2: .7 if P['mcb'] == 1 else .7, 3: .5}[P['mbs']]
                        batches = -(-3 // P['mbs'])
                        lim = .2 + .5 * -(-batches // P['mcb']) + .05
                        if S.now - t > lim:
                            v(f'thread {n} rep {rep}: calls took {S.now - t:g}s, expected at most {lim:g} on its own loop')
                    loop.run_until_complete(main())
                    ts = aio.all_tasks(loop)
                    for t in ts:
                        t.cancel()
                    if ts:
                        loop.run_until_complete(aio.gather(*ts, return_exceptions=True))
                    loop.close()
                    del loop, ts
                ended[0] += 1
            return body
        for n in range(P['n']):
            S.spawn(user(n, 0 if P['how'] == 'conc' else n * .3), f'T{n}')
        return lambda S: viol
    scn.problem_props = PROPS
    scn.schedules = P['how'] != 'succ'
    scn.lines = P['how'] != 'succ'
    scn.cap = 40
    return scn
