"""Programs and oracle for buffer_until_timeout / BufferAsyncCalls (C03, C07, C08)."""
import asyncio as aio
import sched

PROPS = ('C03', 'C07', 'C08')
M = 0.015


class PErr(Exception):
    pass


class PBase(BaseException):
    pass


class FErr(Exception):
    pass


class FBase(BaseException):
    pass


IMM = ('call', 'map')


def _sub(rng, t, by, imm, ids):
    kind = rng.choice(['call', 'call', 'map', 'iter'] if imm else ['call', 'call', 'await', 'map', 'iter', 'amap'])
    s = {'at': round(t, 4), 'by': by, 'kind': kind}
    n = 1 if kind in ('call', 'await') else rng.choice([0, 1, 2, 3])
    s['el'] = [next(ids) for _ in range(n)]
    if not imm:
        if kind in ('await', 'amap', 'iter'):
            s['delay'] = rng.choice([0, 0, .2, .7, 1.5])
        if kind != 'call' and rng.random() < .3:
            s['fail'] = rng.choice(['exc', 'exc', 'cancel', 'base'])
            if kind == 'await':
                s['el'] = []
    return s


def programs(prop, rng, tier):
    T = 1.0

    def P(subs, waits=(), plan=(), **k):
        for s in subs:
            s.setdefault('by', 'L')
            s.setdefault('kind', 'call')
        d = {'T': T, 'subs': subs, 'waits': [dict({'by': 'L', 'cancel': True}, **w) for w in waits], 'plan': list(plan)}
        d.update(k)
        return d
    c = lambda at, *el, **k: dict({'at': at, 'el': list(el)}, **k)
    fixed = [
        P([c(0, 1), c(.5, 2), c(1.2, 3)]),
        P([c(0, 1)], [{'at': .1}]),
        P([c(0, 1)], [{'at': .1, 'cancel': False}]),
        P([c(0, 1, by='A')], [{'at': 0, 'by': 'A'}]),
        P([c(0, 1, by='A'), c(1, 2, by='B')]),
        P([c(0, 1), c(1.2, 2, by='A')], plan=[{'dur': .5}]),
        P([c(0, 1), c(1.5, 2, by='A')], plan=[{'dur': .5}]),
        P([c(0, 1), c(1.5, 2, by='A')], [{'at': 1.5, 'by': 'A'}], plan=[{'dur': .5}]),
        P([c(0, 1), c(1.5, 2)], [{'at': 1.6}], plan=[{'dur': .5}, {'dur': .5, 'out': 'raise'}]),
        P([c(0, 1)], [{'at': .1}, {'at': 1.2}], plan=[{'dur': .5, 'out': 'raise'}, {'dur': .5, 'out': 'raise'}]),
        P([c(0, kind='map')], [{'at': 0}, {'at': .2, 'cancel': False}]),
        P([c(0, kind='amap', fail='exc'), c(.1, 5)], [{'at': 0}]),
        P([c(0, 1, 2, kind='amap', fail='exc', delay=.4), c(.1, 5)], [{'at': .2}, {'at': .3, 'cancel': False}]),
        P([c(0, 1, 2, kind='iter', fail='exc', delay=.4), c(.1, 5)], [{'at': .2}]),
        P([c(0, 1, 2, kind='amap', fail='cancel', delay=.4), c(.1, 5)], [{'at': .2}]),
        P([c(0, kind='await', fail='exc', delay=.4)], [{'at': .2}, {'at': .2}]),
        P([c(0, 1)], plan=[{'dur': .5, 'out': 'cancel'}, {'dur': .5, 'out': 'base'}, {'dur': 0, 'out': 'timeout'}]),
        P([c(0, 1)], plan=[{'dur': 9}], shut=[1.5, 'bg']),
        P([c(0, 1)], plan=[{'dur': 9}], shut=[1.5, 'all']),
        P([c(0, 1)], plan=[{'dur': 0, 'out': 'raise'}] * 3, shut=[.5, 'bg']),
        P([c(0, 1)], plan=[{'dur': 0, 'out': 'raise'}] * 5, shut=[1.5, 'bg']),
        P([], shut=[.5, 'bg']),
        P([], [{'at': .2}], shut=[.5, 'all']),
        P([c(0, 1, 2, kind='amap', delay=5)], shut=[.5, 'bg']),
        P([c(0, 1, 2, kind='amap', delay=5)], shut=[.5, 'all']),
        P([c(0, 1, 2, kind='iter', delay=2)], shut=[.5, 'bg']),
        P([c(0, 1)], plan=[{'dur': 9, 'cleanup': .5}], shut=[1.5, 'bg']),
        P([c(0, 1), c(.3, 2)], pre=True),
        P([c(0, 1, by='A'), c(0, 2, by='B')], [{'at': 0, 'by': 'A'}, {'at': 0, 'by': 'B'}]),
        P([c(0, 1), c(1.01, 2, by='A'), c(1.02, 3, by='A')], [{'at': 1.02, 'by': 'A'}], plan=[{'dur': .02, 'out': 'raise'}]),
        P([c(0, 1), c(.2, 1), c(.4, 1)]),
    ]
    if prop == 'C08':
        fixed = [p for p in fixed if not p['waits'] and 'shut' not in p] + [
            P([c(x, i + 1) for i, x in enumerate((0, .9, 1.8, 2.7, 3.6, 8, 8.5))]),
            P([c(x, i + 1) for i, x in enumerate((0, .9, 1.8, 3.0, 3.4, 5.5))], plan=[{'dur': 1.5}, {'dur': .5}]),
            P([c(0, 1, 2, kind='map'), c(.5, kind='map'), c(1.2, 5), c(1.6, 6, 7, kind='iter')]),
        ]
    yield from fixed
    while True:
        it = iter(range(1, 99))
        imm = prop == 'C08' and rng.random() < .8
        nth = 0 if rng.random() < .5 else rng.choice([1, 1, 2])
        bys = ['L'] + ['A', 'B'][:nth]
        t = {b: 0 for b in bys}
        subs, waits = [], []
        T = rng.choice([.5, 1.0])
        for _ in range(rng.choice([2, 3, 4, 6] if nth else [3, 5, 8])):
            b = rng.choice(bys)
            t[b] += rng.choice([0, 0, .1, T * .5, T * .9, T * 1.03, T * 1.1, T * 2.2])
            if prop == 'C08' and imm or rng.random() < .75:
                subs.append(_sub(rng, t[b], b, imm, it))
            else:
                waits.append({'at': round(t[b], 4), 'by': b, 'cancel': rng.random() < .6})
        if prop == 'C07' and not waits:
            waits.append({'at': round(t['L'], 4), 'by': 'L', 'cancel': rng.random() < .6})
        plan = []
        for _ in range(rng.choice([0, 1, 3])):
            d = {'dur': rng.choice([0, .1, T * .5, T * 1.1, T * 1.8])}
            if rng.random() < .4:
                d['out'] = rng.choice(['raise', 'cancel', 'base', 'timeout', 'stop'])
            if rng.random() < .2:
                d['cleanup'] = .3
            plan.append(d)
        p = {'T': T, 'subs': subs, 'waits': waits, 'plan': plan}
        if rng.random() < .3 and not nth:
            p['pre'] = True
        if prop == 'C07' and rng.random() < .25:
            p['shut'] = [rng.choice([0, .1, T * .5, T * 1.05, T * 1.5, 3]), rng.choice(['bg', 'all'])]
        yield p


def build(P):
    threads = sorted({x['by'] for x in P['subs'] + P['waits']} - {'L'})

    def scn(S):
        mod = sched.load('asyncio')
        T = P['T']
        viol, calls, waits = [], [], []
        submitted = {}          # element -> list of (by, time, seq)
        subrecs = []            # (time, by, els, immediate)
        active = [0]
        seq = [0]
        st = {'shut': False, 'bgdone': None}

        def v(p, m):
            viol.append((p, m))

        async def func(args):
            els = set(args)
            rec = {'els': els, 'start': S.now, 'end': None, 'ok': False, 'n': len(calls), 'exc': None}
            calls.append(rec)
            active[0] += 1
            S.event('func', sorted(map(str, els)))
            if active[0] > 1:
                v('C08', f'call {rec["n"]} started while {active[0] - 1} other is running')
            if not els:
                v('C08', f'call {rec["n"]} got an empty set')
            for e in els:
                if e not in submitted:
                    v('C03', f'call {rec["n"]} got {e!r}, which was never submitted')
            plan = P['plan'][rec['n']] if rec['n'] < len(P['plan']) else {'dur': 0}
            try:
                if plan['dur']:
                    await aio.sleep(plan['dur'])
                out = plan.get('out')
                if out:
                    raise {'raise': FErr, 'cancel': aio.CancelledError, 'base': FBase, 'timeout': aio.TimeoutError,
                           'stop': StopAsyncIteration}[out](f'call {rec["n"]}')
                rec['ok'] = True
            except BaseException as e:
                rec['exc'] = e
                if plan.get('cleanup') and isinstance(e, aio.CancelledError):
                    await aio.sleep(plan['cleanup'])
                raise
            finally:
                active[0] -= 1
                rec['end'] = S.now
                S.event('func-end', rec['n'], rec['ok'])
            return None

        def submit(buf, s):
            els, kind = s['el'], s['kind']
            seq[0] += 1
            for e in els:
                submitted.setdefault(e, []).append((s['by'], S.now, seq[0]))
            subrecs.append((S.now, s['by'], els, kind in ('call', 'map', 'iter') and not s.get('delay') and not s.get('fail'),
                            seq[0]))
            fail = {'exc': PErr, 'cancel': aio.CancelledError, 'base': PBase, None: None}[s.get('fail')]
            d = s.get('delay', 0)
            S.event('submit', s['by'], kind, els, s.get('fail'))
            if kind == 'call':
                buf(els[0])
            elif kind == 'await':
                async def aw():
                    if d:
                        await aio.sleep(d)
                    if fail:
                        raise fail('await')
                    return els[0]
                buf.await_(aw())
            elif kind == 'amap':
                async def gen():
                    for e in els:
                        if d:
                            await aio.sleep(d)
                        yield e
                    if not els:
                        await aio.sleep(d)
                    if fail:
                        raise fail('amap')
                buf.amap(gen())
            else:
                def it():
                    for e in els:
                        if d:
                            sched.vsleep(d)
                        yield e
                    if fail:
                        raise fail('map')
                if kind == 'iter':
                    buf.map(it())
                elif fail:
                    class It:
                        def __iter__(self):
                            return it()
                    buf.map(It())
                else:
                    buf.map(list(els))

        async def wait(buf, w):
            rec = {'by': w['by'], 'start': S.now, 'seq': seq[0], 'end': None, 'exc': None, 'w': w, 'cancelled': False}
            waits.append(rec)
            mine = [e for e, ss in submitted.items() for by, t, n in ss if by == w['by']]
            S.event('wait', w['by'], w['cancel'])
            try:
                if w['by'] == 'L':
                    await buf.wait(cancel=w['cancel'])
                else:
                    await buf.wait_from_anywhere(cancel=w['cancel'])
            except aio.CancelledError as e:
                if st['shut']:
                    rec['cancelled'] = True
                    raise
                rec['exc'] = e
            except GeneratorExit:
                raise
            except BaseException as e:
                rec['exc'] = e
            rec['end'] = S.now
            S.event('waited', w['by'])
            if rec['exc'] is not None:
                v('C07', f'wait() by {w["by"]} raised {rec["exc"]!r}')
                return
            good = {e for c in calls if c['ok'] and c['end'] is not None for e in c['els']}
            lost = [e for e in mine if e not in good]
            if lost:
                v('C07', f'wait(cancel={w["cancel"]}) by {w["by"]} returned before {lost} submitted earlier were delivered')

        bufbox = []
        tdone = {b: False for b in threads}

        async def amain(buf, loop):
            loop.set_exception_handler(lambda l, c: None)
            t0 = S.now
            acts = sorted([(s['at'], 0, i, s) for i, s in enumerate(P['subs']) if s['by'] == 'L'] +
                          [(w['at'], 1, i, w) for i, w in enumerate(P['waits']) if w['by'] == 'L'], key=lambda x: x[:3])
            tasks = []
            for at, k, i, a in acts:
                if 'shut' in P and at > P['shut'][0]:
                    break
                if at > S.now - t0:
                    await aio.sleep(t0 + at - S.now)
                if k == 0:
                    submit(buf, a)
                else:
                    tasks.append(loop.create_task(wait(buf, a)))
            if 'shut' in P:
                if P['shut'][0] > S.now - t0:
                    await aio.sleep(t0 + P['shut'][0] - S.now)
                return
            end = S.now + 90
            while not all(tdone.values()) and S.now < end:
                await aio.sleep(.5)
            if tasks:
                await aio.wait(tasks, timeout=60)
            await aio.sleep(60)

        def loop_thread():
            loop = aio.new_event_loop()
            aio.set_event_loop(loop)
            before = set()

            def mk():
                b = mod.buffer_until_timeout(func, timeout=T)
                return b
            if P.get('pre'):
                buf = mk()
                bg = aio.all_tasks(loop)
                bufbox.append(buf)
                main = amain(buf, loop)
            else:
                async def main_():
                    nonlocal bg
                    before = aio.all_tasks(loop)
                    buf = mk()
                    bg = aio.all_tasks(loop) - before
                    bufbox.append(buf)
                    await amain(buf, loop)
                bg = set()
                main = main_()
            loop.run_until_complete(main)
            st['shut'] = True
            S.event('shutdown')
            todo = bg if P.get('shut', [0, 'all'])[1] == 'bg' else aio.all_tasks(loop)
            todo = set(todo)
            for t in todo:
                t.cancel()
            if todo:
                loop.run_until_complete(aio.wait(todo, timeout=100))
            if any(not t.done() for t in todo):
                v('C07', 'the background task is still running 100s after it was cancelled')
            rest = aio.all_tasks(loop)
            for t in rest:
                t.cancel()
            if rest:
                loop.run_until_complete(aio.wait(rest, timeout=100))
            # like a collected loop: nothing refers to the loop any more
            if active[0]:
                v('C07', 'the wrapped function is still running after shutdown')

        def other(name):
            async def main():
                end = S.now + 50
                acts = sorted([(s['at'], 0, i, s) for i, s in enumerate(P['subs']) if s['by'] == name] +
                              [(w['at'], 1, i, w) for i, w in enumerate(P['waits']) if w['by'] == name], key=lambda x: x[:3])
                t0 = S.now
                tasks = []
                for at, k, i, a in acts:
                    if at > S.now - t0:
                        await aio.sleep(t0 + at - S.now)
                    if k == 0:
                        submit(bufbox[0], a)
                    else:
                        tasks.append(aio.ensure_future(wait(bufbox[0], a)))
                        await aio.sleep(0)
                if tasks:
                    await aio.wait(tasks, timeout=60)

            def body():
                S.block(lambda: bool(bufbox), None, 'buffer')
                try:
                    loop = aio.new_event_loop()
                    loop.run_until_complete(main())
                    loop.close()
                finally:
                    tdone[name] = True
            return body
        S.spawn(loop_thread, 'L')
        for n in threads:
            S.spawn(other(n), n)

        def check(S):
            judge(P, calls, waits, submitted, subrecs, v, st)
            return viol
        return check
    scn.problem_props = ('C07',)
    scn.schedules = bool(threads)
    scn.lines = bool(threads)
    scn.max_time = 500
    scn.depth = 1
    scn.rand = 4
    scn.cap = 60
    return scn


def judge(P, calls, waits, submitted, subrecs, v, st):
    T = P['T']
    if 'shut' not in P:
        good = {}
        for c in calls:
            if c['ok']:
                for e in c['els']:
                    good[e] = good.get(e, 0) + 1
        for e, ss in submitted.items():
            n = good.get(e, 0)
            if not n:
                v('C03', f'{e!r} was never delivered to a successful call')
            elif n > len(ss) and all(by == 'L' for by, _, _ in ss):
                v('C03', f'{e!r} was delivered to {n} successful calls')
        for w in waits:
            if w['end'] is None:
                v('C07', f'wait(cancel={w["w"]["cancel"]}) by {w["by"]} at {w["start"] - sched.BASE_TIME:g} never returned')
    for c, d in zip(calls, calls[1:]):
        if not c['ok'] and c['exc'] is not None and not c['els'] <= d['els']:
            v('C03', f'{c["els"] - d["els"]} of failed call {c["n"]} not offered again in call {d["n"]}')
    # debounce
    if P['waits'] or 'shut' in P or not all(imm for _, _, _, imm, _ in subrecs):
        return
    arr = sorted(t for t, *_ in subrecs)
    for c in calls:
        near = [t for t in arr if c['start'] - T + M < t < c['start'] - M]
        if near:
            v('C08', f'call {c["n"]} started {c["start"] - near[-1]:g}s after a submission, timeout {T}')
    # bursts
    subs = sorted((s for s in subrecs if s[2]), key=lambda s: (s[0], s[4]))
    allsubs = sorted(subrecs, key=lambda s: (s[0], s[4]))

    def idle(t):
        return not any(c['start'] - M <= t <= (c['end'] if c['end'] is not None else 1e9) + M for c in calls)
    i = 0
    while i < len(allsubs):
        j = i
        while j + 1 < len(allsubs) and allsubs[j + 1][0] - allsubs[j][0] < T - M:
            j += 1
        burst = allsubs[i:j + 1]
        amb = j + 1 < len(allsubs) and allsubs[j + 1][0] - allsubs[j][0] < T + M
        i = j + 1
        burst = [s for s in burst if idle(s[0])]
        els = {e for s in burst for e in s[2]}
        if not burst or amb or not els:
            continue
        if burst[-1][0] != allsubs[j][0]:
            continue
        # keep only elements submitted once
        els = {e for e in els if len(submitted[e]) == 1}
        last = burst[-1][0]
        got = [c for c in calls if c['els'] & els]
        if not got:
            continue
        c = got[0]
        if not els <= c['els']:
            v('C08', f'burst {sorted(map(str, els))} was split: call {c["n"]} got {sorted(map(str, c["els"]))}')
        elif abs(c['start'] - (last + T)) > M:
            v('C08', f'burst {sorted(map(str, els))} (last at {last - sched.BASE_TIME:g}) was delivered at '
                     f'{c["start"] - sched.BASE_TIME:g}, timeout {T}')
