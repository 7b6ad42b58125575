"""Programs and oracle for ensure_aw / run_aw_threadsafe / loop_in_thread (C17)."""
import asyncio as aio
import sched

PROPS = ('C17',)
M = .07


class Err(Exception):
    pass


class BErr(BaseException):
    pass


def programs(prop, rng, tier):
    one = lambda **k: dict({'at': 0, 'kind': 'coro', 'dur': .3, 'out': None, 'fn': 'ensure'}, **k)
    for out in (None, 'exc', 'base', 'none', 'excval'):
        for kind in ('coro', 'future', 'task', 'object'):
            for tgt in ('own', 'idle', 'lit', 'thread'):
                yield {'target': tgt, 'callers': [[one(kind=kind, out=out, dur=d)] for d in (0,)]}
                yield {'target': tgt, 'callers': [[one(kind=kind, out=out, dur=.3)], [one(kind=kind, dur=.5)]]}
    yield {'target': 'closed', 'callers': [[one()]]}
    for tgt in ('lit', 'thread'):
        for out in (None, 'exc', 'none'):
            for kind in ('coro', 'future', 'task', 'object'):
                yield {'target': tgt, 'callers': [[one(kind=kind, out=out, fn='run')]]}
    for n in (2, 3):
        yield {'target': 'idle', 'callers': [[one(dur=0)]] * n}
        yield {'target': 'idle', 'callers': [[one(dur=.3)]] * n}
        yield {'target': 'idle', 'callers': [[one(dur=.3), one(dur=.1)]] * n}
        yield {'target': 'lit', 'stop': .2, 'callers': [[one(dur=.5)]] * n}
        yield {'target': 'thread', 'stop': .2, 'callers': [[one(dur=.5)]] * n}
    yield {'target': 'idle', 'callers': [[one(dur=.3)]], 'start': 0}
    yield {'target': 'idle', 'callers': [[one(dur=.3)]], 'start': .1, 'stop': .2}
    yield {'target': 'idle', 'callers': [[one(dur=.3)], [one(at=.1)]], 'start': .1, 'stop': .2}
    yield {'target': 'idle', 'callers': [[one(dur=1)], [one(at=.5)]], 'start': .1, 'stop': .6}
    yield {'target': 'idle', 'callers': [], 'start': 0, 'stop': .2}
    yield {'target': 'idle', 'callers': [], 'start': 0, 'stop': 0, 'start2': .0, 'stop2': .2}
    yield {'target': 'idle', 'callers': [], 'start': 0, 'stop': .3, 'start2': .1, 'stop2': .2}
    yield {'target': 'idle', 'callers': [], 'loops': 3}
    yield {'target': 'cross', 'callers': [[one(dur=.2)], [one(dur=.2)]]}
    while True:
        tgt = rng.choice(['idle', 'idle', 'idle', 'lit', 'lit', 'thread', 'own'])
        p = {'target': tgt, 'callers': [
            [one(at=rng.choice([0, 0, .1, .3]), kind=rng.choice(['coro', 'coro', 'future', 'task', 'object']),
                 dur=rng.choice([0, 0, .1, .4]), out=rng.choice([None, None, 'exc', 'none', 'base']))
             for _ in range(rng.choice([1, 1, 2]))] for _ in range(rng.choice([1, 2, 2, 3]))]}
        if tgt in ('lit', 'thread') and rng.random() < .6:
            p['stop'] = rng.choice([0, .1, .2, .35])
        if tgt == 'idle' and rng.random() < .4:
            p['start'] = rng.choice([0, .1, .3])
            if rng.random() < .7:
                p['stop'] = p['start'] + rng.choice([0, .1, .3])
        yield p


def build(P):
    def scn(S):
        mod = sched.load('asyncio')
        viol, recs = [], []

        def v(m):
            viol.append(('C17', m))
        tgt = P['target']
        target = sched.CoopLoop()
        running = {}            # loop -> threads inside run_forever

        class Watched(sched.CoopLoop):
            def run_forever(self):
                running.setdefault(id(self), []).append(sched._get_ident())
                if len(running[id(self)]) > 1:
                    v('two threads run the loop at once')
                try:
                    return super().run_forever()
                finally:
                    running[id(self)].remove(sched._get_ident())
        target = Watched()
        target.set_exception_handler(lambda l, c: None)
        ready = [tgt not in ('thread', 'lit')]
        stops = []
        alldone = [0]
        ncall = len(P['callers'])

        def awaitable(rec, c, loop_running_here):
            val = {None: object(), 'none': None, 'excval': Err('value')}.get(c['out'])
            exc = {'exc': Err, 'base': BErr}.get(c['out'])
            rec['val'], rec['exc'] = val, exc(f'{rec["name"]}') if exc else None

            async def coro():
                here = aio.get_running_loop()
                rec['started'] = S.now
                if here is not rec['target']:
                    v(f'{rec["name"]}: evaluated on another loop')
                elif len(running.get(id(here), [0])) and running.get(id(here)) and sched._get_ident() not in running[id(here)]:
                    v(f'{rec["name"]}: evaluated on a thread that does not run the target loop')
                try:
                    if c['dur']:
                        await aio.sleep(c['dur'])
                    if rec['exc'] is not None:
                        raise rec['exc']
                    return val
                finally:
                    rec['end'] = S.now
                    S.event('aw-end', rec['name'])
            if c['kind'] == 'coro':
                return coro()
            if c['kind'] == 'object':
                class Obj:
                    def __await__(self):
                        return coro().__await__()
                return Obj()
            if c['kind'] == 'task':
                box = []
                if rec['target'] is loop_running_here or not rec['target'].is_running():
                    return rec['target'].create_task(coro())
                rec['target'].call_soon_threadsafe(lambda: box.append(rec['target'].create_task(coro())))
                S.block(lambda: bool(box), .5, 'task created')
                return box[0] if box else coro()
            fut = rec['target'].create_future()

            def fire():
                rec['end'] = S.now
                S.event('aw-end', rec['name'])
                if fut.done():
                    return
                if rec['exc'] is not None:
                    fut.set_exception(rec['exc'])
                else:
                    fut.set_result(val)
            rec['target'].call_soon_threadsafe(rec['target'].call_later, c['dur'], fire)
            return fut

        async def call(rec, c, mytarget):
            if c['at']:
                await aio.sleep(c['at'])
            rec['target'] = mytarget
            rec['start'] = S.now
            aw = awaitable(rec, c, aio.get_running_loop())
            S.event('call', rec['name'], c['fn'], c['kind'])
            try:
                if c['fn'] == 'run':
                    x = await mod.run_aw_threadsafe(aw, mytarget)
                else:
                    x = await mod.ensure_aw(aw, mytarget)
            except GeneratorExit:
                raise
            except sched.Abort:
                raise
            except BaseException as e:
                rec['got'] = e
                rec['kind'] = 'exc'
            else:
                rec['got'], rec['kind'] = x, 'ret'
            rec['t'] = S.now
            S.event('answer', rec['name'], rec['kind'], repr(rec['got']))
            if tgt == 'closed':
                if not (rec['kind'] == 'exc' and isinstance(rec['got'], RuntimeError)):
                    v(f'closed target: {rec["kind"]} {rec["got"]!r} instead of RuntimeError')
                if hasattr(aw, 'close'):
                    aw.close()
                return
            if rec['exc'] is not None:
                ok = rec['kind'] == 'exc' and rec['got'] is rec['exc']
            else:
                ok = rec['kind'] == 'ret' and rec['got'] is rec['val']
            if not ok:
                v(f'{rec["name"]}: got {rec["kind"]} {rec["got"]!r} instead of {rec["exc"] or rec["val"]!r}')
            if rec.get('end') is None:
                v(f'{rec["name"]}: completed before its awaitable')
            elif rec['t'] - rec['end'] > M:
                v(f'{rec["name"]}: completed {rec["t"] - rec["end"]:g}s after its awaitable')

        def caller(i, cs):
            def body():
                S.block(lambda: ready[0], None, 'ready')
                loop = Watched()
                loop.set_exception_handler(lambda l, c: None)
                try:
                    async def main():
                        ts = []
                        for j, c in enumerate(cs):
                            rec = {'name': f'T{i}C{j}', 'kind': None, 'got': None, 't': None, 'c': c}
                            recs.append(rec)
                            ts.append(loop.create_task(call(rec, c, loop if tgt == 'own' else
                                                            (other[1 - i] if tgt == 'cross' else target))))
                        done, pend = await aio.wait(ts, timeout=20)
                        for t in done:
                            t.result()
                        for rec in recs:
                            if rec['name'].startswith(f'T{i}C') and rec['kind'] is None:
                                v(f'{rec["name"]}: ensure_aw never completed (its awaitable ended: {rec.get("end")})')
                        for t in pend:
                            t.cancel()
                    if tgt == 'cross':
                        other[i] = loop
                        S.block(lambda: all(o is not None for o in other), None, 'both')
                    loop.run_until_complete(main())
                    if tgt == 'cross':
                        # keep running for the other side
                        alldone[0] += 1
                        loop.run_until_complete(until_all())
                finally:
                    if tgt != 'cross':
                        alldone[0] += 1
            return body

        async def until_all():
            while alldone[0] < ncall:
                await aio.sleep(.05)
            await aio.sleep(.2)
        other = [None, None]

        def lit(start, stop, first):
            def body():
                if start:
                    sched.vsleep(start)
                st = mod.loop_in_thread(target)
                stops.append(st)
                if not running.get(id(target)):
                    v('loop_in_thread() returned before the loop is running')
                S.event('loop started')
                ready[0] = True
                if stop is None:
                    S.block(lambda: alldone[0] >= ncall, None, 'callers')
                else:
                    sched.vsleep(max(0, stop - start))
                st()
                S.event('loop stopped')
                if running.get(id(target)) and not others_may_run[0]:
                    v('the stop function returned before the loop stopped')
            return body
        # only loop_in_thread's own thread may run the target when nobody else calls ensure_aw
        others_may_run = [bool(P['callers']) or 'start2' in P]

        def harness_thread():
            def body():
                async def main():
                    ready[0] = True
                    if 'stop' in P:
                        await aio.sleep(P['stop'])
                        return
                    while alldone[0] < ncall:
                        await aio.sleep(.05)
                target.run_until_complete(main())
            return body

        if P.get('loops'):
            def many():
                ls = [Watched() for _ in range(P['loops'])]
                sts = [mod.loop_in_thread(l) for l in ls]
                for l, st in zip(ls, sts):
                    if not l.is_running():
                        v('loop_in_thread() returned before the loop is running')
                for l, st in reversed(list(zip(ls, sts))):
                    st()
                    if l.is_running():
                        v('the stop function returned before the loop stopped')
                    st()
            S.spawn(many, 'many')
        if tgt == 'closed':
            target.close()
        if tgt == 'lit':
            S.spawn(lit(0, P.get('stop'), True), 'lit')
        elif tgt == 'thread':
            S.spawn(harness_thread(), 'H')
        elif 'start' in P:
            S.spawn(lit(P['start'], P.get('stop'), False), 'lit')
        if 'start2' in P:
            S.spawn(lit(P['start2'], P.get('stop2'), False), 'lit2')
        for i, cs in enumerate(P['callers']):
            S.spawn(caller(i, cs), f'T{i}')

        def check(S):
            for t in S.threads:
                pass
            return viol
        return check
    scn.problem_props = PROPS
    scn.max_time = 120
    scn.cap = 60
    return scn
