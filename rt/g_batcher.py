"""Programs and oracle for AsyncBackgroundBatcher / async_background_batcher (C04, C09, C10, C11)."""
import asyncio as aio
import sched

PROPS = ('C04', 'C09', 'C10', 'C11')
M = 0.011          # margin: exact timer ties are not judged


class Arg:
    __slots__ = ('k', 'n', 's', '__weakref__')

    def __init__(self, k, n, s=None):
        self.k, self.n, self.s = k, n, s or k

    def __str__(self):
        return self.s

    def __repr__(self):
        return f'{self.k}#{self.n}'


class Val:
    def __init__(self, k, n):
        self.k, self.n = k, n

    def __repr__(self):
        return f'Val({self.k},{self.n})'


class BErr(Exception):
    pass


class BBase(BaseException):
    pass


BEH = ['value', 'value', 'value', 'value', 'exc', 'omit', 'raise', 'twice', 'unknown', 'none', 'excval', 'raisebase',
       'raisecancel', 'stopiter', 'twicexc']


def programs(prop, rng, tier):
    bt = 1.0
    if prop in ('C04', 'C09'):
        for b in BEH[3:]:
            for order in ('fwd', 'rev'):
                for ret in (0, 2):
                    yield {'cfg': [3, 2, bt, ret], 'calls': [{'at': 0, 'k': 'a'}, {'at': 0, 'k': 'b'}, {'at': 0, 'k': 'c'},
                                                             {'at': .5, 'k': 'a'}, {'at': 6, 'k': 'b'}],
                           'beh': {'b': [b]}, 'order': order, 'item': .3, 'pre': .2, 'post': .2}
    if prop == 'C04':       # explicit keys of any text, unrelated to the argument
        for k1, k2 in (('', 'a'), ('', '0'), ('a', 'b'), ('None', '')):
            for s1 in ('x', k2):
                yield {'cfg': [3, 2, bt, 0], 'calls': [{'at': 0, 'k': k1, 'explicit': True, 's': s1}, {'at': 0, 'k': k2, 'explicit': True, 's': 'x'},
                                                       {'at': 3, 'k': k1, 'explicit': True, 's': 'y'}],
                       'beh': {}, 'order': 'fwd', 'item': .3, 'pre': .2, 'post': .2}
    if prop == 'C09':
        for ca in (.1, 1.05, 1.3, 1.6, 2.0):
            for who in (0, 1, 2):
                for ret in (0, 2):
                    calls = [{'at': 0, 'k': 'a'}, {'at': .05, 'k': 'a'}, {'at': .05, 'k': 'b'}, {'at': .9, 'k': 'a'},
                             {'at': 7, 'k': 'a'}, {'at': 7, 'k': 'b'}]
                    calls[who]['cancel'] = ca
                    yield {'cfg': [4, 2, bt, ret], 'calls': calls, 'beh': {}, 'order': 'fwd', 'item': .5, 'pre': .1,
                           'post': .3}
    if prop == 'C11':
        for ret in (0, .5, 2):
            for gap in (.1, .45, .55, 1.9, 2.1, 5):
                for b in ('value', 'exc', 'omit', 'raise'):
                    yield {'cfg': [3, 2, .5, ret], 'calls': [{'at': 0, 'k': 'a'}, {'at': .3, 'k': 'a'},
                                                             {'at': 1.0 + gap, 'k': 'a'}, {'at': 1.2 + gap, 'k': 'a'},
                                                             {'at': 1.0 + 2 * gap, 'k': 'a'}],
                           'beh': {'a': [b]}, 'order': 'fwd', 'item': .5, 'pre': 0, 'post': 0}
    if prop == 'C10':
        for mbs in (1, 2, 3):
            for mcb in (1, 2):
                for d in (0, 1.5, 4):
                    yield {'cfg': [mbs, mcb, bt, 0], 'calls': [{'at': t, 'k': k} for t, k in zip(
                        (0, 0, .5, 1.3, 1.4, 2.0, 2.1, 4.5, 4.6, 4.7, 6, 9), 'abcdefghijkl')], 'beh': {}, 'order': 'fwd',
                        'item': 0, 'pre': d, 'post': 0}
    while True:
        bt = rng.choice([.5, 1.0])
        n = rng.choice([3, 5, 8, 10] + ([12] if prop == 'C10' else []))
        keys = 'abcdefghijkl' if prop == 'C10' and rng.random() < .7 else rng.choice(['ab', 'abc', 'abcd'])
        t = 0
        calls = []
        for i in range(n):
            t += rng.choice([0, 0, 0, .1, bt * .5, bt * .9, bt * 1.1, bt * 2.3])
            c = {'at': round(t, 4), 'k': keys[i] if len(keys) == 12 else rng.choice(keys)}
            if rng.random() < .3:
                c['explicit'] = True
                if rng.random() < .5:
                    c['s'] = rng.choice(['x', 'a'])
            if prop == 'C09' and rng.random() < .45:
                c['cancel'] = round(t + rng.choice([0, .05, bt * .5, bt * 1.02, bt * 1.2, bt * 1.7, bt * 2.4]), 4)
            calls.append(c)
        if prop == 'C09':
            for k in sorted(set(c['k'] for c in calls)):
                calls.append({'at': round(t + 12, 4), 'k': k})
        beh = {}
        if rng.random() < .6 or prop == 'C04':
            for k in sorted(set(c['k'] for c in calls)):
                if rng.random() < .5:
                    beh[k] = [rng.choice(BEH) for _ in range(rng.choice([1, 2]))]
        P = {'cfg': [rng.choice([1, 2, 3, 4, 5]), rng.choice([1, 2, 3]), bt, rng.choice([0, 0, .7, 3])],
             'calls': calls, 'beh': beh, 'order': rng.choice(['fwd', 'rev', 'shuf']),
             'item': rng.choice([0, 0, .13, .37]), 'pre': rng.choice([0, 0, .23, bt * 1.6]),
             'post': rng.choice([0, .21, bt * 1.3]), 'form': rng.choice(['class', 'deco'])}
        if prop == 'C10' and rng.random() < .25:
            P['form'] = 'class'
            P['mutate'] = [[round(rng.uniform(0, max(t, 1)), 3), rng.choice([1, 2, 3, 5])] for _ in range(2)]
        yield P


def build(P):
    def scn(S):
        mod = sched.load('asyncio')
        mbs, mcb, bt, ret = P['cfg']
        batches, viol = [], []
        sizes = [(sched.BASE_TIME, mbs)]
        count = {}

        def v(p, m):
            viol.append((p, m))
        active = [0]

        async def func(batch):
            items = list(batch)
            b = {'items': items, 'start': S.now, 'end': None, 'yields': {}, 'raised': None, 'n': len(batches),
                 'busy': active[0]}
            batches.append(b)
            active[0] += 1
            if active[0] > mcb:
                v('C10', f'{active[0]} executions in progress, limit {mcb}')
            S.event('batch', [repr(a) for _, a in items])
            try:
                if P['pre']:
                    await aio.sleep(P['pre'])
                todo = list(items)
                if P['order'] == 'rev':
                    todo.reverse()
                elif P['order'] == 'shuf':
                    todo = todo[1::2] + todo[0::2]
                for k, a in todo:
                    if P['item']:
                        await aio.sleep(P['item'])
                    i = count[k] = count.get(k, -1) + 1
                    beh = (P['beh'].get(k) or ['value'])
                    beh = beh[i] if i < len(beh) else 'value'
                    if beh == 'omit':
                        continue
                    if beh == 'raise':
                        raise BErr(f'batch {b["n"]} failed at {k}')
                    if beh == 'raisebase':
                        raise BBase(f'batch {b["n"]} failed at {k}')
                    if beh == 'raisecancel':
                        raise aio.CancelledError(f'batch {b["n"]} failed at {k}')
                    if beh == 'unknown':
                        yield 'zzz', Val('zzz', i)
                    val = {'exc': BErr(f'yielded for {k}'), 'none': None, 'excval': BErr,
                           'stopiter': StopIteration(k), 'twicexc': BErr(f'first for {k}')}.get(beh, Val(k, i))
                    b['yields'].setdefault(k, (val, S.now))
                    yield k, val
                    if beh == 'twice':
                        yield k, Val(k, i)
                    if beh == 'twicexc':
                        yield k, BErr(f'second for {k}')
                if P['post']:
                    await aio.sleep(P['post'])
            except GeneratorExit:
                raise
            except BaseException as e:
                b['raised'] = e
                raise
            finally:
                b['end'] = S.now
                active[0] -= 1
                S.event('batch-end', b['n'], repr(b['raised']))

        calls = []

        async def one(batcher, rec, c):
            rec['a'] = S.now
            S.event('call', repr(rec['arg']))
            try:
                x = await (batcher(rec['arg'], key=c['k']) if c.get('explicit') else batcher(rec['arg']))
            except aio.CancelledError as e:
                rec['kind'], rec['x'] = ('cancel' if rec['cancelled'] else 'exc'), e
            except GeneratorExit:
                raise
            except BaseException as e:
                rec['kind'], rec['x'] = 'exc', e
            else:
                rec['kind'], rec['x'] = 'ret', x
            rec['t'] = S.now
            S.event('answer', repr(rec['arg']), rec['kind'], repr(rec['x']))

        async def main():
            kw = dict(max_batch_size=mbs, max_concurrent_batches=mcb, batch_timeout=bt, retention_timeout=ret)
            batcher = (mod.AsyncBackgroundBatcher(func, **kw) if P.get('form', 'class') == 'class'
                       else mod.async_background_batcher(func, **kw))
            loop = aio.get_running_loop()
            loop.set_exception_handler(lambda l, c: None)
            t0 = S.now
            tasks = []

            def setm(x):
                batcher.max_batch_size = x
                sizes.append((S.now, x))
            for at, x in P.get('mutate', ()):
                loop.call_at(t0 + at, setm, x)
            for i, c in enumerate(P['calls']):
                if c['at'] > S.now - t0:
                    await aio.sleep(t0 + c['at'] - S.now)
                rec = {'arg': Arg(c['k'], i, c.get('s')), 'k': c['k'], 'n': i, 'cancelled': False, 'kind': None, 'x': None, 'a': None,
                       't': None}
                calls.append(rec)
                t = loop.create_task(one(batcher, rec, c))
                tasks.append(t)
                if 'cancel' in c:
                    def do(t=t, rec=rec):
                        if not t.done():
                            rec['cancelled'] = True
                            t.cancel()
                    loop.call_at(t0 + c['cancel'], do)
            if tasks:
                await aio.wait(tasks, timeout=60 + len(tasks) * (P['pre'] + P['post'] + P['item']))
            await aio.sleep(.5)

        def body():
            loop = aio.new_event_loop()
            try:
                loop.run_until_complete(main())
            finally:
                for t in aio.all_tasks(loop):
                    t.cancel()
        S.spawn(body, 'main')

        def check(S):
            judge(P, batches, calls, sizes, v)
            return viol
        return check
    scn.problem_props = PROPS
    scn.schedules = False
    scn.lines = False
    return scn


def outcome(b, k):
    """What the batch function produced for key k in batch b: (kind, object) or None while undecided."""
    if k in b['yields']:
        val, t = b['yields'][k]
        return ('exc' if isinstance(val, Exception) else 'ret'), val, t
    if b['end'] is None:
        return None
    if b['raised'] is not None:
        return 'exc', b['raised'], b['end']
    return 'missing', None, b['end']


def agrees(rec, o):
    kind, val, t = o
    if kind == 'ret':
        return rec['kind'] == 'ret' and rec['x'] is val
    if kind == 'missing':
        return rec['kind'] == 'exc' and isinstance(rec['x'], Exception)
    if isinstance(val, StopIteration):
        return rec['kind'] == 'exc'
    if isinstance(val, aio.CancelledError):
        return rec['kind'] in ('exc', 'cancel') and isinstance(rec['x'], aio.CancelledError)
    return rec['kind'] == 'exc' and rec['x'] is val


def judge(P, batches, calls, sizes, v):
    mbs, mcb, bt, ret = P['cfg']
    any_cancel = any('cancel' in c for c in P['calls'])
    main = 'C09' if any_cancel else 'C04'
    where = {}
    seq = []
    for b in batches:
        if not b['items']:
            v('C10', 'empty batch')
        ks = [k for k, _ in b['items']]
        if len(set(ks)) != len(ks):
            v('C11', f'batch {b["n"]} carries a key twice: {ks}')
        for k, a in b['items']:
            if k != a.k:
                v('C04', f'argument {a!r} handed over with key {k!r}')
            if a in where:
                v('C11' if not any_cancel else 'C09', f'argument {a!r} handed to two batches')
            where[a] = b
            seq.append(a.n)
    # --- C10
    if seq != sorted(seq):
        v('C10', f'items not in arrival order: {seq}')
    byn = {c['n']: c for c in calls}
    orig = [c for c in calls if c['arg'] in where]
    for b in batches:
        if not b['items']:
            continue
        first = byn[b['items'][0][1].n]['a']
        last = byn[b['items'][-1][1].n]['a']
        inuse = [x for i, (t, x) in enumerate(sizes) if t <= b['start'] + 1e-9 and (i + 1 == len(sizes) or sizes[i + 1][0] >= first - bt - 1e-9)]
        if len(b['items']) > max(inuse):
            v('C10', f'batch {b["n"]} has {len(b["items"])} items, max_batch_size {max(inuse)}')
        due = last + bt
        if b['start'] > due + M:
            # every moment between due and start must have all slots taken
            t = due
            for o in sorted((o for o in batches if o is not b), key=lambda o: o['start']):
                pass
            pts = sorted({due} | {o['end'] for o in batches if o['end'] is not None and due - 1e-9 <= o['end'] < b['start'] - M})
            for p in pts:
                act = sum(1 for o in batches if o is not b and o['start'] <= p + 1e-9 and (o['end'] is None or o['end'] > p + 1e-9))
                if act < mcb:
                    v('C10', f'batch {b["n"]} (last arrival {last - sched.BASE_TIME:g}) started at '
                             f'{b["start"] - sched.BASE_TIME:g} though a slot was free at {p - sched.BASE_TIME:g}')
                    break
    if len(sizes) == 1:
        for x, y in zip(orig, orig[1:]):
            bx, by = where[x['arg']], where[y['arg']]
            if bx is not by and y['a'] - x['a'] < bt - M and len(bx['items']) < mbs:
                v('C10', f'{x["arg"]!r} and {y["arg"]!r} arrived {y["a"] - x["a"]:g}s apart but are in different batches '
                         f'(the first has {len(bx["items"])} of {mbs} items)')
    # --- C04 / C09
    for c in calls:
        if c['kind'] is None:
            if not c['cancelled']:
                v(main, f'call {c["arg"]!r} never completed')
            continue
        if c['kind'] == 'cancel' or (c['cancelled'] and c['kind'] == 'exc' and isinstance(c['x'], aio.CancelledError)):
            continue
        b = where.get(c['arg'])
        if b is not None:
            o = outcome(b, c['k'])
            if o is None or not agrees(c, o):
                v(main, f'call {c["arg"]!r} got {c["kind"]} {c["x"]!r}, the batch function produced {o}')
            elif c['t'] > (b['end'] if b['end'] is not None else 1e9) + M:
                v(main, f'call {c["arg"]!r} answered at {c["t"]} after its batch ended at {b["end"]}')
        else:
            cand = [(o, bb) for bb in batches for o in [outcome(bb, c['k'])]
                    if any(k == c['k'] for k, _ in bb['items']) and o is not None and o[2] >= c['a'] - ret - M]
            if not any(agrees(c, o) for o, _ in cand):
                v(main, f'call {c["arg"]!r} (never in a batch) got {c["kind"]} {c["x"]!r}, outcomes for its key: '
                        f'{[o for o, _ in cand]}')
            elif not any(agrees(c, o) and c['t'] <= max(bb['end'] if bb['end'] is not None else 1e9, c['a']) + M for o, bb in cand):
                v(main, f'call {c["arg"]!r} answered at {c["t"]}, long after the outcome for its key')
    # --- C11
    if not any_cancel:
        latest = {}
        for c in calls:
            if c['a'] is None:
                continue
            R = latest.get(c['k'])
            new = c['arg'] in where
            if R is None:
                share = False
            else:
                o = outcome(where[R['arg']], c['k'])
                done = o[2] if o is not None else None
                if done is None or c['a'] < done - M:
                    share = True
                elif ret > 0 and c['a'] < done + ret - M:
                    share = True
                elif c['a'] > done + ret + M:
                    share = False
                else:
                    share = None
            if share is True and new:
                v('C11', f'call {c["arg"]!r} added work although {R["arg"]!r} is pending or was answered less than {ret}s ago')
            if share is False and not new and c['kind'] is not None:
                v('C11', f'call {c["arg"]!r} caused no computation (answered {c["kind"]} {c["x"]!r}), retention {ret}')
            if not new and R is not None and c['kind'] is not None and share:
                o = outcome(where[R['arg']], c['k'])
                if o is not None and not agrees(c, o):
                    v('C11', f'call {c["arg"]!r} got {c["kind"]} {c["x"]!r}, not the outcome of {R["arg"]!r} {o}')
            if new:
                latest[c['k']] = c
