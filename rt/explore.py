"""Search of schedules for concrete programs on the real code; every finding is replayable.

A group module defines
    PROPS                    ids it can judge
    programs(prop, rng, tier) -> iterator of JSON-able parameter dicts (endless or finite)
    build(params)            -> scn(S) -> check(S) -> [(property, message), ...]
Every run = (params, schedule); both are written to the replay file.
"""
import gc, random, os, sys, json, importlib
import sched

_now = sched._real_mono


def run_once(scn, schedule=None, rng=None, p=0.0):
    S = sched.Sched(dict(schedule or {}), max_steps=getattr(scn, 'max_steps', 60000),
                    max_time=getattr(scn, 'max_time', 2000.0), lines=getattr(scn, 'lines', True))
    S.rng, S.p = rng, p
    sched.S = S
    try:
        check = scn(S)
        S.run()
    finally:
        sched.S = None
    vs = list(check(S))
    if S.problem is not None and not any(m for _, m in vs):
        for pr in getattr(scn, 'problem_props', ()):
            vs.append((pr, f'{S.problem[0]}: {S.problem[1]} {S.problem[2][-1200:]}'))
    return vs, S


class Stats:
    def __init__(self):
        self.runs = self.choice_points = self.programs = self.exhaustive1 = 0
        self.distinct = set()
        self.samples = []

    def note(self, params, S):
        self.runs += 1
        self.choice_points += len(S.options)
        self.distinct.add(hash((str(params), tuple(map(str, S.log)))))
        if len(self.samples) < 2 or (len(self.samples) < 4 and self.runs % 97 == 0):
            self.samples.append({'program': params, 'schedule': sorted(S.schedule.items())[:6],
                                 'events': [list(map(str, e)) for e in S.log[:10]]})


def explore(params, scn, props, st, deadline, rng, depth=1, rand=10, cap=400):
    """First violation (of props) as (prop, message, schedule) or None."""
    st.programs += 1
    n = 0

    def go(schedule, r=None, pp=0.0):
        nonlocal n
        n += 1
        vs, S = run_once(scn, schedule, r, pp)
        st.note(params, S)
        if st.runs % 128 == 0:
            gc.collect()
        for pr, m in vs:
            if pr in props and m:
                sch = dict(S.schedule)
                vs2, _ = run_once(scn, sch)
                for pr2, m2 in vs2:
                    if pr2 == pr and m2:
                        return (pr, m2, sch), S
        return None, S

    bad, S = go({})
    if bad:
        return bad
    if not getattr(scn, 'schedules', True) or not S.options:
        return None
    if depth >= 1:
        opts = S.options
        pts = [(i, a) for i, k in enumerate(opts) for a in range(1, k)]
        rng.shuffle(pts)
        complete = len(pts) <= cap
        level2 = []
        for i, a in pts[:cap]:
            if _now() > deadline:
                complete = False
                break
            bad, S = go({i: a})
            if bad:
                return bad
            level2.append(((i, a), S.options))
        st.exhaustive1 += complete
        for k in range(rand):
            if _now() > deadline:
                return None
            bad, S = go({}, random.Random(rng.random()), rng.choice([.03, .1, .4]))
            if bad:
                return bad
        if depth >= 2 and level2:
            for _ in range(cap):
                if _now() > deadline:
                    return None
                (i, a), o = rng.choice(level2)
                later = [(j, b) for j in range(i + 1, len(o)) for b in range(1, o[j])]
                if not later:
                    continue
                j, b = rng.choice(later)
                r = random.Random(rng.random()) if rng.random() < .3 else None
                bad, S = go({i: a, j: b}, r, .03)
                if bad:
                    return bad
    return None


def worker(group, prop, seed, wid, nw, budget, tier, hints=None):
    """Explore programs number wid, wid+nw, ... until the budget is used; returns a JSON-able report."""
    gc.disable()
    sched.install()
    g = importlib.import_module(group)
    st = Stats()
    t0 = _now()
    deadline = t0 + budget
    rng = random.Random(f'{seed}/{group}/{prop}/{wid}')
    bad = None
    known = 0
    for i, params in enumerate(g.programs(prop, random.Random(f'{seed}/{group}/{prop}'), tier)):
        if _now() > deadline:
            break
        if i % nw != wid:
            continue
        scn = g.build(params)
        d = getattr(scn, 'depth', 1 if tier == 'quick' else 2)
        bad = explore(params, scn, {prop}, st, deadline, rng, depth=d,
                      rand=getattr(scn, 'rand', 6), cap=getattr(scn, 'cap', 150 if tier == 'quick' else 600))
        if bad:
            bad = {'property': bad[0], 'message': bad[1], 'schedule': sorted(bad[2].items()), 'params': params,
                   'group': group}
            break
    getattr(g, 'cleanup', lambda: None)()
    return {'bad': bad, 'runs': st.runs, 'programs': st.programs, 'choice_points': st.choice_points,
            'distinct': len(st.distinct), 'exhaustive1': st.exhaustive1, 'samples': st.samples,
            'seconds': round(_now() - t0, 2)}


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('group')
    ap.add_argument('prop')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--wid', type=int, default=0)
    ap.add_argument('--nw', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    a = ap.parse_args()
    rep = worker(a.group, a.prop, a.seed, a.wid, a.nw, a.budget, a.tier)
    s = json.dumps(rep, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(s)
    else:
        print(s)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
