#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. Deductive step: the contracts of every function the property depends on are checked against /repo's current source
   (dv/: instrumentation, path-wise verification conditions, z3).  Every obligation ends proved, refuted or undecided.
2. Executable step on the same source (rt/): a search of inputs and schedules of the real code.  It replays what the
   verifier refuted, stands in (bounded) for what the verifier left undecided, and validates the contracts otherwise.

Exit 1 and a VIOLATION line iff an obligation is refuted or the real code fails; 0 otherwise.
"""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'dv'))
from registry import GROUP, CONTRACTS
VT = os.environ.get('VERIF_VT', 'python3-vt')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('DV_ROOT', '/repo')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', DV_ROOT=REPO, VERIF_REPO=REPO)
T0 = time.time()


def contract_info(prop, tier):
    """Tasks, functions, assumptions and expected obligations of a property, from the contract files."""
    src = ('import sys, json, importlib\nsys.path.insert(0, sys.argv[1])\nout = []\n'
           'for m in json.loads(sys.argv[2]):\n'
           '    c = importlib.import_module(m)\n'
           '    p = sys.argv[3]\n'
           '    if p in c.PROPS:\n'
           '        out.append(dict(mod=m, tasks=[t[0] for t in c.tasks() if p in t[1] and (sys.argv[4] != "quick" or t[0] not in getattr(c, "THOROUGH", ()))], functions=c.FUNCTIONS.get(p, []),\n'
           '                        assumes=c.ASSUMES.get(p, []), expect=getattr(c, "EXPECT", {}).get(p, []),\n'
           '                        bounded=getattr(c, "BOUNDED", {}).get(p, [])))\n'
           'print(json.dumps(out))')
    r = subprocess.run([VT, '-c', src, os.path.join(HERE, 'dv'), json.dumps(CONTRACTS), prop, tier], capture_output=True, text=True, env=ENV)
    if r.returncode:
        return [], r.stderr[-800:]
    return json.loads(r.stdout.strip().splitlines()[-1]), None


def prove(mod, task, prop, limit):
    try:
        r = subprocess.run([VT, os.path.join(HERE, 'dv', 'run.py'), '--json', mod, task, str(limit), prop],
                           capture_output=True, text=True, env=ENV, timeout=limit * 1.5 + 60, preexec_fn=limits)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {'task': f'{mod}.{task}', 'paths': 0, 'cuts': 0, 'covered': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0,
                'obligations': {}, 'undecided': [f'verifier did not finish: {type(e).__name__} {str(e)[:200]}']}


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def search(prop, seed, tier, budget, nw=8):
    group = GROUP[prop]
    ps = []
    for w in range(nw):
        ps.append(subprocess.Popen([PY, os.path.join(HERE, 'rt', 'explore.py'), group, prop, '--seed', str(seed), '--wid', str(w),
                                    '--nw', str(nw), '--budget', str(budget), '--tier', tier], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, env=ENV, cwd='/tmp'))
    out = []
    for p in ps:
        try:
            o, e = p.communicate(timeout=budget * 2 + 90)
            out.append(json.loads(o.strip().splitlines()[-1]))
        except Exception as ex:
            p.kill()
            out.append({'error': f'{type(ex).__name__} {str(ex)[:100]}', 'bad': None, 'runs': 0, 'programs': 0,
                        'choice_points': 0, 'distinct': 0, 'exhaustive1': 0, 'samples': [], 'seconds': 0})
    return out


def confirm(path, n=2):
    """A found violation must fail again when replayed from its file."""
    for _ in range(n):
        try:
            r = subprocess.run([PY, os.path.join(HERE, 'rt', 'replay.py'), path], capture_output=True, text=True, env=ENV, timeout=120)
        except subprocess.TimeoutExpired:
            return False
        if r.returncode != 1:
            return False
    return True


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier == 'quick'
    info, err = contract_info(prop, tier)
    undecided, jobs = [], []
    if err:
        undecided.append(f'contract files: {err}')
    for c in info:
        jobs += [(c['mod'], t) for t in c['tasks']]
    limit = 240 if quick else 600
    with cf.ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(lambda j: prove(j[0], j[1], prop, limit), jobs))
    obl, refuted = {}, []
    for r in reps:
        undecided += [f'{r["task"]}: {u}' for u in r['undecided']]
        for n, o in r['obligations'].items():
            d = obl.setdefault(n, {'ok': 0, 'z3': 0, 'unknown': 0, 'refuted': 0, 'tasks': []})
            for k in ('ok', 'z3', 'unknown', 'refuted'):
                d[k] += o[k]
            d['tasks'].append(r['task'])
            if o['refuted']:
                refuted.append((r['task'], n, o['cases']))
    for c in info:
        for n in c['expect']:
            if n not in obl:
                undecided.append(f'{c["mod"]}: obligation {n} was never generated')
    # per (task, obligation): one obligation, discharged if proved on every path and the task was explored completely
    bad_tasks = {r['task'] for r in reps if r['undecided']}
    total = discharged = 0
    for r in reps:
        for n, o in r['obligations'].items():
            total += 1
            discharged += not o['refuted'] and not o['unknown'] and r['task'] not in bad_tasks
    # ---- executable step
    budget = 20 if quick else 240
    if quick and (undecided or not jobs):
        budget = 45
    if refuted:
        budget = 75 if quick else 300
    found = search(prop, seed, tier, budget)
    bads = [r['bad'] for r in found if r.get('bad')]
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines, viol = [], 0
    concrete = None
    for b in bads:
        p = os.path.join(rdir, f'{prop}-{hashlib.sha1(json.dumps(b, default=str, sort_keys=True).encode()).hexdigest()[:10]}.json')
        with open(p, 'w') as f:
            json.dump(dict(b, refuted_obligations=[[t, n] for t, n, _ in refuted]), f, indent=1, default=str)
        if confirm(p):
            concrete = p
            print(f'{prop}: {b["message"]}')
            break
    if concrete:
        viol = 1
        for t, n, cs in refuted[:5]:
            print(f'refuted obligation {n} in {t}: {cs[0]["message"] if cs else ""}')
        lines.append(f'VIOLATION property={prop} replay={concrete}')
    elif refuted:
        viol = 1
        p = os.path.join(rdir, f'{prop}-obligation.json')
        with open(p, 'w') as f:
            json.dump({'property': prop, 'refuted': [{'task': t, 'obligation': n, 'verifier_output': cs} for t, n, cs in refuted]},
                      f, indent=1, default=str)
        for t, n, cs in refuted[:5]:
            print(f'refuted obligation {n} in {t}: {cs[0]["message"] if cs else ""}')
        lines.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    for u in [u for u in undecided if 'stopped: refuted' not in u][:8]:
        print('undecided:', u[:300])
    proved = bool(total) and discharged == total and not undecided and not refuted
    runs = sum(r['runs'] for r in found)
    assumes = [a for c in info for a in c['assumes']] + BASE_ASSUMES
    cov = {
        'obligations': total, 'discharged': discharged, 'checker_cmd': f'{VT} dv/run.py --json <contract> <task> (z3 back end)',
        'trusted_base': TRUSTED + assumes,
        'functions_under_contract': sorted({f for c in info for f in c['functions']}),
        'instances': sum(o['ok'] for o in obl.values()), 'instances_by_solver': sum(o['z3'] for o in obl.values()),
        'branch_and_cover_queries': sum(r['queries'] for r in reps), 'solver_time_s': round(sum(r['solver_s'] for r in reps), 3),
        'paths': sum(r['paths'] for r in reps), 'cut_point_states': sum(r['cuts'] - r['covered'] for r in reps),
        'by_obligation': obl, 'tasks': [{k: r[k] for k in ('task', 'paths', 'cuts', 'covered', 'queries', 'solver_s', 'wall_s')} for r in reps],
        'undecided': undecided[:20], 'bounded_stand_ins': [b for c in info for b in c['bounded']],
        'evaluations': runs, 'distinct_nontrivial': sum(r['distinct'] for r in found),
        'rule': 'executable step: one evaluation = one program of the scenario group under one schedule of the real code; '
                'distinct = different (program, observed event log) pairs',
        'samples': [s for r in found for s in r['samples']][:4],
        'executable_step': {'programs': sum(r['programs'] for r in found), 'choice_points': sum(r['choice_points'] for r in found),
                            'programs_with_every_single_deviation_explored': sum(r['exhaustive1'] for r in found),
                            'errors': [r['error'] for r in found if r.get('error')]},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved or refuted else 'exploration',
          'coverage': cov, 'assumptions': assumes, 'wall_s': round(time.time() - T0, 1), 'violations': viol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop}: obligations {discharged}/{total} discharged ({cov["instances"]} instances, {cov["paths"]} paths, '
          f'{cov["cut_point_states"]} invariant states), undecided {len(undecided)}, refuted {len(refuted)}; '
          f'executable step: {runs} runs of the real code; {ev["wall_s"]}s')
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)


TRUSTED = ['CPython executes the instrumented code as it executes the original (instrumentation is mechanical, dv/instrument.py)',
           'the engine (dv/engine.py, dv/focus.py) and z3',
           'machine floats and clock values treated as mathematical reals']
BASE_ASSUMES = ['contract models of the standard library in the dv/c_*.py files describe it faithfully']

if __name__ == '__main__':
    main()
