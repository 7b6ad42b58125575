"""Run proof tasks.   python3-vt run.py CONTRACT [TASK...]            development report
                      python3-vt run.py --json CONTRACT TASK SECONDS  one task, JSON report"""
import os, sys, time, importlib, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)
import engine, core


def run_task(mod, name, max_time=float(os.environ.get("DV_LIMIT", "120")), max_paths=10**9, props=()):
    c = importlib.import_module(mod)
    t = [x for x in c.tasks() if x[0] == name][0]
    eng = engine.Engine(f'{mod}.{name}', core.ROOT, max_time=max_time, max_paths=max_paths, props=props)
    eng.bfs = getattr(c, 'BFS', False)
    return eng.explore(t[2])


def as_json(r, t):
    return {'task': r.name, 'paths': r.paths, 'cuts': r.cuts, 'covered': r.covered, 'queries': r.queries,
            'solver_s': round(r.solver_time, 3), 'wall_s': round(t, 2), 'undecided': r.undecided[:30],
            'obligations': {o.name: {'ok': o.ok, 'z3': o.z3, 'unknown': o.unknown, 'refuted': len(o.bad),
                                     'cases': [b for b in o.bad if b][:2]} for o in r.obl.values()}}


def main():
    if sys.argv[1] == '--json':
        t = time.time()
        try:
            r = run_task(sys.argv[2], sys.argv[3], float(sys.argv[4]), props=sys.argv[5:])
            out = as_json(r, time.time() - t)
        except BaseException as e:
            import traceback
            out = {'task': f'{sys.argv[2]}.{sys.argv[3]}', 'paths': 0, 'cuts': 0, 'covered': 0, 'queries': 0, 'solver_s': 0,
                   'wall_s': 0, 'obligations': {}, 'undecided': [f'engine failed: {e!r} {traceback.format_exc()[-600:]}']}
        print(json.dumps(out))
        sys.stdout.flush()
        os._exit(0)
    mod = sys.argv[1]
    c = importlib.import_module(mod)
    for name, props, _ in c.tasks():
        if len(sys.argv) > 2 and name not in sys.argv[2:]:
            continue
        t = time.time()
        r = run_task(mod, name)
        print(f'== {name} {props}: paths {r.paths} cuts {r.cuts} covered {r.covered} queries {r.queries} solver {r.solver_time:.1f}s total {time.time()-t:.1f}s')
        for o in r.obl.values():
            print(f'   {o.name}: ok {o.ok} z3 {o.z3} bad {len(o.bad)} unknown {o.unknown}')
            for b in o.bad[:1]:
                print('      ', b['message'], '\n       ', '; '.join(b['path']), '\n       ', b['where'][:4], b['model'] or '')
        for u in r.undecided[:6]:
            print('   UNDECIDED', u)
    os._exit(0)


if __name__ == '__main__':
    main()
