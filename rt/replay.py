"""Replay one recorded counterexample on the real code: exit 1 and print the violation if it (still) fails."""
import sys, os, json, importlib, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if 'params' not in rec:
        print(json.dumps(rec, indent=1))
        print('no concrete input in this file (failed proof obligation only)')
        os._exit(2)
    gc.disable()
    import sched, explore
    sched.install()
    g = importlib.import_module(rec['group'])
    vs, S = explore.run_once(g.build(rec['params']), {int(k): v for k, v in rec['schedule']})
    for e in S.log:
        print('  ', *e)
    bad = [m for p, m in vs if p == rec['property'] and m]
    print('\n'.join(f'VIOLATED {rec["property"]}: {m}' for m in bad) or 'holds')
    sys.stdout.flush()
    os._exit(1 if bad else 0)


main()
