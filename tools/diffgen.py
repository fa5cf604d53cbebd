"""Compares the engine with the model on generated programs:  python tools/diffgen.py PROP FROM TO  (prints the scripts of mismatches)."""
import sys, os, random, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import driver
driver.setup()
from dst import props, runner, world

def one(a):
    prop, i = a
    P = props.PROPS[prop]
    rng = random.Random('%s:%s:%d' % (prop, os.environ.get('VERIF_SEED', '1'), i))
    out = []
    n = okops = ops = 0
    for j, (scn, given) in enumerate(P.gen(rng, P.k)):
        res = given if isinstance(given, dict) else runner.run_case(scn, given)
        n += 1; okops += res.get('okops', 0); ops += res.get('ops', 0)
        for v in res['violations']:
            if v['kind'] in P.kinds:
                txt = []
                for m, d in scn.get('modules', {}).items(): txt.append('--- %s %s\n%s' % (m, d['path'], world.module_text(scn, d)))
                for ti, t in enumerate(scn['tasks']):
                    for oi, o in enumerate(t['ops']):
                        w = world.World.__new__(world.World); w.scn = scn
                        if 'ir' in o or 'text' in o: txt.append('--- op %d.%d\n%s\nPLAN %s' % (ti, oi, w.op_script(o), o.get('plan')))
                out.append((i, j, v, '\n'.join(txt)))
                break
        if out: break
    return n, ops, okops, out

if __name__ == '__main__':
    prop, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    n = ops = ok = bad = 0
    for i in range(a, b):
        c, o, k, out = one((prop, i))
        n += c; ops += o; ok += k
        for i, j, v, t in out:
            bad += 1
            print('GROUP', i, 'CASE', j, v, '\n' + t + '\n' + '=' * 80)
    print(prop, 'cases', n, 'ops', ops, 'ok', ok, 'mismatching groups', bad)
    runner.stop_zygotes()
