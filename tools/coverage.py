"""Lines of the engine that are executed by the cases of the properties: coverage.py [GROUPS] [ID...]   (run from /verif, with the tested interpreter)"""
import sys, os, random, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import driver
driver.setup()
from dst import props, runner, sched

def lines(code, acc):
    import dis
    for _, l in dis.findlinestarts(code): acc.add(l)
    for c in code.co_consts:
        if hasattr(c, 'co_code'): lines(c, acc)

n = int(sys.argv[1]) if len(sys.argv) > 1 else 3
hit = {}
for pid in sys.argv[2:] or sorted(props.PROPS):
    P = props.PROPS[pid]
    for i in range(n):
        rng = random.Random('1:%s:%d' % (pid, i))
        for j, (scn, given) in enumerate(P.gen(rng, 3)):
            if scn.get('mode') == 'scale': continue
            s = dict(scn); s.pop('sched', None)
            r = runner.run_world(s, profile=True)
            for tab in (r.get('profiles') or {}).values():
                for f, l, c in tab: hit.setdefault(f, set()).add(l)
runner.stop_zygotes()
for f in ('core/ast.py', 'core/dom.py', 'core/runtime.py', 'core/structs.py', 'core/tag.py', 'core/grammar.py', 'django/backend.py', 'django/filters.py', 'std/builtins.py', 'std/html.py', 'std/registry.py', 'nifty/parsing.py'):
    src = open(sched.ROOT + f).read()
    body = set()
    top = compile(src, f, 'exec')
    for c in top.co_consts:
        if hasattr(c, 'co_code'):
            for d in c.co_consts:
                if hasattr(d, 'co_code'): lines(d, body)
            if c.co_name and not c.co_name[0].isupper(): lines(c, body)
    miss = sorted(body - hit.get(f, set()))
    print('== %s: %d of %d lines' % (f, len(body) - len(miss), len(body)))
    ls = src.split('\n')
    if os.environ.get('SHOW'):
        for l in miss: print('   %5d %s' % (l, ls[l - 1]))
