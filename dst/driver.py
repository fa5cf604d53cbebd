"""
Entry point of the checks.  driver.py ID [--groups N] [--workers N] [--only GROUP]   |   driver.py --replay FILE

The search is a function of VERIF_SEED: group i of a property is generated from the PRNG seeded with (property, seed, i),
and the reported violation is the one of the lowest group, whatever the number of workers.
"""
import sys, os, json, time, random, hashlib, mmap, struct, select, subprocess, signal, traceback, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def clock(): return time.perf_counter()

def nontrivial(prop, res):
    f = res['fired']
    cb = sum(v for k, v in f.items() if k.startswith('callback '))
    other = sum(v for k, v in f.items() if not k.startswith('callback ') and k != 'preemption')
    pre = f.get('preemption', 0)
    ops, ok = res['ops'], res['okops']
    return bool({'C01': pre, 'C02': ok and (cb or other or ok < ops), 'C03': cb, 'C04': cb, 'C05': cb or other, 'C06': other, 'C07': cb or other or pre,
                 'C08': ops > 1 or cb, 'C09': res['calls_made'], 'C10': ops > 1, 'C11': res['opened'], 'C12': ops, 'C13': other and ok, 'C14': res['opened']}[prop])


def worker(prop, seed, w, n, groups, stop, out, cap):
    from . import props, runner
    P = props.PROPS[prop]
    k = P.k
    known = load_known(prop)
    for i in range(w, groups, n):
        if struct.unpack('q', stop[:8])[0] < i: continue
        if clock() > cap: out({'skipped': i}); continue
        rng = random.Random('%s:%d:%d' % (prop, seed, i))
        agg = {'group': i, 'cases': 0, 'runs0': runner.RUNS, 'fired': {}, 'steps': 0, 'clock': 0.0, 'ops': 0, 'okops': 0, 'inter': [], 'nt': [], 'known': [], 'sample': None, 'lines': 0, 'limits': 0}
        found = None
        try:
            for j, (scn, given) in enumerate(P.gen(rng, k)):
                res = given if isinstance(given, dict) else runner.run_case(scn, given)
                agg['cases'] += 1
                for a, b in res['fired'].items(): agg['fired'][a] = agg['fired'].get(a, 0) + b
                for key in ('steps', 'clock', 'ops', 'okops'): agg[key] += res[key]
                if res.get('switches'): agg['inter'].append(res['inter'])
                if nontrivial(prop, res):
                    agg['nt'].append(hashlib.md5(json.dumps([scn, res['inter']], sort_keys=True).encode()).hexdigest()[:16])
                    if agg['sample'] is None and i < n: agg['sample'] = scn
                for v in res['violations']:
                    if v['kind'] not in P.kinds: continue
                    kf = match_known(known, scn, v)
                    if kf: agg['known'].append(kf['id']); continue
                    found = {'group': i, 'case': j, 'scenario': scn, 'violation': v, 'digest': res['digest']}
                    break
                if found: break
        except runner.HarnessError as ex:
            out({'harness': str(ex), 'group': i}); break
        except Exception:
            out({'harness': traceback.format_exc(), 'group': i}); break
        agg['runs'] = runner.RUNS - agg.pop('runs0')
        out(agg)
        if found:
            cur = struct.unpack('q', stop[:8])[0]
            if i < cur: stop[:8] = struct.pack('q', i)
            out({'found': found})
    runner.stop_zygotes()


def load_known(prop=None):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('{'): continue
            d = json.loads(l)
            if d.get('status') == 'known' and (prop is None or d['property'] == prop): out.append(d)
    return out

def match_known(known, scn, v):
    if not known: return None
    text = describe(scn) + '\n' + v['detail']
    for d in known:
        m = d['match']
        if m.get('kind') in (None, v['kind']) and all(re.search(x, text) for x in m.get('all', ())) and re.search(m.get('detail', ''), v['detail']): return d
    return None


def describe(scn):
    """A case in readable form."""
    from . import world
    ren = world.all_renames(scn)
    out = []
    for i, d in enumerate(scn.get('docs', ())): out.append('--- tree D%d\n%s' % (i, world.script(d['ir'], d.get('step', '    '), 'imp', dict(ren, **d.get('ren') or {}))))
    for m in scn.get('modules', {}).values(): out.append('--- module %s\n%s' % (m['path'], world.module_text(scn, m)))
    for ti, t in enumerate(scn.get('tasks', ())):
        for oi, o in enumerate(t['ops']):
            head = '--- %s%d %s' % (chr(65 + ti), oi, o['k'])
            if o['k'] == 'render' or o['k'] == 'trans':
                out.append(head + ' plan=%s\n' % json.dumps(o.get('plan')) + (o['text'] if 'text' in o else world.script(o['ir'], o.get('step', '    '), o.get('how', 'ctx'), dict(ren, **o.get('ren') or {}))))
            else: out.append(head + ' ' + json.dumps({k: v for k, v in o.items() if k not in ('k', 'text')}) + ('\n' + o['text'] if 'text' in o else ''))
    for k in ('sched', 'fsfaults', 'short', 'warm', 'nrt', 'ambients', 'resolve', 'cwd', 'absent', 'name'):
        if scn.get(k): out.append('%s: %s' % (k, json.dumps(scn[k])))
    for p, c in scn.get('files', {}).items():
        if c and scn.get('world') != 'obj': out.append('--- file %s\n%s' % (p, c))
    return '\n'.join(out)


def setup():
    from . import seam
    seam.patch(); seam.load()


def main(argv):
    if argv[0] == '--replay': return replay(argv[1])
    if argv[0] == '--selftest': return selftest()
    if argv[0] == '--digests': return digests(argv[1:])
    if argv[0] == '--determinism': return determinism(argv[1:])
    prop = argv[0]
    opt = dict(zip(argv[1::2], argv[2::2]))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = opt.get('--tier') or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    start = clock()
    setup()
    from . import props, runner
    P = props.PROPS[prop]
    groups = int(opt.get('--groups', P.groups[tier == 'thorough']))
    n = int(opt.get('--workers', min(8, os.cpu_count() or 1)))
    cap = start + float(opt.get('--cap', 480 if tier == 'quick' else 7200))
    stop = mmap.mmap(-1, 8)
    stop[:8] = struct.pack('q', 1 << 60)
    pipes = {}
    for w in range(n):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for q in pipes: os.close(q)
                def out(d):
                    b = (json.dumps(d) + '\n').encode()
                    while b: b = b[os.write(wr, b):]
                worker(prop, seed, w, n, groups, stop, out, cap)
            except BaseException:
                traceback.print_exc(); code = 3
            os._exit(code)
        os.close(wr)
        pipes[r] = [pid, b'']
    aggs, founds, harness, skipped = [], [], [], 0
    bad_exit = []
    while pipes:
        rd, _, _ = select.select(list(pipes), [], [], 5)
        for r in rd:
            x = os.read(r, 1 << 16)
            if not x:
                pid = pipes.pop(r)[0]
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if st: bad_exit.append(st)
                continue
            pipes[r][1] += x
            *ls, pipes[r][1] = pipes[r][1].split(b'\n')
            for l in ls:
                d = json.loads(l.decode())
                if 'found' in d: founds.append(d['found'])
                elif 'harness' in d: harness.append(d)
                elif 'skipped' in d: skipped += 1
                else: aggs.append(d)
    search = clock() - start
    found = min(founds, key=lambda f: (f['group'], f['case'])) if founds else None
    if found is None and (harness or bad_exit):
        for h in harness[:3]: print('HARNESS ERROR in group %s:\n%s' % (h['group'], h['harness']))
        if bad_exit: print('worker ended with status', bad_exit)
        return 2
    code = 0
    path = None
    if found:
        path, ok = report(prop, seed, tier, found, P, 60)
        if not ok:
            print('HARNESS ERROR: the violation found in group %d, case %d is not reproducible: %s' % (found['group'], found['case'], found['violation']))
            code = 2
        else: code = 1
    evidence(prop, tier, seed, P, aggs, skipped, search, clock() - start, code, found)
    seen = {}
    for a in aggs:
        for x in a['known']: seen[x] = seen.get(x, 0) + 1
    for d in load_known(prop): print('KNOWN-FINDING: property=%s %s (met %d times in this run)' % (prop, d['what'], seen.get(d['id'], 0)))
    if code == 0:
        print('%s holds: %d cases, %d simulated runs, %d groups%s, %.0f s' % (prop, sum(a['cases'] for a in aggs), sum(a['runs'] for a in aggs), len(aggs), ', %d groups skipped at the time limit' % skipped if skipped else '', clock() - start))
    elif code == 1:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return code


def report(prop, seed, tier, found, P, seconds):
    """Minimise, write the replay file, confirm it in new processes."""
    from . import runner, shrink
    v = found['violation']
    def fails(s):
        try: res = runner.run_case(s)
        except runner.HarnessError: return False
        except Exception: return False
        return any(x['kind'] == v['kind'] for x in res['violations'])
    scn = found['scenario']
    tried = 0
    if v['kind'] != 'hang' and fails(scn):
        small, tried = shrink.shrink(scn, fails, seconds)
    else: small = scn
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (prop, seed, found['group']))
    for cand in (small, scn):
        try: res = runner.run_case(cand)
        except runner.HarnessError: continue
        vs = [x for x in res['violations'] if x['kind'] in P.kinds]
        if not vs: continue
        doc = {'property': prop, 'seed': seed, 'tier': tier, 'group': found['group'], 'case': found['case'], 'shrink_steps': tried, 'violation': vs[0], 'digest': res['digest'],
               'replay': './check --replay ' + path, 'readable': describe(cand).split('\n'), 'scenario': cand}
        with open(path, 'w') as f: json.dump(doc, f, indent=1, ensure_ascii=False)
        oks = []
        for _ in range(2):
            r = subprocess.run([PY, '--jit', 'off', '-B', '-m', 'dst.driver', '--replay', path], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            oks.append(r.returncode == 1)
        if all(oks):
            print('violation: %s: %s' % (vs[0]['kind'], vs[0]['detail']))
            print(describe(cand)[:6000])
            return path, True
    return path, False


def replay(path):
    doc = json.load(open(path))
    setup()
    from . import runner, props
    res = runner.run_case(doc['scenario'])
    runner.stop_zygotes()
    vs = [x for x in res['violations'] if x['kind'] in props.PROPS[doc['property']].kinds]
    print(describe(doc['scenario']))
    for v in vs: print('violation: %s: op %s: %s' % (v['kind'], v['op'], v['detail']))
    same = res['digest'] == doc['digest']
    print('execution digest %s (%s)' % (res['digest'], 'identical to the recorded one' if same else 'recorded: %s' % doc['digest']))
    if vs:
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1 if same else 3
    print('no violation')
    return 0


def selftest():
    """Is everything there that the checks need?"""
    setup()
    from . import props, runner
    res = runner.run_world({'world': 'std', 'tasks': [{'ops': [{'k': 'render', 'text': 'p | {1 + 1}', 'free': 1}]}]})
    out = res['outcomes'].get('A0')
    print('simulator ready (%d properties); p | {1 + 1} gives %s' % (len(props.PROPS), json.dumps(out)))
    return 0


def digests(argv):
    """Digests of the first cases of some groups of a property, for comparison between processes."""
    prop, lo, hi = argv[0], int(argv[1]), int(argv[2])
    setup()
    from . import props, runner
    P = props.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for i in range(lo, hi):
        for j, (scn, given) in enumerate(P.gen(random.Random('%s:%d:%d' % (prop, seed, i)), P.k)):
            res = given if isinstance(given, dict) else runner.run_case(scn, given)
            print(prop, i, j, hashlib.md5(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12], res['digest'], len(res['violations']), flush=True)
    runner.stop_zygotes()
    return 0


def determinism(argv):
    """determinism [GROUPS] [PROPERTY...]: every case twice, in different interpreters with different hash seeds."""
    from . import props
    n = int(argv[0]) if argv else 8
    ids = argv[1:] or sorted(props.PROPS)
    cases = bad = 0
    for prop in ids:
        step = max(1, n // 4)
        procs = []
        for hs in ('0', '77'):
            for lo in range(0, n, step):
                procs.append((hs, lo, subprocess.Popen([PY, '--jit', 'off', '-B', '-m', 'dst.driver', '--digests', prop, str(lo), str(min(n, lo + step))], cwd=HERE, env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE)))
        outs = {(hs, lo): p.communicate()[0].decode().splitlines() for hs, lo, p in procs}
        for lo in range(0, n, step):
            a, b = outs['0', lo], outs['77', lo]
            cases += len(a)
            if a != b:
                d = [(x, y) for x, y in zip(a, b) if x != y]
                bad += max(1, len(d))
                print('DIFFERENT', len(a), len(b), d[:3])
        print(prop, cases, 'cases so far,', bad, 'different', flush=True)
    return 1 if bad else 0


STUBS = ['file system under /sim and the current folder (in-memory simulation with faults; relative paths and /sim only, everything else is the real disk)', 'threads are real threads, released one at a time by the seeded scheduler; threading.Lock/RLock are simulated',
         'clock, sleep, process and thread identity, os.urandom, seed of the random module: simulated', 'user code (functions, iterators, objects, external tags): driven by a fault plan', 'finder of Python packages under /sim/py']
REAL = ['hypertag.core (grammar, ast, dom, tag, structs, runtime), hypertag.std, hypertag.html, hypertag.builtins, hypertag.django.backend: the code of /repo/src, unmodified', 'parsimonious, six, Django template base classes', 'PyPy interpreter (without JIT, so that executions are repeatable)']


def evidence(prop, tier, seed, P, aggs, skipped, search, wall, code, found):
    fired, inter, nt = {}, set(), set()
    for a in aggs:
        for k, v in a['fired'].items(): fired[k] = fired.get(k, 0) + v
        inter.update(a['inter']); nt.update(a['nt'])
    cases = sum(a['cases'] for a in aggs); runs = sum(a['runs'] for a in aggs)
    samples = [{'group': a['group'], 'case': describe(a['sample']).split('\n')[:80]} for a in sorted(aggs, key=lambda a: a['group']) if a['sample']][:3]
    if found: samples.insert(0, {'violation': found['violation']})
    cov = {'evaluations': cases, 'distinct_nontrivial': len(nt), 'rule': P.rule + '. One evaluation is one case; cases are distinct if their scenario (programs, plans, faults, schedule) or their executed interleaving differ.',
           'samples': samples or [{'note': 'no non-trivial case'}], 'simulated_runs': runs, 'groups': len(aggs), 'groups_skipped_at_time_limit': skipped,
           'runs_per_hour': int(runs / max(search, .001) * 3600), 'seeds_per_hour': int(len(aggs) / max(search, .001) * 3600), 'seeds': 'VERIF_SEED=%d, groups 0..%d' % (seed, max([a['group'] for a in aggs] or [0])),
           'simulated_time_s': round(sum(a['clock'] for a in aggs), 3), 'engine_steps_executed': sum(a['steps'] for a in aggs), 'operations': sum(a['ops'] for a in aggs), 'operations_successful': sum(a['okops'] for a in aggs),
           'faults_and_events_injected': dict(sorted(fired.items())), 'distinct_interleavings': len(inter), 'interleaving_measure': 'hash of the sequence of switches between threads: (from, to, place of code)',
           'real_components': REAL, 'stubbed_components': STUBS}
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': 1 if code == 1 else 0,
           'assumptions': ['Preemption between bytecodes of engine code is modelled at executed lines (and at opcodes within a chosen line); code of libraries runs without preemption.', 'The tested interpreter is the one of the repository\'s test environment (PyPy 3.9), with the JIT off.']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(doc, f, indent=1, ensure_ascii=False)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
