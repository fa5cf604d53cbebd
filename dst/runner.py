"""
Executes cases. A case is one scenario; to judge it, one or several simulated runs are made, each of them in its own
process forked from a pristine interpreter in which the engine is imported, but nothing has been rendered yet.
"""
import os, sys, json, time, select, signal, resource, traceback, gc

from . import world

TIMEOUT = 60            # wall-clock seconds before a simulated run is given a second, longer chance
TIMEOUT2 = 240
MEMORY = 12 << 30

RUNS = 0                # simulated runs made by this process


def worlds():
    from . import worlds as w
    return w.WORLDS


def in_child(fn, timeout):
    """Run fn() in a forked process. Returns ('ok', result) | ('signal', n) | ('timeout', None) | ('error', text)"""
    global RUNS
    RUNS += 1
    sys.stdout.flush(); sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try: data = {'ok': fn()}
            except BaseException: data = {'error': traceback.format_exc()}
            b = json.dumps(data).encode()
            while b: b = b[world._write(w, b):]
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    end = time.monotonic() + timeout
    buf = []
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0: timed_out = True; break
        rd, _, _ = select.select([r], [], [], left)
        if not rd: timed_out = True; break
        x = os.read(r, 1 << 16)
        if not x: break
        buf.append(x)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return 'timeout', None
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return 'signal', os.WTERMSIG(st)
    try: data = json.loads(b''.join(buf).decode())
    except ValueError: return 'error', 'child ended with status %s and no result' % st
    if 'error' in data: return 'error', data['error']
    return 'ok', data['ok']


class HarnessError(Exception):
    pass


def run_world(scn, **kw):
    """One simulated run. Returns its result; a crash or hang is a result with a violation."""
    cls = worlds()[scn.get('world', 'std')]
    fn = lambda: cls(scn, **kw).run()
    st, res = in_child(fn, TIMEOUT)
    if st == 'timeout': st, res = in_child(fn, TIMEOUT2)
    if st == 'ok': return res
    if st == 'signal':
        return {'dead': 'crash', 'violations': [{'kind': 'crash', 'op': None, 'detail': 'the process was killed by signal %d' % res}], 'fired': {}, 'steps': 0, 'clock': 0, 'outcomes': {}, 'opsteps': {}, 'logs': {}, 'ops': 0, 'okops': 0, 'calls_made': 0, 'opened': 0, 'inter': '-', 'digest': 'crash', 'switches': 0}
    if st == 'timeout':
        return {'dead': 'hang', 'violations': [{'kind': 'hang', 'op': None, 'detail': 'the run did not end within %d s of real time' % TIMEOUT2}], 'fired': {}, 'steps': 0, 'clock': 0, 'outcomes': {}, 'opsteps': {}, 'logs': {}, 'ops': 0, 'okops': 0, 'calls_made': 0, 'opened': 0, 'inter': '-', 'digest': 'hang', 'switches': 0}
    raise HarnessError(res)


def parser_root():
    import parsimonious
    return os.path.dirname(os.path.abspath(parsimonious.__file__)) + '/'


def op_uid(ti, oi, op): return op.get('uid') or '%s%d' % (chr(65 + ti), oi)


def references(scn, cache=None):
    """Outcome of every operation executed alone in a new process on a new runtime."""
    refs, steps = {}, {}
    for ti, task in enumerate(scn['tasks']):
        for oi, op in enumerate(task['ops']):
            if op['k'] in world.ENV_OPS or op.get('free'): continue
            uid = op_uid(ti, oi, op)
            res = run_world(scn, only=(ti, oi))
            if res.get('dead') or uid not in res['outcomes']: refs[uid] = None; continue        # no reference, not judged
            refs[uid] = [res['outcomes'][uid], res['logs'][uid]]
            steps[uid] = res['opsteps'][uid]
    return refs, steps


def run_case(scn, refs=None):
    """Judge one case. Returns the result of its main run, with all violations found."""
    mode = scn.get('mode', 'model')
    if mode == 'model': return run_world(scn)
    if mode == 'ref':
        if refs is None: refs = references(scn)
        if scn.get('limits'):
            scn = json.loads(json.dumps(scn))
            for ti, task in enumerate(scn['tasks']):
                for oi, op in enumerate(task['ops']):
                    n = refs[1].get(op_uid(ti, oi, op))
                    if n: op['limit'] = 10 * n + 200000
        return run_world(scn, refs=refs[0])
    if mode == 'ambient':
        res = run_world(scn, ambient=scn['ambients'][0])
        if res.get('dead'): return res
        for i, amb in enumerate(scn['ambients'][1:]):
            if 'hashseed' in amb: other = run_elsewhere(scn, amb)
            else: other = run_world(scn, ambient=amb)
            for k, v in other['fired'].items(): res['fired'][k] = res['fired'].get(k, 0) + v
            res['steps'] += other['steps']; res['clock'] += other['clock']
            if other.get('dead'):
                res['violations'] += other['violations']; continue
            for uid, out in res['outcomes'].items():
                d = world.refdiff(other['outcomes'].get(uid) or {}, out)
                if d: res['violations'].append({'kind': 'ambient', 'op': uid, 'detail': 'with the environment %s: %s' % (json.dumps(amb), d)})
                elif other['logs'].get(uid) != res['logs'][uid]:
                    res['violations'].append({'kind': 'ambient', 'op': uid, 'detail': 'with the environment %s: %s' % (json.dumps(amb), world.logdiff(other['logs'].get(uid), res['logs'][uid]))})
        return res
    if mode == 'scale':
        steps = []
        total = None
        for k in range(len(scn['sizes'])):
            s = dict(scn, tasks=[{'ops': [scn['sizes'][k]]}], trace=True, roots=[parser_root()])
            res = run_world(s)
            if res.get('dead'): return res
            if total is None: total = res
            else:
                total['steps'] += res['steps']; total['violations'] += res['violations']
                total['digest'] += res['digest'][:6]; total['ops'] += res['ops']; total['okops'] += res['okops']
            steps.append(list(res['opsteps'].values())[0])
        for a, b in zip(steps, steps[1:]):
            if b > 6 * a + 100000:
                total['violations'].append({'kind': 'unbounded', 'op': 'A0', 'detail': 'the number of steps grows too fast when the input is doubled: %s' % steps}); break
        return total
    raise AssertionError(mode)


# ------------------------------------------------------------------------------------- runs in another interpreter

_zyg = {}

def run_elsewhere(scn, amb):
    """A run in a process forked from another interpreter, started with a different hash seed."""
    import subprocess
    hs = str(amb['hashseed'])
    p = _zyg.get((os.getpid_real(), hs))
    if p is None:
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1')
        p = _zyg[os.getpid_real(), hs] = subprocess.Popen([sys.executable, '--jit', 'off', '-B', '-m', 'dst.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                                   env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p.stdin.write((json.dumps({'scn': scn, 'ambient': amb}) + '\n').encode()); p.stdin.flush()
    line = p.stdout.readline()
    if not line: raise HarnessError('zygote died')
    d = json.loads(line)
    if 'error' in d: raise HarnessError(d['error'])
    return d['ok']


def stop_zygotes():
    for k in list(_zyg):
        if k[0] == os.getpid_real():
            p = _zyg.pop(k)
            try: p.stdin.close(); p.stdout.close(); p.wait()
            except Exception: pass
