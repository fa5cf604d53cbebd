"""Executes one scenario: builds the simulated world, runs the tasks under the schedule, compares with the reference model."""
import sys, os, re, types, json, hashlib, random, traceback

from . import sched, simfs, seam, model, plan as planmod
from .plan import Plan, callbacks, ext_body, Runaway, Unspecified, BASE
from .model import HErr, Interp, MRuntime, pprog

_write = os.write
_re_addr = re.compile(r'0x[0-9a-fA-F]+')
ENV_OPS = ('fs', 'clock', 'env')
CB_NAMES = ('f', 'g', 'it', 'w', 'r', 'o', 'k', 'gg', 'b', 'u', 'c')


def used_names(ir):
    """Names of callbacks and external tags that occur in a program."""
    vars, tags = set(), set()
    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                if x[0] in ('f', 'it', 'w', 'r') and len(x) == 2 and isinstance(x[1], int): vars.add(x[0])
                elif x[0] in ('a', 'i') and len(x) == 2 and isinstance(x[1], int): vars.add('o')
                elif x[0] == 'b' and len(x) == 2 and isinstance(x[1], int): vars.add('b')
                elif x[0] == 'p' and len(x) == 3: vars.add('g')
                elif x[0] == 'pp' and len(x) == 4: vars.add('gg')
                elif x[0] == 'k' and len(x) == 4: vars.add('k')
                elif x[0] == 'hv' and len(x) == 4: vars.add('u')
                elif x[0] == 'op' and len(x) == 5: vars.add('c')
                elif x[0] == 'T' and len(x) == 4 and x[1] in model.EXTS: tags.add(x[1])
                elif x[0] in model.EXTS: tags.add(x[0])
            for y in x: walk(y)
        elif isinstance(x, dict):
            for y in x.values(): walk(y)
    walk(ir)
    return [v for v in CB_NAMES if v in vars], [t for t in model.EXTS if t in tags]


_re_uname = re.compile(r'\b[A-Za-z]+\d+_(?!\w)')

def script(ir, step, how, ren=None):
    """Text of a script, with the header that makes the callbacks available; `ren`: {unique name: printed name}."""
    text = _script(ir, step, how)
    if ren: text = _re_uname.sub(lambda m: ren.get(m[0], m[0]), text)
    return text

def all_renames(scn):
    out = {}
    for m in scn.get('modules', {}).values(): out.update(m.get('ren') or {})
    return out

def module_text(scn, m):
    return m['text'] if 'text' in m else script(m['ir'], m.get('step', '    '), 'imp', all_renames(scn))

def _script(ir, step, how):
    vs, ts = used_names(ir)
    head = []
    if how == 'ctx':
        items = ['$' + v for v in vs] + ['%' + t for t in ts]
        if items: head = [['ctx', items]]
    else:
        items = [['$', v, None] for v in vs] + [['%', t, None] for t in ts]
        if items: head = [['imp', 'simcb', 'simcb', items]]
    pos = 0
    if head and head[0][0] == 'imp':
        while pos < len(ir) and ir[pos][0] in ('ctx', 'com'): pos += 1
    return pprog(ir[:pos] + head + ir[pos:], step)


class World(object):

    def __init__(self, scn, profile=False, only=None, refs=None, ambient=None):
        self.scn = scn
        self.profile = profile          # record the lines executed by every operation; no actions of the schedule are performed
        self.only = only                # (task, op): run this operation alone, without faults, to obtain a reference outcome
        self.refs = refs                # reference outcomes {uid: [outcome, log]}; if None, the model is used
        self.ambient = ambient
        self.violations = []
        self.plans = {}             # thread ident / 'main' -> stack of plans
        self.mainplans = []
        self.objs = {}
        self.profiles = {}
        self.outcomes = {}
        self.fired = {}
        self.logs = {}
        self.opsteps = {}

    # -- setup

    def setup(self):
        scn = self.scn
        import hypertag
        from hypertag import HyperHTML, TagFunction
        self.hypertag = hypertag
        files = dict(scn.get('files', {}))
        for m in scn.get('modules', {}).values():
            if m['path'] not in files: files[m['path']] = module_text(scn, m)
        for f in scn.get('absent', ()): files.pop(f, None)
        clean = self.only is not None
        self.fs = simfs.FS = simfs.SimFS(files, scn.get('cwd', '/sim/w'), () if clean else scn.get('fsfaults', ()), owner=lambda: self.owner())
        self.fs.short = scn.get('short', 0)
        self.fs.armed = False
        self.amb = self.ambient or scn.get('ambient') or {'time': 1.6e9, 'pid': 4242, 'rand': 1}
        seam.install(self.amb)
        if 'envall' in self.amb: seam.answer_all(self.amb['envall'])
        if self.amb.get('garbage'): self.junk = [[object() for _ in range(1000 * self.amb['garbage'])] for _ in range(50)]; del self.junk[::2]
        # module through which imported scripts get the callbacks of the operation being executed
        mod = types.ModuleType('simcb')
        for k, v in callbacks(self.getplan).items(): setattr(mod, k, v)
        self.exts = {}
        for name in model.EXTS: self.exts[name] = self.make_ext(name, self.getplan)
        mod.__tags__ = self.exts
        sys.modules['simcb'] = mod
        self.rts = [self.make_rt(i) for i in range(scn.get('nrt', 1))]
        self.mrts = [MRuntime() for _ in self.rts]
        if scn.get('warm') and not clean:
            for rt in self.rts: rt.render('p | warm')
        self.sim = sched.Sim()
        if scn.get('stack'): self.sim.stack = scn['stack']
        self.setup_extra()
        if self.amb.get('pad'): self.pad(self.amb['pad'])
        if scn.get('failures') and not clean: self.failures(*scn['failures'])
        self.fs.armed = True; self.fs.counts.clear(); del self.fs.log[:]

    def pad(self, n):
        """A long history of unrelated operations."""
        for i in range(n):
            self.fs.write('/sim/w/pad/q%d.hy' % i, '%%P%d x\n  p | {x} %d' % (i, i))
            for rt in self.rts:
                try: rt.render('from pad.q%d import %%P%d\n$pad%d = %d\nP%d {pad%d}\np class="k%d" | x\n%s' % (i, i, i, i, i, i, i, '| {undefined}' if i % 7 == 3 else ''), '/sim/w/main.hy')
                except Exception: pass
            self.fire('earlier operation')

    def failures(self, n, kind):
        """A long history of operations that fail, each in the same way or in different ways."""
        def bad(*a): raise ValueError('bad')
        texts = {'undefined': 'p\n  | {no_such_name}', 'syntax': 'p | {f(1}', 'import': 'from no.such.module import *\np', 'value': 'p\n  | {1/0}', 'callback': 'context $bad\ndiv\n  p | {bad(1)}',
                 'deep': 'context $bad\n%H x\n  div\n    | {bad(x)}\n%G @body\n  H 1\nG\n  p\n    for i in [1]:\n      H 2', 'void': 'p\n  br | x', 'cycle': 'from .cyc1 import $x\n| {x}'}
        self.fs.write('/sim/w/cyc1.hy', 'from .cyc2 import $x\n| x'); self.fs.write('/sim/w/cyc2.hy', 'from .cyc1 import $x\n$x = 1')
        kinds = sorted(texts) if kind == 'mixed' else [kind]
        for i in range(n):
            text = texts[kinds[i % len(kinds)]]
            for rt in self.rts:
                try: rt.render(text, '/sim/w/main.hy', **({'bad': bad} if 'context' in text else {}))
                except Exception: pass
            self.fire('earlier operation')

    def make_rt(self, i):
        from hypertag import HyperHTML
        res = self.scn.get('resolve')
        if res is None: return HyperHTML()
        from hypertag.core.runtime import HyLoader, PyLoader
        def resolve(path, referrer): return res.get(path)
        return HyperHTML(loaders=[HyLoader(resolve), PyLoader])

    def make_ext(self, name, getplan):
        from hypertag import TagFunction
        if name == 'ext1':
            def fun(body, site): return ext_body(getplan, 'ext1', body, site)
            fun.__name__ = 'ext1'
            return TagFunction(fun)
        def fun2(body, site): return ext_body(getplan, 'ext2', body.render(), site)
        fun2.__name__ = 'ext2'
        return TagFunction(fun2, dom=True)

    def me(self):
        t = self.sim.me() if getattr(self, 'sim', None) is not None else None
        return t.idx if t is not None else 'main'

    def getplan(self): return self.plans[self.me()][-1]
    def push(self, p): self.plans.setdefault(self.me(), []).append(p)
    def pop(self): self.plans[self.me()].pop()
    def owner(self):
        st = self.plans.get(self.me())
        return st[0].uid if st else 'main'

    # -- running

    def run(self):
        self.setup()
        scn = self.scn
        acts = {} if self.profile or self.only else self.amb.get('acts') or scn.get('sched', {}).get('acts', {})
        self.single = len(scn['tasks']) == 1
        # tracing is needed only if something is to happen at a line of code, or steps are counted
        if scn.get('roots'): self.sim.roots = tuple(scn['roots']) + sched.ROOTS
        self.sim.trace_on = bool(self.profile or scn.get('trace') or any(a.get('at') not in (None, 'start') for v in acts.values() for a in v))
        for ti, task in enumerate(scn['tasks']):
            if self.only is None or self.only[0] == ti: self.sim.add(self.task_body(ti, task, acts), task.get('after', False) and self.only is None)
        self.sim.run(None if self.only or self.profile else scn.get('sched', {}).get('order'))
        for t in self.sim.tasks:
            if t.error is not None and not isinstance(t.error, sched.Deadlock):
                raise t.error
        if self.sim.deadlock: self.violate('deadlock', None, 'tasks blocked for ever: %s' % [t.idx for t in self.sim.tasks if t.killed or not t.done])
        self.final()
        return self.result()

    def final(self): pass

    def task_body(self, ti, task, acts):
        def body(t):
            for oi, op in enumerate(task['ops']):
                if self.only is not None:
                    if oi > self.only[1]: break
                    if oi < self.only[1] and op['k'] not in ENV_OPS: continue
                self.step(t, ti, oi, op, acts.get('%d.%d' % (ti, oi), []))
        return body

    def step(self, t, ti, oi, op, actions):
        uid = op.get('uid') or '%s%d' % (chr(65 + ti), oi)
        k = op['k']
        if k == 'fs':
            self.fs.mutate(op['ops']); return
        if k == 'clock':
            self.sim.clock += op['by']; self.fire('clock jump'); return
        if k == 'env':
            if not self.only:
                os.environ.update(op['set']); self.fire('environment change')
                random.seed(op.get('rand', 0))
            return
        if self.amb.get('between'): self.sim.clock += self.amb['between']; self.fire('clock jump')
        exp = self.expected(uid, op)
        p = Plan(uid, op.get('plan'), hook=self.sim.user_point, reenter=self.reenter)
        t.async_exc = None
        self.push(p)
        snap = self.before(op)
        self.fs.mark(uid)
        try:
            try:
                self.sim.begin_op(t, actions, limit=op.get('limit'), profile=self.profile)
                out = {'ok': self.engine_op(uid, op, p)}
            finally:
                self.sim.end_op(t)
        except sched.Deadlock:
            self.violate('deadlock', uid, 'operation is blocked for ever'); raise
        except (sched.Budget, Runaway):
            out = {'budget': t.steps}
            self.violate('no progress', uid, 'operation did not end within %d steps' % t.limit)
        except BaseException as ex:
            out = self.exc_outcome(ex, p, t)
            if out.get('key') is None and os.environ.get('DST_DEBUG'): traceback.print_exc()
        if op.get('blur') and 'budget' not in out:       # where exactly the stack is exhausted is not reproducible
            if out.get('exc') or out.get('key'): self.fire('deep recursion')
            out = {'ended': 1}; p.log = []
        self.pop()
        for k2, n in p.fired.items(): self.fire('callback ' + k2, n)
        if self.profile: self.profiles['%d.%d' % (ti, oi)] = t.profile
        out = json.loads(json.dumps(out))
        self.outcomes[uid] = out
        self.logs[uid] = p.log
        self.opsteps[uid] = t.steps
        if 'budget' not in out:
            h = self.fs.open_handles(p.uid) if not t.async_exc else ()
            if h: self.violate('open files', uid, 'files left open: %s' % h)
            if exp is not None or t.async_exc is not None: self.judge(uid, op, out, p, exp, t)
            self.after(op, uid, snap)

    def expected(self, uid, op):
        """[outcome, log] that the operation should have, or None if it's not to be judged."""
        if op.get('free') or self.only is not None: return None
        if self.refs is None and self.scn.get('mode', 'model') != 'model': return None
        if self.refs is not None: return self.refs[uid] if self.refs.get(uid) else None
        return self.model_op(uid, op)

    def fire(self, k, n=1): self.fired[k] = self.fired.get(k, 0) + n

    def exc_outcome(self, ex, p, t):
        key = getattr(ex, '_dst_key', None)
        same = any(ex is e for e in p.raised.get(key, ())) or (key == 'async' and ex is t.async_exc)
        out = {'exc': type(ex).__name__, 'key': key, 'same': same, 'mro': [c.__name__ for c in type(ex).__mro__]}
        if key is None: out['msg'] = _re_addr.sub('0x?', (str(ex) if not isinstance(ex, KeyError) else repr(ex))[:200])
        return out

    # -- operations

    def op_script(self, op):
        if 'text' in op: return op['text']
        return script(op['ir'], op.get('step', '    '), op.get('how', 'ctx'), dict(all_renames(self.scn), **op.get('ren') or {}))

    def op_vars(self, op, p):
        vs, ts = used_names(op['ir']) if 'ir' in op else ((), ())
        kw, tags = {}, None
        if op.get('how', 'ctx') == 'ctx':
            cb = callbacks(lambda: p)
            kw = {v: cb[v] for v in vs}
            if ts: tags = {n: self.make_ext(n, lambda: p) for n in ts}
        return kw, tags

    def engine_op(self, uid, op, p):
        return getattr(self, 'e_' + op['k'])(uid, op, p)

    def model_op(self, uid, op):
        p = Plan(uid, op.get('plan'), reenter=self.m_reenter, model=True)
        p.ctx = op
        try: out = {'ok': getattr(self, 'm_' + op['k'])(uid, op, p)}
        except HErr as ex: out = {'err': ex.name}
        except Runaway: raise
        except Unspecified: out = {'unspec': 1}
        except BaseException as ex:
            if not hasattr(ex, '_dst_key'): raise
            out = {'exc': type(ex).__name__, 'key': ex._dst_key}
        return [out, p.log]

    def e_render(self, uid, op, p):
        kw, tags = self.op_vars(op, p)
        return self.rts[op.get('rt', 0)].render(self.op_script(op), op.get('file'), op.get('pkg'), tags, **kw)

    def e_trans(self, uid, op, p):
        """Translation and rendering in separate steps, plus everything the module exports."""
        kw, tags = self.op_vars(op, p)
        m = self.rts[op.get('rt', 0)].translate(self.op_script(op), op.get('file'), op.get('pkg'), tags, **kw)
        a = m.dom.render()
        syms = {k: (str(v) if isinstance(v, (str, int)) else type(v).__name__) for k, v in m.symbols.items()}
        return [a, sorted(syms.items()), m.filename, m.package, m.dom.tree()]

    def m_render(self, uid, op, p):
        return self.interp(op, p).render(op['ir'])

    def interp(self, op, p):
        mrt = self.mrts[op.get('rt', 0)]
        if not self.single:
            mrt = MRuntime()            # modules are free of side effects here, each operation can load its own copy
        mods = self.scn.get('modules', {})
        if op.get('bad'): mods = {k: dict(m, bad='Exception') if m['path'] == op['bad'] else m for k, m in mods.items()}
        return Interp(p, mods, mrt, op.get('step', '    '))

    def reenter(self, opspec, plan, key):
        sub = Plan(plan.uid + 'r' + key.replace('.', '_'), opspec.get('plan'), hook=self.sim.user_point, reenter=self.reenter)
        sub.raised = plan.raised
        self.push(sub)
        self.fire('re-entrant call')
        try: return self.engine_op(sub.uid, opspec, sub)
        finally:
            self.pop()
            plan.log.append(['sub', key, sub.log])

    def m_reenter(self, opspec, plan, key):
        sub = Plan(plan.uid + 'r' + key.replace('.', '_'), opspec.get('plan'), reenter=self.m_reenter, model=True)
        try: return getattr(self, 'm_' + opspec['k'])(sub.uid, opspec, sub)
        finally: plan.log.append(['sub', key, sub.log])

    # -- judging

    def before(self, op): return None
    def after(self, op, uid, snap): pass
    def setup_extra(self): pass

    def judge(self, uid, op, out, p, exp, t):
        if t.async_exc is not None:
            if type(t.async_exc).__name__ in BASE:
                if not (out.get('key') == 'async' and out['same']):        # it must reach the caller, whatever else has failed
                    self.violate('interrupt lost', uid, 'an asynchronous %s did not reach the caller, the result was %s' % (type(t.async_exc).__name__, brief(out)))
            return
        if exp is None: return
        eout, elog = exp
        if 'unspec' in eout: return
        if op.get('mustend'):
            if eout.get('err') == 'ImportErrorEx' and 'ok' in out: self.violate('cycle', uid, 'a cyclic import does not fail, it gives %s' % brief(out))
            return
        if op.get('maybe') and 'exc' in out and 'Exception' in out['mro']: return
        d = diff(out, eout) if 'mro' not in eout else refdiff(out, eout)
        if d:
            # 'exception': an exception of user code was expected, or an interrupt came out of nowhere
            kind = 'result'
            if eout.get('key') or 'exc' in out and 'Exception' not in out['mro']: kind = 'exception'
            self.violate(kind, uid, d)
        elif not op.get('nolog') and p.log != elog:
            self.violate('calls', uid, logdiff(p.log, elog))

    def violate(self, kind, uid, detail):
        self.violations.append({'kind': kind, 'op': uid, 'detail': detail})

    def result(self):
        sim = self.sim
        fired = dict(self.fired)
        for d in (sim.fired, self.fs.fired):
            for k, v in d.items(): fired[k] = fired.get(k, 0) + v
        if not self.profile:
            n = sum(1 for x in sim.switch_log if x[2] not in ('end',))
            if n: fired['preemption'] = n
        extra = {}
        if self.profile:
            extra['profiles'] = {k: [[f, l, n] for (f, l), n in line_table(v).items()] for k, v in self.profiles.items()}
            extra['calls'] = {u: [x for x in l] for u, l in self.logs.items()}
            extra['fslog'] = self.fs.log
        return {**extra, 'violations': self.violations, 'fired': fired, 'steps': sum(t.total for t in sim.tasks), 'clock': sim.clock + 1e-6 * sim.events,
                'switches': len(sim.switch_log), 'inter': hashlib.md5(repr(sim.switch_log).encode()).hexdigest()[:12],
                'digest': hashlib.md5(repr((sim.switch_log, sorted(self.outcomes.items()), [t.total for t in sim.tasks], self.fs.log)).encode()).hexdigest(),
                'calls_made': sum(len(l) for l in self.logs.values()), 'opened': sum(1 for x in self.fs.log if x[0] == 'open'),
                'outcomes': self.outcomes, 'logs': self.logs, 'opsteps': self.opsteps, 'ops': len(self.outcomes), 'okops': sum(1 for o in self.outcomes.values() if 'ok' in o)}


def refdiff(out, ref):
    """Compare an outcome with a reference outcome of the engine itself."""
    if 'ok' in ref or 'ok' in out:
        if out.get('ok') != ref.get('ok') or ('ok' in ref) != ('ok' in out):
            return 'expected %s but got %s' % (brief(ref, 1500), brief(out, 1500))
        return None
    for k in ('exc', 'key', 'same', 'msg'):
        if out.get(k) != ref.get(k): return 'expected the exception %s but got %s' % (brief(ref), brief(out))
    return None


def brief(o, n=400):
    s = repr(o)
    return s if len(s) <= n else s[:n] + '...'


def diff(out, mout):
    """Compare an outcome of the engine with the expected one; None if they agree."""
    if 'ok' in mout:      # expected by the model
        if 'ok' not in out: return 'expected the document %s but got the exception %s' % (brief(mout['ok']), brief(out))
        if out['ok'] != mout['ok']: return 'expected %s but got %s' % (brief(mout['ok'], 1500), brief(out['ok'], 1500))
        return None
    if 'ok' in out: return 'expected the exception %s but got the document %s' % (mout, brief(out['ok']))
    if 'err' in mout:
        if mout['err'] not in out['mro']: return 'expected the error %s but got %s' % (mout['err'], brief(out))
        return None
    if out.get('key') != mout['key'] or out['exc'] != mout['exc'] or not out['same']:
        return 'expected the same exception object %s raised at %s, but got %s' % (mout['exc'], mout['key'], brief(out))
    return None


def logdiff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return 'user code calls differ at position %d: %s instead of %s' % (i, brief(x), brief(y))
    if len(a) > len(b): return 'unexpected call of user code: %s' % brief(a[len(b)])
    return 'missing call of user code: %s' % brief(b[len(a)])


def line_table(profile):
    return {(sched.short(fn), ln): n for (fn, ln), n in profile.items()}
