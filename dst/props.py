"""
For every property: how its cases are generated. A case is a scenario (programs, environment, faults) with a schedule;
cases come in groups that share the programs, so that profiles and reference outcomes are computed once per group.

Every generator yields pairs (scenario, references or None). All choices are drawn from the PRNG of the group.
"""
import json, random, posixpath

from . import gen, runner, world
from .gen import EXC_NAMES
from .plan import BASE

BASE_NAMES = ['KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'CustomBase']
SMALL = dict(depth=2, top=(1, 3), width=(1, 2))
TINY = dict(depth=1, top=(1, 2), width=(1, 2), p_multiline=.05, p_embed=.45)
FILES = {'/sim/py/pk/__init__.py': ''}


def norm(x): return json.loads(json.dumps(x))


def merge(*cfgs):
    out = {'w': {}}
    for c in cfgs:
        for k, v in (c or {}).items():
            if k == 'w': out['w'].update(v)
            else: out[k] = v
    return out


# ------------------------------------------------------------------------------------------------------------- programs

def small_op(rng, cfg=None, base=0):
    """A tiny program for re-entrant calls."""
    g = gen.Gen(rng, merge(TINY, cfg, dict(p_reenter=0)), base=base)
    g.budget = 6
    ir, _ = g.program(top=rng.randint(1, 2))
    return dict(k='render', ir=ir, plan=g.plan, step=rng.choice(g.c['steps']), how='ctx')


def model_ok(op, mods):
    """Does the operation, performed alone, succeed according to the model?"""
    w = world.World.__new__(world.World)
    w.scn = {'modules': mods or {}}
    w.single, w.mrts = True, [world.MRuntime()] * (1 + op.get('rt', 0))
    return 'ok' in w.model_op('A0', op)[0]


def make_op(rng, cfg=None, mods=None, *args, **kw):
    """A random program; programs that fail are regenerated in most cases, because nothing is executed after a failure."""
    for _ in range(4):
        op = make_op1(rng, cfg, mods, *args, **kw)
        if rng.random() < .12 or model_ok(op, mods): break
    return op


def make_op1(rng, cfg=None, mods=None, base=0, budget=30, how=None, file='/sim/w/main.hy', p_import=.75, top=None, nimp=1):
    imps, tags, vars = [], [], []
    plan = {}
    for m in mods or (): plan.update(mods[m]['plan'])
    if mods and rng.random() < p_import:
        for mid in rng.sample(sorted(mods), min(len(mods), nimp)):
            a, b, c = gen.import_of(rng, mods, mid, posixpath.dirname(file))
            imps += a; tags += b; vars += c
    re = None
    if cfg and cfg.get('p_reenter'):
        def re(): return small_op(rng, {k: v for k, v in cfg.items() if k in ('p_fault', 'p_base')}, base + 500)
    g = gen.Gen(rng, cfg, base=base, reenter=re)
    g.budget = budget
    if mods: g.importer = lambda: gen.import_of(rng, mods, rng.choice(sorted(mods)), posixpath.dirname(file))
    ir, _ = g.program(imps, tags, vars, top=top)
    plan.update(g.plan)
    op = dict(k='render', ir=ir, plan=plan, step=rng.choice(g.c['steps']), file=file, how=how or rng.choice(['ctx', 'imp']))
    if rng.random() < g.c['p_rename']: op['ren'] = gen.renames(rng, ir)
    return op


SYNTAX = ['p | {f(1}', 'p\n   | x\n  | y', 'if x\n  | y', 'p class= | x', '| {', 'for x in [1]\n  | {x}', '% H x\n', '$x = ', 'else:\n  p', 'p | x\n\t q',
          'import $x', 'from a import', 'p | {a b c ?? }', '%H a\n  | {a}\n\nH b=1 b=2', 'p : : q', 'try\n p', 'while : p']
FAILING = ['p | ok\nq1z | x', 'p\n  | {undefined_name}', 'p | {1/0}', 'p | {None}', 'p | {[1][5]}', "p | {{'a':1}}\n| {''!}", 'br | text', '%H @body a\n  @ body\n  | {a}\nH | x', '%H\n  | x\nH 1 2',
           'import $nothing from nowhere\n| x', 'from pk import %NoTag\n| y', 'context $missing_var\n| {missing_var}', 'context %missing_tag\nmissing_tag | a', '$x = 1\n$x += \'a\'\n| {x}',
           'p @ 5', '%H x\n  | {x}\n%G y\n  H {y}\n  | {z}\nG 1', 'p\n  ul\n    li | a\n    li\n      | {[].pop()}']
GOOD = ['p | text', 'ul\n  li | a\n  li : b | c', '$x = 5\n| {x} and {x+1}', '%H a b=2\n  p | {a} {b}\nH 1\nH 1 3', '%H @body x\n  div\n    @ body\n  | {x}\nH 7\n  p | inner\nH 8 | txt',
        'for i in range(3):\n  li | {i}', 'try | {undefined_thing?}', 'try:\n  | {1/0}\nelse:\n  | rescued', 'if 0 | a\nelse | b', '| {"a":upper} {"B":lower}', '! <raw> {x}', 'p class="a" title="t" | x\n/ <b>m</b>',
        'table\n  tr\n    td | 1\n    td | 2\n  tr : td | 3', 'p\n\n\n  | far\n\np | x', '$a, b = (1, 2)\n| {a}{b}', 'while 0 | x\nelse | y', 'div #id .cls | x']


LATE = ['p | a\np\n  | b\n' * 3 + 'p | {', 'ul\n  li | {1}\n  li | {2\n  li | 3', '%H a\n  | {a}\nH 1\nH 2\n\np class= | x', 'p\n  div\n    | {x y z ?? }\n| tail\n| more', 'if 1:\n  | a\nelse:\n  | b\nelif 2:\n  | c']
NOT_BROKEN = ('for x in [1]\n  | {x}', '% H x\n', 'p | x\n\t q', 'try\n p', 'br | text')
BROKEN = [x for x in SYNTAX + FAILING if x not in NOT_BROKEN]         # their translation fails


def raw_op(rng, pool): return dict(k='render', text=rng.choice(pool), file='/sim/w/main.hy')


WHERE = ['p | {__file__}', '| {__file__} {__package__}', 'for i in [1,2,3]:\n  li | {__file__}', '%H x\n  p | {x} {__file__}\nH 1\nH 2\n| {__package__?}', '$x = __file__\ndiv\n  p | {x}\n  | {__package__}\n  | {__file__}',
         'from .tools import %Where, $here\np | {here}\nWhere\n| {__file__}', 'import %Where from sub.tools\nWhere\n| {__file__} {__package__?}\nWhere']
TOOLS = '%Where\n  b | {__file__}\n$here = __file__ \'-\'\n| x'

def where_op(rng):
    """A script whose result depends on its location."""
    r = rng.random()
    file = rng.choice(['/sim/w/aa.hy', '/sim/w/bb.hy', '/sim/w/sub/cc.hy', '/sim/v/dd.hy', '/sim/w/main.hy'])
    return dict(k='render', text=rng.choice(WHERE), file=None if r < .08 else file, pkg=None if r < .5 else rng.choice(['pk', 'qq', 'pk.sub']))


# ------------------------------------------------------------------------------------------------------------ schedules

class Prof(object):
    """What the operations of a scenario execute when they run one after another."""
    def __init__(self, scn):
        r = runner.run_world(scn, profile=True)
        self.result = r
        self.dead = r.get('dead')
        self.tabs = r.get('profiles') or {}
        self.calls = r.get('calls') or {}
        self.fslog = r.get('fslog') or []
        self.scn = scn

    def uid(self, key):
        ti, oi = map(int, key.split('.'))
        return runner.op_uid(ti, oi, self.scn['tasks'][ti]['ops'][oi])

    def cbs(self, key):
        out = []
        for c in self.calls.get(self.uid(key)) or ():
            if c[0] == 'next': out.append(['next', c[1]])
            elif c[0] != 'sub': out.append([c[0], '%d.%d' % (c[1], c[2])])
        return out

    def point(self, rng, key, line=None):
        """A point of the execution of an operation, as the beginning of an action."""
        tab = self.tabs.get(key)
        cbs = self.cbs(key)
        if cbs and line is None and rng.random() < .12: return {'cb': rng.choice(cbs)}
        if not tab: return {'at': 'start'}
        t = None
        if line is not None:
            for x in tab:
                if x[:2] == line: t = x
        if t is None:
            rare = [x for x in tab if x[2] <= 8]
            t = rng.choice(rare if rare and rng.random() < .5 else tab)
        n = t[2]
        r = rng.random()
        o = 0 if r < .25 else n - 1 if r < .4 else rng.randrange(n)
        a = {'at': [t[0], t[1], o]}
        if rng.random() < .4: a['op'] = rng.randint(1, rng.choice([4, 12, 30]))
        return a


def switches(rng, prof, keys, main=2):
    """A random schedule: preemptions at 1-4 points (or at many points of the 1st task, if the others consist of many short operations)."""
    tasks = sorted({int(k.split('.')[0]) for k in keys})
    acts = {}
    def add(key, a): acts.setdefault(key, []).append(a)
    order = list(tasks); rng.shuffle(order)
    counts = {t: sum(1 for k in keys if k.startswith('%d.' % t)) for t in tasks}
    many = [t for t in tasks if counts[t] >= 5]
    if many and rng.random() < .6:
        b = many[0]
        a = rng.choice([t for t in tasks if t != b])
        ka = [k for k in keys if k.startswith('%d.' % a)]
        for _ in range(counts[b]): add(rng.choice(ka), dict(prof.point(rng, rng.choice(ka)), do='switch', to=b))
        # fix: the point must belong to the operation it is attached to
        acts = {}
        for _ in range(counts[b]):
            k = rng.choice(ka)
            add(k, dict(prof.point(rng, k), do='switch', to=b))
        for i in range(1, counts[b]): add('%d.%d' % (b, i), {'at': 'start', 'do': 'switch', 'to': a})
        order.remove(a); order.insert(0, a)
        return {'acts': acts, 'order': order}
    if rng.random() < .3:
        # two tasks meet at the same line of code
        a, b = rng.sample(tasks, 2)
        ka = rng.choice([k for k in keys if k.startswith('%d.' % a)])
        kb = rng.choice([k for k in keys if k.startswith('%d.' % b)])
        common = [x[:2] for x in prof.tabs.get(ka, ()) if any(y[:2] == x[:2] for y in prof.tabs.get(kb, ()))]
        if common:
            l = rng.choice(common)
            add(ka, dict(prof.point(rng, ka, l), do='switch', to=b))
            add(kb, dict(prof.point(rng, kb, l), do='switch', to=a))
            order.remove(a); order.insert(0, a)
            if rng.random() < .7: return {'acts': acts, 'order': order}
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.choice(keys)
        t = int(k.split('.')[0])
        others = [x for x in tasks if x != t]
        add(k, dict(prof.point(rng, k), do='switch', to=rng.choice(others)))
    first = rng.choice(list(acts)).split('.')[0]
    if rng.random() < .7: order.remove(int(first)); order.insert(0, int(first))
    return {'acts': acts, 'order': order}


def interrupts(rng, prof, keys, names=BASE_NAMES, n=1):
    acts = {}
    for k in rng.sample(keys, min(n, len(keys))):
        p = prof.point(rng, k)
        if p.get('at') == 'start': continue
        acts.setdefault(k, []).append(dict(p, do='raise', exc=rng.choice(names)))
    return acts


def merge_acts(*many):
    out = {}
    for m in many:
        for k, v in m.items(): out.setdefault(k, []).extend(v)
    return out


def with_faults(rng, op, calls, n=1, names=EXC_NAMES, mods=None, **kw):
    for _ in range(5):
        o = with_faults1(rng, op, calls, n, names, **kw)
        if mods is None or rng.random() < .2 or model_ok(o, mods): break
    return o


# exceptions typical of a kind of user code: these are the ones that engines handle themselves
NATURAL = dict(a=['AttributeError', 'AttributeError', 'KeyError', 'TypeError'], i=['KeyError', 'IndexError', 'TypeError'], it=['TypeError', 'AttributeError'], b=['TypeError', 'AttributeError'],
               next=['TypeError', 'RuntimeError', 'IndexError'], x=['TypeError', 'VoidTagEx', 'KeyError'], o=['TypeError', 'AttributeError', 'IndexError', 'KeyError', 'ZeroDivisionError'])

def with_faults1(rng, op, calls, n=1, names=EXC_NAMES, kinds=('f', 'a', 'i', 'g', 'w', 'it', 'x', 'next', 'k', 'gg', 'b', 'u', 'c', 'o')):
    """A copy of the operation in which n of the calls of user code recorded before fail."""
    op = norm(op)
    plan = op.setdefault('plan', {})
    cs = [c for c in calls if c[0] in kinds]
    for _ in range(min(n, len(cs))):
        kind = rng.choice(sorted({c[0] for c in cs}))
        c = rng.choice([c for c in cs if c[0] == kind]) if rng.random() < .4 else rng.choice(cs)        # rare kinds as often as frequent ones
        exc = rng.choice(names)
        if names is EXC_NAMES and rng.random() < .4: exc = rng.choice(NATURAL.get(c[0], ['TypeError']))
        if c[0] == 'next':
            site, occ = c[1].split('.')
            cur = plan.get(site)
            plan[site] = ['DG', c[2], exc] if isinstance(cur, list) and cur[0] == 'DG' else ['IX', c[2], exc] + ([x for x in cur[1:] if x in ('p', 'n', 'x', 'last')] if isinstance(cur, list) else [])
        else:
            site, occ = str(c[1]), c[2]
            cur = plan.get(site, 's')
            if isinstance(cur, list) and cur and cur[0] == 'seq': seq = cur[1:]
            elif isinstance(cur, list) and cur and cur[0] in ('P',): seq = [cur] * (occ + 2)
            else: seq = [cur]
            seq = list(seq)
            while len(seq) <= occ + 1: seq.append(seq[-1])
            seq[occ] = ['IT', exc] if c[0] in ('b', 'it') and rng.random() < .5 else ['X', exc] if rng.random() < .85 or c[0] != 'f' else rng.choice(['n', 'e', 'f', 'z', 'l', ['BS', exc]])
            plan[site] = ['seq'] + seq
    return op


# ================================================================================================= C01: concurrent renders

def g_C01(rng, k):
    cfg = dict(SMALL, p_fault=rng.choice([0, 0, .05]), p_reenter=rng.choice([0, 0, .08]), p_special=.02)
    mods = gen.make_modules(rng, SMALL, rng.choice([0, 1, 1, 2, 3]))
    nrt = 1 if rng.random() < .8 else 2
    pingpong = rng.random() < .45
    nt = 2 if rng.random() < .75 else 3
    tasks = []
    same = rng.random() < .35
    where = rng.random() < .2
    if where: same = False
    first = make_op(rng, cfg, mods, budget=12)
    for t in range(nt):
        ops = []
        n = rng.randint(5, 8) if pingpong and t == 1 else rng.choice([1, 1, 2])
        for j in range(n):
            if same and not (pingpong and t == 1) and rng.random() < .8: op = norm(first)
            elif pingpong and t == 1:
                r = rng.random()
                op = where_op(rng) if where else raw_op(rng, GOOD + FAILING) if r < .25 else norm(ops[-1]) if ops and r < .5 else make_op(rng, merge(cfg, TINY, dict(p_reenter=0)), mods, budget=6)
            else:
                r = rng.random()
                op = where_op(rng) if where and r < .8 else raw_op(rng, SYNTAX) if r < .05 else raw_op(rng, FAILING + GOOD) if r < .12 else make_op(rng, cfg, mods, budget=12)
            if nrt == 2: op['rt'] = rng.randrange(2)
            if rng.random() < .12: op['k'] = 'trans'
            ops.append(op)
        tasks.append({'ops': ops})
    # modules are loaded by whichever operation comes first, therefore loading must not call user code (make_modules: no side effects)
    files = dict(FILES)
    if where: files.update({d + '/tools.hy': TOOLS for d in ('/sim/w', '/sim/w/sub', '/sim/v')})
    base = norm(dict(mode='ref', modules=mods, files=files, tasks=tasks, nrt=nrt, warm=rng.random() < .4))
    prof = Prof(base)
    if prof.dead: yield base, None; return
    refs = runner.references(base)
    keys = sorted(prof.tabs)
    for _ in range(k):
        yield dict(base, sched=switches(rng, prof, keys)), refs


# ============================================================================================ C02: failures leave no trace

def g_C02(rng, k):
    if rng.random() < .05:
        for x in g_deep(rng, k): yield x
        return
    cfg = dict(SMALL, p_fault=.1, p_reenter=rng.choice([0, .1]), p_iterfail=.15, p_arity=.02, p_ext_fault=.05, faults_in_try=1.0, faults_outside=.6)
    mods = gen.make_modules(rng, SMALL, rng.choice([1, 2, 3]))
    # expressions evaluated when a module is loaded; they can be made to fail
    msites = []
    for i, m in enumerate(sorted(mods)):
        if rng.random() < .6:
            s = 9000 + i; msites.append(s)
            pos = rng.choice([0, len(mods[m]['ir'])])
            while pos < len(mods[m]['ir']) and mods[m]['ir'][pos][0] == 'imp': pos += 1
            mods[m]['ir'].insert(pos, ['ex', ['f', s]])
    files = dict(FILES)
    # a module that is broken or missing at first
    late = None
    if rng.random() < .5:
        mid = rng.choice(sorted(mods))
        late = (mods[mid]['path'], world.module_text({'modules': mods}, mods[mid]))
    ops = []
    imp = make_op(rng, cfg, mods, budget=15, p_import=1, nimp=2)
    if msites and rng.random() < .6:
        f = norm(imp); f['plan'][str(rng.choice(msites))] = ['X', rng.choice(EXC_NAMES + ['KeyboardInterrupt'])]; f['how'] = imp['how']
        ops.append(f)
    ops.append(norm(imp))
    if late: ops.append({'k': 'fs', 'ops': [['write', late[0], late[1]]]}); ops.append(norm(imp))
    for _ in range(rng.randint(2, 5)):
        r = rng.random()
        if r < .2: ops.append(raw_op(rng, FAILING + SYNTAX))
        elif r < .35: ops.append(raw_op(rng, GOOD))
        elif r < .5: ops.append(norm(rng.choice([o for o in ops if o['k'] != 'fs'])))
        else: ops.append(make_op(rng, cfg, mods, budget=15, nimp=rng.choice([1, 2])))
    seen = False
    for o in ops:
        if 'plan' in o:
            if seen:
                for s in msites: o['plan'].pop(str(s), None)
            seen = True
            o['nolog'] = bool(msites)
        if rng.random() < .1 and o['k'] == 'render': o['k'] = 'trans'
    for o in [o for o in ops if o['k'] != 'fs'][:3]: ops.append(norm(o))       # the same again at the end
    for o in ops[-3:]:
        for s in msites: (o.get('plan') or {}).pop(str(s), None)
    if rng.random() < .3:       # user code is interrupted
        o = rng.choice([o for o in ops if o.get('plan')])
        ks = [x for x in o['plan']]
        if ks and str(ks[0]) not in map(str, msites): o['plan'][rng.choice([x for x in ks if int(x) < 9000] or ks)] = ['X', rng.choice(BASE_NAMES)]
    scn = dict(mode='ref', modules=mods, files=files, tasks=[{'ops': ops}], warm=rng.random() < .4)
    if rng.random() < .2: scn['failures'] = [rng.choice([3, 12, 40, 130, 260]), rng.choice(['undefined', 'syntax', 'import', 'value', 'callback', 'deep', 'void', 'cycle', 'mixed', 'mixed', 'mixed'])]
    if late: scn['late'] = late[0]
    scn = norm(scn)
    if late:
        # broken or absent until repaired
        m = [x for x in scn['modules'].values() if x['path'] == late[0]][0]
        scn['modules'] = {a: b for a, b in scn['modules'].items() if b is not m}
        if rng.random() < .6: scn['files'][late[0]] = rng.choice(BROKEN)
    prof = Prof(scn)
    if prof.dead: yield scn, None; return
    refs = runner.references(scn)
    keys = sorted(prof.tabs)
    yield scn, refs
    for _ in range(k - 1):
        acts = interrupts(rng, prof, keys, BASE_NAMES + ['MemoryError', 'ValueError', 'RecursionError', 'OSError'], rng.choice([1, 1, 2]))
        yield dict(scn, sched={'acts': acts}), refs


# =================================================================================== C03, C04, C05, C09: model-judged programs

def modelled(cfg, budget=35, faults=(1, 3), names=EXC_NAMES, nops=(1, 1), mods_n=(0, 0, 1, 2)):
    def g(rng, k):
        mods = gen.make_modules(rng, cfg, rng.choice(mods_n))
        n = rng.randint(*nops)
        size = rng.choice([budget // 3, budget // 2, budget])           # small programs: many more of them in the same time
        ops = [make_op(rng, cfg, mods, base=0, budget=size) for _ in range(n)]
        base = norm(dict(modules=mods, files=FILES, tasks=[{'ops': ops}]))
        first = runner.run_world(base)
        yield base, first
        if first.get('dead'): return
        for _ in range(k - 1):
            s = norm(base)
            for j, o in enumerate(s['tasks'][0]['ops']):
                calls = first['logs'].get('A%d' % j) or []
                s['tasks'][0]['ops'][j] = with_faults(rng, o, calls, rng.randint(*faults), names, mods)
            yield s, None
    return g

TRY = dict(p_fault=.12, p_iterfail=.2, p_arity=.03, p_ext_fault=.05, p_badstr=.04, faults_outside=.1, faults_in_try=1.3, w=dict(tryy=7, qtry=4, text=4, tag=5, deff=1.5, use=3))
QUAL = dict(p_fault=.2, p_false=.3, p_q=.5, p_embed=.75, p_badstr=.0, exprdepth=3, faults_outside=.25, faults_in_try=1.0, w=dict(text=6, tag=7, cond=2, tryy=2, sett=3, iff=1, forr=1.5, whilee=.5))
ONCE = dict(p_fault=.04, p_iterfail=.15, p_false=.25, exprdepth=3, p_ext_fault=.05, w=dict(iff=4, forr=5, whilee=3, tryy=2, ex=2, ext=2, use=3, deff=1.5))
UNCH = dict(p_fault=.1, p_base=.04, p_iterfail=.3, p_ext_fault=.15, p_badstr=.05, faults_outside=.4, w=dict(tryy=4, qtry=3, ext=2))

g_C03 = modelled(TRY)
g_C04 = modelled(QUAL)
g_C09 = modelled(ONCE)

def g_C05(rng, k):
    mods = gen.make_modules(rng, UNCH, rng.choice((0, 0, 1, 2)))
    ops = [make_op(rng, merge(UNCH, dict(p_reenter=rng.choice([0, .08]))), mods, budget=rng.choice([8, 14, 25])) for _ in range(rng.choice([1, 1, 2]))]
    broken = rng.random() < .25
    if broken: ops = [dict(raw_op(rng, [x for x in SYNTAX if '\n' in x] + LATE + FAILING), free=1)]
    base = norm(dict(modules=mods, files=FILES, tasks=[{'ops': ops}]))
    prof = Prof(base)
    yield base, prof.result
    if prof.dead: return
    keys = sorted(prof.tabs)
    for i in range(k - 1):
        s = norm(base)
        if i % 2 or broken:
            s['sched'] = {'acts': interrupts(rng, prof, keys, BASE_NAMES, 1)}
        else:
            for j, o in enumerate(s['tasks'][0]['ops']):
                s['tasks'][0]['ops'][j] = with_faults(rng, o, prof.calls.get('A%d' % j) or [], rng.choice([1, 1, 2]), rng.choice([BASE_NAMES, EXC_NAMES]))
        yield s, None


# ======================================================================================================= C07: hypertags

HYPER = dict(p_fault=.05, p_reenter=.06, p_embed=.7, faults_outside=.4, w=dict(deff=6, use=9, tag=3, sett=3, aug=1.5, cond=2.5, forr=3, tryy=2.5, text=4, iff=1.5, whilee=.7, ex=.4))

def g_C07(rng, k):
    mods = gen.make_modules(rng, HYPER, rng.choice([0, 1, 1, 2]))
    conc = rng.random() < .5
    cfg = merge(HYPER, dict(depth=3, top=(3, 6)))
    tasks = []
    first = make_op(rng, cfg, mods, budget=20, p_import=.9)
    for t in range(2 if conc else 1):
        ops = []
        for j in range(1 if conc else rng.choice([1, 2, 3])):
            ops.append(norm(first) if (t or j) and rng.random() < .5 else make_op(rng, cfg, mods, budget=20, p_import=.9) if t or j else first)
        tasks.append({'ops': ops})
    base = norm(dict(modules=mods, files=FILES, tasks=tasks, warm=rng.random() < .5))
    prof = Prof(base)
    yield base, prof.result
    if prof.dead: return
    keys = sorted(prof.tabs)
    for i in range(k - 1):
        s = norm(base)
        if conc and i % 4: s['sched'] = switches(rng, prof, keys)
        else:
            for ti, t in enumerate(s['tasks']):
                for j, o in enumerate(t['ops']):
                    if rng.random() < .7:
                        t['ops'][j] = with_faults(rng, o, prof.calls.get('%s%d' % (chr(65 + ti), j)) or [], rng.choice([1, 1, 2]), mods=mods)
            if conc: s['sched'] = switches(rng, prof, keys)
        yield s, None


# ============================================================================================================ C08: trees

DOC = dict(depth=3, top=(2, 5), p_fault=0, p_embed=.3, w=dict(text=5, tag=9, ext=3, deff=2, use=4, forr=2, iff=.5, whilee=.3, tryy=.5, qtry=.3, sett=.5, aug=0, ex=0, cond=.2))
SELS = [['p'], ['b'], ['li'], ['div'], [None, 'class'], [None, 'title'], ['p', 'id'], [None], ['ext1'], ['span'], [None, 'class', 'alpha'], ['nosuch'], [None, 'data-k']]
EMBEDS = ['context $d\nctx | x', 'context $d\np @ d', 'context $d\ndiv\n  @ d\n  section\n    @ d\n@ d', 'context $d, $e\n@ d\n@ e\ndiv @ d',
          'context $d\n%H @body x\n  ul\n    @ body\n  li {x}\n    @ body\nH 1 @ d\nH 2\n  @ d', 'context $d\nfor i in [1,2]:\n  p\n    b : i\n      @ d',
          'context $d\n| {d.tree()}\n@ d.select("p")\n@ d["b"]', 'context $d\n@ d.skip("p")\n@ d', 'context $d\n@ d[:1]\ndiv\n  @ d[1:]', 'context $d\n@ d.copy()\np @ d',
          'context $d\ntry:\n  p @ d\n  | {undefined_xy}\nelse:\n  div @ d', 'context $d\n$x = d\n$y = [d, d]\n@ x\ndiv @ y']

def dom_acts(rng, ndocs):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(['render', 'render', 'tree', 'walk', 'walkskip', 'select', 'get', 'attrs', 'slice', 'node', 'skip', 'copy', 'nodecopy', 'selcopy', 'embed', 'embed'])
        how = ' '.join(rng.sample(['attr', 'fail', 'drop', 'dup', 'nodes', 'indent'], rng.randint(1, 4)))
        sel = rng.choice(SELS)
        if k in ('render', 'tree'): a = [k]
        elif k == 'walk': a = [k, rng.choice(['preorder', 'postorder'])]
        elif k == 'walkskip': a = [k, rng.choice(['p', 'div', 'b', 'ul'])]
        elif k == 'select': a = [k, sel]
        elif k == 'get': a = [k, rng.choice(['p', 'b', 'li', 'ext1'])]
        elif k == 'attrs': a = [k, rng.choice(['class', 'id', 'title'])]
        elif k == 'slice': a = [k, rng.randint(0, 2), rng.randint(1, 4)]
        elif k == 'node': a = [k, rng.randint(0, 9)]
        elif k == 'skip': a = [k, rng.choice([s for s in SELS if s != [None]]), how]
        elif k == 'copy': a = [k, how]
        elif k == 'nodecopy': a = [k, rng.randint(0, 9), how]
        elif k == 'selcopy': a = [k, sel, how]
        else: a = [k, rng.choice(EMBEDS), rng.randrange(ndocs)]
        out.append(a)
    return out

def g_C08(rng, k):
    ndocs = rng.choice([1, 1, 2])
    mods = gen.make_modules(rng, SMALL, rng.choice([0, 0, 1]))
    docs = []
    for _ in range(ndocs):
        o = make_op(rng, DOC, mods, budget=30, how='imp')
        docs.append(dict(ir=o['ir'], plan=o['plan'], step=o['step'], ren=o.get('ren')))
    xsites = []
    def find(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('ext1', 'ext2') and isinstance(x[1], list):
                for a in x[1]:
                    if a[0] is None and a[1][0] == 'n': xsites.append(a[1][1])
            for y in x: find(y)
        elif isinstance(x, dict):
            for y in x.values(): find(y)
    find([d['ir'] for d in docs]); find([m['ir'] for m in mods.values()])
    nt = rng.choice([1, 2, 2, 3])
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(2, 5) if nt == 1 else rng.choice([1, 2, 6])):
            op = {'k': 'dom', 'doc': rng.randrange(ndocs), 'acts': dom_acts(rng, ndocs), 'plan': {}}
            if xsites and rng.random() < .3: op['plan'][str(rng.choice(xsites))] = rng.choice([['X', rng.choice(EXC_NAMES)], ['seq', 's', ['X', 'ValueError'], 's']])
            ops.append(op)
        tasks.append({'ops': ops})
    tasks.append({'ops': [{'k': 'dom', 'doc': i, 'acts': [['render'], ['tree'], ['walk', 'preorder'], ['embed', EMBEDS[2], i]], 'plan': {}} for i in range(ndocs)], 'after': True})
    base = norm(dict(world='dom', mode='ref', modules=mods, files=FILES, docs=docs, tasks=tasks))
    prof = Prof(base)
    if prof.dead: yield base, None; return
    refs = runner.references(base)
    yield base, refs
    keys = [x for x in sorted(prof.tabs) if int(x.split('.')[0]) < nt]
    for _ in range(k - 1):
        acts = {}
        sc = switches(rng, prof, keys) if nt > 1 else {'acts': {}}
        if nt == 1 or rng.random() < .25: sc['acts'] = merge_acts(sc['acts'], interrupts(rng, prof, keys, BASE_NAMES + ['MemoryError', 'ValueError'], 1))
        yield dict(base, sched=sc), refs

def g_C08m(rng, k):
    """Fragments embedded in several places of a document, judged by the model."""
    cfg = dict(depth=3, p_fault=.05, w=dict(deff=6, use=9, tag=6, text=4, forr=2.5, tryy=2, iff=.5))
    for x in modelled(cfg, budget=40, mods_n=(0, 1))(rng, k): yield x


# ======================================================================================================= C10: arguments

OBJ_TEXTS = [
    'context $items, $d, $s\nfor x in items:\n  li | {x}\np title={s} | {d.a} {d["b"]}',
    'context $items, $d\n$x = items\n$x += [5]\n| {x}\n$y = d.lst\n$y += items\n| {y}',
    'context $items, $d, $s\n$items += [1]\n$s += "more"\n$n = d.n\n$n += 1\n| {items} {s} {n}',
    'context $items, $s\n| {s:upper} {items} {s:merge} {s:crop(5)}\nfor a in items : li | {a}\nelse | none',
    'context $doc, $s\n@ doc\ndiv\n  @ doc\n  p | {s}',
    'context $doc, $items\n%H @body n\n  ul\n    @ body\n  @ body\n  | {n}\nH 1 @ doc\nfor i in items:\n  H {i} @ doc',
    'context $doc\n| {doc.tree()}\n@ doc.skip("p")\n@ doc.select("b")',
    'context $items, $d\n$a, b = (items, d)\nfor i, x in [(1, a), (2, a)]:\n  $a += [i]\n  | {i} {x}',
    'context $bag\n| {bag.n} {bag.lst} {bag.s}\n$n = bag.n\n$n += 5\n| {n}',
    'context $items, $d, %ext1\next1 7\n  | {items}\n  ext1 8 | {d.a}',
    'context %ext1, %ext2, $s\next1 3 | {s}\ndiv : ext2 4\n  p | {s}',
    'context $f, $items\n| {f(1)}\nfor i in items:\n  li | {f(2)}\n| {f(3)}',
    'context $f, $d, $items\np | {f(1)}\n$z = items\n$z += [f(2)]\n| {z} {d.missing!}',
    'context $items, $doc, $f\ndiv @ doc\n| {items}\n| {f(4)}\n| {undefined_q}',
    'context $attrs, $s\np class={attrs["class"]} id={s} | {attrs}',
    'context $items\n%H a b=items\n  $b += [a]\n  | {b}\nH 1\nH 2\nH 3 [9]',
    'context $nested\nfor x in nested:\n  for y in x:\n    $y += [1]\n    li | {y}\n| {nested}',
    'context $d\n$e = d\nif d.n > 0:\n  $e = d.lst\n| {e}\nwhile len(e) < 0 | x',
    'context $items, $attrs\np .{items} .a\np class={items} .{items}',
    'context $items, $d, $s\np .{s} .{s} #{s} | {s}\ntry:\n  p #{d.lst} #x\nelse:\n  p .{items} | x\np class={d.lst} id={items}',
    'context $st, $tp\nfor x in tp : b | {x}\n$tp += (1,)\n$st |= st\n| {tp} {len(st)}',
]
DJ_TEXTS = [
    'context $name, $request\np | {name} {request.path}', 'context $name\np | {name}\nh1 | {name:upper}', 'context $request\np | {request.path}',
    'context $csrf_token, $csrf_input\nform\n  / {"T" if csrf_token else "F"}\n  / {len(str(csrf_input)) > 20}', 'context $csrf_input\n| {len(str(csrf_input))>0}',
    'context $items\nfor i in items : li | {i}\n$items += [3]\n| {items}', 'context $name, $missing\n| {missing}', 'p | static\n| {request}', 'p | {undefined}', 'p | {__file__}', 'context $f\n| {f(1)}\n| {f(2)}',
    'context $name\n$name += "x"\n| {name}', 'from .lib import %H, $v\nH 1\n| {v}', 'import %H from base.layout\nH 2\n  p | body', 'p | {{', 'context $doc\ndiv @ doc\n@ doc']

def obj_vals(rng):
    items = ['list', [['v', x] for x in rng.sample([1, 2, 'a', 'b<', 3.5], rng.randint(0, 3))]]
    d = {'a': ['v', 'A'], 'b': ['v', 7], 'n': ['v', 1], 'lst': ['list', [['v', 1]]]}
    vals = {
        'items': items,
        'dct': ['bag', {'a': ['v', 'x'], 'n': ['v', 2], 'lst': ['list', []], 's': ['v', 's']}],
        'doc': ['dom', 'p class="k" | one\ndiv\n  b | two\n  p\n    i | three\nul\n  li | x\n  li : b | y'],
        'T1': ['tags', ['ext1', 'ext2']], 'T2': ['tags', ['%ext1', '%ext2']], 'T3': ['tags', ['ext1', '%ext2']],
    }
    ctx = {'items': ['ref', 'items'], 'd': ['dict', d], 's': ['v', 'some text'], 'doc': ['ref', 'doc'], 'bag': ['ref', 'dct'], 'f': ['f'],
           'attrs': ['dict', {'class': ['v', 'c1 c2']}], 'nested': ['list', [['list', [['ref', 'items'], ['list', []]]], ['list', [['list', [['v', 1]]]]]]],
           'st': ['set', ['a', 'b']], 'tp': ['tuple', [['v', 1], ['ref', 'items']]]}
    vals['V1'] = ['dict', ctx]
    vals['V2'] = ['dict', dict(ctx, s=['v', 'other'], items=['list', [['v', 'z']]])]
    vals['V3'] = ['dict', {('$' + x if rng.random() < .6 else x): y for x, y in ctx.items()}]
    vals['C1'] = ['dict', {'name': ['v', 'Ann'], 'items': ['ref', 'items'], 'doc': ['ref', 'doc'], 'f': ['f']}]
    vals['C2'] = ['dict', {'name': ['v', 'Bob'], 'f': ['f'], 'items': ['list', []]}]
    if rng.random() < .2: vals['C2'][1]['request'] = ['v', 'own']
    if rng.random() < .2: vals['C2'][1]['__file__'] = ['v', '/sim/tpl/own.hy']
    return vals

def obj_op(rng, dj):
    if dj and rng.random() < .6:
        op = {'k': 'django', 'ctx': rng.choice(['C1', 'C1', 'C2', None]), 'req': rng.choice([None, 'r1', 'r2', 'r1']), 'plan': {}}
        if rng.random() < .55: op['name'] = rng.choice(['t%d.hy' % i for i in range(len(DJ_TEXTS))] + ['missing.hy']); op['keep'] = rng.random() < .5
        else: op['text'] = rng.choice(DJ_TEXTS)
    else:
        op = {'k': 'call', 'vars': rng.choice(['V1', 'V1', 'V2', 'V3']), 'text': rng.choice(OBJ_TEXTS), 'plan': {}, 'via': rng.choice(['render', 'render', 'translate']), 'file': '/sim/tpl/main.hy'}
        if 'ext' in op['text'] or rng.random() < .2: op['tags'] = rng.choice(['T1', 'T1', 'T2', 'T3'])
    if rng.random() < .3: op['plan'][str(rng.randint(1, 4))] = rng.choice([['X', rng.choice(EXC_NAMES)], ['seq', 's', ['X', 'KeyError']], 'n'])
    if rng.random() < .15: op['plan'][str(rng.choice([3, 4, 7, 8]))] = ['X', rng.choice(EXC_NAMES)]
    return op

def obj_files():
    files = {'/sim/tpl/t%d.hy' % i: t for i, t in enumerate(DJ_TEXTS)}
    files['/sim/tpl2/t3.hy'] = 'p | shadowed'
    files['/sim/tpl/lib.hy'] = '%H a\n  p | lib {a}\n$v = 5'
    files['/sim/tpl/base/layout.hy'] = 'from .part import %P\n%H @body n\n  div\n    @ body\n    P {n}'
    files['/sim/tpl/base/part.hy'] = '%P x\n  i | part {x}'
    return files

def g_C10(rng, k):
    nt = rng.choice([1, 1, 2, 2, 3])
    tasks = []
    dj = rng.random() < .6
    for t in range(nt):
        ops = []
        for _ in range(rng.randint(3, 7) if nt == 1 else rng.choice([1, 2, 6])):
            if ops and rng.random() < .25: ops.append(norm(ops[-1]))
            else: ops.append(obj_op(rng, dj))
            if ops[-1].get('req') and rng.random() < .5: ops.append(dict(norm(ops[-1]), req=rng.choice([None, 'r2'])))
        tasks.append({'ops': ops})
    base = norm(dict(world='obj', mode='ref', files=obj_files(), vals=obj_vals(rng), reqs=['r1', 'r2'], tasks=tasks, cwd=rng.choice(['/sim/w', '/sim/tpl'])))
    prof = Prof(base)
    if prof.dead: yield base, None; return
    refs = runner.references(base)
    yield base, refs
    keys = sorted(prof.tabs)
    for _ in range(k - 1):
        sc = switches(rng, prof, keys) if nt > 1 else {'acts': {}}
        if nt == 1 or rng.random() < .3: sc['acts'] = merge_acts(sc['acts'], interrupts(rng, prof, keys, BASE_NAMES + ['MemoryError', 'ValueError'], 1))
        yield dict(base, sched=sc), refs


# ======================================================================================================= C06, C11: I/O

ERRS = {'stat': ['EACCES', 'EIO', 'ENOENT', 'ESTALE', 'ELOOP'], 'open': ['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ENOMEM', 'EISDIR', 'EINTR'],
        'read': ['EIO', 'ESTALE', 'EISDIR', 'ENOMEM', 'EINTR'], 'getcwd': ['ENOENT', 'EACCES']}

def fs_faults(rng, fslog, files, n):
    """Faults at calls that were recorded."""
    pts = []
    cnt = {}
    for x in fslog:
        if x[0] == 'op': continue
        k = tuple(x)
        cnt[k] = cnt.get(k, -1) + 1
        if x[0] in ('open', 'read', 'exec', 'stat', 'getcwd'):
            w = {'open': 5, 'read': 6, 'exec': 4, 'stat': 2, 'getcwd': 1}[x[0]]
            if x[0] == 'stat' and not x[1].endswith('.hy'): w = .3
            pts.append((w, [x[0], x[1], cnt[k]]))
    out = []
    for _ in range(n):
        if not pts: break
        call, path, occ = rng.choices([p for w, p in pts], [w for w, p in pts])[0]
        if call == 'read' and rng.random() < .2: occ += 1
        f = {'call': call, 'path': path, 'occ': occ}
        r = rng.random()
        if call == 'exec': f['exc'] = rng.choice(EXC_NAMES)
        elif call == 'read' and r < .25: f['short'] = rng.choice([1, 2, 7])
        elif call in ('stat', 'open') and r < .25 and path in files: f['mut'] = [['remove', path]]; f['restore'] = [['write', path, files[path]]]
        else: f['err'] = rng.choice(ERRS[call])
        out.append(f)
    return out

def io_modules(rng, big=True):
    mods = gen.make_modules(rng, SMALL, rng.choice([1, 2, 3]))
    for m in mods.values():
        # the last definition of the file tells whether the file was read completely
        if rng.random() < .6:
            for j in range(rng.randint(1, 12)): m['ir'].insert(len(m['ir']), ['com', 'filler %d ' % j + 'x' * rng.choice([10, 300, 2500])])
        m['ir'].append(['set', 'last%s' % m['path'].rsplit('/', 1)[1][:-3], ['s', 'end of ' + m['path']]])
        m['vars'] = m['vars'] + ['last%s' % m['path'].rsplit('/', 1)[1][:-3]]
        if rng.random() < .3: m['ir'].append(['text', '|', [['zażółć — ' + 'ż' * rng.randint(1, 40)]]])
    return mods

def io_op(rng, mods):
    op = make_op(rng, TINY, mods, budget=8, p_import=1, nimp=rng.choice([1, 2]))
    vars = [i[2] or i[1] for b in op['ir'] if b[0] == 'imp' and b[3] != '*' for i in b[3] if i[0] == '$' and i[1].startswith('last')]
    for v in vars: op['ir'].append(['text', '|', [['', {'e': ['v', v], 'q': ''}]]])
    return op

def module_files(scn): return {m['path']: world.module_text(scn, m) for m in scn['modules'].values() if 'ir' in m}

def g_C06(rng, k):
    mods = io_modules(rng)
    conc = rng.random() < .3
    n = rng.randint(1, 3)
    first = [io_op(rng, mods) for _ in range(n)]
    bad = None
    if not conc and rng.random() < .35:
        # a file with bytes that cannot be decoded, or a broken script; repaired later
        m = mods[rng.choice(sorted(mods))]
        text = world.module_text({'modules': mods}, m)
        b = text.encode()
        cut = rng.randrange(len(b))
        r = rng.random()
        if r < .6: broken = {'hex': (b[:cut] + rng.choice([b'\xff', b'\xc5', b'\x80abc', b'\xfe\xff\x00']) + b[cut:]).hex()}
        else: broken = text + '\n' + rng.choice(['p | {f(1}', '$x =', '| {', 'if\n', 'p\n   q\n  r', '| {1/0}', '| {undefined_symbol}'])
        bad = (m['path'], broken, text)
    again = norm(first) + [io_op(rng, mods)]
    if conc:
        tasks = [{'ops': norm(first)}, {'ops': norm(first)[:2]}, {'ops': [{'k': 'fs', 'ops': [['disarm']]}] + again, 'after': True}]
    else:
        ops = norm(first)
        tasks = [{'ops': ops + [{'k': 'fs', 'ops': [['disarm']]}] + again}]
    base = norm(dict(modules=mods, files=dict(FILES), tasks=tasks, warm=rng.random() < .4))
    if rng.random() < .3: base['short'] = rng.choice([1, 3, 16, 100])
    twins = {}
    if not bad and rng.random() < .35:
        # Python modules that could be imported instead of the scripts
        for m in mods.values():
            p = m['path']
            p = p[:-3] + '.py' if p.startswith('/sim/py/') else '/sim/py' + p[6:-3] + '.py' if p.startswith('/sim/w/m') else None
            if p: twins[p] = '\n'.join("%s = 'impostor'" % v for v in m['vars'] or ['x'])
        base['files'].update(twins)
    prof = Prof(base)
    yield base, prof.result
    if prof.dead: return
    content = module_files(base)
    log = []
    for x in prof.fslog:
        if x[0] == 'op' and x[1] == tasks_probe_uid(base): break
        log.append(x)
    nf = len(first)
    for i in range(k - 1):
        s = norm(base)
        if bad and i == 0:
            s = norm(base)
            s['files'][bad[0]] = bad[1]
            s['tasks'][0]['ops'] = [dict(o, maybe='fail-if-used', bad=bad[0]) for o in norm(first)] + [{'k': 'fs', 'ops': [['write', bad[0], bad[2]], ['disarm']]}] + norm(again)
            yield s, None
            continue
        s['fsfaults'] = fs_faults(rng, log, content, rng.choice([1, 1, 2, 3]))
        if twins: s['fsfaults'] = [f for f in s['fsfaults'] if f['call'] in ('open', 'read') and f['path'].endswith('.hy') and 'mut' not in f and f.get('err') != 'ENOENT']
        fix = [x for f in s['fsfaults'] for x in f.get('restore', ())]
        for t in s['tasks'][:2 if conc else 1]:
            for o in t['ops'][:nf]: o['maybe'] = 1
        for t in s['tasks']:
            for o in t['ops']:
                if o['k'] == 'fs': o['ops'] = fix + o['ops']
        if conc: s['sched'] = switches(rng, prof, [x for x in sorted(prof.tabs) if x[0] in '01'])
        yield s, None

def tasks_probe_uid(scn):
    """uid of the first operation after faults have been switched off."""
    for ti, t in enumerate(scn['tasks']):
        for oi, o in enumerate(t['ops']):
            if o['k'] == 'fs' and ['disarm'] in o['ops']: return runner.op_uid(ti, oi + 1, t['ops'][oi + 1])

def g_C11(rng, k):
    """Faults and errors at any depth of imports, with an eye on open files."""
    if rng.random() < .35:
        for x in g_C11_django(rng, k): yield x
        return
    mods = io_modules(rng)
    ops = [io_op(rng, mods) for _ in range(rng.randint(1, 3))]
    base = norm(dict(modules=mods, files=dict(FILES), tasks=[{'ops': ops}], warm=rng.random() < .5, short=rng.choice([0, 0, 5])))
    prof = Prof(base)
    yield base, prof.result
    if prof.dead: return
    content = module_files(base)
    for i in range(k - 1):
        s = norm(base)
        for o in s['tasks'][0]['ops']: o['maybe'] = 1
        if rng.random() < .25:
            # scripts that import one another, or themselves
            for _ in range(rng.choice([1, 1, 2])):
                a, b = rng.choice(sorted(mods)), rng.choice(sorted(mods))
                p = mods[a]['path']
                imp = 'from %s import %s' % (gen.import_path(rng, mods, b, posixpath.dirname(p)), '*' if rng.random() < .5 else '$nosuch')
                head, _, tail = content[p].partition('\n')
                s['files'][p] = head + '\n' + imp + '\n' + tail if rng.random() < .5 else content[p] + '\n' + imp
            for o in s['tasks'][0]['ops']: o['free'] = 1
        elif rng.random() < .35:
            m = rng.choice(sorted(content))
            b = content[m].encode()
            cut = rng.randrange(len(b))
            s['files'][m] = rng.choice([{'hex': (b[:cut] + b'\xff' + b[cut:]).hex()}, content[m] + '\n| {', content[m] + '\n| {1/0}', content[m] + '\nimport $x from nowhere_at_all', '| {x', content[m] + '\np | {undefined_symbol}'])
            for o in s['tasks'][0]['ops']: o['free'] = 1
        else: s['fsfaults'] = fs_faults(rng, prof.fslog, content, rng.choice([1, 1, 2]))
        yield s, None

def g_C11_django(rng, k):
    ops = [obj_op(rng, True) for _ in range(rng.randint(2, 5))]
    for o in ops:
        if o['k'] == 'django' and 'name' not in o: o.pop('text', None); o['name'] = 't%d.hy' % rng.randrange(len(DJ_TEXTS))
        o['free'] = 1
    files = obj_files()
    base = norm(dict(world='obj', files=files, vals=obj_vals(rng), reqs=['r1', 'r2'], tasks=[{'ops': ops}]))
    prof = Prof(base)
    yield base, prof.result
    if prof.dead: return
    for i in range(k - 1):
        s = norm(base)
        s['fsfaults'] = fs_faults(rng, prof.fslog, files, rng.choice([1, 1, 2]))
        if rng.random() < .3:
            p = rng.choice(sorted(files)); s['files'][p] = {'hex': 'ff' + files[p].encode().hex()}
        yield s, None


# ======================================================================================================= C12: progress

def g_C12(rng, k):
    r = rng.random()
    if r < .1: it = g_deep(rng, k)
    elif r < .3: it = g_cycles(rng, k)
    elif r < .40: it = g_scale(rng, k)
    else: it = g_progress(rng, k)
    for x in it: yield x

def g_cycles(rng, k):
    """Import graphs with cycles, through all forms of paths."""
    for _ in range(k):
        n = rng.randint(1, 5)
        dirs = ['/sim/w', '/sim/w/qs', '/sim/py/qp']
        mods = {}
        for i in range(n):
            mods['c%d' % i] = dict(path='%s/c%d.hy' % (rng.choice(dirs), i), step='  ', ir=[])
        main = '/sim/w/main.hy'
        if rng.random() < .4: mods['main'] = dict(path=main, step='  ', ir=[])
        def path(frm, to):
            p = mods[to]['path']; forms = []
            if p.startswith('/sim/py/'): forms.append(p[8:-3].replace('/', '.'))
            else:
                forms.append(p[len('/sim/w/'):-3].replace('/', '.'))
                if not frm.startswith('/sim/py/'): forms += [gen.rel_import(posixpath.dirname(frm), p)] * 2
            if frm.startswith('/sim/py/') and p.startswith('/sim/py/'): forms.append(gen.rel_import(posixpath.dirname(frm), p))
            return rng.choice(forms)
        names = sorted(mods)
        for i, m in enumerate(names):
            for x in rng.sample(names, rng.choice([0, 1, 1, 2]) if len(names) > 1 else rng.choice([0, 1, 1])):
                mods[m]['ir'].append(['imp', path(mods[m]['path'], x), x, [['$', 'v_' + x, None]] if rng.random() < .7 else '*'])
            mods[m]['ir'].append(['set', 'v_' + m, ['s', 'value of ' + m]])
        ops = []
        for _ in range(rng.randint(2, 5)):
            x = rng.choice(names)
            ops.append(dict(k='render', ir=[['imp', path(main, x), x, [['$', 'v_' + x, None]]], ['text', '|', [['', {'e': ['v', 'v_' + x], 'q': ''}]]]], plan={}, file=main, how='ctx', step='  ', limit=400000, mustend=1))
        yield norm(dict(world='res', modules=mods, files={'/sim/py/qp/__init__.py': ''}, tasks=[{'ops': ops}], trace=True)), None

DEEP = {
    'parens': lambda n: '| {' + '(' * n + '1' + ')' * n + '}',
    'lists': lambda n: '| {' + '[' * n + '1' + ']' * n + '}',
    'calls': lambda n: 'from simcb import $f\n| {' + "f(1 if '' else " * n + '2' + ')' * n + '}',
    'blocks': lambda n: '\n'.join(' ' * i + 'div' for i in range(n)),
    'tabs': lambda n: '\n'.join('\t' * i + 'p title="a"' for i in range(n)) + '\n' + '\t' * n + '| x',
    'chain': lambda n: 'div : ' * n + 'p | x',
    'ifs': lambda n: '\n'.join(' ' * i + 'if True:' for i in range(n)) + '\n' + ' ' * n + '| x',
    'tries': lambda n: '\n'.join(' ' * i + 'try:' for i in range(n)) + '\n' + ' ' * n + '| {undefined}',
    'loops': lambda n: '\n'.join(' ' * i + 'for x%d in [1]:' % i for i in range(n)) + '\n' + ' ' * n + '| x',
    'hypertags': lambda n: '%H0 a\n  | x{a}\n' + ''.join('%%H%d a\n  H%d {a}\n' % (i, i - 1) for i in range(1, n)) + 'H%d 1' % (n - 1),
    'bodies': lambda n: '%H @body\n  div\n    @ body\n' + '\n'.join(' ' * i + 'H' for i in range(n)) + '\n' + ' ' * n + '| x',
    'unclosed': lambda n: '| {' + '(' * n + '1',
    'minus': lambda n: '| {' + '-(' * n + '1' + ')' * n + '}',
    'strings': lambda n: '| {' + 'f(' * n,
    'user': lambda n: 'from simcb import $f\nfor i in [1,2]:\n  try:\n    p | {f(1)}\n  else | failed {f(1)?}',
    'userdeep': lambda n: 'from simcb import $f\n%H x\n  p | {x}\n' + '\n'.join('  ' * i + 'div' for i in range(n % 60)) + '\n' + '  ' * (n % 60) + 'H {f(1)}',
}

def g_deep(rng, k):
    """Exhaustion of the stack: scripts of deep nesting and endless recursion of user code must end with an exception."""
    for _ in range(k):
        tasks = []
        for t in range(rng.choice([1, 1, 2])):
            ops = [raw_op(rng, GOOD)] if rng.random() < .3 else []
            for _ in range(rng.randint(1, 2)):
                text = DEEP[rng.choice(sorted(DEEP))](int(20 * 150 ** rng.random()))
                op = dict(k=rng.choice(['render', 'trans']), text=text, free=1, blur=1, plan={'1': ['seq', rng.choice(['RC', 's']), ['RC'], 's']}, file='/sim/w/main.hy')
                op['plan']['1'][1] = ['RC'] if rng.random() < .8 else 's'
                ops.append(op)
            tasks.append({'ops': ops + [raw_op(rng, GOOD)]})
        yield norm(dict(mode='ref', stack=8, modules={}, files=FILES, tasks=tasks, warm=rng.random() < .5)), None

def g_progress(rng, k):
    cfg = dict(SMALL, p_fault=.05)
    mods = gen.make_modules(rng, SMALL, rng.choice([0, 1, 2]))
    nt = rng.choice([1, 2, 2, 3])
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2]) if nt > 1 else rng.randint(2, 4)):
            r = rng.random()
            ops.append(raw_op(rng, SYNTAX) if r < .06 else raw_op(rng, FAILING + GOOD) if r < .2 else make_op(rng, cfg, mods, budget=18))
        tasks.append({'ops': ops})
    tasks.append({'ops': [norm(rng.choice(rng.choice(tasks)['ops'])), make_op(rng, cfg, mods, budget=10), raw_op(rng, GOOD)], 'after': True})
    base = norm(dict(mode='ref', limits=True, modules=mods, files=FILES, tasks=tasks, warm=rng.random() < .3, trace=True))
    prof = Prof(base)
    if prof.dead: yield base, None; return
    refs = runner.references(base)
    keys = [x for x in sorted(prof.tabs) if int(x.split('.')[0]) < nt]
    for _ in range(k):
        sc = switches(rng, prof, keys) if nt > 1 else {'acts': {}}
        if nt == 1 or rng.random() < .6: sc['acts'] = merge_acts(sc['acts'], interrupts(rng, prof, keys, BASE_NAMES + ['MemoryError', 'ValueError', 'OSError'], rng.choice([1, 2])))
        s = dict(base, sched=sc)
        if rng.random() < .3: s['fsfaults'] = fs_faults(rng, prof.fslog, module_files(base), 1)
        yield s, refs

SCALES = {
    'blocks': lambda n: '\n'.join('p | line %d {%d}' % (i, i) for i in range(n)),
    'nested': lambda n: '\n'.join('  ' * i + 'div' for i in range(n)) + '\n' + '  ' * n + '| x',
    'expr': lambda n: '| {' + ' + '.join(str(i) for i in range(n)) + '}',
    'parens': lambda n: '| {' + '(' * (n // 8) + '1' + ')' * (n // 8) + '}',
    'loop': lambda n: '%%H a\n  b | {a}\nfor i in range(%d):\n  li | {i}\n  H {i}' % n,
    'nestedloop': lambda n: 'for i in range(%d):\n  for j in range(3):\n    | {i}{j}' % n,
    'attrs': lambda n: 'p ' + ' '.join('a%d="%d"' % (i, i) for i in range(n)) + ' | x',
    'text': lambda n: 'p\n' + '\n'.join('  | some text < & > ' + 'word ' * 5 for i in range(n)),
    'longline': lambda n: '| ' + 'word {1} ' * n,
    'hypertags': lambda n: '\n'.join('%%H%d a\n  p | {a}%s' % (i, '\n  H%d {a}' % (i - 1) if i and i % 8 else '') for i in range(n)) + '\nH%d 1' % (n - 1),
    'try': lambda n: '\n'.join('try:\n  p | {undefined_%d}\nelse:\n  p | {%d?}' % (i, i) for i in range(n)),
    'while': lambda n: '$i = 0\nwhile i < %d:\n  li | {i}\n  $i += 1' % n,
    'margins': lambda n: '\n\n'.join('p | {%d}\n\n' % i for i in range(n)),
    'list': lambda n: '$x = [' + ', '.join("'a%d'" % i for i in range(n)) + ']\nfor a in x:\n  | {a}',
    'unclosed': lambda n: '| ' + '{' * (n // 8) + 'x',
    'badtail': lambda n: '\n'.join('p | line %d' % i for i in range(n)) + '\np | {f(}',
    'chain': lambda n: ' : '.join(['div'] * (n // 8 + 1)) + ' | x',
    'pipes': lambda n: "| {'a'" + ':upper:lower' * (n // 8) + '}',
    'ifelse': lambda n: '\n'.join('if %d == 3 | a%d\nelif %d | b\nelse | c' % (i, i, i % 2) for i in range(n)),
    'comments': lambda n: '\n'.join('# comment %d\n-- other' % i for i in range(n)) + '\np | x',
    'embed': lambda n: '%H @body a\n  div\n    @ body\n    p | {a}\n' + '\n'.join('H %d\n  p | {%d}' % (i, i) for i in range(n)),
    'attrconcat': lambda n: 'p ' + ' '.join('.c%d' % i for i in range(n)) + ' | x',
    'tabs': lambda n: '\n'.join('\t' * (i % 7) + 'div' for i in range(n)),
}

def g_scale(rng, k):
    for name in rng.sample(sorted(SCALES), min(len(SCALES), max(1, k // 3))):
        base = rng.choice([8, 12, 16])
        ops = [dict(k='render', text=SCALES[name](base * m), free=1, limit=40000000) for m in (1, 2, 4)]
        yield dict(mode='scale', name=name, sizes=ops, tasks=[{'ops': [ops[0]]}], files={}), None


# ======================================================================================================= C13: environment

AMB = [dict(time=1.6e9, pid=4242, rand=1), dict(time=0.0, pid=1, rand=2, tid=77, env={'HYPERTAG_DEBUG': '1', 'LANG': 'C', 'TZ': 'Asia/Tokyo', 'HOME': '/nonexistent'}, envall='1'),
       dict(time=4102444799.5, pid=99999, rand=3, tid=140737, env={'PYTHONHASHSEED': '5', 'LC_ALL': 'tr_TR.UTF-8'}, envall=''), dict(time=1.7e9, pid=7, rand=5, garbage=3)]

def g_C13(rng, k):
    cfg = dict(SMALL, p_fault=.04, p_reenter=rng.choice([0, .08]))
    mods = gen.make_modules(rng, SMALL, rng.choice([0, 1, 1, 2, 3]), side_effects=True)
    ops = []
    many = rng.random() < .5
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        op = where_op(rng) if r < .08 else norm(rng.choice(ops)) if ops and r < .35 else raw_op(rng, SYNTAX + FAILING + GOOD) if r < .5 else raw_op(rng, OBJ_STD) if r < .6 else make_op(rng, cfg, mods, budget=18, **(dict(p_import=1, nimp=len(mods)) if many and mods else {}))
        if op['k'] == 'render' and rng.random() < .2: op['k'] = 'trans'
        ops.append(op)
    base = norm(dict(mode='ambient', modules=mods, files=FILES, tasks=[{'ops': ops}]))
    prof = Prof(base)
    if prof.dead: yield base, None; return
    keys = sorted(prof.tabs)
    for i in range(k):
        ambs = [AMB[0]]
        a = dict(rng.choice(AMB[1:]))
        a['time'] = rng.choice([a['time'], rng.uniform(0, 4e9)])
        if rng.random() < .5: a['pad'] = rng.choice([3, 40, 150, 400, 700] if i == 0 else [3, 10, 40])
        if rng.random() < .6:
            # clock jumps and changes of environment inside and between operations
            acts = {}
            for _ in range(rng.randint(1, 4)):
                key = rng.choice(keys)
                acts.setdefault(key, []).append(dict(prof.point(rng, key), do='clock', by=rng.choice([1, 59, 61, 301, 3600, 86400, -1, -3600, -86400, 31536000, 1e8])))
            a['acts'] = acts
        if rng.random() < .35: a['hashseed'] = rng.randint(1, 3)
        if rng.random() < .5: a['between'] = rng.choice([.5, 61, 3601, 90001, 4e7, -100])
        yield dict(base, ambients=ambs + [a]), None

OBJ_STD = ["$s = 'b a c a'\n| {s:unique} {s:upper} {'x\\n  y':dedent}", "| {'some long text that will be cropped':crop(12)} {'a  b':merge}", "for a, b in cycle([1,2,3,4], ['odd','even']):\n  | {a} {b}\n",
           "for x, c in changes([1,1,2]):\n  | {x} {c}", "$d = {'b': 1, 'a': 2, 'c': 3}\nfor k in d : li | {k}\n| {d}", "$st = {3,1,2}\n| {len(st)} {sorted(st)}", 'p class="a" .b title="q" #i data-z=1 alt={2} | x', "| {dict(z=1, y=2)}"]


# ======================================================================================================= C14: resolution

def g_C14(rng, k):
    for _ in range(max(1, k)):
        yield make_res(rng), None

def make_res(rng):
    folders = ['/sim/w', '/sim/w/qa', '/sim/w/qa/qb', '/sim/v', '/sim/v/qa', '/sim/py/qp', '/sim/py/qp/qa', '/sim/py/qn', '/sim/py/qa', '/sim/r', '/sim/v/qp']
    names = ['mx', 'my', 'mz']
    files = {'/sim/py/qp/__init__.py': ''}
    if rng.random() < .6: files['/sim/py/qp/qa/__init__.py'] = ''
    if rng.random() < .3: files['/sim/py/qa/__init__.py'] = ''
    mods = {}
    res = {}
    def imp_path(rng):
        r = rng.random()
        n = rng.choice(names)
        if r < .3: return n
        if r < .55: return rng.choice(['qa.', 'qp.', 'qp.qa.', 'qa.qb.', 'qn.']) + n
        if r < .8: return '.' + n
        if r < .9: return '.' + rng.choice(['qa.', 'qb.']) + n
        return '..' + rng.choice(['', '', 'qa.', 'qp.']) + n
    def add(path):
        i = len(mods)
        ir = []
        for j in range(rng.choice([0, 0, 0, 1, 1, 2])): ir.append(['imp', imp_path(rng), '?', [['$', 'tok', 't%d' % j]]])
        subs = [b[3][0][2] for b in ir]
        ir.append(['set', 'tok', ['cat', [['s', 'F%d ' % i], ['f', 100 + i]] + [['v', s] for s in subs]]])
        mods['k%d' % i] = dict(path=path, ir=ir, step='  ')
    for f in rng.sample(folders, rng.randint(3, 8)):
        for n in rng.sample(names, rng.randint(1, 2)): add('%s/%s.hy' % (f, n))
    taken = {m['path'] for m in mods.values()}
    # files that appear later on
    late = []
    for f in rng.sample(folders, rng.randint(0, 4)):
        p = '%s/%s.hy' % (f, rng.choice(names))
        if p not in taken: taken.add(p); add(p); late.append('k%d' % (len(mods) - 1))
    if rng.random() < .3: files['/sim/py/qp/%s.py' % rng.choice(names)] = "tok = 'python'"
    if rng.random() < .3: files['/sim/py/%s.py' % rng.choice(names)] = "tok = 'python top'"
    if rng.random() < .35:
        for _ in range(rng.randint(1, 3)):
            p = imp_path(rng)
            if p[0] != '.': res[p] = rng.choice(sorted(taken) + ['/sim/nowhere/x.hy'])
    ops = []
    nrt = rng.choice([1, 1, 1, 2])
    mains = ['/sim/w/main.hy', '/sim/w/qa/main.hy', '/sim/v/main.hy', None, '/sim/py/qp/main.hy', '/sim/py/qp/qa/main.hy', 'main.hy', 'qa/main.hy']
    def op():
        file = rng.choice(mains)
        pkg = None
        if file and file.startswith('/sim/py/') and rng.random() < .7: pkg = posixpath.dirname(file)[8:].replace('/', '.')
        ir = []
        n = rng.choice([1, 1, 2, 3])
        for j in range(n): ir.append(['imp', imp_path(rng), '?', [['$', 'tok', 'u%d' % j]]])
        ir.append(['text', '|', [[x for j in range(n) for x in ('i%d ' % j, {'e': ['v', 'u%d' % j], 'q': ''})]]])
        o = dict(k='render', ir=ir, plan={}, file=file, pkg=pkg, how='ctx', step='  ')
        if nrt == 2: o['rt'] = rng.randrange(2)
        if rng.random() < .15: o['plan'][str(100 + rng.randrange(len(mods)))] = ['X', rng.choice(EXC_NAMES)]
        return o
    for _ in range(rng.randint(3, 7)):
        r = rng.random()
        if late and r < .2:
            m = late.pop()
            ops.append({'k': 'fs', 'ops': [['write', mods[m]['path'], world.script(mods[m]['ir'], '  ', 'imp')]]})
        elif r < .35: ops.append({'k': 'fs', 'ops': [['chdir', rng.choice(['/sim/w', '/sim/v', '/sim/w/qa', '/sim/r'])]]})
        elif ops and r < .5 and any(o['k'] == 'render' for o in ops): ops.append(norm(rng.choice([o for o in ops if o['k'] == 'render'])))
        else: ops.append(op())
    ops.append(op())
    scn = dict(world='res', modules=mods, files=files, tasks=[{'ops': ops}], cwd='/sim/w', nrt=nrt)
    lateset = set()
    for o in ops:
        if o['k'] == 'fs':
            for x in o['ops']:
                if x[0] == 'write': lateset.add(x[1])
    lateset |= {mods[m]['path'] for m in late}
    scn['absent'] = sorted(lateset)
    if res: scn['resolve'] = res
    return norm(scn)


# ------------------------------------------------------------------------------------------------------------- registry

RESULT = ('result', 'exception', 'calls', 'deadlock', 'crash', 'hang', 'no progress')

def mixed(*gs):
    def g(rng, k):
        ws = [w for w, _ in gs]
        f = rng.choices([f for _, f in gs], ws)[0]
        for x in f(rng, k): yield x
    return g

class P(object):
    def __init__(self, gen, kinds, groups, k, rule):
        self.gen, self.kinds, self.groups, self.k, self.rule = gen, kinds, groups, k, rule

PROPS = {
    'C01': P(g_C01, RESULT, (50, 1500), 9, 'a group of random scripts run by 2-3 caller threads on 1-2 runtimes (fresh or warm), with shared modules, under random schedules; non-trivial: at least one preemption happened inside an operation'),
    'C02': P(g_C02, ('result', 'exception', 'calls', 'crash', 'hang', 'no progress', 'deadlock'), (36, 1500), 7, 'a history of 6-14 operations with failures of user code, syntax errors, missing and broken modules and asynchronous interrupts; non-trivial: at least one operation failed and another one succeeded after it'),
    'C03': P(g_C03, ('result', 'calls', 'crash', 'hang'), (270, 4000), 7, 'a random program rich in try blocks, with random faults of user code at places reached by its fault-free run; non-trivial: at least one fault happened'),
    'C04': P(g_C04, ('result', 'calls', 'crash', 'hang'), (320, 4000), 7, 'a random program rich in qualifiers, with random faults and false values; non-trivial: at least one fault or false value happened'),
    'C05': P(g_C05, ('exception', 'interrupt lost', 'crash', 'hang'), (200, 2500), 9, 'a random program with exceptions of user code or an asynchronous interrupt at a random executed line; non-trivial: an exception was injected'),
    'C06': P(g_C06, ('result', 'crash', 'hang', 'no progress', 'deadlock'), (100, 2500), 7, 'imports of random modules under faults of the simulated file system, then the same imports without faults; non-trivial: a fault happened'),
    'C07': P(g_C07, ('result', 'calls', 'exception', 'crash', 'hang'), (50, 2000), 8, 'a random program rich in hypertags, sequential or concurrent, with faults and re-entrant calls; non-trivial: a fault, a re-entrant call or a preemption happened'),
    'C08': P(mixed((3, g_C08), (1, g_C08m)), ('result', 'exception', 'tree changed', 'calls', 'crash', 'hang', 'deadlock'), (100, 2000), 7, 'random sequences of read-only operations and changes of copies on shared trees, sequential or concurrent, with failing tags and interrupts; non-trivial: several operations completed on one tree'),
    'C09': P(g_C09, ('result', 'calls', 'crash', 'hang'), (270, 4000), 7, 'a random program of control blocks, loops and lazy operators with logged user code and random faults; non-trivial: user code was called'),
    'C10': P(g_C10, ('result', 'exception', 'argument changed', 'calls', 'crash', 'hang', 'deadlock'), (110, 1600), 7, 'random sequences of calls that share argument objects, templates and requests, sequential or concurrent, some failing; non-trivial: several calls shared an object'),
    'C11': P(g_C11, ('open files', 'crash', 'hang'), (260, 2500), 7, 'imports and Django templates under I/O faults, undecodable files and errors in loaded scripts; non-trivial: a file was opened'),
    'C12': P(g_C12, ('deadlock', 'no progress', 'crash', 'hang', 'unbounded'), (80, 1500), 7, 'random import graphs with cycles, concurrent and interrupted operations with step budgets, and inputs of doubled sizes; non-trivial: an operation ended'),
    'C13': P(g_C13, ('ambient', 'crash', 'hang'), (60, 1500), 4, 'the same operations in two different environments (clock and its jumps, randomness, identity, variables, history, hash seed); non-trivial: the environments differed and an operation completed'),
    'C14': P(g_C14, ('result', 'exception', 'calls', 'read again', 'crash', 'hang', 'open files'), (1000, 9000), 4, 'random layouts of folders, packages, scripts and import paths that change between operations; non-trivial: a script was imported'),
}
