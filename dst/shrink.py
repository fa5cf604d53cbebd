"""Minimisation of a failing scenario: greedy deletion and simplification on its JSON form."""
import copy, json, time

from .model import eslots
from .gen import wellformed

LEAF = ['s', 'z']


def block_lists(x, out):
    """All lists of blocks in a list of blocks `x`, outermost first."""
    out.append(x)
    for b in x:
        k = b[0]
        if k == 'tag':
            if b[2] and b[2][0] == 'bl': block_lists(b[2][1], out)
        elif k == 'if':
            for c in b[1]: block_lists(c[1], out)
            if b[2] is not None: block_lists(b[2], out)
        elif k == 'for':
            block_lists(b[3], out)
            if b[4] is not None: block_lists(b[4], out)
        elif k == 'while':
            block_lists(b[2], out)
            if b[3] is not None: block_lists(b[3], out)
        elif k == 'try':
            for c in b[1]: block_lists(c, out)
        elif k == 'def': block_lists(b[4], out)
        elif k == 'qtry': block_lists([b[1]], out)


def inner(b):
    """Lists of blocks a block can be replaced with."""
    k = b[0]
    if k == 'tag' and b[2] and b[2][0] == 'bl': yield b[2][1]
    elif k == 'if':
        for c in b[1]: yield c[1]
        if b[2] is not None: yield b[2]
    elif k in ('for', 'while'):
        n = 3 if k == 'for' else 2
        if b[n + 1] is not None: yield b[n + 1]
    elif k == 'try':
        for c in b[1]: yield c
    elif k == 'qtry': yield [b[1]]


def subexprs(e): return [c[k] for c, k in eslots(e)]


def expr_slots(b):
    """(container, key) of expressions that occur directly in a block."""
    k = b[0]
    if k == 'text':
        for l in b[2]:
            for p in l:
                if isinstance(p, dict): yield p, 'e'
    elif k == 'tag':
        for t in b[1]:
            for a in t[1]: yield a, 1
        if b[2] and b[2][0] == 'in':
            for p in b[2][2]:
                if isinstance(p, dict): yield p, 'e'
        elif b[2] and b[2][0] == 'embx': yield b[2], 1
    elif k == 'if':
        for c in b[1]: yield c, 0
    elif k == 'for': yield b, 2
    elif k == 'while': yield b, 1
    elif k in ('set', 'aug', 'mset'): yield b, 2
    elif k == 'embx': yield b, 1
    elif k == 'ex': yield b, 1
    elif k == 'def':
        for p in b[3]:
            if p[1] is not None: yield p, 1
    elif k == 'qtry':
        for x in expr_slots(b[1]): yield x


def deep_slots(b):
    for c, k in expr_slots(b):
        st = [(c, k)]
        while st:
            c, k = st.pop()
            yield c, k
            st += eslots(c[k])


def programs(scn):
    """All (getter) programs of a scenario, as lists of blocks."""
    out = []
    for m in scn.get('modules', {}).values():
        if 'ir' in m: out.append(m['ir'])
    def plan(p):
        for s in (p or {}).values():
            for x in (s if isinstance(s, list) else [s]):
                if isinstance(x, list) and x and x[0] == 'R': op(x[1])
            if isinstance(s, list) and s and s[0] == 'R': op(s[1])
    def op(o):
        if isinstance(o, dict):
            if 'ir' in o: out.append(o['ir'])
            plan(o.get('plan'))
    for t in scn.get('tasks', ()):
        for o in t['ops']: op(o)
    for o in scn.get('docs', ()): op(o)
    return out


def edits(scn):
    """Functions that simplify a (copied) scenario in place; each returns nothing. Yields closures with stable addresses."""
    for i in range(len(scn.get('tasks', ()))):
        if len(scn['tasks']) > 1: yield lambda s, i=i: del_task(s, i)
    for i, t in enumerate(scn.get('tasks', ())):
        for j in range(len(t['ops'])): yield lambda s, i=i, j=j: del_op(s, i, j)
    for key in ('fsfaults',):
        for i in range(len(scn.get(key, ()))): yield lambda s, key=key, i=i: s[key].pop(i)
    acts = scn.get('sched', {}).get('acts', {})
    for k in acts:
        yield lambda s, k=k: s['sched']['acts'].pop(k)
        for i in range(len(acts[k])):
            yield lambda s, k=k, i=i: s['sched']['acts'][k].pop(i)
            if acts[k][i].get('op'): yield lambda s, k=k, i=i: s['sched']['acts'][k][i].pop('op')
    for m in scn.get('modules', {}): yield lambda s, m=m: s['modules'].pop(m)
    for f in scn.get('files', {}): yield lambda s, f=f: s['files'].pop(f)
    if scn.get('warm'): yield lambda s: s.pop('warm')
    if scn.get('short'): yield lambda s: s.pop('short')
    progs = programs(scn)
    for pi, p in enumerate(progs):
        bls = []
        block_lists(p, bls)
        for bi, bl in enumerate(bls):
            n = len(bl)
            if n > 3:
                yield lambda s, pi=pi, bi=bi, n=n: blist(s, pi, bi).__delitem__(slice(0, n // 2))
                yield lambda s, pi=pi, bi=bi, n=n: blist(s, pi, bi).__delitem__(slice(n // 2, n))
            for k in range(n): yield lambda s, pi=pi, bi=bi, k=k: blist(s, pi, bi).pop(k)
    for pi, p in enumerate(progs):
        bls = []
        block_lists(p, bls)
        for bi, bl in enumerate(bls):
            for k, b in enumerate(bl):
                for x in range(len(list(inner(b)))):
                    yield lambda s, pi=pi, bi=bi, k=k, x=x: unwrap(s, pi, bi, k, x)
                for v in range(len(simpler(b))):
                    yield lambda s, pi=pi, bi=bi, k=k, v=v: simplify(s, pi, bi, k, v)
                for x, (c, key) in enumerate(deep_slots(b)):
                    for y in range(len(subexprs(c[key]))):
                        yield lambda s, pi=pi, bi=bi, k=k, x=x, y=y: subst(s, pi, bi, k, x, y)
                    if c[key][0] not in ('s', 'it', 'w', 'n'):
                        yield lambda s, pi=pi, bi=bi, k=k, x=x: subst(s, pi, bi, k, x, None)
    for t, task in enumerate(scn.get('tasks', ())):
        for j, o in enumerate(task['ops']):
            for key in list((o.get('plan') or {})):
                yield lambda s, t=t, j=j, key=key: s['tasks'][t]['ops'][j]['plan'].pop(key)
                sp = o['plan'][key]
                if isinstance(sp, list) and sp[0] == 'seq' and len(sp) > 2:
                    for z in range(1, len(sp)): yield lambda s, t=t, j=j, key=key, z=z: s['tasks'][t]['ops'][j]['plan'][key].pop(z)


def blist(s, pi, bi):
    out = []
    block_lists(programs(s)[pi], out)
    return out[bi]

def unwrap(s, pi, bi, k, x):
    bl = blist(s, pi, bi)
    bl[k:k + 1] = list(inner(bl[k]))[x]

def simpler(b):
    """Simpler variants of one block."""
    out = []
    k = b[0]
    if k == 'text':
        if len(b[2]) > 1: out += [[k, b[1], b[2][:1]], [k, b[1], b[2][1:]]]
        for i, l in enumerate(b[2]):
            if len(l) > 1:
                for j in range(len(l)): out.append([k, b[1], b[2][:i] + [l[:j] + l[j + 1:]] + b[2][i + 1:]])
            for j, p in enumerate(l):
                if isinstance(p, str) and len(p) > 1: out.append([k, b[1], b[2][:i] + [l[:j] + [p[0]] + l[j + 1:]] + b[2][i + 1:]])
    elif k == 'tag':
        if len(b[1]) > 1:
            for i in range(len(b[1])): out.append([k, b[1][:i] + b[1][i + 1:], b[2]])
        for i, (n, at) in enumerate(b[1]):
            for j in range(len(at)): out.append([k, b[1][:i] + [[n, at[:j] + at[j + 1:]]] + b[1][i + 1:], b[2]])
        if b[2] is not None: out.append([k, b[1], None])
        if b[2] and b[2][0] == 'in':
            l = b[2][2]
            if len(l) > 1:
                for j in range(len(l)): out.append([k, b[1], ['in', b[2][1], l[:j] + l[j + 1:]]])
    elif k == 'if':
        if b[2] is not None: out.append([k, b[1], None])
        if len(b[1]) > 1: out += [[k, b[1][1:], b[2]], [k, b[1][:1], b[2]]]
    elif k == 'for' and b[4] is not None: out.append(b[:4] + [None])
    elif k == 'while' and b[3] is not None: out.append(b[:3] + [None])
    elif k == 'try' and len(b[1]) > 1:
        for i in range(len(b[1])): out.append([k, b[1][:i] + b[1][i + 1:]])
    elif k == 'def':
        if b[2]: out.append([k, b[1], None, b[3], b[4]])
        for i in range(len(b[3])): out.append([k, b[1], b[2], b[3][:i] + b[3][i + 1:], b[4]])
    elif k == 'imp' and b[3] != '*' and len(b[3]) > 1:
        for i in range(len(b[3])): out.append(b[:3] + [b[3][:i] + b[3][i + 1:]])
    return out

def simplify(s, pi, bi, k, v):
    bl = blist(s, pi, bi)
    bl[k] = simpler(bl[k])[v]

def subst(s, pi, bi, k, x, y):
    b = blist(s, pi, bi)[k]
    c, key = list(deep_slots(b))[x]
    c[key] = subexprs(c[key])[y] if y is not None else LEAF


def del_task(s, i):
    s['tasks'].pop(i)
    sc = s.get('sched')
    if sc:
        acts = {}
        for k, v in sc.get('acts', {}).items():
            t, o = map(int, k.split('.'))
            if t == i: continue
            nv = []
            for a in v:
                if a.get('to') == i: continue
                if a.get('to', -1) is not None and a.get('to', -1) > i: a = dict(a, to=a['to'] - 1)
                nv.append(a)
            acts['%d.%d' % (t - (t > i), o)] = nv
        sc['acts'] = acts
        if sc.get('order'): sc['order'] = [x - (x > i) for x in sc['order'] if x != i]

def del_op(s, i, j):
    s['tasks'][i]['ops'].pop(j)
    sc = s.get('sched')
    if sc:
        acts = {}
        for k, v in sc.get('acts', {}).items():
            t, o = map(int, k.split('.'))
            if t == i and o == j: continue
            acts['%d.%d' % (t, o - (t == i and o > j))] = v
        sc['acts'] = acts


def tidy(scn):
    """Text must not end with spaces (they are not preserved at the end of a script)."""
    def line(l):
        while l and isinstance(l[-1], str):
            l[-1] = l[-1].rstrip()
            if l[-1]: break
            l.pop()
        if not l: l.append('z')
    for p in programs(scn):
        bls = []
        block_lists(p, bls)
        for bl in bls:
            for b in bl:
                if b[0] == 'text':
                    for l in b[2]: line(l)
                elif b[0] == 'tag' and b[2] and b[2][0] == 'in': line(b[2][2])


def shrink(scn, fails, seconds=60, log=None):
    """`fails(scn)` -> bool. Returns the smallest scenario found."""
    end = time.time() + seconds
    tried = 0
    size = lambda s: len(json.dumps(s))
    best = copy.deepcopy(scn)
    progress = True
    while progress and time.time() < end:
        progress = False
        n = 0
        eds = list(edits(best))
        while n < len(eds):
            if time.time() > end: break
            c = copy.deepcopy(best)
            try:
                eds[n](c); tidy(c)
                if not all(wellformed(p, c.get('modules', {})) for p in programs(c)): n += 1; continue
            except Exception: n += 1; continue
            if size(c) >= size(best): n += 1; continue
            tried += 1
            if fails(c):
                best = c
                progress = True
                eds = list(edits(best))     # same position: what follows has moved up
                continue
            n += 1
    return best, tried
