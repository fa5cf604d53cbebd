"""Random generator of programs (IR), of the behaviour of their callbacks (plans) and of faults in them."""
import posixpath

from .model import eslots, leaves

EXC_NAMES = ['ValueError', 'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'RuntimeError', 'OSError', 'ZeroDivisionError',
             'ImportError', 'NameError', 'UnboundLocalError', 'RecursionError', 'MemoryError', 'AssertionError', 'LookupError', 'CustomError',
             'SyntaxError', 'NotImplementedError', 'FileNotFoundError', 'UnicodeError', 'FalsyError', 'ModuleNotFoundError',
             'PermissionError', 'TimeoutError', 'UnicodeDecodeError', 'Exception', 'StopAsyncIteration', 'TwoArgs', 'EOFError', 'DeprecationWarning',
             'HError', 'ImportErrorEx', 'ModuleNotFoundEx', 'UnboundLocalEx', 'NoneStringEx', 'FalseValueEx', 'TypeErrorEx', 'VoidTagEx', 'SyntaxErrorEx']
EXC_NAMES += ['TypeError', 'KeyError', 'AttributeError', 'ValueError', 'IndexError', 'RecursionError', 'ModuleNotFoundError', 'OSError'] * 2       # those that engines catch
BASE_NAMES = ['KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'CustomBase']
HTML = ['p', 'div', 'b', 'i', 'ul', 'li', 'span', 'h1', 'section', 'em', 'A', 'td']
ATTRS = ['class', 'id', 'title', 'alt', 'data-k']
OPERATORS = ['+', 'r+', '-', '%', '<', '==', '!=', 'in', 'not in', 'neg', '()', '[]', '|', 'str']
WORDS = ['alpha', 'be', 'gam ma', 'delta,', 'x-1', 'om.', 'zeta (z)', 'q1', 'Ala ma kota', 'lorem;', "it's", 'one/two', 'a:b', 'k=v', 'no', '#1', '50%', '@me']
SPECIAL = ['<b>', 'a & b', '1 < 2 > 0', '$5', '{x}', 'ż€', '&amp;', '"q"']

DEFAULT = dict(
    depth=3, width=(1, 4), top=(2, 5),
    w=dict(text=5, tag=6, iff=2, forr=2, whilee=1, tryy=2, qtry=1, sett=2, aug=.7, ex=.7, deff=1, com=.2, passs=.1, use=2, cond=.5, ext=.5, embx=.35, mset=.35, nest=.3),
    p_fault=.0, p_base=.0, p_false=.08, p_q=.12, p_iterfail=.0, p_badstr=.0, p_special=.06, p_indentchar=.01, p_embed=.55, p_reenter=0, p_arity=0,
    faults_in_try=1.0, faults_outside=1.0, exprdepth=2, steps=['    ', '  ', ' ', '\t', '   '], p_unbound=.3, p_ext_fault=0, p_multiline=.15, p_empty=.02,
    p_gap=.06, p_inl=.3, p_rich=.14, p_short=.15, p_void=0, p_multi=.2, p_dollar=.3, p_rename=.5)


class Scope(object):
    def __init__(self, parent=None):
        self.vars = list(parent.vars) if parent else []
        self.maybe = list(parent.maybe) if parent else []
        self.own = []                   # variables that can be re-assigned here
        self.tags = dict(parent.tags) if parent else {}
        self.doms = list(parent.doms) if parent else []    # variables that hold nodes
        self.inbody = parent.inbody if parent else False    # inside the body of a tag
        self.body = parent.body if parent else None
        self.toplevel = False
        self.in_try = parent.in_try if parent else 0
        self.in_loop = parent.in_loop if parent else 0
        self.in_control = parent.in_control if parent else 0
        self.in_def = parent.in_def if parent else 0


class Gen(object):

    def __init__(self, rng, cfg=None, base=0, reenter=None):
        self.r = rng
        c = dict(DEFAULT); c['w'] = dict(DEFAULT['w'])
        for k, v in (cfg or {}).items():
            if k == 'w': c['w'].update(v)
            else: c[k] = v
        self.c = c
        self.nsite = base
        self.nname = 0
        self.base = base
        self.plan = {}
        self.budget = 40
        self.reenter_gen = reenter
        self.importer = None        # () -> (import blocks, tags, variables): an import of a module inside of a block

    # -- helpers

    def chance(self, p): return self.r.random() < p
    def name(self, pre):
        self.nname += 1
        return '%s%d_' % (pre, self.nname + self.base)
    def site(self):
        self.nsite += 1
        return self.nsite

    def faultspec(self, sc, under_q, kinds=None):
        """Outcome of a callback which returns a string by default."""
        c, r = self.c, self.r
        scale = c['faults_in_try'] if sc.in_try else c['faults_outside']
        x = r.random()
        if x < c['p_fault'] * scale: return ['X', r.choice(EXC_NAMES)]
        x -= c['p_fault'] * scale
        if x < 0: x = 1
        if r.random() < c['p_base']: return ['X', r.choice(BASE_NAMES)]
        if r.random() < c['p_false'] * (scale if not under_q else 3): return r.choice(['n', 'e', 'z', 'f', 'l', 'e', 'n'])
        if not under_q and r.random() < c['p_badstr'] * scale: return ['BS', r.choice(EXC_NAMES)]
        if r.random() < .06: return r.choice(['t', 'h', 'T'])
        if not under_q and r.random() < .015: return ['BB', r.choice(EXC_NAMES)]
        return 's'

    def newsite(self, sc, under_q=False):
        s = self.site()
        if sc.in_loop and self.chance(.6):
            spec = ['seq'] + [self.faultspec(sc, under_q) for _ in range(self.r.randint(2, 4))]
            if any(x != 's' for x in spec[1:]): self.plan[str(s)] = spec
        else:
            spec = self.faultspec(sc, under_q)
            if spec != 's': self.plan[str(s)] = spec
        return s

    # -- expressions

    def call(self, sc, uq=False):
        r = self.r
        if self.c['p_reenter'] and self.reenter_gen and self.chance(self.c['p_reenter']):
            s = self.site()
            self.plan[str(s)] = ['R', self.reenter_gen()]
            return ['r', s]
        k = r.choice(['f', 'f', 'f', 'a', 'i'])
        return [k, self.newsite(sc, uq)]

    def atom(self, sc, uq=False):
        r = self.r
        x = r.random()
        if sc.vars and x < .4: return ['v', r.choice(sc.vars)]
        if sc.maybe and uq and x < .6: return ['v', r.choice(sc.maybe)]
        if x < .9: return self.call(sc, uq)
        return ['s', self.word()]

    def expr(self, sc, d=None, uq=False):
        """A string-like expression."""
        r = self.r
        if d is None: d = self.c['exprdepth']
        if d <= 0 or r.random() < .45: return self.atom(sc, uq)
        if self.chance(self.c['p_rich']): return self.rich(sc, d, uq)
        x = r.random()
        if x < .25 + self.c['p_q']:
            q = r.choice('??!')
            inner = self.expr(sc, d - 1, uq or q == '?')
            if inner[0] in ('s', 'n', 'list', 'q'): inner = self.call(sc, uq or q == '?')
            if q == '?' and sc.maybe and self.chance(self.c['p_unbound']): inner = ['v', r.choice(sc.maybe)]
            return ['q', inner, q]
        if x < .42: return ['or', self.expr(sc, d - 1, uq), self.expr(sc, d - 1, uq)]
        if x < .50: return ['and', self.expr(sc, d - 1, uq), self.expr(sc, d - 1, uq)]
        if x < .62: return ['ife', self.expr(sc, d - 1, uq), self.cond(sc, d - 1, uq), self.expr(sc, d - 1, uq) if self.chance(.7) else None]
        if x < .72: return ['p', self.expr(sc, d - 1, uq), self.newsite(sc, uq)]
        if x < .80: return ['cat', [self.atom(sc, uq) for _ in range(r.randint(2, 3))]]     # '(' or '[' after a factor would be a call or an index
        if x < .86 and self.inlinable(sc): return self.tagcall(sc, d - 1, uq)
        if x < .93: return ['idx', ['list', [self.expr(sc, d - 1, uq) for _ in range(2)]], r.randint(0, 1)]
        return self.atom(sc, uq)

    def rich(self, sc, d, uq):
        """Less usual forms of expressions."""
        r = self.r
        sub = lambda: self.expr(sc, d - 1, uq)
        x = r.randrange(14)
        if x >= 12: return ['op', r.choice(OPERATORS), self.newsite(sc, uq), self.newsite(sc, uq), sub()]
        if x == 0: return ['up', sub()]
        if x == 1: return ['slc', self.atom(sc, uq), r.randint(0, 2), r.randint(2, 6)]
        if x == 2: return ['fs', self.fparts(sc, uq)]
        if x == 3: return ['didx', [['a', sub()], ['b', sub()]], r.choice('aaabbc') if uq or sc.in_try else r.choice('ab')]
        if x == 4: return ['idx', ['tup', [sub(), sub()]], r.choice([0, 1, 0, 1, 5]) if uq or sc.in_try else r.randint(0, 1)]
        if x == 5: return ['k', self.newsite(sc, uq), [sub() for _ in range(r.randint(0, 2))], [[n, sub()] for n in r.sample(['aa', 'bb', 'class_'], r.randint(0, 2))]]
        if x == 6: return ['pp', sub(), self.newsite(sc, uq), sub()]
        if x == 7: return ['ife', sub(), ['cmp', r.choice(['==', '!=']), self.atom(sc, uq), self.atom(sc, uq)], sub()]
        if x == 8: return ['or', ['lit', r.choice(['None', 'False'])], sub()]
        if x == 9: return ['up', self.call(sc, uq)]
        ts = self.inlinable(sc)
        if not ts: return ['k', self.newsite(sc, uq), [sub()], [['k1', sub()]]]
        t = self.tagcall(sc, d - 1, uq)
        if t[0] != 'T': return t
        if x == 11: return t
        return ['hv', self.site(), t[1], ([t[2]] if t[2] is not None else [['lit', 'None']] if t[3] else []) + t[3]]

    def fparts(self, sc, uq):
        r = self.r
        out = [self.plain()]
        for _ in range(r.randint(1, 2)):
            e = self.atom(sc, uq)
            if e[0] == 's': e = self.call(sc, uq)
            q = r.choice('??!') if self.chance(self.c['p_q']) else ''
            out += [{'e': e, 'q': q}, ';' + self.plain()]
        return out

    def plain(self):
        return self.r.choice([w for w in WORDS if "'" not in w])

    def cond(self, sc, d=1, uq=False):
        r = self.r
        s = self.newsite(sc, uq)
        if str(s) not in self.plan and self.chance(.5): self.plan[str(s)] = r.choice(['e', 'n', 'f', 'z', ['seq', 's', 'e', 's'], ['seq', 'e', 's']])
        e = ['f', s]
        x = r.random()
        if x < .15: return ['not', e]
        if x < .3 and d > 0: return [r.choice(['and', 'or']), e, self.cond(sc, d - 1, uq)]
        return e

    def inlinable(self, sc): return [t for t in sc.tags.values() if t['inl']]

    def tagcall(self, sc, d, uq):
        t = self.r.choice(self.inlinable(sc))
        args = [self.expr(sc, max(0, d), uq) for p, dv in t['params'] if dv is None]
        for p, dv in t['params']:
            if dv is not None and self.chance(.5) and len(args) < len(t['params']) and t['params'][len(args)][1] is not None: args.append(self.atom(sc, uq))
        body = None
        if t['body'] is not None: body = self.atom(sc, uq) if self.chance(.8) else ['s', self.word()]
        # without a body parameter, and with arguments, the body is printed as None
        return ['T', t['name'], body, args]

    # -- text

    def word(self):
        r = self.r
        w = r.choice(WORDS)
        if self.chance(self.c['p_special']) and "'" not in w: w += ' ' + r.choice(SPECIAL)
        if self.chance(self.c['p_indentchar']): w += r.choice(u'\u2768\u2769\u276a\u276b')
        return w

    def parts(self, sc, mark):
        r = self.r
        ps = ['t%d ' % r.randint(0, 99) + self.word()]
        if mark == '!': return ps
        while self.chance(self.c['p_embed']) and len(ps) < 8:
            q = ''
            if self.chance(self.c['p_q']): q = r.choice('??!')
            e = self.expr(sc, uq=(q == '?'))
            if q == '?' and sc.maybe and self.chance(self.c['p_unbound']): e = ['v', r.choice(sc.maybe)]
            if e[0] == 'q' or e[0] == 's': q = ''
            if e[0] in ('s', 'list'): e = self.call(sc)
            ps[-1] += ' '
            ps.append({'e': e, 'q': q})
            if e[0] == 'v' and self.chance(self.c['p_dollar']): ps[-1]['d'] = 1
            ps.append(';' + self.word())
        return ps

    def mark(self): return self.r.choice('||||/!')

    def b_text(self, sc, d):
        m = self.mark()
        lines = [self.parts(sc, m)]
        if self.chance(self.c['p_multiline']): lines.append(self.parts(sc, m))
        return ['text', m, lines]

    # -- tags

    def attrs(self, sc):
        r = self.r
        out = []
        for a in r.sample(ATTRS, r.choice([0, 0, 0, 1, 1, 2])):
            x = r.random()
            if x < .35: e = ['s', self.word()]
            elif x < .75: e = self.expr(sc, 1)
            else: e = ['q', self.call(sc, True), '?']
            if self.chance(.06): e = ['lit', r.choice(['None', 'True', 'False'])]
            out.append([a, e])
        if self.chance(self.c['p_short']):
            out = [x for x in out if x[0] not in ('class', 'id')]
            sh = []
            for _ in range(r.choice([1, 1, 2])): sh.append(['.', ['s', r.choice(['cls', 'w-1', 'big'])] if self.chance(.5) else self.expr(sc, 1)])
            if self.chance(.3): sh.append(['#', ['s', r.choice(['top', 'id-2'])] if self.chance(.6) else self.call(sc)])
            out = sh + out if self.chance(.6) else out + sh
        return out

    def body(self, sc, d, dom=None):
        r = self.r
        x = r.random()
        if x < .12: return None
        if dom and x < .35: return ['emb', dom]
        if x < .16 and self.c['w']['embx']: return ['embx', self.nodesexpr(sc)]
        if x < .5 or d <= 0 or self.budget <= 0:
            m = self.mark()
            return ['in', m, self.parts(sc, m)]
        s2 = Scope(sc); s2.own = []; s2.inbody = True
        return ['bl', self.blocks(s2, d - 1)]

    def nodesexpr(self, sc):
        """An expression that evaluates to nodes of a document tree."""
        r = self.r
        if sc.doms and self.chance(.4): return ['v', r.choice(sc.doms)]
        s = self.site()
        x = r.random()
        n = r.choice([0, 1, 2, 2])
        bad = (self.c['p_fault'] + .03) * (self.c['faults_in_try'] if sc.in_try else self.c['faults_outside'])
        if x < bad: spec = r.choice(['s', 'n', 't', ['DT'], ['L', 2], ['X', r.choice(EXC_NAMES)], ['IT', r.choice(EXC_NAMES)], ['DG', n, r.choice(EXC_NAMES)]])
        else: spec = r.choice([['D', n], ['D1'], ['DD', n], ['DN', n], ['DS', n], ['DG', n, None], 'e', 'l'])
        self.plan[str(s)] = spec
        if self.chance(.2): return ['ife', ['b', s], self.cond(sc, 0), self.nodesexpr(sc)]
        return ['b', s]

    def b_embx(self, sc, d):
        if self.chance(.3):
            v = self.name('n')
            e = self.nodesexpr(sc)
            sc.doms.append(v)
            return ['set', v, e]
        return ['embx', self.nodesexpr(sc)]

    def b_mset(self, sc, d):
        r = self.r
        names = [self.name('y') for _ in range(r.randint(2, 3))]
        t = names if len(names) == 2 or self.chance(.5) else [names[0], names[1:]]
        bad = (self.c['p_fault'] + .01) * (self.c['faults_in_try'] if sc.in_try else self.c['faults_outside'])
        if self.chance(.4):
            e = [self.expr(sc, 1) for _ in range(len(t) + (1 if self.chance(bad) else 0))]
            if isinstance(t[-1], list): e[len(t) - 1] = ['tup', [self.atom(sc), self.atom(sc)]]
            e = ['tup', e]
        else:
            s = self.site()
            n = len(t)
            e = ['it', s]
            shape = ['last'] if isinstance(t[-1], list) else []
            if self.chance(bad): spec = r.choice([['L', n + 1], ['L', n - 1], ['I', n - 1], 's', 'n', 't', ['IX', n - 1, r.choice(EXC_NAMES)], ['X', r.choice(EXC_NAMES)], ['IT', r.choice(EXC_NAMES)]])
            else: spec = r.choice([['L', n] + shape, ['I', n] + shape])
            self.plan[str(s)] = spec
        sc.vars += names; sc.own += names
        return ['mset', t, e]

    def b_nest(self, sc, d):
        """An import inside of the body of a tag or a hypertag; its symbols are local."""
        if not self.importer or not sc.inbody or sc.in_control: return self.b_tag(sc, d)
        imps, tags, vars = self.importer()
        for t in tags: sc.tags[t['name']] = dict(t, imported=True)
        sc.vars += vars
        return imps[0]

    def htag(self, sc, name=None):
        return [self.r.choice(HTML), self.attrs(sc)]

    def use_spec(self, sc, t):
        """One occurrence of a hypertag: [name, attrs]"""
        r = self.r
        pos, kw = [], []
        for p, dv in t['params']:
            if dv is None or self.chance(.5):
                e = self.expr(sc, 1)
                if kw or self.chance(.3): kw.append([p, e])
                else: pos.append([None, e])
            else:
                # skipping a default: the rest must be named
                kw_only = True
                for p2, dv2 in t['params'][t['params'].index([p, dv]) + 1:]:
                    if dv2 is None or self.chance(.4): kw.append([p2, self.expr(sc, 1)])
                break
        if self.c['p_arity'] and self.chance(self.c['p_arity']):
            if self.chance(.5): pos = [[None, ['n', 1]]] * (len(t['params']) + 1); kw = []
            else: kw.append(['nosuch', ['n', 1]])
        return [t['name'], pos + kw]

    def b_tag(self, sc, d):
        if self.chance(.05):
            v = [[self.r.choice(['br', 'hr', 'img']), self.attrs(sc)]]
            if self.chance(.3): v.insert(0, self.htag(sc))
            return ['tag', v, ['in', '|', self.parts(sc, '|')] if self.chance(self.c['p_void']) else None]
        if self.chance(.04): return ['tag', [['.', []]], self.body(sc, d, sc.body)]
        specs = [self.htag(sc)]
        while self.chance(.2): specs.append(self.htag(sc))
        return ['tag', specs, self.body(sc, d, sc.body)]

    def b_ext(self, sc, d):
        s = self.site()
        if self.chance(self.c['p_ext_fault']): self.plan[str(s)] = ['X', self.r.choice(EXC_NAMES)]
        specs = [[self.r.choice(['ext1', 'ext2']), [[None, ['n', s]]]]]
        if self.chance(.3): specs.insert(0, self.htag(sc))
        return ['tag', specs, self.body(sc, d, sc.body)]

    def b_use(self, sc, d):
        ts = list(sc.tags.values())
        if not ts: return self.b_tag(sc, d)
        t = self.r.choice(ts)
        specs = [self.use_spec(sc, t)]
        # chains of an imported hypertag and another tag are avoided, and so is a tag after a hypertag: see DESIGN.md (layout)
        if t['body'] is None:
            if not t.get('imported') and self.chance(.2): specs.insert(0, self.htag(sc))
            return ['tag', specs, None]
        if not t.get('imported') and self.chance(.2): specs.insert(0, self.htag(sc))
        b = self.body(sc, d, sc.body)
        return ['tag', specs, b]

    # -- control

    def sub(self, sc, d, loop=False, tr=False):
        s2 = Scope(sc)
        s2.own = list(sc.own) if not tr else []
        s2.in_loop += loop
        s2.in_try += tr
        s2.in_control += 1
        s2.toplevel = False
        if self.chance(self.c['p_empty']): return []
        if not loop and self.chance(self.c['p_inl']): return [['text', '|', [self.parts(s2, '|')], 'inl']]
        return self.blocks(s2, d - 1)

    def b_iff(self, sc, d):
        cl = [[self.cond(sc), self.sub(sc, d)] for _ in range(self.r.choice([1, 1, 1, 2]))]
        return ['if', cl, self.sub(sc, d) if self.chance(.5) else None]

    def b_forr(self, sc, d):
        r = self.r
        v = self.name('x')
        s = self.site()
        x = r.random()
        n = r.choice([0, 1, 2, 2, 3])
        shape = []
        if self.chance(self.c['p_multi']):
            v = [v, self.name('x')]; shape = ['p']
            if self.chance(.3): v = [v[0], [v[1], self.name('x')]]; shape = ['n']
            if self.chance(.4 * self.c['p_iterfail']): shape = ['x']
        if x < self.c['p_iterfail']: spec = ['IX', n, r.choice(EXC_NAMES)]
        elif x < self.c['p_iterfail'] * 1.3: spec = ['X', r.choice(EXC_NAMES)]
        elif x < .6: spec = ['I', n]
        else: spec = ['L', n]
        if spec[0] == 'X' and self.chance(.5): spec[0] = 'IT'
        elif spec[0] != 'X': spec += shape
        elif self.chance(.3): spec = self.r.choice(['n', 't'])
        if self.c['p_base'] and self.chance(self.c['p_base']): spec = ['IX', n, r.choice(BASE_NAMES)]
        self.plan[str(s)] = spec
        s2 = Scope(sc)
        s2.own = list(sc.own); s2.in_loop += 1; s2.in_control += 1; s2.vars += leaves(v)
        body = self.blocks(s2, d - 1)
        src = ['it', s]
        if not shape and self.chance(.15): src = [r.choice(['list', 'tup']), [self.expr(sc, 1) for _ in range(r.randint(2, 3))]]
        return ['for', v, src, body, self.sub(sc, d) if self.chance(.3) else None]

    def b_whilee(self, sc, d):
        s = self.site()
        self.plan[str(s)] = ['P', self.r.choice([0, 1, 2, 3])]
        body = self.sub(sc, d, loop=True)
        return ['while', ['w', s], body, self.sub(sc, d) if self.chance(.3) else None]

    def b_tryy(self, sc, d):
        n = self.r.choice([1, 2, 2, 3])
        return ['try', [self.sub(sc, d, tr=True) for _ in range(n)]]

    def b_qtry(self, sc, d):
        s2 = Scope(sc); s2.in_try += 1; s2.in_control += 1; s2.own = []
        b = self.b_text(s2, d) if self.chance(.3) else self.b_tag(s2, d) if self.chance(.6) else self.b_use(s2, d)
        return ['qtry', b]

    # -- variables & definitions

    def b_sett(self, sc, d):
        v = self.name('y')
        e = self.expr(sc)
        sc.vars.append(v); sc.own.append(v)
        return ['set', v, e]

    def b_aug(self, sc, d):
        own = [v for v in sc.own if v[0] == 'y']
        if not own: return self.b_sett(sc, d)
        return ['aug', self.r.choice(own), self.expr(sc, 1)]

    def b_ex(self, sc, d): return ['ex', self.expr(sc)]
    def b_com(self, sc, d): return ['com', 'comment ' + self.r.choice(['x', '$y', '{', '| p'])]
    def b_passs(self, sc, d): return ['pass']

    def b_cond(self, sc, d):
        """A variable which is assigned only if a condition holds; later it can be read only with '?' or inside try."""
        if not sc.toplevel: return self.b_text(sc, d)
        k = self.name('k')
        b = ['if', [[self.cond(sc), [['set', k, self.expr(sc, 1)]]]], None]
        sc.maybe.append(k)
        return b

    def b_deff(self, sc, d):
        if sc.in_control or sc.in_def > 1: return self.b_text(sc, d)
        r = self.r
        t = dict(name=self.name('H'), body=None, params=[], inl=False)
        if self.chance(.6): t['body'] = self.name('bd')
        s2 = Scope(sc)
        s2.in_try = s2.in_loop = 0
        s2.in_loop = 1          # a hypertag can be expanded many times
        s2.in_def += 1
        s2.own = []; s2.inbody = True
        for i in range(r.choice([0, 1, 1, 2, 3])):
            dv = None
            if i and self.chance(.5) or (t['params'] and t['params'][-1][1] is not None):
                dv = r.choice([['s', self.word()], ['n', r.randint(0, 9)], ['f', self.newsite(s2)]])
            t['params'].append([self.name('a'), dv])
        s2.vars += [p for p, _ in t['params']]
        s2.body = t['body']
        s2.toplevel = True
        if self.chance(.45):
            t['inl'] = True
            blocks = []
            while self.chance(.4): blocks.append(r.choice([self.b_sett, self.b_ex, self.b_cond])(s2, 0))
            if t['body'] and self.chance(.5):
                blocks.append(r.choice([['emb', t['body']], ['tag', [self.htag(s2)], ['emb', t['body']]]]))
            elif self.chance(.5):
                m = r.choice('||/'); blocks.append(['text', m, [self.parts(s2, m)]])
            else:
                m = r.choice('||/'); blocks.append(['tag', [self.htag(s2)], ['in', m, self.parts(s2, m)]])
        else:
            blocks = self.blocks(s2, max(1, d - 1))
            if t['body'] and self.chance(.8):
                blocks.insert(r.randint(0, len(blocks)), ['emb', t['body']])
        sc.tags[t['name']] = t
        return ['def', t['name'], t['body'], t['params'], blocks]

    # -- programs

    def blocks(self, sc, d, n=None):
        r = self.r
        out = []
        w = dict(self.c['w'])
        if d <= 0 or self.budget <= 0:
            for k in ('iff', 'forr', 'whilee', 'tryy', 'deff'): w[k] = 0
        if not sc.toplevel: w['deff'] = 0; w['cond'] = 0
        if not sc.tags: w['use'] = 0
        keys = [k for k in w if w[k] > 0]
        ws = [w[k] for k in keys]
        if n is None: n = r.randint(*self.c['width'])
        for _ in range(n):
            self.budget -= 1
            if self.chance(self.c['p_gap']): out.append(['gap', r.choice([1, 1, 2])])
            k = r.choices(keys, ws)[0]
            out.append(getattr(self, 'b_' + k)(sc, d))
            if self.budget <= -20: break
        return out

    def program(self, imports=(), tags=(), vars=(), top=None):
        sc = Scope()
        sc.toplevel = True
        for t in tags: sc.tags[t['name']] = dict(t, imported=True)
        sc.vars += list(vars)
        n = top or self.r.randint(*self.c['top'])
        blocks = self.blocks(sc, self.c['depth'], n)
        if not any(b[0] in ('text', 'tag') for b in blocks): blocks.append(self.b_tag(sc, 1))
        return list(imports) + blocks, sc


# --------------------------------------------------------------------------------------------------------------- names

def events(ir):
    """
    Declarations and uses of names in a program, in textual order: ('decl' | 'use', symbol, scope), and the tree of scopes.
    A scope is the whole script, the body of a tag, or a definition of a hypertag.
    """
    ev, parent = [], {0: None}
    def new(sc):
        n = len(parent); parent[n] = sc; return n
    def expr(e, sc):
        k = e[0]
        if k == 'v': ev.append(('use', '$' + e[1], sc))
        elif k == 'T': ev.append(('use', '%' + e[1], sc))
        elif k == 'hv': ev.append(('use', '%' + e[2], sc))
        for c, i in eslots(e): expr(c[i], sc)
    def parts(ps, sc):
        for p in ps:
            if isinstance(p, dict): expr(p['e'], sc)
    def blocks(bl, sc):
        for b in bl: block(b, sc)
    def block(b, sc):
        k = b[0]
        if k == 'text':
            for l in b[2]: parts(l, sc)
        elif k == 'tag':
            for n, at in b[1]:
                if n[:1] == 'H': ev.append(('use', '%' + n, sc))
                for a, e in at: expr(e, sc)
            body = b[2]
            if body:
                if body[0] == 'in': parts(body[2], sc)
                elif body[0] == 'emb': ev.append(('use', '$' + body[1], sc))
                elif body[0] == 'embx': expr(body[1], sc)
                else: blocks(body[1], new(sc))
        elif k == 'if':
            for c, bl in b[1]: expr(c, sc); blocks(bl, sc)
            if b[2] is not None: blocks(b[2], sc)
        elif k == 'for':
            expr(b[2], sc)
            for v in leaves(b[1]): ev.append(('decl', '$' + v, sc))
            blocks(b[3], sc)
            if b[4] is not None: blocks(b[4], sc)
        elif k == 'while':
            expr(b[1], sc); blocks(b[2], sc)
            if b[3] is not None: blocks(b[3], sc)
        elif k == 'try':
            for bl in b[1]: blocks(bl, sc)
        elif k == 'qtry': block(b[1], sc)
        elif k == 'set': expr(b[2], sc); ev.append(('decl', '$' + b[1], sc))
        elif k == 'mset':
            expr(b[2], sc)
            for v in leaves(b[1]): ev.append(('decl', '$' + v, sc))
        elif k == 'aug': expr(b[2], sc); ev.append(('use', '$' + b[1], sc))
        elif k in ('ex', 'embx'): expr(b[1], sc)
        elif k == 'emb': ev.append(('use', '$' + b[1], sc))
        elif k == 'def':
            s2 = new(sc)
            if b[2]: ev.append(('decl', '$' + b[2], s2))
            for p, d in b[3]:
                if d is not None: expr(d, s2)
                ev.append(('decl', '$' + p, s2))
            blocks(b[4], s2)
            ev.append(('decl', '%' + b[1], sc))
        elif k == 'imp':
            if b[3] == '*': ev.append(('wild', b[2], sc))
            else:
                for m, n, a in b[3]: ev.append(('imp', m + (a or n), sc))
    blocks(ir, 0)
    return ev, parent


def above(parent, a, b):
    """Scope `a` is `b` or contains it."""
    while b is not None:
        if a == b: return True
        b = parent[b]
    return False


def exports(ir): return {s for k, s, sc in events(ir)[0] if sc == 0 and k != 'use' and s[:1] in '$%'}


def wellformed(ir, modules):
    """No name is used before its declaration in the same or an outer scope."""
    import re
    ev, parent = events(ir)
    seen = []
    for k, s, sc in ev:
        if k == 'wild':
            if not isinstance(s, str) or s not in modules or 'ir' not in modules[s]: seen.append(('*', sc))
            else: seen += [(x, sc) for x in exports(modules[s]['ir'])]
        elif k == 'use':
            if re.match(r'.[A-Za-z]+\d+_$', s) and not any(x in (s, '*') and above(parent, c, sc) for x, c in seen): return False
        else: seen.append((s, sc))
    return True


POOL = ['aa', 'bb', 'xx', 'val', 'item', 'n1', 'body2', 'x', 'name']
TPOOL = ['aa', 'box', 'xx', 'item', 'row2', 'Name']

def renames(rng, ir, exported=False, p=.8):
    """
    Shorter names for the unique names of a program, such that many declarations share a name and shadow one another,
    without any change in what each occurrence refers to.
    """
    ev, parent = events(ir)
    decl, uses = {}, {}
    for k, s, sc in ev:
        if k == 'decl': decl.setdefault(s, sc)
        if k in ('use', 'decl'): uses.setdefault(s, set()).add(sc)
        if k == 'imp': decl[s] = None
    taken = {}
    out = {}
    for s, sc in decl.items():
        if sc is None or (exported and sc == 0) or rng.random() > p: continue
        pool = list(POOL if s[0] == '$' else TPOOL)
        rng.shuffle(pool)
        for n in pool[:5]:
            ok = True
            for s2, sc2 in taken.get((s[0], n), ()):
                if sc == sc2: ok = False
                elif above(parent, sc, sc2): ok = ok and not any(above(parent, sc2, u) for u in uses.get(s, ()))
                elif above(parent, sc2, sc): ok = ok and not any(above(parent, sc, u) for u in uses.get(s2, ()))
            if ok:
                taken.setdefault((s[0], n), []).append((s, sc))
                out[s[1:]] = n
                break
    return out


# ------------------------------------------------------------------------------------------------------------- modules

def rel_import(from_dir, path):
    """A relative import path from a script in `from_dir` to the script `path`."""
    target = path[:-3]
    up = 0
    base = from_dir
    while not target.startswith(base + '/'):
        base = posixpath.dirname(base); up += 1
    return '.' * (up + 1) + target[len(base) + 1:].replace('/', '.')


def make_modules(rng, cfg, n, prefix='m', dirs=('/sim/w', '/sim/w/sub', '/sim/w/lib', '/sim/py/pk'), side_effects=False):
    """A DAG of importable scripts. Returns {modid: {...}}, and a matching list of exported tags and variables."""
    mods = {}
    for i in range(n):
        mid = '%s%d' % (prefix, i)
        path = '%s/%s.hy' % (rng.choice(dirs), mid)
        c = dict(cfg or {})
        c['w'] = dict(c.get('w', {}))
        c['w'].update(deff=8, sett=2, text=1, tag=1, iff=0, forr=0, whilee=0, tryy=0, qtry=0, ex=0, ext=0, cond=0, aug=0, embx=0, mset=0)
        g = Gen(rng, c, base=1000 * (i + 1))
        imports, tags, vars = [], [], []
        if i and rng.random() < .5:
            j = rng.randrange(i)
            imports, tags, vars = import_of(rng, mods, '%s%d' % (prefix, j), posixpath.dirname(path))
        sc = Scope(); sc.toplevel = True
        for t in tags: sc.tags[t['name']] = dict(t, imported=True)
        sc.vars += vars
        blocks = []
        for _ in range(rng.randint(1, 3)): blocks.append(g.b_deff(sc, 2))
        top = ['text', '|', [['module %s' % mid]]]
        const = []
        for _ in range(rng.randint(0, 2)):
            v = g.name('y')
            const.append(['set', v, ['s', '%s-%s' % (mid, v)]])
        own = [b[1] for b in const]
        if side_effects and rng.random() < .5:
            s = g.site()
            v = g.name('y')
            const.append(['set', v, ['f', s]]); own.append(v)
        ir = imports + const + [top] + blocks
        mine = [sc.tags[b[1]] for b in blocks if b[0] == 'def']
        mods[mid] = dict(path=path, ir=ir, step=rng.choice(['    ', '  ']), tags=mine, vars=own, plan=g.plan)
        if rng.random() < g.c['p_rename']: mods[mid]['ren'] = renames(rng, ir, True)
    return mods


def import_path(rng, mods, mid, from_dir):
    path = mods[mid]['path']
    forms = []
    if path.startswith('/sim/py/'): forms = [path[len('/sim/py/'):-3].replace('/', '.')]
    if from_dir is not None and not path.startswith('/sim/py/') and not from_dir.startswith('/sim/py'): forms.append(rel_import(from_dir, path))
    if path.startswith('/sim/w/'): forms.append(path[len('/sim/w/'):-3].replace('/', '.'))
    return rng.choice(forms)


def import_of(rng, mods, mid, from_dir, wild=None):
    m = mods[mid]
    p = import_path(rng, mods, mid, from_dir)
    if wild is None: wild = rng.random() < .5
    if wild: return [['imp', p, mid, '*']], list(m['tags']), list(m['vars'])
    items, tags, vars = [], [], []
    k = rng.randint(1000, 9999)
    for t in m['tags']:
        a = 'H%d%s' % (k, t['name'][1:]) if rng.random() < .25 else None
        items.append(['%', t['name'], a]); tags.append(dict(t, name=a or t['name']))
    for v in m['vars']:
        a = 'y%d%s' % (k, v[1:]) if rng.random() < .25 else None
        items.append(['$', v, a]); vars.append(a or v)
    return [['imp', p, mid, items]], tags, vars
