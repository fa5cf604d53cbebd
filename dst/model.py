"""
Program IR, its printer (IR -> Hypertag script) and a small reference interpreter of the IR.

The interpreter is written from the documentation of the language, shares no code with the engine and knows nothing of
its internals. It works in the same phases a user can observe: imports, translation (callbacks in expressions are
called), rendering (external tags are called).

Blocks:
  ['text', mark, [line...]]                    mark: | / ! ; line = list of parts; part = str or {'e': expr, 'q': ''|'?'|'!'}
  ['tag', [[name, [[attr|None, expr]...]]...], body]     chain of tags; body = None | ['in', mark, parts] | ['bl', blocks] | ['emb', var]
  ['if', [[cond, blocks]...], blocks|None]     ['for', var, iterexpr, blocks, blocks|None]   ['while', cond, blocks, blocks|None]
  ['try', [blocks...]]   ['qtry', block]       ['set', name, expr]  ['aug', name, expr]  ['ex', expr]
  ['def', name, bodyparam|None, [[param, default|None]...], blocks]   ['emb', var]
  ['gap', n]   ['embx', expr] (also as a body)   ['mset', targets, expr]; the variable of 'for' can be a list of (nested) targets, too
  ['imp', path, modid, [[mark, name, alias|None]...] | '*']   ['ctx', [symbol...]]   ['com', text]   ['pass']   ['raw', text]
Expressions:
  ['s', str] ['n', int] ['v', name] ['f', site] ['a', site] ['i', site] ['it', site] ['w', site] ['r', site] ['p', expr, site]
  ['q', expr, '?'|'!'] ['and', a, b] ['or', a, b] ['ife', a, cond, b|None] ['not', a] ['cat', [..]] ['add', a, b] ['eq', a, b]
  ['list', [..]] ['idx', expr, int] ['T', tagname, body|None, [args]] ['tup', [..]] ['didx', [[key, expr]...], key] ['slc', expr, i, j]
  ['fs', parts] ['cmp', op, a, b] ['lit', 'None'|'True'|'False'] ['up', expr] ['pp', expr, site, arg] ['k', site, [args], [[name, expr]...]]
  ['hv', site, tagname, [args]] ['b', site] ['op', operator, site, site, expr]: an object with overloaded operators
A block ['text', mark, [line], 'inl'] as the only block of a branch is printed in the line of the control keyword.
"""
import re

from .plan import callbacks, ext_body, BadBool, Unspecified


class HErr(Exception):
    """An error of the engine itself; only the class name is specified."""
    def __init__(self, name): self.name = name; Exception.__init__(self, name)


def eslots(e):
    """Places of direct subexpressions of an expression: [(container, key)...]"""
    k = e[0]
    if k in ('p', 'q', 'not', 'idx', 'slc', 'up'): return [(e, 1)]
    if k in ('and', 'or', 'add', 'eq'): return [(e, 1), (e, 2)]
    if k == 'cmp': return [(e, 2), (e, 3)]
    if k == 'pp': return [(e, 1), (e, 3)]
    if k == 'ife': return [(e, 1), (e, 2)] + ([(e, 3)] if e[3] is not None else [])
    if k in ('cat', 'list', 'tup'): return [(e[1], i) for i in range(len(e[1]))]
    if k == 'T': return ([(e, 2)] if e[2] is not None else []) + [(e[3], i) for i in range(len(e[3]))]
    if k == 'op': return [(e, 4)]
    if k == 'k': return [(e[2], i) for i in range(len(e[2]))] + [(x, 1) for x in e[3]]
    if k == 'hv': return [(e[3], i) for i in range(len(e[3]))]
    if k == 'didx': return [(x, 1) for x in e[1]]
    if k == 'fs': return [(x, 'e') for x in e[1] if isinstance(x, dict)]
    return []


def leaves(target):
    """Names of variables in an assignment target."""
    if isinstance(target, str): return [target]
    return [x for t in target for x in leaves(t)]


VOID = ('br', 'hr', 'img', 'input')


# --------------------------------------------------------------------------------------------------------------- printer

def esc(s):
    return s.replace('$', '$$').replace('{', '{{').replace('}', '}}')

def strlit(s):
    q = '"' if "'" in s else "'"
    assert q not in s and '\\' not in s
    return q + esc(s) + q

def pe(e, top=False):
    """Print an expression. Unless top=True the result is an atom-like factor."""
    k = e[0]
    if k == 's': return strlit(e[1])
    if k == 'n': return str(e[1])
    if k == 'v': return e[1]
    if k in ('f', 'it', 'w', 'r', 'b'): return '%s(%d)' % (k, e[1])
    if k == 'lit': return e[1]
    if k == 'k': return 'k(%s)' % ', '.join([str(e[1])] + [pe(a, True) for a in e[2]] + ['%s=%s' % (n, pe(x, True)) for n, x in e[3]])
    if k == 'hv': return 'u(%s)' % ', '.join([str(e[1]), '%' + e[2]] + [pe(a, True) for a in e[3]])
    if k == 'tup': return '(' + ', '.join(pe(a, True) for a in e[1]) + ')'
    if k == 'didx': return '({%s}[%r])' % (', '.join('%r: %s' % (n, pe(x, True)) for n, x in e[1]), e[2])
    if k == 'slc': return pe(e[1]) + '[%d:%d]' % (e[2], e[3])
    if k == 'fs': return "'" + pparts(e[1], '/') + "'"
    if k == 'a': return 'o.a%d' % e[1]
    if k == 'i': return 'o[%d]' % e[1]
    if k == 'q': return pe(e[1]) + e[2]
    if k == 'T':
        args = [pe(e[2], True)] if e[2] is not None else ['None'] if e[3] else []
        args += [pe(a, True) for a in e[3]]
        return '%%%s(%s)' % (e[1], ', '.join(args))
    if k == 'list': return '[' + ', '.join(pe(a, True) for a in e[1]) + ']'
    if k == 'idx': return pe(e[1]) + '[%d]' % e[2]
    if k == 'p': s = '%s:g(%d)' % (pe(e[1]), e[2])
    elif k == 'pp': s = '%s:gg(%d, %s)' % (pe(e[1]), e[2], pe(e[3], True))
    elif k == 'up': s = '%s:upper' % pe(e[1])
    elif k == 'cmp': s = '%s %s %s' % (pe(e[2]), e[1], pe(e[3]))
    elif k == 'and': s = '%s and %s' % (pe(e[1]), pe(e[2]))
    elif k == 'or': s = '%s or %s' % (pe(e[1]), pe(e[2]))
    elif k == 'ife': s = '%s if %s' % (pe(e[1]), pe(e[2])) + (' else %s' % pe(e[3]) if e[3] is not None else '')
    elif k == 'not': s = 'not %s' % pe(e[1])
    elif k == 'cat': s = ' '.join(pe(a) for a in e[1])
    elif k == 'add': s = '%s + %s' % (pe(e[1]), pe(e[2]))
    elif k == 'op':
        c, x = 'c(%d, %d)' % (e[2], e[3]), pe(e[4])
        s = {'r+': x + ' + ' + c, 'in': x + ' in ' + c, 'not in': x + ' not in ' + c, 'neg': '-' + c, '()': c + '(' + pe(e[4], True) + ')', '[]': c + '[' + pe(e[4]) + ']', 'str': "'' " + c}.get(e[1]) or c + ' ' + e[1] + ' ' + x
    elif k == 'eq': s = '%s == %s' % (pe(e[1]), pe(e[2]))
    else: raise AssertionError(e)
    return s if top else '(' + s + ')'

def pparts(parts, mark):
    out = ''
    for p in parts:
        if isinstance(p, str): out += p if mark == '!' else esc(p)
        elif p.get('d') and p['e'][0] == 'v': out += '$' + p['e'][1] + p.get('q', '')
        else: out += '{' + pe(p['e'], True) + '}' + p.get('q', '')
    return out

def ptarget(t, top=True):
    if isinstance(t, str): return t
    s = ', '.join(ptarget(x, False) for x in t)
    return s if top else '(' + s + ')'

def pattr(a):
    name, e = a
    if name in ('.', '#'): return name + (e[1] if e[0] == 's' and re.match(r'[a-zA-Z][\w-]*$', e[1]) else '{' + pe(e, True) + '}')
    if e[0] == 'n' or (e[0] == 's' and name): v = pe(e)
    elif e[0] == 's': v = pe(e)
    elif e[0] == 'q' and e[1][0] != 'q': v = '{' + pe(e[1], True) + '}' + e[2]
    else: v = '{' + pe(e, True) + '}'
    return (name + '=' + v) if name else v

def pprog(blocks, step='    '):
    lines = []
    pblocks(blocks, '', step, lines)
    return '\n'.join(lines)

def pblocks(blocks, ind, step, lines):
    for b in blocks: pblock(b, ind, step, lines)

def pbody(head, blocks, ind, step, lines, control):
    if control and len(blocks) == 1 and blocks[0][0] == 'text' and len(blocks[0]) > 3:
        b = blocks[0]
        if head.startswith(('if ', 'elif ')):
            w, c = head.split(' ', 1)
            head = '%s (%s)' % (w, c)
        lines.append(ind + head + ' ' + b[1] + ' ' + pparts(b[2][0], b[1]))
        return
    lines.append(ind + head + (':' if control else ''))
    pblocks(blocks, ind + step, step, lines)

def pblock(b, ind, step, lines, prefix=''):
    k = b[0]
    pre = ind + prefix
    if k == 'text':
        mark, ls = b[1], b[2]
        lines.append(pre + mark + ' ' + pparts(ls[0], mark))
        for l in ls[1:]: lines.append(ind + ' ' * (len(prefix) + 2) + pparts(l, mark))
    elif k == 'tag':
        head = ' : '.join(' '.join([n] + [pattr(a) for a in at]) for n, at in b[1])
        body = b[2]
        if body is None: lines.append(pre + head)
        elif body[0] == 'in': lines.append(pre + head + ' ' + body[1] + ' ' + pparts(body[2], body[1]))
        elif body[0] == 'emb': lines.append(pre + head + ' @ ' + body[1])
        elif body[0] == 'embx': lines.append(pre + head + ' @ ' + pe(body[1]))
        else:
            lines.append(pre + head)
            pblocks(body[1], ind + step, step, lines)
    elif k == 'if':
        for i, (c, bl) in enumerate(b[1]):
            pbody(('elif ' if i else 'if ') + pe(c, True), bl, ind, step, lines, True)
        if b[2] is not None: pbody('else', b[2], ind, step, lines, True)
    elif k == 'for':
        pbody('for %s in %s' % (ptarget(b[1]), pe(b[2], True)), b[3], ind, step, lines, True)
        if b[4] is not None: pbody('else', b[4], ind, step, lines, True)
    elif k == 'while':
        pbody('while %s' % pe(b[1], True), b[2], ind, step, lines, True)
        if b[3] is not None: pbody('else', b[3], ind, step, lines, True)
    elif k == 'try':
        for i, bl in enumerate(b[1]): pbody('else' if i else 'try', bl, ind, step, lines, True)
    elif k == 'qtry': pblock(b[1], ind, step, lines, prefix='? ')
    elif k == 'gap': lines.extend([''] * b[1])
    elif k == 'embx': lines.append(pre + '@ ' + pe(b[1]))
    elif k == 'mset': lines.append(pre + '$ %s = %s' % (ptarget(b[1]), pe(b[2], True)))
    elif k == 'set': lines.append(pre + '$ %s = %s' % (b[1], pe(b[2], True)))
    elif k == 'aug': lines.append(pre + '$ %s += %s' % (b[1], pe(b[2], True)))
    elif k == 'ex': lines.append(pre + '$ ' + pe(b[1], True))
    elif k == 'def':
        head = '%' + b[1] + (' @' + b[2] if b[2] else '')
        for p, d in b[3]: head += ' ' + p + ('=' + (pe(d) if d[0] in 'ns' else '{' + pe(d, True) + '}') if d is not None else '')
        lines.append(pre + head)
        pblocks(b[4], ind + step, step, lines)
    elif k == 'emb': lines.append(pre + '@ ' + b[1])
    elif k == 'imp':
        items = '*' if b[3] == '*' else ', '.join(m + n + (' as ' + a if a else '') for m, n, a in b[3])
        lines.append(pre + 'from %s import %s' % (b[1], items))
    elif k == 'ctx': lines.append(pre + 'context ' + ', '.join(b[1]))
    elif k == 'com': lines.append(pre + '-- ' + b[1])
    elif k == 'pass': lines.append(pre + 'pass')
    elif k == 'raw': lines.extend(ind + l for l in b[1].split('\n'))
    else: raise AssertionError(b)


# ------------------------------------------------------------------------------------------------------------ model DOM

class MNode(object):
    __slots__ = ('kind', 'name', 'attrs', 'kw', 'text', 'children', 'indent', 'outline')
    def __init__(self, kind, **kw):
        self.name = self.attrs = self.kw = self.text = None
        self.children = []; self.indent = ''; self.outline = False
        self.kind = kind
        for k, v in kw.items(): setattr(self, k, v)
    def copy(self):
        n = MNode(self.kind, name=self.name, attrs=self.attrs, kw=self.kw, text=self.text, indent=self.indent, outline=self.outline)
        n.children = [c.copy() for c in self.children]
        return n

_re_nl = re.compile(r'\n(?=.)')

def quote(v):
    v = v.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace('\n', '&#10;').replace('\r', '&#13;').replace('\t', '&#9;')
    if '"' in v:
        return "'%s'" % v if "'" not in v else '"%s"' % v.replace('"', '&quot;')
    return '"%s"' % v

def render_nodes(nodes, getplan):
    return ''.join(render_node(n, getplan) for n in nodes)

def render_node(n, getplan):
    if n.kind == 'text': s = n.text
    elif n.kind == 'tag':
        head = [n.name]
        for a, v in n.kw.items():
            if v is True: head.append(a)
            elif v is not False: head.append(a + '=' + quote(str(v)))
        if n.name in VOID:
            if render_nodes(n.children, getplan): raise HErr('VoidTagEx')
            s = '<%s />' % ' '.join(head)
            if n.outline: s = '\n' + s
            if n.indent: s = _re_nl.sub('\n' + n.indent, s)
            return s
        body = render_nodes(n.children, getplan)
        s = '<%s>%s%s</%s>' % (' '.join(head), body, '\n' if body[:1] == '\n' else '', n.name)
    elif n.kind == 'ext':
        body = render_nodes(n.children, getplan)
        s = ext_body(getplan, n.name, body, *n.attrs)
    else:
        s = render_nodes(n.children, getplan)
    if n.outline: s = '\n' + s
    if n.indent: s = _re_nl.sub('\n' + n.indent, s)
    return s

def render_root(nodes, getplan):
    s = render_nodes(nodes, getplan)
    return s[1:] if s[:1] == '\n' else s


# ----------------------------------------------------------------------------------------------------------- interpreter

class Frame(object):
    def __init__(self, parent=None, vals=None):
        self.vals = vals if vals is not None else {}
        self.parent = parent
    def find(self, sym, default=None):
        fr = self
        while fr is not None:
            if sym in fr.vals: return fr.vals[sym]
            fr = fr.parent
        return default
    def get(self, sym):
        v = self.find(sym, Frame)
        if v is Frame: raise HErr('UnboundLocalEx')
        return v

class MHyper(object):
    def __init__(self, name, body, params, blocks, frame):
        self.name, self.body, self.params, self.blocks, self.frame = name, body, params, blocks, frame

class MExt(object):
    def __init__(self, name): self.name = name

EXTS = ('ext1', 'ext2')

class MRuntime(object):
    """State of a runtime as far as a user can see: which modules have been loaded."""
    def __init__(self): self.loaded = {}

class Interp(object):

    def __init__(self, plan, modules, rt, step='    ', extra=None):
        self.plan = plan
        self.getplan = lambda: plan
        self.modules = modules          # modid -> {'ir': blocks, 'step': str}
        self.rt = rt
        self.step = step
        self.cb = callbacks(self.getplan)
        self.extra = extra or {}        # additional context symbols: '$x' / '%t' -> value
        self.loading = []

    # -- documents

    def translate(self, blocks, context=None):
        frame = Frame(vals=dict(('$' + k, v) for k, v in self.cb.items()))
        for x in EXTS: frame.vals['%' + x] = MExt(x)
        frame.vals.update(self.extra)
        self.imports(blocks, frame)
        nodes = self.blocks(blocks, frame)
        return nodes, frame

    def imports(self, blocks, frame):
        for b in blocks:
            if b[0] == 'raw' and len(b) > 2: raise HErr(b[2])           # a script that is broken in a known way
            if b[0] == 'tag' and b[2] and b[2][0] == 'bl': self.imports(b[2][1], frame)
            if b[0] == 'def': self.imports(b[4], frame)         # names are unique, so symbols can be put in the outer namespace
            if b[0] != 'imp': continue
            mid = b[2]
            if mid == 'simcb': continue
            if isinstance(mid, dict): raise HErr(mid['err'])            # import that is known to fail
            if mid not in self.rt.loaded:
                if mid in self.loading: raise HErr('ImportErrorEx')
                self.loading.append(mid)
                m = self.modules[mid]
                save, self.step = self.step, m.get('step', '    ')
                try:
                    if m.get('bad'): raise HErr(m['bad'])
                    _, fr = self.translate(m['ir'])
                finally:
                    self.loading.pop(); self.step = save
                self.rt.loaded[mid] = (fr, m.get('step', '    '))
            fr, step = self.rt.loaded[mid]
            if b[3] == '*':
                for k, v in fr.vals.items():
                    if k[1] != '_' and k[1:] not in self.cb and k[1:] not in EXTS: frame.vals[k] = v
            else:
                for m, n, a in b[3]:
                    if m + n not in fr.vals: raise HErr('ImportErrorEx')
                    frame.vals[m + (a or n)] = fr.vals[m + n]

    def render(self, blocks):
        nodes, _ = self.translate(blocks)
        return render_root(nodes, self.getplan)

    # -- blocks

    def blocks(self, blocks, frame):
        out = []
        for b in blocks:
            if b[0] == 'gap':
                out.append(MNode('text', text='\n' * b[1])); continue
            nodes = self.block(b, frame)
            if nodes:
                nodes[0].outline = True
                out += nodes
        return out

    def block(self, b, frame):
        return getattr(self, 'b_' + b[0])(b, frame)

    def b_text(self, b, fr):
        return [MNode('text', text='\n'.join(self.line(l, b[1], fr) for l in b[2]))]

    def line(self, parts, mark, fr):
        s = ''
        for p in parts:
            if isinstance(p, str): s += p
            else: s += self.tostr(self.embed(p, fr))
        if mark == '|': s = s.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;')
        return s

    def embed(self, p, fr):
        q = p.get('q', '')
        return self.qual(p['e'], q, fr) if q else self.ev(p['e'], fr)

    def tostr(self, v):
        if v is None: raise HErr('NoneStringEx')
        return str(v)

    def b_tag(self, b, fr):
        body = b[2]
        if body is None: nodes = []
        elif body[0] == 'in': nodes = [MNode('text', text=self.line(body[2], body[1], fr))]
        elif body[0] == 'emb': nodes = self.emb(body[1], fr)
        elif body[0] == 'embx': nodes = self.embx(body[1], fr)
        else:
            # tagged blocks are local namespaces; names are unique in generated programs, so the same frame can be used
            nodes = self.blocks(body[1], fr)
            for n in nodes: n.indent = self.step
        for name, attrs in reversed(b[1]):
            pos, kw = [], {}
            for a, e in attrs:
                if a is None: pos.append(self.ev(e, fr))
            for a, e in attrs:
                if a is None: continue
                v = self.ev(e, fr)
                if a in ('.', '#'):
                    a = 'class' if a == '.' else 'id'
                    if a in kw:
                        if not isinstance(v, str) or not isinstance(kw[a], str): raise HErr('TypeError')
                        v = kw[a] + ' ' + v
                kw[a] = v
            if name == '.': nodes = [MNode('nat', name='.', kw={}, children=nodes)]; continue
            tag = fr.find('%' + name)
            if isinstance(tag, MHyper): nodes = [self.expand(tag, nodes, pos, kw)]
            elif isinstance(tag, MExt): nodes = [MNode('ext', name=tag.name, attrs=pos, kw=kw, children=nodes)]
            elif tag is None: nodes = [MNode('tag', name=name, kw=kw, children=nodes)]
            else: raise AssertionError(tag)
        return nodes

    def expand(self, h, body, pos, kw):
        if len(pos) > len(h.params): raise HErr('TypeErrorEx')
        names = [p for p, d in h.params]
        if any(k not in names for k in kw): raise HErr('TypeErrorEx')
        vals = dict(kw)
        for p, v in zip(names, pos):
            if p in vals: raise HErr('TypeErrorEx')
            vals[p] = v
        frame = Frame(h.frame)
        for p, d in h.params:
            if p not in vals:
                if d is None: raise HErr('TypeErrorEx')
                vals[p] = self.ev(d, frame)
        for p, v in vals.items(): frame.vals['$' + p] = v
        if h.body: frame.vals['$' + h.body] = body
        elif body: raise HErr('VoidTagEx')
        save, self.step = self.step, h.step
        try: nodes = self.blocks(h.blocks, frame)
        finally: self.step = save
        for n in nodes: n.indent = ''
        if nodes: nodes[0].outline = False
        return MNode('nat', name=h.name, kw=vals, children=nodes)

    def emb(self, var, fr):
        v = fr.get('$' + var)
        nodes = v if isinstance(v, list) else [v]
        nodes = [n.copy() for n in nodes]
        for n in nodes: n.indent = ''
        return nodes

    def b_emb(self, b, fr): return self.emb(b[1], fr)

    def embx(self, e, fr):
        v = self.ev(e, fr)
        if isinstance(v, MNode): nodes = [v]
        else:
            try: v = iter(v)
            except TypeError as ex: self.herr(ex, 'TypeErrorEx')
            nodes = []
            def flat(x):
                for n in x:
                    if n is None: continue
                    if isinstance(n, MNode): nodes.append(n)
                    elif isinstance(n, list): flat(n)
                    else: raise HErr('TypeErrorEx')
            flat(list(v))
        nodes = [n.copy() for n in nodes]
        for n in nodes: n.indent = ''
        return nodes

    def herr(self, ex, name):
        if hasattr(ex, '_dst_key'): raise ex            # raised by user code
        raise HErr(name)

    def b_embx(self, b, fr): return self.embx(b[1], fr)

    def b_if(self, b, fr):
        for c, bl in b[1]:
            if self.ev(c, fr): return self.blocks(bl, fr)
        return self.blocks(b[2], fr) if b[2] is not None else []

    def b_for(self, b, fr):
        out, empty = [], True
        v = self.ev(b[2], fr)
        try: v = iter(v)
        except TypeError as ex: self.herr(ex, 'TypeError')
        for v in v:
            empty = False
            self.assign(b[1], v, fr)
            out += self.blocks(b[3], fr)
        if empty and b[4] is not None: out = self.blocks(b[4], fr)
        return out

    def b_while(self, b, fr):
        out, empty = [], True
        while self.ev(b[1], fr):
            empty = False
            out += self.blocks(b[2], fr)
        if empty and b[3] is not None: out = self.blocks(b[3], fr)
        return out

    def b_try(self, b, fr):
        for bl in b[1]:
            try: return self.blocks(bl, fr)
            except Exception: pass
        return []

    def b_qtry(self, b, fr):
        try: return self.block(b[1], fr)
        except Exception: return []

    def assign(self, target, value, fr):
        if isinstance(target, str): fr.vals['$' + target] = value; return
        try: value = iter(value)
        except TypeError as ex: self.herr(ex, 'TypeError')
        n = 0
        for v in value:
            if n >= len(target): raise HErr('ValueErrorEx')
            self.assign(target[n], v, fr)
            n += 1
        if n < len(target): raise HErr('ValueErrorEx')

    def b_mset(self, b, fr):
        self.assign(b[1], self.ev(b[2], fr), fr)
        return []

    def b_set(self, b, fr):
        fr.vals['$' + b[1]] = self.ev(b[2], fr)
        return []

    def b_aug(self, b, fr):
        v = self.ev(b[2], fr)
        cur = fr.get('$' + b[1])
        try: fr.vals['$' + b[1]] = cur + v
        except TypeError: raise HErr('TypeError')
        return []

    def b_ex(self, b, fr):
        self.ev(b[1], fr)
        return []

    def b_def(self, b, fr):
        h = MHyper(b[1], b[2], b[3], b[4], fr)
        h.step = self.step
        fr.vals['%' + b[1]] = h
        return []

    def b_imp(self, b, fr): return []
    def b_ctx(self, b, fr): return []
    def b_com(self, b, fr): return []
    def b_pass(self, b, fr): return []
    def b_raw(self, b, fr): return []

    # -- expressions

    def qual(self, e, q, fr):
        try: v = self.ev(e, fr)
        except Exception:
            if q == '?': return ''
            raise
        if isinstance(v, BadBool): raise Unspecified()          # is it false?
        if v: return v
        if q == '?': return ''
        raise HErr('FalseValueEx')

    def ev(self, e, fr):
        k = e[0]
        if k in ('s', 'n'): return e[1]
        if k == 'v': return fr.get('$' + e[1])
        if k in ('f', 'it', 'w', 'r', 'b'): return self.cb[k](e[1])
        if k == 'lit': return {'None': None, 'True': True, 'False': False}[e[1]]
        if k == 'k':
            args = [self.ev(a, fr) for a in e[2]]
            return self.cb['k'](e[1], *args, **{n: self.ev(x, fr) for n, x in e[3]})
        if k == 'hv':
            tag = fr.get('%' + e[2])
            return self.cb['u'](e[1], lambda *args: self.inline(tag, args[0] if args else None, args[1:]), *[self.ev(a, fr) for a in e[3]])
        if k == 'op':
            if e[1] in ('r+', 'in', 'not in'): x = self.ev(e[4], fr); c = self.cb['c'](e[2], e[3])
            else:
                c = self.cb['c'](e[2], e[3])
                if e[1] not in ('neg', 'str'): x = self.ev(e[4], fr)
            return {'+': lambda: c + x, 'r+': lambda: x + c, '-': lambda: c - x, '%': lambda: c % x, '<': lambda: c < x, '==': lambda: c == x, '!=': lambda: c != x, 'in': lambda: x in c, 'not in': lambda: x not in c,
                    'neg': lambda: -c, '()': lambda: c(x), '[]': lambda: c[x], '|': lambda: c | x, 'str': lambda: self.tostr(c)}[e[1]]()
        if k == 'tup': return tuple([self.ev(a, fr) for a in e[1]])
        if k == 'didx':
            d = {n: self.ev(x, fr) for n, x in e[1]}
            if e[2] not in d: raise HErr('KeyError')
            return d[e[2]]
        if k == 'slc':
            v = self.ev(e[1], fr)
            if not isinstance(v, (str, list, tuple)): raise HErr('TypeError')
            return v[e[2]:e[3]]
        if k == 'fs': return self.line(e[1], '/', fr)
        if k == 'cmp':
            a = self.ev(e[2], fr); b = self.ev(e[3], fr)
            return a == b if e[1] == '==' else a != b
        if k == 'up':
            v = self.ev(e[1], fr)
            if not isinstance(v, str): raise HErr('AttributeError')
            return v.upper()
        if k == 'pp':
            x = self.ev(e[1], fr)
            return self.cb['gg'](x, e[2], self.ev(e[3], fr))
        if k == 'a': return getattr(self.cb['o'], 'a%d' % e[1])
        if k == 'i': return self.cb['o'][e[1]]
        if k == 'p': return self.cb['g'](self.ev(e[1], fr), e[2])
        if k == 'q': return self.qual(e[1], e[2], fr)
        if k == 'and':
            v = self.ev(e[1], fr)
            return self.ev(e[2], fr) if v else v
        if k == 'or':
            v = self.ev(e[1], fr)
            return v if v else self.ev(e[2], fr)
        if k == 'ife':
            if self.ev(e[2], fr): return self.ev(e[1], fr)
            return self.ev(e[3], fr) if e[3] is not None else ''
        if k == 'not': return not self.ev(e[1], fr)
        if k == 'cat': return ''.join([self.tostr(self.ev(a, fr)) for a in e[1]])
        if k == 'add':
            a = self.ev(e[1], fr); b = self.ev(e[2], fr)
            try: return a + b
            except TypeError as ex: self.herr(ex, 'TypeError')
        if k == 'eq':
            a = self.ev(e[1], fr); b = self.ev(e[2], fr)
            return a == b
        if k == 'list': return [self.ev(a, fr) for a in e[1]]
        if k == 'idx':
            v = self.ev(e[1], fr)
            try: return v[e[2]]
            except (TypeError, IndexError, KeyError) as ex: raise HErr(type(ex).__name__)
        if k == 'T':
            tag = fr.get('%' + e[1])
            body = self.ev(e[2], fr) if e[2] is not None else None
            args = [self.ev(a, fr) for a in e[3]]
            return self.inline(tag, body, args)
        raise AssertionError(e)

    def inline(self, tag, body, args):
        nodes = [MNode('text', text=str(body))] if body is not None else []
        if isinstance(tag, MHyper): return render_node(self.expand(tag, nodes, list(args), {}), self.getplan)
        return ext_body(self.getplan, tag.name, render_nodes(nodes, self.getplan), *args)
