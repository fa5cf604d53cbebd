"""Kinds of simulated worlds: what the operations of a scenario do with the engine."""
import os, sys, json

from . import world, model, plan as planmod
from .plan import Plan, BASE
from .world import World, script, used_names, all_renames


def tagged(ex, p):
    """Description of an exception caught by user code."""
    if not isinstance(ex, Exception): raise ex
    key = getattr(ex, '_dst_key', None)
    return ['x', type(ex).__name__, key if key is not None else world._re_addr.sub('0x?', repr(ex))[:200]]


# ---------------------------------------------------------------------------------------------------------------- trees

class DomWorld(World):
    """Shared document trees, translated in advance; operations render, query, copy and embed them."""

    def setup_extra(self):
        self.docs = []
        for i, d in enumerate(self.scn.get('docs', ())):
            p = Plan('D%d' % i, d.get('plan'))
            self.push(p)
            rt = self.rts[d.get('rt', 0)]
            try: self.docs.append(rt.translate(script(d['ir'], d.get('step', '    '), 'imp', dict(all_renames(self.scn), **d.get('ren') or {})), d.get('file', '/sim/w/main.hy')).dom)
            except Exception as ex: self.docs.append(None)
            self.pop()

    def setup(self):
        World.setup(self)
        self.snaps = [self.snapshot(d) for d in self.docs]

    def snapshot(self, dom):
        """What can be seen of a tree without rendering it (tags can be failing at the moment)."""
        if dom is None: return None
        out = []
        for n in dom.walk():
            out.append([n.tag.name if n.tag else type(n).__name__, getattr(n, 'outline', None), getattr(n, 'indent', None), [str(a) for a in n.attrs or ()],
                        sorted((k, str(v)) for k, v in (n.kwattrs or {}).items()), getattr(n, 'text', None) if type(getattr(n, 'text', None)) is str else None])
        return [out, dom.tree()]

    def sig(self, n):
        return [n.tag.name if n.tag else type(n).__name__, len(n.body) if n.body is not None else None, sorted((k, str(v)) for k, v in (n.kwattrs or {}).items())]

    def e_dom(self, uid, op, p):
        dom = self.docs[op['doc']]
        if dom is None: return 'untranslatable'
        out = []
        for a in op['acts']:
            try: out.append(self.act(dom, a, op))
            except Exception as ex: out.append(tagged(ex, p))
        return out

    def act(self, dom, a, op):
        from hypertag.core.dom import DOM
        k = a[0]
        if k == 'render': return dom.render()
        if k == 'tree': return dom.tree()
        if k == 'walk': return [self.sig(n) for n in dom.walk(order=a[1])]
        if k == 'walkskip': return [self.sig(n) for n in dom.walk(skip=lambda n: n.tag is not None and n.tag.name == a[1])]
        if k == 'select': return self.result_of(dom.select(*a[1]))
        if k == 'get': return self.result_of(dom[a[1]])
        if k == 'attrs': return [[n.get(a[1], 'none')] for n in dom.walk()]
        if k == 'slice':
            d = dom[a[1]:a[2]]
            return [d.render(), len(d), bool(d)]
        if k == 'node':
            ns = list(dom.walk())
            return ns[a[1] % len(ns)].render() if ns else None
        if k == 'skip':
            d = dom.skip(*a[1])
            before = [d.render(), d.tree()]
            return before + [self.spoil(d, a[2])]
        if k == 'copy':
            d = dom.copy()
            before = [d.render(), d.tree()]
            return before + [self.spoil(d, a[1])]
        if k == 'nodecopy':
            ns = list(dom.walk())
            if not ns: return None
            d = DOM(ns[a[1] % len(ns)].copy())
            before = [d.render(), d.tree()]
            return before + [self.spoil(d, a[2])]
        if k == 'selcopy':
            d = dom.select(*a[1]).copy()
            before = [d.render(), d.tree()]
            return before + [self.spoil(d, a[2])]
        if k == 'embed':
            return self.rts[op.get('rt', 0)].render(a[1], None, None, None, d=dom, e=self.docs[a[2]] if self.docs[a[2]] is not None else dom)
        raise AssertionError(a)

    def result_of(self, d):
        return [[self.sig(n) for n in d], d.tree(), d.render()]

    def spoil(self, d, how):
        """Alter a copy in every way the API offers."""
        if 'attr' in how:
            for n in d.walk():
                if n.kwattrs is not None: n.kwattrs['zz'] = 'spoilt'
                if isinstance(n.attrs, list): n.attrs.append('spoilt')
        if 'fail' in how:
            def tr(n):
                if n.tag is not None and n.tag.name == 'b': raise ValueError('transform')
                return [n]
            try: d.alter(tr)
            except ValueError: pass
        if 'drop' in how: d.alter(lambda n: [] if n.tag is not None and n.tag.name in ('p', 'b', 'li') else [n])
        if 'dup' in how: d.alter(lambda n: [n, n.copy()])
        if 'nodes' in how:
            for n in list(d.walk()):
                if n.body is not None and n.body.nodes: n.body.nodes.pop()
                elif n.body is not None and n.tag is not None: n.body.nodes.append(d.nodes[-1].copy() if d.nodes else n.copy())
            if d.nodes: d.nodes.append(d.nodes[0].copy())
        if 'indent' in how:
            for n in list(d.walk()): n.indent = '   '; n.outline = True
        return d.tree()

    def final(self):
        for i, d in enumerate(self.docs):
            if d is not None and self.snapshot(d) != self.snaps[i]:
                self.violate('tree changed', 'D%d' % i, 'the tree was %s and is %s' % (world.brief(self.snaps[i], 900), world.brief(self.snapshot(d), 900)))


# -------------------------------------------------------------------------------------------------- arguments of calls

class Request(object):
    def __init__(self, name):
        self.path = '/' + name
        self.name = name
        self.META = {'CSRF_COOKIE': ('tok' + name) * 8, 'CSRF_COOKIE_USED': False}
        self.COOKIES = {}
        self.session = {}


def show(v, depth=0):
    """A deep picture of a container, as its owner sees it."""
    from hypertag.core.dom import DOM
    if depth > 6: return '...'
    if isinstance(v, dict): return ['dict'] + [[str(k), show(x, depth + 1)] for k, x in v.items()]
    if isinstance(v, (list, tuple)): return [type(v).__name__] + [show(x, depth + 1) for x in v]
    if isinstance(v, (set, frozenset)): return ['set'] + sorted(map(str, v))
    if isinstance(v, DOM): return ['DOM', v.tree(), [[getattr(n, 'indent', None), getattr(n, 'outline', None)] for n in v.walk()]]
    if isinstance(v, DOM.Node): return ['Node', v.tree('')]
    if isinstance(v, Request): return ['Request', v.path, sorted(k for k in v.META if k != 'CSRF_COOKIE_NEEDS_UPDATE')]
    if isinstance(v, (str, int, float, bool, type(None))): return repr(v)
    if hasattr(v, '_bag'): return ['Bag', show(v._bag, depth + 1)]
    return type(v).__name__


class Bag(object):
    """A mutable user object with attributes."""
    def __init__(self, d): self.__dict__['_bag'] = d
    def __getattr__(self, n):
        if n in self._bag: return self._bag[n]
        raise AttributeError(n)
    def __setattr__(self, n, v): self._bag[n] = v


class ObjWorld(World):
    """Calls that share argument objects: dicts of variables and tags, Django contexts, lists, trees."""

    def setup_extra(self):
        self.vals = {}
        for name, spec in self.scn.get('vals', {}).items(): self.vals[name] = self.build(spec)
        self.reqs = {n: Request(n) for n in self.scn.get('reqs', ())}
        from hypertag.django.backend import Hypertag
        self.engines = [Hypertag({'NAME': 'h%d' % i, 'DIRS': ['/sim/tpl', '/sim/tpl2'], 'APP_DIRS': False, 'OPTIONS': {}}) for i in range(self.scn.get('ndj', 1))]
        self.templates = {}
        self.snaps = {n: show(v) for n, v in self.vals.items()}

    def build(self, spec):
        k = spec[0]
        if k == 'v': return spec[1]
        if k == 'list': return [self.build(x) for x in spec[1]]
        if k == 'tuple': return tuple(self.build(x) for x in spec[1])
        if k == 'set': return set(spec[1])
        if k == 'dict': return {n: self.build(x) for n, x in spec[1].items()}
        if k == 'bag': return Bag({n: self.build(x) for n, x in spec[1].items()})
        if k == 'ref': return self.vals[spec[1]]
        if k == 'f':
            def f(site): return self.getplan().call('f', site)
            return f
        if k == 'dom':
            self.push(Plan('doc', {}))
            try: return self.rts[0].translate(spec[1]).dom
            finally: self.pop()
        if k == 'tags': return {n: self.make_ext(n.lstrip('%'), self.getplan) for n in spec[1]}
        raise AssertionError(spec)

    def e_call(self, uid, op, p):
        vars = self.vals[op['vars']]
        tags = self.vals[op['tags']] if op.get('tags') else None
        rt = self.rts[op.get('rt', 0)]
        if op.get('via') == 'translate':
            m = rt.translate(op['text'], op.get('file'), None, tags, **vars)
            return m.dom.render()
        return rt.render(op['text'], op.get('file'), None, tags, **vars)

    def e_django(self, uid, op, p):
        eng = self.engines[op.get('eng', 0)]
        if op.get('name'):
            key = (op.get('eng', 0), op['name'])
            if op.get('keep'):
                if key not in self.templates: self.templates[key] = eng.get_template(op['name'])
                t = self.templates[key]
            else: t = eng.get_template(op['name'])
        else: t = eng.from_string(op['text'])
        ctx = self.vals[op['ctx']] if op.get('ctx') else None
        req = self.reqs[op['req']] if op.get('req') else None
        return t.render(ctx, req)

    def after(self, op, uid, snap):
        for n, v in self.vals.items():
            s = show(v)
            if s != self.snaps[n]:
                self.violate('argument changed', uid, 'the object %s passed in by the caller was %s and is %s' % (n, world.brief(self.snaps[n], 700), world.brief(s, 700)))
                self.snaps[n] = s


# -------------------------------------------------------------------------------------------------------------- imports

class ResWorld(World):
    """Resolution of imports: model of the documented search order."""

    def setup_extra(self): self.attempts = {}

    def interp(self, op, p):
        it = ResInterp(p, self.scn.get('modules', {}), self.mrts[op.get('rt', 0)], op.get('step', '    '))
        it.world = self
        f = op.get('file')
        it.chain = [(os.path.join(self.fs.cwd, f) if f else None, op.get('pkg'))]
        return it

    def final(self):
        # a script that stays in place is read at most once by each runtime
        n = {}
        for x in self.fs.log:
            if x[0] == 'open' and x[1].endswith('.hy'): n[x[1]] = n.get(x[1], 0) + 1
        for path, k in sorted(n.items()):
            if k > self.attempts.get(path, 0): self.violate('read again', None, 'the script %s was opened %d times, it should be %d' % (path, k, self.attempts.get(path, 0)))


class ResInterp(model.Interp):

    def imports(self, blocks, frame):
        for b in blocks:
            if b[0] == 'raw' and len(b) > 2: raise model.HErr(b[2])
            if b[0] != 'imp' or b[2] == 'simcb': continue
            fr = self.load(b[1])
            if b[3] == '*':
                for k, v in fr.vals.items():
                    if k[1] != '_' and k[1:] not in self.cb and k[1:] not in model.EXTS: frame.vals[k] = v
            else:
                for m, n, a in b[3]:
                    if m + n not in fr.vals: raise model.HErr('ImportErrorEx')
                    frame.vals[m + (a or n)] = fr.vals[m + n]

    def load(self, path):
        file, pkg = self.chain[-1]
        loc, newpkg = self.locate(path, file, pkg)
        if loc is None:
            fr = self.python(path, pkg)
            if fr is None: raise model.HErr('ModuleNotFoundEx')
            return fr
        if loc in self.rt.loaded: return self.rt.loaded[loc]
        if any(f == loc for f, _ in self.chain): raise model.HErr('ImportErrorEx')
        m = self.world.scn['modules'].get(self.at(loc))
        if m is None: raise AssertionError('no model of ' + loc)
        if m.get('bad'): raise model.HErr(m['bad'])
        self.world.attempts[loc] = self.world.attempts.get(loc, 0) + 1
        save, self.step = self.step, m.get('step', '    ')
        self.chain.append((loc, newpkg))
        try: _, fr = self.translate(m['ir'])
        finally: self.chain.pop(); self.step = save
        self.rt.loaded[loc] = fr
        return fr

    def at(self, loc):
        for k, m in self.world.scn['modules'].items():
            if m['path'] == loc: return k

    def exists(self, p): return p in self.world.fs.files or p in self.world.fs.dirs

    def known(self, p): return p in self.rt.loaded or self.exists(p)

    def locate(self, path, file, pkg):
        """(file, package) of the script an import path refers to, or (None, None)."""
        folder = os.path.dirname(file) if file else None
        if path[0] == '.':
            if not folder: return None, None
            base, rest = folder, path[1:]
            p = pkg
            while rest[0] == '.':
                base = os.path.dirname(base); rest = rest[1:]
                if p is not None:
                    if '.' not in p: raise model.HErr('ImportErrorEx')      # beyond the top-level package
                    p = p.rpartition('.')[0]
            loc = base + '/' + rest.replace('.', '/') + '.hy'
            if not self.known(loc): return None, None
            return loc, ((p + '.' + rest).rpartition('.')[0] if p is not None else None)
        res = self.world.scn.get('resolve') or {}
        if path in res and self.known(res[path]): return res[path], None
        tail = path.replace('.', '/') + '.hy'
        if '.' in path:
            d = '/sim/py/' + path.rpartition('.')[0].replace('.', '/')
            if self.is_package(path.rpartition('.')[0]):
                loc = '/sim/py/' + tail
                if self.exists(loc): return loc, path.rpartition('.')[0]
        loc = self.world.fs.cwd + '/' + tail
        if self.known(loc): return loc, None
        if folder:
            loc = folder + '/' + tail
            if self.known(loc): return loc, ((pkg + '.' + path).rpartition('.')[0] if pkg else None)
        return None, None

    def is_package(self, name):
        parts = name.split('.')
        return all('/sim/py/' + '/'.join(parts[:i + 1]) + '/__init__.py' in self.world.fs.files for i in range(len(parts)))

    def python(self, path, pkg):
        if path[0] == '.':
            if pkg is None: return None
            rest = path[1:]
            while rest[0] == '.':
                if '.' not in pkg: raise model.HErr('ImportErrorEx')
                pkg = pkg.rpartition('.')[0]; rest = rest[1:]
            path = pkg + '.' + rest
        base = '/sim/py/' + path.replace('.', '/')
        for f in (base + '/__init__.py', base + '.py'):
            if f in self.world.fs.files:
                vals = {}
                for l in self.world.fs.files[f].decode().split('\n'):
                    if ' = ' in l:
                        a, b = l.split(' = ')
                        vals['$' + a] = b.strip("'")
                return model.Frame(vals=vals)
        return None


WORLDS = {'std': World, 'dom': DomWorld, 'obj': ObjWorld, 'res': ResWorld}
