"""
Simulated file system under /sim (and Python packages in it), with fault injection. Everything outside /sim goes to the
real system calls. Nothing is ever written to the real disk.

Faults are addressed by (call kind, path, occurrence): kinds 'stat', 'open', 'read', 'getcwd', 'exec' (execution of a
simulated Python module). Actions: {'err': ERRNO}, {'short': n}, {'mut': [[op, args...]...]} (the file system changes just
before the call), {'exc': name} (python module raises).
"""
import sys, os, io, zlib, errno, stat as _stat, posixpath, builtins, codecs, importlib.abc, importlib.machinery, importlib.util, pathlib, types

PREFIX = '/sim'
PYROOT = '/sim/py'

FS = None           # active SimFS, if any

_open, _stat_, _lstat, _getcwd, _listdir, _access, _osopen = builtins.open, os.stat, os.lstat, os.getcwd, os.listdir, os.access, os.open
_read, _close, _fstat, _scandir, _readlink = os.read, os.close, os.fstat, os.scandir, os.readlink


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, data, owner):
        self.fs, self.path, self.data, self.pos, self.owner = fs, path, data, 0, owner
        self.name = path
        self.mode = 'rb'
        self.closed_by = None
    def readable(self): return True
    def seekable(self): return True
    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.data) + pos
        return self.pos
    def tell(self): return self.pos
    def fileno(self): raise io.UnsupportedOperation('fileno')
    def isatty(self): return False
    def readinto(self, b):
        n = len(b)
        a = self.fs.fault('read', self.path)
        if a is not None:
            if 'err' in a: raise OSError(getattr(errno, a['err']), os.strerror(getattr(errno, a['err'])), self.path)
            if 'short' in a: n = max(1, min(n, a['short']))
        chunk = self.data[self.pos:self.pos + n]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


class SimFS(object):

    def __init__(self, files, cwd='/sim/w', faults=(), owner=None):
        self.files = {}
        self.dirs = set()
        self.mkdir(PREFIX); self.mkdir(PYROOT); self.mkdir(cwd)
        for p, c in files.items(): self.write(p, c)
        self.cwd = cwd
        self.faults = {}
        for f in faults: self.faults.setdefault((f['call'], f['path']), {})[f['occ']] = f
        self.counts = {}
        self.fired = {}
        self.handles = []           # strong references: only an explicit close() closes a handle
        self.owner = owner or (lambda: None)
        self.log = []
        self.short = 0              # default max. bytes per raw read; 0 = unlimited
        self.armed = True
        self.fds = {}

    # -- state changes

    def mkdir(self, p):
        while p not in self.dirs and p != '/':
            self.dirs.add(p); p = posixpath.dirname(p)

    def write(self, p, content):
        if isinstance(content, dict): content = bytes.fromhex(content['hex'])
        elif isinstance(content, str): content = content.encode('utf-8')
        self.mkdir(posixpath.dirname(p))
        self.files[p] = content

    def remove(self, p): self.files.pop(p, None)

    def mutate(self, ops):
        for op in ops:
            if op[0] == 'write': self.write(op[1], op[2])
            elif op[0] == 'remove': self.remove(op[1])
            elif op[0] == 'mkdir': self.mkdir(op[1])
            elif op[0] == 'disarm': self.armed = False; self.short = 0
            elif op[0] == 'chdir': self.cwd = op[1]; self.mkdir(op[1])
            else: raise AssertionError(op)

    # -- faults

    def fault(self, call, path):
        k = (call, path)
        n = self.counts[k] = self.counts.get(k, -1) + 1
        self.log.append((call, path))
        a = None
        if self.armed and k in self.faults:
            a = self.faults[k].get(n)
            if a is not None:
                kind = '%s %s' % (call, a.get('err') or ('short' if 'short' in a else 'change' if 'mut' in a else a.get('exc')))
                self.fired[kind] = self.fired.get(kind, 0) + 1
                if 'mut' in a: self.mutate(a['mut'])
        if a is None and call == 'read' and self.short: a = {'short': self.short}
        return a

    def check(self, call, path):
        a = self.fault(call, path)
        if a is not None and 'err' in a:
            e = getattr(errno, a['err'])
            raise OSError(e, os.strerror(e), path)

    # -- calls

    def norm(self, p):
        if not posixpath.isabs(p): p = posixpath.join(self.cwd, p)
        return posixpath.normpath(p)

    def stat(self, p):
        q = self.norm(p)
        self.check('stat', q)
        if q in self.files: mode, size = _stat.S_IFREG | 0o644, len(self.files[q])
        elif q in self.dirs: mode, size = _stat.S_IFDIR | 0o755, 0
        else: raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        return os.stat_result((mode, zlib.crc32(q.encode()) & 0xffff, 1, 1, 0, 0, size, 0, 0, 0))

    def raw(self, p):
        q = self.norm(p)
        self.check('open', q)
        if q in self.dirs: raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
        if q not in self.files: raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        return SimRaw(self, q, self.files[q], self.owner())

    def open(self, p, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        if any(c in mode for c in 'wax+'): raise PermissionError(errno.EACCES, 'the simulated file system is read-only for the engine', p)
        raw = self.raw(p)
        if 'b' in mode:
            f = raw if buffering == 0 else io.BufferedReader(raw)
        else:
            f = io.TextIOWrapper(io.BufferedReader(raw), encoding or 'utf-8', errors, newline)
        self.handles.append((raw, f))
        return f

    def mark(self, uid): self.log.append(('op', uid))

    def listdir(self, p):
        q = self.norm(p)
        if q not in self.dirs: raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        pre = q.rstrip('/') + '/'
        return sorted({x[len(pre):].split('/')[0] for x in list(self.files) + list(self.dirs) if x.startswith(pre)})

    def open_handles(self, owner):
        return [raw.path for raw, f in self.handles if raw.owner == owner and not raw.closed] + \
               [d[0].path for d in self.fds.values() if d[0].owner == owner]


def _ours(p):
    if FS is None: return None
    if isinstance(p, int): return None
    try: p = os.fspath(p)
    except TypeError: return None
    if isinstance(p, bytes):
        try: p = p.decode()
        except UnicodeDecodeError: return None
    if p == PREFIX or p.startswith(PREFIX + '/'): return p
    if not p.startswith('/'):
        # relative paths are relative to the simulated current folder
        return p
    return None


def patch():
    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = _ours(file)
        if p is None: return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return FS.open(p, mode, buffering, encoding, errors, newline)

    def sim_stat(path, *a, **kw):
        p = _ours(path)
        return _stat_(path, *a, **kw) if p is None else FS.stat(p)

    def sim_lstat(path, *a, **kw):
        p = _ours(path)
        return _lstat(path, *a, **kw) if p is None else FS.stat(p)

    def sim_getcwd():
        if FS is None: return _getcwd()
        FS.check('getcwd', '')
        return FS.cwd

    def sim_listdir(path='.'):
        p = _ours(path)
        return _listdir(path) if p is None else FS.listdir(p)

    def sim_access(path, mode, **kw):
        p = _ours(path)
        if p is None: return _access(path, mode, **kw)
        try: FS.stat(p)
        except OSError: return False
        return True

    def sim_osopen(path, flags, mode=0o777, **kw):
        p = _ours(path)
        if p is None: return _osopen(path, flags, mode, **kw)
        fd = 100000 + len(FS.fds)
        FS.fds[fd] = [FS.raw(p)]
        return fd

    def sim_read(fd, n):
        if FS is not None and fd in FS.fds:
            b = bytearray(n)
            k = FS.fds[fd][0].readinto(memoryview(b))
            return bytes(b[:k])
        return _read(fd, n)

    def sim_close(fd):
        if FS is not None and fd in FS.fds:
            del FS.fds[fd]
            return None
        return _close(fd)

    def sim_fstat(fd):
        if FS is not None and fd in FS.fds: return FS.stat(FS.fds[fd][0].path)
        return _fstat(fd)

    def sim_readlink(path, *a, **kw):
        p = _ours(path)
        if p is None: return _readlink(path, *a, **kw)
        raise OSError(errno.EINVAL, 'Invalid argument', path)

    builtins.open = sim_open
    io.open = sim_open
    try:
        import _io
        _io.open = sim_open
    except Exception: pass
    os.stat, os.lstat, os.getcwd, os.listdir, os.access = sim_stat, sim_lstat, sim_getcwd, sim_listdir, sim_access
    os.open, os.read, os.close, os.fstat, os.readlink = sim_osopen, sim_read, sim_close, sim_fstat, sim_readlink
    acc = getattr(pathlib, '_NormalAccessor', None)
    if acc is not None:
        for name, fn in (('stat', sim_stat), ('lstat', sim_lstat), ('open', sim_osopen), ('listdir', sim_listdir), ('getcwd', sim_getcwd)):
            if hasattr(acc, name): setattr(acc, name, staticmethod(fn))
    codecs_open = codecs.open
    codecs.builtins = builtins      # codecs.open() calls builtins.open
    sys.meta_path.insert(0, SimFinder())


class SimFinder(importlib.abc.MetaPathFinder):
    """Finder of Python packages in the simulated file system."""

    def find_spec(self, fullname, path=None, target=None):
        fs = FS
        if fs is None: return None
        name = fullname.rpartition('.')[2]
        ns = []
        for root in ([PYROOT] if path is None else list(path)):
            if not root.startswith(PREFIX): continue
            base = root + '/' + name
            if base + '/__init__.py' in fs.files:
                return importlib.util.spec_from_file_location(fullname, base + '/__init__.py', loader=SimLoader(base + '/__init__.py'),
                                                              submodule_search_locations=[base])
            if base + '.py' in fs.files:
                return importlib.util.spec_from_file_location(fullname, base + '.py', loader=SimLoader(base + '.py'))
            if base in fs.dirs: ns.append(base)
        if ns:
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = ns
            return spec
        return None


class SimLoader(importlib.abc.Loader):
    def __init__(self, path): self.path = path
    def create_module(self, spec): return None
    def exec_module(self, module):
        from .plan import make_exc
        a = FS.fault('exec', self.path)
        if a is not None and 'exc' in a:
            ex = make_exc(a['exc'], 'injected')
            ex._dst_key = 'exec:' + self.path
            raise ex
        code = compile(FS.files[self.path].decode('utf-8'), self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)
