"""Installs all seams (threads' locks, file system, clock, randomness, identity) and then imports the engine from /repo/src."""
import sys, os, time, random, threading, _thread

from . import sched, simfs

_time, _mono, _perf, _sleep, _pid, _urandom, _ident = time.time, time.monotonic, time.perf_counter, time.sleep, os.getpid, os.urandom, _thread.get_ident

AMBIENT = None      # {'time': float, 'pid': int, 'rand': int, 'env': {...}}
_rand = None


def now():
    s = sched.SIM
    if AMBIENT is None: return None
    t = AMBIENT['time']
    if s is not None: t += s.clock + 1e-6 * (s.events + (s.current.steps if s.current is not None else 0))
    return t


def install(ambient):
    """Start controlling clock, randomness, environment and process identity (inside the process of one run only)."""
    global AMBIENT, _rand
    AMBIENT = ambient
    _rand = random.Random(ambient['rand'])
    random.seed(ambient['rand'])
    for k, v in ambient.get('env', {}).items(): os.environ[k] = v


def answer_all(value):
    """Every environment variable the engine asks for is set to `value`."""
    cls = type(os.environ)
    getitem, contains = cls.__getitem__, getattr(cls, '__contains__')
    def engine():
        f = sys._getframe(2)
        for _ in range(5):
            if f is None: return False
            fn = f.f_code.co_filename
            if fn.startswith(sched.ROOTS): return True
            if not fn.endswith(('os.py', '_collections_abc.py')): return False
            f = f.f_back
        return False
    def g(self, key):
        if engine(): return value
        return getitem(self, key)
    def c(self, key): return True if engine() else contains(self, key)
    cls.__getitem__, cls.__contains__ = g, c


def patch():
    def mk(orig):
        def clock():
            t = now()
            return orig() if t is None else t
        return clock
    time.time, time.monotonic, time.perf_counter = mk(_time), mk(_mono), mk(_perf)
    ns = lambda f: (lambda: int(f() * 1e9))
    time.time_ns, time.monotonic_ns, time.perf_counter_ns = ns(time.time), ns(time.monotonic), ns(time.perf_counter)
    time.process_time = mk(time.process_time)

    def sleep(s):
        if AMBIENT is None: return _sleep(s)
        sim = sched.SIM
        if sim is not None:
            sim.clock += s
            t = sim.me()
            if t is not None: sim.switch(t, where='sleep')
    time.sleep = sleep
    _gmtime, _localtime = time.gmtime, time.localtime
    time.gmtime = lambda s=None: _gmtime(time.time() if s is None else s)
    time.localtime = lambda s=None: _localtime(time.time() if s is None else s)
    os.getpid_real = _pid
    os.getpid = lambda: _pid() if AMBIENT is None else AMBIENT['pid']
    def urandom(n):
        if _rand is None: return _urandom(n)
        return bytes(_rand.getrandbits(8) for _ in range(n))
    os.urandom = urandom
    random._urandom = urandom

    def ident():
        s = sched.SIM
        t = s.me() if s is not None else None
        return _ident() if t is None else (AMBIENT or {}).get('tid', 5000) + t.idx
    threading.get_ident = ident

    sched.patch_threading()
    simfs.patch()


def load():
    """Import the engine; must be called after patch()."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    sys.path[:] = [p for p in sys.path if not p.startswith('/repo')]
    sys.path.insert(0, sched.REPO + '/src')
    import importlib, pkgutil
    import hypertag
    for m in pkgutil.walk_packages(hypertag.__path__, 'hypertag.'):
        if m.name in ('hypertag.django.filters',) or '.examples' in m.name or m.name.endswith('__main__'): continue
        try: importlib.import_module(m.name)
        except ImportError: pass
    return hypertag
