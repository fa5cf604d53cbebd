"""
Deterministic scheduler: real threads, parked and released one at a time. A thread runs until a preemption point listed
in the schedule is reached, it blocks on a (simulated) lock, sleeps, or ends. Preemption points are executed source lines
of the engine, addressed as (file, line, occurrence within the operation[, opcode offset]), or calls of user code.

The same mechanism injects asynchronous exceptions (KeyboardInterrupt & co.) at such points, counts steps for the
bounded-progress property and records which lines an operation executes (profile), from which schedules are drawn.
"""
import os, sys, threading, _thread

REPO = os.environ.get('DST_REPO', '/repo')      # another tree is used only in development, to try planted changes
ROOT = REPO + '/src/hypertag/'
ALT = REPO + '/hypertag/'
ROOTS = (ROOT, ALT)

STEP_LIMIT = 3000000
START_CREDIT = 1000

SIM = None              # the active Sim, if any


class Budget(BaseException):
    """Raised inside a task that exceeded its budget of steps."""

class Deadlock(BaseException):
    """Raised inside tasks when no task can run."""


def short(fn):
    for r in ROOTS:
        if fn.startswith(r): return fn[len(r):]
    return fn


class Task(object):
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body            # callable(task)
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.done = False
        self.blocked = None         # SimLock this task waits for
        self.steps = 0              # steps in the current operation
        self.total = 0
        self.limit = STEP_LIMIT
        self.lines = frozenset()    # line numbers with pending targets
        self.pending = {}           # (file, line) -> {occurrence: [action...]}
        self.cbpending = {}         # (kind, key) -> [action...]
        self.counts = {}
        self.opcode_wait = None
        self.profile = None         # {(file, line): count} when profiling
        self.error = None
        self.thread_ident = None
        self.killed = False
        self.after = False          # starts when all ordinary tasks have ended


class Sim(object):

    def __init__(self):
        self.tasks = []
        self.current = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.switch_log = []        # (from, to, where)
        self.fired = {}             # fault kind -> count
        self.points_hit = 0
        self.deadlock = False
        self.clock = 0.0            # simulated seconds since the start of the run
        self.order = None
        self.trace_on = True
        self.roots = ROOTS
        self.events = 0

    # -- running

    def add(self, body, after=False):
        t = Task(len(self.tasks), body)
        t.after = after
        self.tasks.append(t)
        return t

    stack = 256         # MB

    def run(self, order=None):
        global SIM
        self.order = [i for i in order or () if i < len(self.tasks)]
        self.order += [t.idx for t in self.tasks if t.idx not in self.order]
        SIM = self
        old = threading.stack_size(self.stack << 20)
        try:
            for t in self.tasks: _thread.start_new_thread(self._thread_main, (t,))
        finally:
            threading.stack_size(old)
        first = self.pick()
        self.current = first
        first.lock.release()
        self.main.acquire()
        SIM = None

    def _thread_main(self, t):
        t.lock.acquire()
        t.thread_ident = _thread.get_ident()
        try:
            t.body(t)
        except BaseException as ex:
            t.error = ex
        sys.settrace(None)
        t.done = True
        nxt = self.pick()
        if nxt is None:
            stuck = [x for x in self.tasks if not x.done]
            if stuck:
                # only tasks blocked on locks are left
                self.deadlock = True
                x = stuck[0]
                x.killed = True
                self.current = x
                x.lock.release()
            else:
                self.main.release()
        else:
            self.switch_log.append((t.idx, nxt.idx, 'end'))
            self.current = nxt
            nxt.lock.release()

    def runnable(self, t):
        if t.done or t.after and any(not x.done for x in self.tasks if not x.after): return False
        return t.blocked is None or t.blocked.free_for(t)

    def pick(self, exclude=None, prefer=None):
        if prefer is not None and prefer is not exclude and self.runnable(prefer): return prefer
        for i in self.order:
            t = self.tasks[i]
            if t is not exclude and self.runnable(t): return t
        return None

    def switch(self, t, to=None, where=''):
        """Give control away from the running task `t`."""
        nxt = self.pick(exclude=t, prefer=self.tasks[to] if to is not None and to < len(self.tasks) else None)
        if nxt is None: return False
        self.switch_log.append((t.idx, nxt.idx, where))
        self.current = nxt
        nxt.lock.release()
        t.lock.acquire()
        if t.killed: raise Deadlock()
        return True

    def block(self, t, lock):
        """Called by a simulated lock that `t` cannot acquire now."""
        t.blocked = lock
        while not lock.free_for(t):
            if not self.switch(t, where='lock'):
                self.deadlock = True
                t.blocked = None
                raise Deadlock()
        t.blocked = None

    def me(self):
        t = self.current
        if t is not None and t.thread_ident == _thread.get_ident(): return t
        return None

    # -- operations and tracing

    def begin_op(self, t, actions, limit=None, profile=False):
        """
        `actions`: list of dicts {'at': [file, line, occ], 'op': opcode offset, 'do': 'switch'|'raise', 'to':, 'exc':}
        or {'cb': [kind, key], ...} or {'at': 'start', ...}.
        """
        t.steps = 0
        t.counts = {}
        t.opcode_wait = None
        t.limit = limit or STEP_LIMIT
        t.pending, t.cbpending = {}, {}
        start = []
        for a in actions:
            if a.get('cb'): t.cbpending.setdefault(tuple(a['cb']), []).append(a)
            elif a['at'] == 'start': start.append(a)
            else:
                f, l, o = a['at']
                t.pending.setdefault((f, l), {}).setdefault(o, []).append(a)
        t.lines = frozenset(l for f, l in t.pending)
        t.profile = {} if profile else None
        for a in start: self.act(t, a, 'start')
        if self.trace_on: sys.settrace(self.make_tracer(t))

    def end_op(self, t):
        sys.settrace(None)
        t.total += t.steps
        self.events += t.steps
        t.lines = frozenset()

    def make_tracer(self, t):
        roots = self.roots
        sim = self

        def local(frame, event, arg):
            n = t.steps = t.steps + 1
            if t.profile is not None:
                if event == 'line':
                    k = (frame.f_code.co_filename, frame.f_lineno)
                    t.profile[k] = t.profile.get(k, 0) + 1
                if n >= t.limit: raise Budget()
                return local
            if n >= t.limit: raise Budget()
            if t.opcode_wait is not None:
                sim.opcode_event(t, frame, event)
            elif event == 'line' and frame.f_lineno in t.lines:
                sim.line_event(t, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(roots): return local
            return None

        return glob

    def line_event(self, t, frame):
        key = (short(frame.f_code.co_filename), frame.f_lineno)
        occs = t.pending.get(key)
        if occs is None: return
        c = t.counts[key] = t.counts.get(key, -1) + 1
        acts = occs.get(c)
        if not acts: return
        for a in acts:
            if a.get('op'):
                t.opcode_wait = [a['op'], frame, a]
                frame.f_trace_opcodes = True
            else:
                self.act(t, a, key)

    def opcode_event(self, t, frame, event):
        w = t.opcode_wait
        if frame is w[1] and event == 'opcode':
            w[0] -= 1
            if w[0] > 0: return
        elif event == 'opcode':
            return
        # the requested opcode, or the first line after it if the line was shorter
        t.opcode_wait = None
        try: w[1].f_trace_opcodes = False
        except Exception: pass
        self.act(t, w[2], ('op',))

    def act(self, t, a, where):
        self.points_hit += 1
        if a['do'] == 'switch':
            self.switch(t, a.get('to'), where)
        elif a['do'] == 'raise':
            from .plan import make_exc
            self.fired['async ' + a['exc']] = self.fired.get('async ' + a['exc'], 0) + 1
            ex = make_exc(a['exc'], 'async interrupt')
            ex._dst_key = 'async'
            t.async_exc = ex
            raise ex
        elif a['do'] == 'clock':
            self.clock += a['by']
            self.fired['clock jump'] = self.fired.get('clock jump', 0) + 1

    def user_point(self, kind, key):
        """User code has been entered; called by plans."""
        t = self.me()
        if t is None: return
        t.steps += 1
        if t.steps >= t.limit: raise Budget()
        if t.cbpending:
            acts = t.cbpending.get((kind, key))
            if acts:
                for a in acts: self.act(t, a, (kind, key))


# ------------------------------------------------------------------------------------------------------ simulated locks

class SimLock(object):
    """Replacement of threading.Lock / RLock. Outside of a simulation it is uncontended (single thread)."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner is t)

    def _me(self):
        s = SIM
        return (s.me() if s is not None else None) or 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if not self.free_for(me):
            if not blocking or me == 'main': return False
            if timeout is not None and timeout >= 0:
                SIM.clock += timeout
                SIM.switch(me, where='lock')
                if not self.free_for(me): return False
            else:
                SIM.block(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count <= 0: raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count: self.owner = None

    def locked(self): return self.owner is not None
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()
    def _is_owned(self): return self.owner == self._me()
    def _release_save(self):
        s = (self.owner, self.count); self.owner, self.count = None, 0
        return s
    def _acquire_restore(self, s):
        self.acquire(); self.count = s[1]
    def _at_fork_reinit(self): self.owner, self.count = None, 0


def patch_threading():
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)
    threading._allocate_lock = lambda: SimLock()
