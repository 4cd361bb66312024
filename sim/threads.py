"""Threads of one simulated process, released one at a time.

Every line (or every bytecode instruction) of the code under test that a managed thread executes,
and every disk operation it makes, is a step; before each step the plan decides who runs.  The
threads are real, but exactly one holds the baton, so the interleaving is a function of the plan.
Locks the code under test creates are simulated too: a thread that would block gives up the baton.
"""
import _thread
import random
import sys
import threading

TOOL = 4
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
_real_Lock = threading.Lock
_sim = None
REPO = None


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    """the run is over; unwinds a managed thread"""


class SimLock:
    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.re = reentrant
        self.real = _real_rlock() if reentrant else _real_Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _sim
        me = s.me() if s else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while True:
            if self.count == 0 or (self.re and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking or timeout >= 0:
                return False
            s.block(me, self)

    def release(self):
        s = _sim
        me = s.me() if s else None
        if me is None:
            return self.real.release()
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.wake(self)

    def locked(self):
        return self.count > 0 or (not self.re and self.real.locked())

    def _is_owned(self):
        return self.count > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install(repo):
    """before the code under test is imported: its locks become simulated ones"""
    global REPO
    REPO = repo

    def factory(real, re):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(repo):
                return SimLock(re)
            return real(*a, **k)
        return make
    threading.Lock = factory(_real_Lock, False)
    threading.RLock = factory(_real_rlock, True)


class Schedule:
    """who runs at each step.  plan: {'kind': 'random' | 'burst' | 'pct', 'switches': k, 'seed':..}, k the
    expected number of switches in est steps; {'kind': 'focus', ..., 'hot': n, 'p': q}: as random, and inside
    n functions, drawn from those known to be executed, a switch with probability q at every step;
    or {'kind': 'explicit', 'switches': [[step, thread]...]}"""

    def __init__(self, plan, n, est, funcs=()):
        self.plan = plan
        self.n = n
        self.rng = random.Random(plan.get('seed', 0))
        self.kind = plan['kind']
        self.left = 0
        est = max(est, 1)
        if self.kind == 'focus':
            funcs = sorted(funcs)
            self.hot = set(self.rng.sample(funcs, min(plan['hot'], len(funcs))))
        if self.kind in ('random', 'focus'):
            self.p = min(1.0, plan['switches'] / est)
        if self.kind == 'burst':
            self.mean = max(1.0, est / plan['switches'])
        if self.kind == 'pct':
            self.prio = list(range(self.n))
            self.rng.shuffle(self.prio)
            self.points = sorted(self.rng.randrange(est) for _ in range(plan['switches']))
        if self.kind == 'explicit':
            self.switch = dict(map(tuple, plan['switches']))

    def pick(self, step, cur, runnable, fn=None):
        if self.kind == 'explicit':
            want = self.switch.get(step, cur)
            if want in runnable:
                return want
            return cur if cur in runnable else runnable[0]
        if self.kind in ('random', 'focus'):
            if self.kind == 'focus' and fn in self.hot and self.rng.random() < self.plan['p']:
                return self.rng.choice(runnable)
            if cur in runnable and self.rng.random() > self.p:
                return cur
            return self.rng.choice(runnable)
        if self.kind == 'burst':
            self.left -= 1
            if self.left > 0 and cur in runnable:
                return cur
            self.left = 1 + int(self.rng.expovariate(1.0 / self.mean))
            return self.rng.choice(runnable)
        if self.kind == 'pct':
            while self.points and step >= self.points[0]:
                self.points.pop(0)
                if cur is not None:
                    self.prio[cur] = -len(self.points) - 1
            return max(runnable, key=lambda i: (self.prio[i], -i))
        raise ValueError(self.kind)


class ThreadSim:
    def __init__(self, fns, plan, granularity='line', est=10000, max_steps=5_000_000, funcs=()):
        self.fns = fns
        self.n = len(fns)
        self.sched = Schedule(plan, self.n, est, funcs)
        self.gran = granularity
        self.step = 0
        self.max_steps = max_steps
        self.cur = None
        self.state = ['ready'] * self.n       # ready, blocked, done
        self.waits = [None] * self.n
        self.gate = [_real_lock() for _ in range(self.n)]
        for g in self.gate:
            g.acquire()
        self.all_done = _real_lock()
        self.all_done.acquire()
        self.ids = {}
        self.results = [None] * self.n
        self.switches = []
        self.deadlock = False
        self.overrun = False
        self.last = [None] * self.n
        self.where = set()                    # (file:line -> file:line) pairs at switches
        self.pause = 0
        self.funcs = set()                    # functions executed

    def me(self):
        return self.ids.get(_thread.get_ident())

    def runnable(self):
        return [i for i in range(self.n) if self.state[i] == 'ready']

    def hand_over(self, me, to):
        self.switches.append([self.step, to])
        self.where.add((self.last[me] if me is not None else None, self.last[to]))
        self.cur = to
        self.gate[to].release()

    def point(self, loc, fn=None):
        """a preemption point of the thread holding the baton"""
        me = self.me()
        if me is None or me != self.cur or self.pause:
            return
        self.step += 1
        if self.step > self.max_steps:
            self.overrun = True
            raise Abort()
        self.last[me] = loc
        if fn is not None:
            self.funcs.add(fn)
        to = self.sched.pick(self.step, me, self.runnable(), fn)
        if to != me:
            if _importing():
                return
            self.hand_over(me, to)
            self.gate[me].acquire()
            if self.deadlock or self.overrun:
                raise Abort()

    def block(self, me, lock):
        self.state[me] = 'blocked'
        self.waits[me] = lock
        r = self.runnable()
        if not r:
            self.deadlock = True
            for i in range(self.n):
                if i != me and self.state[i] != 'done':
                    self.gate[i].release()
            raise Abort()
        self.step += 1
        to = self.sched.pick(self.step, me, r)
        self.hand_over(me, to)
        self.gate[me].acquire()
        if self.deadlock or self.overrun:
            raise Abort()

    def wake(self, lock):
        for i in range(self.n):
            if self.state[i] == 'blocked' and self.waits[i] is lock:
                self.state[i] = 'ready'
                self.waits[i] = None

    def body(self, i):
        self.ids[_thread.get_ident()] = i
        self.gate[i].acquire()
        try:
            try:
                self.results[i] = ('ok', self.fns[i]())
            except Abort:
                self.results[i] = ('abort', None)
            except BaseException as e:
                import traceback
                self.results[i] = ('exc', [type(e).__name__, str(e)[:300], traceback.format_exc()[-1200:]])
        finally:
            self.pause += 1
            self.state[i] = 'done'
            self.pause -= 1
            r = self.runnable()
            if self.deadlock or self.overrun:
                for j in range(self.n):
                    if self.state[j] != 'done':
                        try:
                            self.gate[j].release()
                        except RuntimeError:
                            pass
                if all(s == 'done' for s in self.state):
                    self.all_done.release()
            elif r:
                self.step += 1
                to = self.sched.pick(self.step, i, r)
                if to not in r:
                    to = r[0]
                self.hand_over(i, to)
            elif all(s == 'done' for s in self.state):
                self.all_done.release()
            else:           # the rest wait for locks nobody will release
                self.deadlock = True
                for j in range(self.n):
                    if self.state[j] != 'done':
                        self.gate[j].release()

    def run(self):
        global _sim
        mon = sys.monitoring
        E = mon.events
        ev = E.LINE if self.gran == 'line' else E.INSTRUCTION
        repo = REPO
        names = {}

        def on(code, where):
            f = names.get(code)
            if f is None:
                f = code.co_filename
                f = f[len(repo):] if f.startswith(repo) else ''
                f = (f, f'{f}:{code.co_qualname}') if f else ()
                names[code] = f
            if not f:
                return mon.DISABLE
            self.point((f[0], where), f[1])
        mon.use_tool_id(TOOL, 'vsim')
        mon.register_callback(TOOL, ev, on)
        _sim = self
        ths = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        while len(self.ids) < self.n:
            _thread.allocate_lock()         # let the threads reach their gates
        mon.set_events(TOOL, ev)
        mon.restart_events()
        try:
            self.hand_over(None, self.sched.pick(0, None, self.runnable()))
            self.all_done.acquire()
        finally:
            mon.set_events(TOOL, 0)
            mon.register_callback(TOOL, ev, None)
            mon.free_tool_id(TOOL)
            _sim = None
        return self.results


def _importing():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename == '<frozen importlib._bootstrap>':
            return True
        f = f.f_back
    return False


class Interrupter:
    """raises an exception at the k-th line the code under test executes (k counted from 0);
    k=None only counts.  do: 'KeyboardInterrupt' | 'MemoryError'"""

    def __init__(self, at, do='KeyboardInterrupt', repo=None):
        self.at = at
        self.exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[do]
        self.n = 0
        self.fired = None
        self.repo = repo or REPO
        self.names = {}
        self.lines = []

    def on(self, code, line):
        f = self.names.get(code)
        if f is None:
            f = code.co_filename
            f = f[len(self.repo):] if f.startswith(self.repo) else ''
            self.names[code] = f
        if not f:
            return sys.monitoring.DISABLE
        k = self.n
        self.n += 1
        if k == self.at and self.fired is None:
            self.fired = f'{f}:{line}'
            raise self.exc()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'vsim')
        mon.register_callback(TOOL, mon.events.LINE, self.on)
        mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        mon.restart_events()
