"""The simulated world: processes under test with their disk, clock and entropy behind seams.

A *simulated process* is a fork of the lane's warm interpreter (imports done, nothing analysed
yet).  Its libc file operations on the scratch disk, its wall clock, its sleeps and its entropy
go through the LD_PRELOAD shim (shim.c), which asks the policy installed here what to do.
Several simulated processes can run together: each is parked at every disk operation and a
coordinator releases one at a time, as the plan says.
"""
import ctypes
import errno as _errno
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import traceback

OPS = {1: 'open', 2: 'read', 3: 'write', 4: 'close', 5: 'rename', 6: 'mkdir', 7: 'unlink',
       8: 'rmdir', 9: 'fsync', 10: 'truncate', 11: 'link', 12: 'copy', 13: 'meta', 14: 'create'}
PASS, ERRNO, SHORT, CRASH_BEFORE, PARTIAL_CRASH, PARTIAL_ERRNO, CRASH_AFTER = range(7)
CRASHED = 86            # exit status of a simulated crash

# what a real kernel may answer to each operation
LEGAL = {
    'open': ['EIO', 'EMFILE', 'EACCES', 'ENFILE'],
    'read': ['EIO', 'EINTR', 'short'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR', 'short', 'partial:ENOSPC'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'rename': ['EIO', 'ENOSPC', 'EACCES', 'EBUSY'],
    'mkdir': ['EIO', 'ENOSPC', 'EACCES', 'EROFS'],
    'unlink': ['EIO', 'EBUSY', 'EACCES'],
    'rmdir': ['EIO', 'EBUSY', 'EACCES'],
    'fsync': ['EIO', 'ENOSPC'],
    'truncate': ['EIO', 'ENOSPC'],
    'link': ['EIO', 'ENOSPC', 'EACCES'],
    'copy': ['EIO', 'ENOSPC', 'short'],
    'meta': ['EACCES', 'EIO'],
    'create': ['ENOSPC', 'EACCES', 'EMFILE', 'EIO', 'EROFS'],
}
# answers after which the caller simply carries on
TRANSPARENT = {'EINTR', 'short'}

_lib = None
_keep = []


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['VSIM_SHIM'])
        _lib.vshim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        _lib.vshim_mono.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        _lib.vshim_advance.argtypes = [ctypes.c_int64]
        _lib.vshim_now.restype = ctypes.c_int64
        _lib.vshim_slept.restype = ctypes.c_uint64
        _lib.vshim_random.argtypes = [ctypes.c_int, ctypes.c_uint64]
        for f in ('vshim_root', 'vshim_allow'):
            getattr(_lib, f).argtypes = [ctypes.c_char_p]
    return _lib


CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p,
                      ctypes.c_long, ctypes.c_long, ctypes.POINTER(ctypes.c_long))


class off_seam:
    """Harness I/O inside a simulated process: not seen by the policies."""

    def __enter__(self):
        self.old = lib().vshim_inside(1)

    def __exit__(self, *a):
        lib().vshim_inside(self.old)


class Policy:
    """What the simulated disk answers.  faults: list of
      {'at': k, 'do': X}                 the k-th operation (0-based)
      {'nth': k, 'do': X}                the k-th operation that matches 'path' and 'kinds'
      {'from': k, 'kinds': [...], 'do': errno, 'until': m}   every such operation k <= i < m
      {'budget': bytes}                  a disk that is full after that many bytes
    and optionally 'path': only operations on paths that contain this.
    X is an errno name, 'short', 'partial:ERRNO', 'crash', 'crash_after', 'torn' (half a write,
    then crash)."""

    def __init__(self, faults=(), seed=0):
        self.faults = list(faults)
        self.seed = seed
        self.ops = []       # [kind, path, detail]
        self.fired = {}     # fault -> count
        self.escapes = []   # writes outside the places the process may write
        self.written = 0
        self.on_crash = None
        self.before = None  # hook(kind, path) -> None, called before deciding (may park)
        self.frac = random.Random(seed)
        self.base = ''
        self.mounts = []    # directories (absolute) that are file systems of their own
        self.notes = []     # what hooks observed; part of the outcome, also of a crashed process

    def mount(self, p):
        return max((m for m in self.mounts if p == m or p.startswith(m + '/')), key=len, default='')

    def rel(self, p):
        return os.path.relpath(p, self.base) if self.base and p.startswith(self.base) else p

    def callback(self, op, p1, p2, fd, n, arg):
        try:
            return self._callback(op, p1, p2, fd, n, arg)
        except BaseException:
            traceback.print_exc()
            os._exit(99)

    def _callback(self, op, p1, p2, fd, n, arg):
        p1 = os.fsdecode(p1)
        p2 = os.fsdecode(p2)
        if op & 256:
            self.escapes.append([OPS[op & 255], p1, p2])
            arg[0] = _errno.EACCES
            return ERRNO
        kind = OPS[op]
        if self.before is not None:
            self.before(kind, self.rel(p1))
        i = len(self.ops)
        self.ops.append([kind, self.rel(p1) + ('>' + self.rel(p2) if p2 else ''), n if kind in ('write', 'copy') else 0])
        if kind in ('rename', 'link') and self.mounts and self.mount(p1) != self.mount(p2):
            arg[0] = _errno.EXDEV
            return ERRNO
        do = self.decide(i, kind, n, self.ops[-1][1])
        if kind in ('write', 'copy') and do is None:
            self.written += max(n, 0)
        if do is None:
            return PASS
        name = kind + ':' + do
        self.fired[name] = self.fired.get(name, 0) + 1
        self.ops[-1].append(do)
        if do == 'short':
            if n < 2:
                return PASS
            arg[0] = 1 + self.frac.randrange((min(n, 6000) if kind == 'copy' else n) - 1)
            return SHORT
        if do.startswith('partial:'):
            arg[0] = (self.frac.randrange(max(n, 1)) << 8) | getattr(_errno, do[8:])
            return PARTIAL_ERRNO
        if do in ('crash', 'crash_after', 'torn'):
            if self.on_crash:
                self.on_crash()
            if do == 'crash':
                return CRASH_BEFORE
            if do == 'torn' and kind in ('write', 'copy') and n > 1:
                arg[0] = 1 + self.frac.randrange((min(n, 6000) if kind == 'copy' else n) - 1)
                return PARTIAL_CRASH
            return CRASH_BEFORE if do == 'crash' else CRASH_AFTER
        arg[0] = getattr(_errno, do)
        return ERRNO

    def decide(self, i, kind, n, path=''):
        for f in self.faults:
            if 'path' in f and f['path'] not in path:
                continue
            if 'nth' in f:          # the n-th operation that matches, counted from 0
                if 'kinds' in f and kind not in f['kinds']:
                    continue
                f['seen'] = f.get('seen', -1) + 1
                if f['seen'] == f['nth'] and (f['do'] in ('crash', 'crash_after', 'torn') or legal(kind, f['do'])):
                    return f['do']
            elif 'at' in f:
                if f['at'] == i and (f['do'] in ('crash', 'crash_after', 'torn') or legal(kind, f['do'])):
                    return f['do']
            elif 'from' in f:
                if f['from'] <= i < f.get('until', 1 << 60) and kind in f['kinds'] and legal(kind, f['do']):
                    return f['do']
            elif 'budget' in f and kind in ('write', 'copy', 'create', 'mkdir'):
                if self.written + max(n, 0) * (kind in ('write', 'copy')) > f['budget']:
                    return 'ENOSPC'
        return None


def legal(kind, do):
    return do in LEGAL[kind]


def default_fault(kind, rng):
    return rng.choice(LEGAL[kind])


class Outcome(dict):
    __getattr__ = dict.get


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    with off_seam():
        while data:
            data = data[os.write(fd, data):]


def _recv(fd):
    def exactly(n):
        out = b''
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out
    h = exactly(8)
    if h is None:
        return None
    b = exactly(struct.unpack('<Q', h)[0])
    return None if b is None else pickle.loads(b)


def classify_exit(e):
    """exit status the interpreter would give for this SystemExit"""
    c = e.code
    if c is None:
        return 0
    if isinstance(c, int):
        return c & 255
    return 1


class Proc:
    """one simulated process"""

    def __init__(self, fn, *, cwd, roots, policy=None, clock=None, seed=0, allow=(), env=None,
                 capture=None, parked=False, as_main=False, guard=True, cpu=180, base=None, pid=4242):
        self.policy = policy or Policy()
        self.buf = b''
        self.state = 'running'
        self.outcome = None
        r, w = os.pipe()
        if parked:
            gr, gw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                if parked:
                    os.close(gw)
                self._child(fn, w, gr if parked else None, cwd, roots, clock, seed, allow, env, capture,
                            as_main, guard, cpu, base, pid)
            except BaseException:
                with off_seam():
                    traceback.print_exc()
            os._exit(98)
        os.close(w)
        self.r = r
        self.grant_fd = None
        if parked:
            os.close(gr)
            self.grant_fd = gw
        self.parked_at = None

    # -- in the child --------------------------------------------------------
    def _child(self, fn, w, gr, cwd, roots, clock, seed, allow, env, capture, as_main, guard, cpu, base, pid):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        out = os.open(capture or '/dev/null', os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        nul = os.open('/dev/null', os.O_RDONLY)
        os.dup2(nul, 0)
        os.dup2(out, 1)
        os.dup2(out, 2)
        os.chdir(cwd)
        for k, v in (env or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        import time
        time.tzset()
        random.seed(seed)
        if 'numpy' in sys.modules:
            sys.modules['numpy'].random.seed(seed & 0xffffffff)
        L = lib()
        L.vshim_reset()
        pol = self.policy
        pol.base = base or os.path.commonpath(list(roots))
        for p in roots:
            L.vshim_root(os.fsencode(p))
        for p in ('/dev', '/proc/self', *allow, *extra_allow()):
            L.vshim_allow(os.fsencode(p))
        L.vshim_guard(1 if guard else 0)
        L.vshim_pid(pid)
        if clock is not None:
            L.vshim_clock(1, int(clock['ns']), int(clock.get('tick', 1000)))
            if 'mono' in clock:
                L.vshim_mono(1, int(clock['mono']), int(clock['mono_tick']))
        L.vshim_random(1, seed & 0xffffffffffffffff)

        def final(o):
            with off_seam():
                try:
                    sys.stdout.flush()
                    sys.stderr.flush()
                except BaseException:
                    pass
            o.update(notes=pol.notes, ops=pol.ops, fired=pol.fired, escapes=pol.escapes,
                     sim_ns=L.vshim_now() - (int(clock['ns']) if clock else 0), slept_ns=L.vshim_slept())
            _send(w, ('done', o))

        pol.on_crash = lambda: final(Outcome(status='crash'))
        if gr is not None:
            def park(kind, path):
                _send(w, ('park', kind, path))
                b = b''
                while not b:
                    b = os.read(gr, 1)
                if b == b'K':
                    pol.faults = [{'at': len(pol.ops), 'do': 'crash'}]
            pol.before = park
        cb = CB(pol.callback)
        _keep.append(cb)
        if gr is not None:
            park('start', '')
        L.vshim_callback(cb)
        o = Outcome()
        try:
            o['value'] = fn()
            o['status'] = 'ok'
            o['code'] = 0
        except SystemExit as e:
            o['status'] = 'exit'
            o['code'] = classify_exit(e)
        except BaseException as e:
            o['status'] = 'exc'
            o['code'] = 1
            o['exc'] = [type(e).__name__, str(e)[:300]]
            o['tb'] = traceback.format_exc()[-1500:]
        if as_main:
            try:
                import threading
                import atexit
                threading._shutdown()
                atexit._run_exitfuncs()
            except BaseException as e:      # the interpreter only reports those
                o['atexit'] = repr(e)[:200]
            try:
                sys.stdout.flush()
            except BaseException:
                o['code'] = 120
        L.vshim_callback(CB(0))
        try:
            final(o)
        except Exception as e:
            final(Outcome(status='harness', exc=[type(e).__name__, str(e)[:300]]))
        os._exit(0)

    # -- in the coordinator ----------------------------------------------------
    def pump(self, timeout):
        """wait for the next message: 'park', 'done' or 'timeout'"""
        rl, _, _ = select.select([self.r], [], [], timeout)
        if not rl:
            self.kill()
            self.outcome = Outcome(status='timeout', code=124, ops=[], fired={}, escapes=[], sim_ns=0)
            self.state = 'done'
            return
        m = _recv(self.r)
        if m is None:
            _, st = os.waitpid(self.pid, 0)
            os.close(self.r)
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
            status = 'hang' if sig in (signal.SIGXCPU, signal.SIGKILL) else ('signal' if sig else 'harness')
            self.outcome = Outcome(status=status, code=128 + sig if sig else os.WEXITSTATUS(st), ops=[], fired={},
                                   escapes=[], sim_ns=0, exc=['process ended', f'status {st}'])
            self.state = 'done'
            return
        if m[0] == 'park':
            self.parked_at = (m[1], m[2])
            self.state = 'parked'
            return
        self.outcome = m[1]
        os.close(self.r)
        if self.grant_fd is not None:
            os.close(self.grant_fd)
        os.waitpid(self.pid, 0)
        self.state = 'done'

    def grant(self, kill=False):
        self.state = 'running'
        os.write(self.grant_fd, b'K' if kill else b'G')

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.r)


def extra_allow():
    return [p for p in (os.environ.get('NUMBA_CACHE_DIR'), os.environ.get('MPLCONFIGDIR')) if p]


def run(fn, timeout=240, **kw):
    p = Proc(fn, **kw)
    while p.state != 'done':
        p.pump(timeout)
    return p.outcome


def run_together(specs, schedule, timeout=240, max_steps=200000, observe=None):
    """Run several simulated processes, one disk operation at a time.

    specs: list of dicts of Proc arguments.  schedule: {'seed':.., 'policy':..} or
    {'switches': [[step, proc], ...]} (explicit).  Returns outcomes and the switches taken."""
    procs = [Proc(parked=True, **{'pid': 4242 + i, **s}) for i, s in enumerate(specs)]
    for p in procs:
        p.pump(timeout)
    rng = random.Random(schedule.get('seed', 0))
    explicit = dict(map(tuple, schedule['switches'])) if 'switches' in schedule else None
    kills = {int(k): v for k, v in (schedule.get('kills') or {}).items()}   # global step -> proc
    stick = schedule.get('stick', 0.5)
    cur, step, taken, trace = 0, 0, [], []
    while True:
        alive = [i for i, p in enumerate(procs) if p.state == 'parked']
        if not alive:
            break
        if step >= max_steps:
            for i in alive:
                procs[i].kill()
                procs[i].outcome = Outcome(status='hang', ops=[], fired={}, escapes=[], code=124)
                procs[i].state = 'done'
            break
        want = cur
        if explicit is not None:
            want = explicit.get(step, cur)
        elif rng.random() > stick or cur not in alive:
            want = rng.choice(alive)
        if want not in alive:
            want = min(alive, key=lambda i: (i < cur, i))
        if want != cur:
            taken.append([step, want])
            cur = want
        p = procs[cur]
        trace.append((cur,) + p.parked_at)
        p.grant(kill=kills.get(step) == cur)
        p.pump(timeout)
        step += 1
        if observe is not None:
            observe(step)
    return [p.outcome for p in procs], taken, trace
