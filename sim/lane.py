"""A lane: one warm interpreter in one configuration, executing plans in forked children.

stdin: one JSON plan per line {"id": n, "plan": {...}}; stdout: one JSON result per line.
"""
import importlib
import json
import os
import select
import shutil
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


class Ctx:
    def __init__(self, base, repo, tier):
        self.base, self.repo, self.tier = base, repo, tier
        self.dir = None

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        return d


def execute(prop, plan, ctx):
    try:
        os.makedirs(ctx.dir)
        res = prop.execute(plan, ctx)
    except BaseException:
        res = {'harness_error': traceback.format_exc()[-3000:]}
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
    return res


def main():
    pid, workers = sys.argv[1], int(sys.argv[2])
    repo = os.environ['VSIM_REPO']
    base = os.environ['VSIM_SCRATCH']
    sys.path.insert(0, repo)
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    null = os.open(os.path.join(base, f'lane-{os.getpid()}.log'), os.O_WRONLY | os.O_CREAT)
    os.dup2(null, 1)
    from sim import threads
    threads.install(repo + '/')
    try:
        prop = importlib.import_module('sim.props.' + pid.lower())
        if hasattr(prop, 'warm'):
            prop.warm()
        import gc
        gc.collect()
        gc.freeze()
        out.write(json.dumps({'ready': True}) + '\n')
    except BaseException:
        out.write(json.dumps({'ready': False, 'error': traceback.format_exc()[-4000:]}) + '\n')
        return 3
    running = {}
    queue = []
    inbuf = b''
    eof = False
    seq = 0
    while True:
        while queue and len(running) < workers:
            m = queue.pop(0)
            seq += 1
            r, w = os.pipe()
            ctx = Ctx(base, repo, os.environ.get('VERIF_TIER', 'quick'))
            ctx.dir = os.path.join(base, f'run-{os.getpid():07d}-{seq:07d}')
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    os.close(r)
                    os.close(0)
                    os.open('/dev/null', os.O_RDONLY)
                    res = execute(prop, m['plan'], ctx)
                    try:
                        data = json.dumps(res).encode()
                    except Exception:
                        data = json.dumps({'harness_error': traceback.format_exc()}).encode()
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [m['id'], pid_, b'', ctx]
        if eof and not queue and not running:
            return 0
        fds = list(running) + ([] if eof else [0])
        rl, _, _ = select.select(fds, [], [])
        for fd in rl:
            if fd == 0:
                b = os.read(0, 1 << 16)
                if not b:
                    eof = True
                inbuf += b
                while b'\n' in inbuf:
                    line, inbuf = inbuf.split(b'\n', 1)
                    if line.strip():
                        queue.append(json.loads(line))
            else:
                b = os.read(fd, 1 << 20)
                if b:
                    running[fd][2] += b
                    continue
                i, p, data, ctx = running.pop(fd)
                os.close(fd)
                _, st = os.waitpid(p, 0)
                try:
                    res = json.loads(data)
                except ValueError:
                    res = {'harness_error': f'run ended with status {st} and {len(data)} bytes'}
                    shutil.rmtree(ctx.dir, ignore_errors=True)
                out.write(json.dumps({'id': i, 'result': res}) + '\n')


if __name__ == '__main__':
    sys.exit(main())
