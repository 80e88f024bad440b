"""Explores the harnesses of one property with a pool of worker processes."""
import collections
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import subprocess
import sys
import time
import traceback

import z3

from . import core, loader, rt, values
from .core import Control, Explorer, Path, PathAbort, PathTimeout, StopExploring, Unsupported
from .env import SymEnv, canon, model_val
from .models import stubs

VERIF = loader.VERIF
NATIVE_PY = os.environ.get('GB_PYTHON', '/opt/venv/bin/python')


class Task(object):
    def __init__(self, module, func, **params):
        self.module = module
        self.func = func
        self.params = params

    def label(self):
        return '%s.%s(%s)' % (self.module, self.func, ', '.join('%s=%r' % kv for kv in sorted(self.params.items())))


# ------------------------------------------------------------ native replays

class Native(object):
    def __init__(self):
        self.p = None
        self.runs = 0
        self.wall = 0.0

    def start(self, hashseed=0):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(hashseed), GB_REPO=loader.REPO, HOME=env.get('HOME', '/root'))
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen([NATIVE_PY, os.path.join(VERIF, 'symex', 'native.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/')

    def run(self, task, inputs, timeout=20):
        t = time.time()
        self.runs += 1
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                rq = {'module': task.module, 'func': task.func, 'params': task.params, 'inputs': inputs, 'timeout': timeout}
                self.p.stdin.write((json.dumps(rq) + '\n').encode())
                self.p.stdin.flush()
                if not multiprocessing.connection.wait([self.p.stdout], timeout + 40):
                    self.p.kill()
                    self.p.wait()
                    self.p = None
                    return {'status': 'fail', 'msg': 'does not end (the interpreter hangs)', 'kind': 'timeout'}
                line = self.p.stdout.readline()
                if line:
                    self.wall += time.time() - t
                    return json.loads(line)
            except (BrokenPipeError, ValueError, OSError):
                pass
            self.close()
        return {'status': 'error', 'msg': 'the native interpreter died'}

    def run_fresh(self, task, inputs, hashseed=0):
        """Like run, in an interpreter that has run nothing else."""
        self.close()
        self.start(hashseed)
        r = self.run(task, inputs)
        self.close()
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


# -------------------------------------------------------------- exploration

class Worker(object):
    def __init__(self, tasks, opts):
        self.tasks = tasks
        self.opts = opts
        self.native = Native()
        self.rng = random.Random(opts['seed'])
        self.explorers = {}
        self.t0 = time.time()
        self.nval = 0

    def explorer(self, ti):
        e = self.explorers.get(ti)
        if e is None:
            for k in list(self.explorers):
                del self.explorers[k]
            e = self.explorers[ti] = Explorer(None, self.opts['path_timeout'])
        return e

    def job(self, ti, prefixes, budget):
        """Explores from the prefixes for about `budget` seconds."""
        task = self.tasks[ti]
        ex = self.explorer(ti)
        ex.stats = core.Stats()
        ex.solver.stats = ex.stats
        ex.notes = {}
        ex.pending = list(prefixes)
        ex.deadline = None
        out = {'task': ti, 'violations': [], 'unreproduced': [], 'mismatches': [], 'validated': 0, 'native_runs': 0,
               'samples': [], 'asserting': 0, 'entered': set(), 'unsupported': collections.Counter(), 'incomplete': 0}
        t_in = time.time()
        end = t_in + budget
        fn = getattr(loader.load('props.' + task.module), task.func)
        while ex.pending and time.time() < end:
            prefix = ex.pending.pop()
            self.one(ex, task, fn, prefix, out)
            if len(out['violations']) >= 2:
                break
        if len(core._POOL) > 400000 or len(values._eq_cache) > 200000 or len(core._lex_cache) > 50000:
            clear_caches()
            self.explorers.clear()
        out['left'] = ex.pending
        out['cpu'] = time.time() - t_in
        out['stats'] = ex.stats.as_dict()
        out['notes'] = ex.notes
        out['entered'] = sorted(rt.ENTERED)
        out['unsupported'] = dict(out['unsupported'])
        return out

    def one(self, ex, task, fn, prefix, out):
        loader.restore()
        p = Path(ex, prefix)
        core._CUR[0] = p
        ex.stats.paths += 1
        cands = []
        env = SymEnv(p, lambda msg, inputs: cands.append((msg, inputs)))
        status = None
        signal.setitimer(signal.ITIMER_REAL, ex.path_timeout)
        try:
            try:
                fn(env, **task.params)
                status = 'ok'
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathAbort:
            status = 'abort'
        except Unsupported as e:
            status = 'unsupported'
            out['unsupported'][str(e)] += 1
            ex.stats.unsupported += 1
        except PathTimeout:
            status = 'timeout'
            ex.stats.timeouts += 1
        except StopExploring:
            status = 'stop'
        except RecursionError:
            status = 'exception'
            msg = 'raises RecursionError'
        except Control:
            status = 'unsupported'
            out['unsupported']['stray crash'] += 1
            ex.stats.unsupported += 1
        except Exception as e:
            status = 'exception'
            msg = 'raises %s' % type(e).__name__
            if self.opts.get('debug'):
                traceback.print_exc()
        try:
            if status == 'exception':
                p.asserts += 1
                ex.stats.asserts += 1
                self.path_violation(env, p, msg, cands)
            elif status == 'timeout':
                self.path_violation(env, p, 'does not end within %d s' % ex.path_timeout, cands)
            elif status == 'ok':
                ex.stats.completed += 1
                if p.asserts:
                    out['asserting'] += 1
                if p.incomplete:
                    out['incomplete'] += 1
                if not cands:
                    self.validate(env, p, task, out)
            elif status == 'abort':
                ex.stats.aborted += 1
            elif status == 'unsupported':
                # no symbolic verdict: at least run one concrete instance of the path
                self.concrete_fallback(env, p, task, out)
        finally:
            core._CUR[0] = None
            rt.ENV[0] = None
        for msg, inputs in cands:
            r = self.native.run(task, inputs)
            out['native_runs'] += 1
            rec = {'msg': msg, 'inputs': inputs, 'native': {k: r.get(k) for k in ('status', 'msg', 'where')}}
            if r['status'] == 'fail' and self.native.runs > 1:
                r = self.native.run_fresh(task, inputs)
                rec['native'] = {k: r.get(k) for k in ('status', 'msg', 'where')}
            if r['status'] == 'ok' and status != 'timeout' and len(out['unreproduced']) < 3:
                # it may take another order of the elements of a set
                for h in range(1, 6):
                    r = self.native.run_fresh(task, inputs, h)
                    if r['status'] == 'fail':
                        rec['native'] = {k: r.get(k) for k in ('status', 'msg', 'where')}
                        rec['hashseed'] = h
                        break
            if r['status'] == 'fail':
                out['violations'].append(rec)
            elif status == 'timeout':
                ex.notes['slow path'] = ex.notes.get('slow path', 0) + 1
            else:
                out['unreproduced'].append(rec)

    def path_violation(self, env, p, msg, cands):
        r, m = p.ex.solver.check(p.cons)
        if r:
            cands.append((msg, env.model_inputs(m)))

    def validate(self, env, p, task, out):
        """Runs a sample of the paths' models natively and compares what was observed."""
        n = self.nval
        elapsed = max(0.05, time.time() - self.t0)
        self.nval += 1
        few = out['validated'] < 1 and self.native.wall < 0.4 * elapsed
        if not few and not (self.native.wall < self.opts['validate_share'] * elapsed and
                            self.rng.random() < (0.5 if n < 400 else 0.08)):
            return
        r, m = p.ex.solver.check(p.cons)
        if not r:
            return
        inputs = env.model_inputs(m)
        obs = json.loads(json.dumps([[k, canon(model_val(m, v))] for k, v in env.obs]))
        res = self.native.run(task, inputs)
        out['native_runs'] += 1
        if res['status'] != 'ok' or res['obs'] != obs:
            # not because of something an earlier run left in the interpreter
            res = self.native.run_fresh(task, inputs)
            out['native_runs'] += 1
        if res['status'] == 'fail':
            out['violations'].append({'msg': 'native run of a symbolic path: ' + res.get('msg', ''), 'inputs': inputs,
                                      'native': {k: res.get(k) for k in ('status', 'msg', 'where')}})
        elif res['status'] != 'ok' or res['obs'] != obs:
            out['mismatches'].append({'inputs': inputs, 'status': res['status'], 'msg': res.get('msg'),
                                      'symbolic': obs, 'native': res.get('obs')})
        else:
            out['validated'] += 1
            if len(out['samples']) < 2:
                out['samples'].append({'task': task.label(), 'inputs': inputs, 'observed': obs[:6]})

    def concrete_fallback(self, env, p, task, out):
        r, m = p.ex.solver.check(p.cons)
        if not r:
            return
        inputs = env.model_inputs(m)
        res = self.native.run_fresh(task, inputs)
        out['native_runs'] += 1
        if res['status'] == 'fail':
            out['violations'].append({'msg': 'native run of a path without a model: ' + res.get('msg', ''),
                                      'inputs': inputs,
                                      'native': {k: res.get(k) for k in ('status', 'msg', 'where')}})


def clear_caches():
    values._eq_cache.clear()
    core._lex_cache.clear()
    core._eqv_cache.clear()
    core._member_cache.clear()
    core._const_cache.clear()
    del core._POOL[:]
    for v in core.Var._cache.values():
        pass


def on_alarm(*a):
    raise PathTimeout()


def worker_main(conn, tasks, opts):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    w = Worker(tasks, opts)
    try:
        while True:
            m = conn.recv()
            if m is None:
                break
            try:
                r = w.job(*m)
            except BaseException as e:      # an engine error, reported as such
                r = {'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:], 'task': m[0]}
            conn.send(r)
    finally:
        w.native.close()


class Result(object):
    def __init__(self, tasks):
        self.stats = core.Stats()
        self.per_task = [dict(task=t.label(), paths=0, completed=0, asserting=0, left=0, started=False, worker_s=0.0) for t in tasks]
        self.violations = []
        self.unreproduced = []
        self.mismatches = []
        self.errors = []
        self.validated = 0
        self.native_runs = 0
        self.samples = []
        self.entered = set()
        self.notes = collections.Counter()
        self.unsupported = collections.Counter()
        self.incomplete = 0
        self.exhaustive = False
        self.wall = 0.0


def explore(tasks, wall, seed=1, jobs=None, path_timeout=60, validate_share=0.12, debug=False, stop_after=3,
            known=lambda v, task: False):
    """Explores every task; returns a Result.  Stops early after stop_after violations that are not known."""
    t0 = time.time()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
    if not loader.STUBS:
        loader.STUBS.update(stubs.make_all())
    for t in tasks:
        m = loader.load('props.' + t.module)
        for name in getattr(m, 'NEEDS', ()):
            loader.load(name)
    loader.snapshot()
    opts = dict(seed=seed, path_timeout=path_timeout, validate_share=validate_share, debug=debug)
    res = Result(tasks)
    workers = {}
    idle = []
    ctx = multiprocessing.get_context('fork')
    for i in range(jobs):
        a, b = ctx.Pipe()
        o = dict(opts)
        o['seed'] = seed * 1000 + i
        pr = ctx.Process(target=worker_main, args=(b, tasks, o), daemon=True)
        pr.start()
        b.close()
        workers[a] = pr
        idle.append(a)
    queue = collections.deque((i, [[]]) for i in range(len(tasks)))
    busy = {}
    left = [0] * len(tasks)

    def budget():
        if time.time() - t0 < 3:
            return 0.25
        return 0.8 if len(queue) < jobs else 2.0
    stopping = False
    new = 0
    last_task = {}
    try:
        while (queue and not stopping) or busy:
            if time.time() - t0 > wall or new >= stop_after:
                stopping = True
            while queue and idle and not stopping:
                conn = idle.pop()
                # prefer the task the worker knows
                lt = last_task.get(conn)
                if lt is not None and queue[0][0] != lt:
                    for k in range(min(len(queue), 40)):
                        if queue[k][0] == lt and left[queue[0][0]] == 0 and res.per_task[queue[0][0]]['started']:
                            queue.rotate(-k)
                            break
                ti, pre = queue.popleft()
                res.per_task[ti]['started'] = True
                last_task[conn] = ti
                busy[conn] = (ti, time.time())
                conn.send((ti, pre, budget()))
            if not busy:
                break
            for conn in multiprocessing.connection.wait(list(busy), 5):
                ti, _ = busy.pop(conn)
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    res.errors.append('a worker died on %s' % tasks[ti].label())
                    workers.pop(conn)
                    continue
                idle.append(conn)
                if 'error' in r:
                    res.errors.append(r['error'])
                    continue
                merge(res, r, tasks)
                new += sum(not known(v, tasks[ti]) for v in r['violations'])
                pend = r['left']
                if pend:
                    # split so that idle workers get a share
                    n = len(pend)
                    k = 1
                    if len(queue) < jobs:
                        k = min(n, jobs)
                    parts = [pend[i::k] for i in range(k)]
                    for p in parts:
                        queue.append((ti, p))
            now = time.time()
            for conn, (ti, since) in list(busy.items()):
                if now - since > path_timeout * 3 + 120 or (stopping and now - t0 > wall + 60):
                    res.errors.append('a worker hung on %s' % tasks[ti].label()) if now - since > path_timeout * 3 + 120 else None
                    res.per_task[ti]['left'] += 1
                    busy.pop(conn)
                    workers.pop(conn).kill()
    finally:
        for ti, p in queue:
            res.per_task[ti]['left'] += len(p)
        for conn, pr in workers.items():
            try:
                conn.send(None)
            except OSError:
                pass
        for pr in workers.values():
            pr.join(5)
            if pr.is_alive():
                pr.kill()
    res.exhaustive = all(t['started'] and t['left'] == 0 for t in res.per_task) and not res.errors
    res.wall = time.time() - t0
    return res


def merge(res, r, tasks):
    res.stats.add(r['stats'])
    t = res.per_task[r['task']]
    t['paths'] += r['stats']['paths']
    t['completed'] += r['stats']['completed']
    t['worker_s'] = round(t['worker_s'] + r['cpu'], 2)
    t['asserting'] += r['asserting']
    for v in r['violations']:
        v['task'] = r['task']
        res.violations.append(v)
    for v in r['unreproduced']:
        v['task'] = r['task']
        if len(res.unreproduced) < 20:
            res.unreproduced.append(v)
    for v in r['mismatches']:
        v['task'] = r['task']
        if len(res.mismatches) < 20:
            res.mismatches.append(v)
    res.validated += r['validated']
    res.native_runs += r['native_runs']
    for s in r['samples']:
        if len(res.samples) < 3 or (len(res.samples) < 8 and all(s['task'] != x['task'] for x in res.samples)):
            res.samples.append(s)
    res.entered.update(r['entered'])
    res.notes.update(r['notes'])
    res.unsupported.update(r['unsupported'])
    res.incomplete += r['incomplete']
