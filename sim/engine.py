"""Runs of scenarios in forked children, batches of seeds, minimisation, replay, evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
import warnings
import zlib

import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEX = re.compile(r'0x[0-9a-fA-F]{6,}')
RUN_WALL = 90.0
JOBS = int(os.environ.get('SIM_JOBS', '0')) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold.  kind: class of violation; key: what identifies it."""

    def __init__(self, kind, msg, key=None):
        super().__init__(kind, msg)
        self.kind, self.msg, self.key = kind, clean(str(msg))[:2000], key


def clean(s):
    return HEX.sub('0x..', s)


# ------------------------------------------------------------------ children
def _write(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd, deadline=None):
    """One length-prefixed message, or None at end of file."""
    def some(n):
        out = b''
        while len(out) < n:
            if deadline is not None:
                left = deadline - time.monotonic()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b:
                return None
            out += b
        return out
    h = some(8)
    return None if h is None else some(struct.unpack('>Q', h)[0])


def in_child(fn, *args, wall=RUN_WALL):
    """fn(*args) in a forked child: its (picklable) result.  Harness errors are raised."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except Violation as v:
                out = ('violation', (v.kind, v.msg, v.key))
            except BaseException:       # noqa - classified by the parent
                out = ('error', traceback.format_exc())
            _write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        data = _read(r, time.monotonic() + wall)
    except TimeoutError:
        os.kill(pid, signal.SIGKILL)
        raise core.HarnessError(f'a child exceeded {wall}s') from None
    finally:
        os.close(r)
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if data is None:
        raise core.HarnessError('a child died without an answer')
    kind, val = pickle.loads(data)
    if kind == 'violation':
        raise Violation(*val)
    if kind == 'error':
        raise core.HarnessError(val)
    return val


# ------------------------------------------------------------------ nodes: other interpreters
class Node:
    """Another interpreter (its own hash seed, time zone, ...) that runs functions of the
    check's module in forked children, so each call is a fresh process."""

    def __init__(self, hashseed, ident):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(HERE, 'sim', 'main.py'),
                                   '--node', ident], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env)
        self.i, self.o = self.p.stdin.fileno(), self.p.stdout.fileno()

    def call(self, fn, *args, wall=RUN_WALL):
        _write(self.i, pickle.dumps((fn, args)))
        try:
            data = _read(self.o, time.monotonic() + wall)
        except TimeoutError:
            raise core.HarnessError('a node does not answer') from None
        if data is None:
            raise core.HarnessError('a node died')
        kind, val = pickle.loads(data)
        if kind == 'violation':
            raise Violation(*val)
        if kind == 'error':
            raise core.HarnessError(val)
        return val

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve_node(ident):
    """Main loop of a node."""
    out = os.dup(1)
    os.dup2(2, 1)
    mod = prepare(ident)
    while True:
        data = _read(0)
        if data is None:
            os._exit(0)
        fn, args = pickle.loads(data)
        try:
            ans = ('ok', in_child(getattr(mod, fn), *args))
        except Violation as v:
            ans = ('violation', (v.kind, v.msg, v.key))
        except BaseException:           # noqa
            ans = ('error', traceback.format_exc())
        _write(out, pickle.dumps(ans))


# ------------------------------------------------------------------ one run
class Run:
    """Context of one simulated run (lives in its own process)."""

    def __init__(self, sc, nodes=()):
        self.sc, self.seed, self.nodes = sc, sc['seed'], nodes
        self.sched = sc.get('sched') or {}
        self.decisions = sc.get('decisions')
        self.phase = 0
        self.out_decisions = []
        self.stats = {'steps': 0, 'switches': 0, 'sig': 0, 'faults': {}, 'sites': {}, 'simtime': 0.0,
                      'tasks': 0, 'probes': {}, 'nontrivial': False}
        self.trace = []
        self.clock = None

    def rng(self, name):
        return random.Random(f'{self.seed}/{name}')

    def mark(self, what, fault=None, n=1):
        """Count a fault fired outside of the scheduler / make this run distinct."""
        self.stats['sig'] = zlib.crc32(f'{self.stats["sig"]}#{what}'.encode())
        if fault:
            f = self.stats['faults']
            f[fault] = f.get(fault, 0) + n

    def probe(self, name):
        p = self.stats['probes']
        p[name] = p.get(name, 0) + 1

    def note(self, *what):
        self.trace.append(clean(' '.join(map(str, what)))[:400])

    def simulate(self, fns, gran=None, plan=None, prepare=None, inv=None, cap=400_000, serial=False,
                 allow_stuck=False):
        """Run the threads fns [(name, fn)] under the simulator.  gran: the yield points inside
        the library: 'line', 'instr' or 'none'."""
        dec = None
        if self.decisions is not None:
            dec = self.decisions[self.phase] if self.phase < len(self.decisions) else []
        cfg = dict(self.sched)
        if serial:
            cfg['mode'] = 'serial'
        s = core.Sim(cfg, dec, self.rng(f'sched{self.phase}'), self.clock, cap)
        self.phase += 1
        s.inv = inv
        if plan:
            for k, v in plan.items():
                s.plan[k] = {int(a): b for a, b in v.items()}
        core.attach(s, gran or cfg.get('gran', 'line'))
        errors = []

        def guarded(fn):
            def main():
                try:
                    fn()
                except BaseException as e:      # noqa
                    errors.append(e)
            return main
        fns = [(n, guarded(f)) for n, f in fns]
        if prepare:
            prepare(s)
        try:
            s.run(fns)
        finally:
            core.detach()
        self.out_decisions.append(s.decisions)
        st = self.stats
        st['steps'] += s.step
        st['switches'] += s.switches
        st['tasks'] += len(s.tasks)
        st['simtime'] += s.now
        st['sig'] = zlib.crc32(f'{st["sig"]}/{s.sig}'.encode())
        for k, v in s.faults.items():
            st['faults'][k] = st['faults'].get(k, 0) + v
        for k, v in s.sites.items():
            st['sites'][k] = st['sites'].get(k, 0) + v
        for e in errors:
            if isinstance(e, Violation):
                raise e
        for e in errors:
            raise core.HarnessError('a workload thread failed: ' + ''.join(
                traceback.format_exception(e)))
        if s.stuck and not allow_stuck:
            raise Violation('stuck', f'the system makes no progress: {s.stuck}')
        return s


def serial(fn, gran='line', plan=None, prepare=None):
    """fn() as the only simulated thread: (its result, the simulator)."""
    s = core.Sim({'mode': 'serial'}, None, random.Random(0), None)
    if plan:
        s.plan.update(plan)
    out = []

    def main():
        try:
            out.append(('ok', fn()))
        except BaseException as e:      # noqa
            out.append(('err', e))
    core.attach(s, gran)
    if prepare:
        prepare(s)
    try:
        s.run([('solo', main)])
    finally:
        core.detach()
    if s.stuck:
        raise Violation('stuck', f'a single call makes no progress: {s.stuck}')
    if out[0][0] == 'err':
        raise out[0][1]
    return out[0][1], s


def solo(fn, gran='line'):
    """(outcome of fn() when it is the only thing that ever happens in a process,
    number of yield points, number of points where an exception may arrive)."""
    def child():
        res, s = serial(fn, gran)
        return res, s.by_name['solo'].n, s.by_name['solo'].m
    return in_child(child)


def execute(mod, sc, nodes=()):
    """One run in this (child) process: a result dictionary."""
    run = Run(sc, nodes)
    res = {'v': None, 'seed': sc['seed']}
    core_warnings()
    run.clock = core.Clock()
    run.clock.start(1_700_000_000)
    try:
        mod.run(run)
    except Violation as v:
        res['v'] = {'kind': v.kind, 'msg': v.msg, 'key': v.key}
    st = run.stats
    st['nontrivial'] = bool(st['nontrivial'] or st['switches'] or st['faults'])
    res['stats'] = st
    res['decisions'] = run.out_decisions
    res['trace'] = run.trace
    res['digest'] = zlib.crc32(repr((run.out_decisions, run.trace, st['steps'], st['faults'],
                                     res['v'] and res['v']['kind'])).encode())
    return res


def core_warnings():
    """All warnings are recorded by the workload (never shown, never deduplicated)."""
    warnings.simplefilter('always')
    warnings.showwarning = lambda message, category, *a, **k: on_warning(message, category)
    warnings._showwarnmsg_impl = lambda msg: on_warning(msg.message, msg.category)


warned = {}


def on_warning(message, category):
    s = core.sim
    key = s.cur.op if s is not None and s.cur is not None else None
    warned.setdefault(key, []).append((category.__name__, clean(str(message))))


# ------------------------------------------------------------------ scenarios
def sched_cfg(rng, profile='mixed'):
    """A random scheduling policy (swarm style)."""
    m = rng.random()
    gran = 'instr' if rng.random() < 0.12 else 'line'
    scale = 0.2 if gran == 'instr' else 1.0
    if m < 0.3:
        p = rng.choice([0.01, 0.03, 0.1, 0.2, 0.4])
        # (A long time without preemptions is for few of them.)
        c = {'mode': 'rare', 'p': p, 'hold': rng.choice([0, 20, 100, 300, 1000 if p > 0.05 else 5000])}
    elif m < 0.62:
        c = {'mode': 'rand', 'p': rng.choice([0.003, 0.01, 0.03, 0.1, 0.3]) * scale}
    elif m < 0.84:
        c = {'mode': 'site', 'p': rng.choice([0.0, 0.002]) * scale, 'mod': rng.choice([4, 10, 30]),
             'salt': rng.randrange(1 << 30)}
    else:
        c = {'mode': 'pct', 'd': rng.randrange(1, 7), 'k': rng.choice([300, 1500, 6000])}
        if gran == 'instr':
            c['k'] *= 5
    c['gran'] = gran
    return c


def window_cfg(rng):
    """A policy that often preempts inside windows of a few lines in short operations."""
    m = rng.random()
    if m < 0.5:
        c = {'mode': 'rare', 'p': rng.choice([0.03, 0.1, 0.1, 0.2]), 'hold': rng.choice([0, 50, 100, 100, 300])}
    elif m < 0.8:
        c = {'mode': 'site', 'p': 0.0, 'mod': rng.choice([4, 10, 30]), 'salt': rng.randrange(1 << 30)}
    else:
        c = {'mode': 'rand', 'p': rng.choice([0.03, 0.1, 0.3])}
    return dict(c, gran='line')


def scenario(mod, seed, tier):
    rng = random.Random(f'{mod.ID}/{seed}/gen')
    sc = mod.generate(rng, seed, tier)
    sc['seed'] = seed
    if 'sched' not in sc:
        sc['sched'] = sched_cfg(random.Random(f'{mod.ID}/{seed}/policy'))
    return sc


# ------------------------------------------------------------------ batches
def prepare(ident):
    """Import everything a check needs, behind the seams."""
    core.patch()
    core.import_jsons()
    core.instrument()
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    mod = importlib.import_module(ident.lower())
    gc.collect()
    gc.freeze()
    gc.disable()
    return mod


def open_nodes(mod):
    return [Node(h, mod.ID) for h in getattr(mod, 'NODES', ())]


def run_one(mod, sc, nodes=()):
    return in_child(execute, mod, sc, nodes)


def _shard(mod, seeds, tier, fd, stop_fd):
    nodes = open_nodes(mod)
    for seed in seeds:
        if select.select([stop_fd], [], [], 0)[0]:
            break
        sc = scenario(mod, seed, tier)
        try:
            res = run_one(mod, sc, nodes)
            res['decisions'] = res['decisions'] if res['v'] else None
        except core.HarnessError as e:
            res = {'seed': seed, 'error': str(e)}
        res['sample'] = sc if seed % 1000 < 3 else None
        _write(fd, pickle.dumps(res))
    for n in nodes:
        n.close()


def batch(mod, seeds, tier, jobs=JOBS, on_result=None, stop_on_violation=True, max_wall=None):
    """Run the seeds on several processes; all results go to on_result."""
    jobs = min(jobs, len(seeds)) or 1
    stop_r, stop_w = os.pipe()
    fds = {}
    pids = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(stop_w)
                for f in fds:
                    os.close(f)
                _shard(mod, seeds[j::jobs], tier, w, stop_r)
            except BaseException:       # noqa
                try:
                    _write(w, pickle.dumps({'seed': -1, 'error': traceback.format_exc()}))
                except OSError:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        fds[r] = pid
        pids.append(pid)
    os.close(stop_r)
    stopped = False
    t0 = time.monotonic()
    while fds:
        for fd in select.select(list(fds), [], [], 1.0)[0]:
            data = _read(fd)
            if data is None:
                os.close(fd)
                os.waitpid(fds.pop(fd), 0)
                continue
            res = pickle.loads(data)
            on_result(res)
            if (res.get('v') and stop_on_violation) and not stopped:
                stopped = True
                os.close(stop_w)
        if max_wall and not stopped and time.monotonic() - t0 > max_wall:
            stopped = True
            os.close(stop_w)
    if not stopped:
        os.close(stop_w)


# ------------------------------------------------------------------ minimisation
def minimise(mod, sc, res, nodes, budget=45.0):
    """A smaller scenario (and schedule) with the same kind of violation."""
    kind = res['v']['kind']
    t_end = time.monotonic() + budget
    best = dict(sc, decisions=res['decisions'])

    def attempt(cand):
        try:
            r = run_one(mod, cand, nodes)
        except core.HarnessError:
            return None
        return r if r['v'] and r['v']['kind'] == kind else None

    last = attempt(best)
    if last is None:
        return None, None
    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        for cand in mod.simplify(best) if hasattr(mod, 'simplify') else ():
            if time.monotonic() > t_end:
                break
            tries = [dict(cand, decisions=best['decisions'])]
            tries.append(dict(cand, decisions=[[d[0]] for d in best['decisions'] if d]))
            for k in range(4):
                tries.append(dict(cand, decisions=None, seed=best['seed'],
                                  sched=dict(cand.get('sched') or {}, salt=k)))
            for t in tries:
                if 'decisions' in t and t['decisions'] is None:
                    t.pop('decisions')
                r = attempt(t)
                if r:
                    best = dict(t, decisions=r['decisions'])
                    last = r
                    changed = True
                    break
            if changed:
                break
    # The schedule: drop decisions.
    for ph in range(len(best['decisions'])):
        n = 2
        while time.monotonic() < t_end + budget / 2:
            ds = best['decisions'][ph]
            body = ds[1:]
            if not body:
                break
            size = max(1, len(body) // n)
            for i in range(0, len(body), size):
                cut = [ds[0]] + body[:i] + body[i + size:]
                cand = dict(best, decisions=best['decisions'][:ph] + [cut] + best['decisions'][ph + 1:])
                r = attempt(cand)
                if r and len(r['decisions'][ph]) < len(ds):
                    best = dict(cand, decisions=r['decisions'])
                    last = r
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(body), n * 2)
    return best, last


# ------------------------------------------------------------------ generic shrinking helpers
def drop_each(lst):
    for i in range(len(lst)):
        yield lst[:i] + lst[i + 1:]


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:12]
