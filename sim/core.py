"""The simulator: a deterministic scheduler for real threads, simulated processes,
manager channels, locks, timers, asynchronous interrupts and the wall clock.

Exactly one simulated thread runs at any moment.  Every line (or every byte code
instruction, per run) executed inside /repo/jsons is a yield point (sys.monitoring),
and so is every operation on a simulated lock, task, channel or timer.  Who runs next
is decided here, from the run's seed or from the decisions of a replay file.
"""
import _thread
import copy
import ctypes
import dis
import os
import pickle
import random
import sys
import threading
import zlib

_real_lock = _thread.allocate_lock
_real_Lock, _real_RLock = threading.Lock, threading.RLock
RealThread = threading.Thread
TOOL = 3
MON = sys.monitoring
REPO = os.environ.get('SIM_REPO', '/repo')
JSONS_DIR = os.path.join(REPO, 'jsons') + os.sep

sim = None            # the active Sim of this (forked) process, or None
importing = False     # True while jsons is being imported: its locks must be simulated


class HarnessError(Exception):
    """Something is wrong with the machinery (never a violation)."""


# ------------------------------------------------------------------ wall clock
_lib = ctypes.CDLL(None)


def _ll(name, typ=ctypes.c_longlong):
    try:
        return typ.in_dll(_lib, name)
    except ValueError:
        raise HarnessError('the simulated clock is not preloaded; start through ./check')


class Clock:
    """The simulated system clock (CLOCK_REALTIME) of the process."""

    def __init__(self):
        self.on = _ll('sim_clock_on', ctypes.c_int)
        self.ns, self.tick = _ll('sim_clock_ns'), _ll('sim_clock_tick')
        self.jump, self.jump_at = _ll('sim_clock_jump'), _ll('sim_clock_jump_at')
        self.reads = _ll('sim_clock_reads')

    def start(self, epoch_s, tick_ns=0):
        self.ns.value = int(epoch_s * 1_000_000_000)
        self.tick.value = tick_ns
        self.jump.value = self.jump_at.value = 0
        self.on.value = 1

    def advance(self, seconds):
        self.ns.value += int(seconds * 1_000_000_000)

    def now(self):
        return self.ns.value / 1e9


# ------------------------------------------------------------------ tasks
class Task:
    __slots__ = ('name', 'gate', 'n', 'state', 'pred', 'wake', 'intr_at', 'intr_exc', 'kids',
                 'proc', 'op', 'prio', 'fn', 'thread', 'kill_at', 'parent', 'fired', 'kind', 'opn', 'm')

    def __init__(self, name, fn, parent=None, kind='thread'):
        self.name, self.fn, self.parent, self.kind = name, fn, parent, kind
        self.gate = _real_lock()
        self.gate.acquire()
        self.n = 0                    # yield points so far
        self.m = 0                    # points so far where an exception could arrive
        self.state = 'new'            # new -> run/blocked -> done | dead
        self.pred = self.wake = None
        self.intr_at = self.kill_at = -1
        self.intr_exc = None
        self.fired = False
        self.kids = 0
        self.proc = parent.proc if parent else 'main'
        self.op = parent.op if parent else None
        self.opn = 0
        self.prio = 0.0
        self.thread = None

    @property
    def alive(self):
        return self.state in ('new', 'run', 'blocked')


class Sim:
    def __init__(self, cfg=None, decisions=None, rng=None, clock=None, cap=400_000):
        self.cfg = cfg or {}
        self.rng = rng or random.Random(0)
        self.clock = clock
        self.tasks, self.by_name = [], {}
        self.cur = None
        self.step = 0
        self.cap = cap
        self.now = 0.0                     # virtual time (timers), seconds
        self.replay = None
        if decisions is not None:
            self.replay = {(d[0], d[1]): d[2] for d in decisions}
        self.decisions = []                # [task, local event number, next task]
        self.sig = 0                       # running hash of the interleaving
        self.switches = 0
        self.sites = {}                    # site -> preemptions there
        self.faults = {}                   # fault kind -> times fired
        self.started = []                  # tasks started by the code under test
        self.plan = {'start': {}, 'kill': {}, 'chan': {}, 'manager': {}, 'mandie': {}}
        self.n_started = self.n_chan = self.n_manager = 0
        self.stuck = None
        self.fair = False
        self.instr = False
        self.inv = None                    # an invariant, evaluated at decisions
        self.intr_sites = []
        self.done_gate = _real_lock()
        self.done_gate.acquire()
        self.warnings = []
        self.log = []                      # invoke/return/... events of the workload
        self.seq = 0
        self._site_cache = {}
        self.user_seq = 0
        mode = self.cfg.get('mode', 'rand')
        self.mode = mode
        self.p = self.cfg.get('p', 0.05)
        self.salt = self.cfg.get('salt', 0)
        self.mod = self.cfg.get('mod', 10)
        self.next_at = 1 << 60
        self.counts = {} if mode == 'rare' else None     # site -> times seen
        self.hold = self.cfg.get('hold', 0)
        self.hold_until = 0
        if self.replay is None:
            if mode in ('rand', 'site'):
                self._draw_gap()
            elif mode == 'pct':
                k = self.cfg.get('k', 3000)
                self.changes = sorted(self.rng.randrange(1, k) for _ in range(self.cfg.get('d', 3)))
                self.next_at = self.changes[0] if self.changes else 1 << 60

    # -- scheduling decisions
    def _draw_gap(self):
        p = self.p
        if p <= 0:
            self.next_at = 1 << 60
            return
        u = self.rng.random()
        gap = 1
        if p < 1:
            import math
            gap = 1 + int(math.log(1 - u) / math.log(1 - p))
        self.next_at = self.step + gap

    def ready(self):
        out = []
        for t in self.tasks:
            s = t.state
            if s == 'run' or s == 'new':
                out.append(t)
            elif s == 'blocked' and ((t.wake is not None and t.wake <= self.now) or t.pred()):
                out.append(t)
        return out

    def _pick(self, cands, forced):
        if len(cands) == 1:
            return cands[0]
        if self.fair:
            order = self.tasks
            i = order.index(self.cur) if self.cur in order else -1
            for j in range(1, len(order) + 1):
                t = order[(i + j) % len(order)]
                if t in cands:
                    return t
        if self.mode == 'pct':
            return max(cands, key=lambda t: t.prio)
        if self.mode == 'serial' and not forced:
            return self.cur
        return cands[self.rng.randrange(len(cands))]

    def _consider(self, site):
        """A yield point at which the policy wants a decision."""
        cur = self.cur
        self._look()
        if self.mode == 'pct':
            if self.changes and self.step >= self.changes[0]:
                self.changes.pop(0)
                cur.prio = -self.step
            self.next_at = self.changes[0] if self.changes else 1 << 60
        elif self.counts is None:
            self._draw_gap()
        if self.fair:
            self.next_at = self.step + 50
        cands = self.ready()
        if self.counts is not None and not self.fair:
            self.hold_until = self.step + self.hold
            cands = [t for t in cands if t is not cur] or cands
        t = self._pick(cands, False)
        if t is not cur:
            self._go(t, site)
        elif self.inv is not None:
            self.decisions.append([cur.name, cur.n, cur.name])      # where the invariant was evaluated

    def _look(self):
        if self.inv is not None:
            cur, self.cur = self.cur, None
            try:
                self.inv(cur)
            finally:
                self.cur = cur

    def _rare_hit(self, key):
        """Preempt at a site seen for the c-th time with probability p/c."""
        c = self.counts[key] = self.counts.get(key, 0) + 1
        return c < 40 and self.step >= self.hold_until and self.rng.random() * c < self.p

    def _site_hit(self, key):
        v = self._site_cache.get(key)
        if v is None:
            code, loc = key
            name = f'{code.co_filename[len(REPO):]}:{code.co_qualname}:{loc}'
            v = zlib.crc32(f'{self.salt}/{name}'.encode()) % self.mod == 0
            self._site_cache[key] = v
        return v

    def site_name(self, site):
        if isinstance(site, tuple):
            code, loc = site
            if isinstance(code, str):
                return f'{code}:{loc}'
            return f'{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}:{loc}'
        return str(site)

    def _go(self, t, site):
        """Switch from the current thread to t."""
        me = self.cur
        self.switches += 1
        self.decisions.append([me.name, me.n, t.name])
        s = self.site_name(site)
        self.sites[s] = self.sites.get(s, 0) + 1
        self.sig = zlib.crc32(f'{self.sig}|{me.name}@{s}>{t.name}'.encode())
        self.cur = t
        if t.state != 'run':
            t.state = 'run'
            t.pred = t.wake = None
        t.gate.release()
        if me.state in ('done',):
            return
        me.gate.acquire()

    # -- yield points
    def on_code(self, code, loc):
        t = self.cur
        if t is None:
            return
        n = t.n = t.n + 1
        self.step = step = self.step + 1
        if self.instr and loc in _intr.get(code, ()):
            t.m += 1
            if t.m == t.intr_at:
                self._interrupt(t, (code, loc))
        if n == t.kill_at:
            self._die(t)
        r = self.replay
        if r is not None:
            d = r.get((t.name, n))
            if d is not None:
                self._go_named(d, (code, loc))
            return
        if step >= self.next_at or (self.mode == 'site' and not self.fair and
                                    self._site_hit((code, loc)) and self.rng.random() < 0.6) or (
                self.counts is not None and self._rare_hit((code, loc)) and not self.fair):
            if step > self.cap:
                self._over_cap()
            self._consider((code, loc))
        elif step > self.cap:
            self._over_cap()

    def point(self, site='user'):
        """An explicit yield point (operations of the simulator, user callbacks)."""
        t = self.cur
        if t is None:
            return
        self.step += 1
        n = t.n = t.n + 1
        t.m += 1
        if t.m == t.intr_at:
            self._interrupt(t, site)
        if n == t.kill_at:
            self._die(t)
        if self.replay is not None:
            d = self.replay.get((t.name, n))
            if d is not None:
                self._go_named(d, site)
            return
        if self.step > self.cap:
            self._over_cap()
        if self.step >= self.next_at or (self.mode != 'serial' and self.step >= self.hold_until and
                                         self.rng.random() < 0.3):
            self._consider(site)

    def _go_named(self, name, site):
        self._look()
        if name == self.cur.name and self.inv is not None:
            self.decisions.append([name, self.cur.n, name])
        t = self.by_name.get(name)
        if t is not None and t is not self.cur and t in self.ready():
            self._go(t, site)

    def _interrupt(self, t, site):
        """Deliver the asynchronous exception planned for t."""
        exc = t.intr_exc
        t.intr_at = -1
        t.fired = True
        self.intr_sites.append(self.site_name(site))
        self.sig = zlib.crc32(f'{self.sig}!{t.name}@{self.intr_sites[-1]}'.encode())
        self.fault('interrupt:' + type(exc).__name__)
        raise exc

    def _over_cap(self):
        if not self.fair:
            self.fair = True
            self.cap += self.cap
            self.next_at = self.step + 50
            if self.replay is not None:
                self.replay = None
        else:
            self.stuck = f'no progress: {self.step} steps, the last ones under a fair schedule'
            self._finish_now()

    def _finish_now(self):
        me = self.cur
        self.cur = None
        self.done_gate.release()
        me.gate.acquire()         # parked for ever; the process exits

    def block(self, pred, timeout=None, site='block'):
        """Block the current thread until pred() or until the (virtual) timeout."""
        t = self.cur
        self.step += 1
        t.n += 1
        if t.n == t.kill_at:
            self._die(t)
        t.state, t.pred = 'blocked', pred
        t.wake = None if timeout is None else self.now + timeout
        self._leave(site)
        if t.state != 'run':
            t.state, t.pred, t.wake = 'run', None, None
        t.m += 1
        if t.m == t.intr_at:
            self._interrupt(t, site)

    def _leave(self, site):
        """The current thread cannot go on (blocked, done or dead): choose another."""
        me = self.cur
        cands = self.ready()
        while not cands:
            timers = [t.wake for t in self.tasks if t.state == 'blocked' and t.wake is not None]
            if not timers:
                break
            dt = max(0.0, min(timers) - self.now)
            self.now += dt
            if self.clock is not None:
                self.clock.advance(dt)
            cands = self.ready()
        if not cands:
            if any(t.alive for t in self.tasks):
                self.stuck = 'deadlock: ' + ', '.join(
                    f'{t.name} {t.state}' for t in self.tasks if t.alive)
            self.cur = None
            self.done_gate.release()
            if me.state != 'done':
                me.gate.acquire()
            return
        t = None
        if self.replay is not None:
            want = self.by_name.get(self.replay.get((me.name, me.n)))
            t = want if want in cands else cands[0]
        else:
            t = self._pick(cands, True)
        if t is me:
            t.state, t.pred, t.wake = 'run', None, None
            return
        self._go(t, site)

    def _die(self, t):
        """The process of t is killed here: it never runs again."""
        self.fault('worker killed')
        for o in self.tasks:
            if o.proc == t.proc and o is not t and o.alive:
                o.state = 'dead'
        t.state = 'dead'
        self._leave('killed')

    def sleep(self, seconds):
        t = self.cur
        if t is None:
            return
        self.block(lambda: False, max(0.0, seconds), 'sleep')

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    # -- threads
    def spawn(self, name, fn, parent=None, kind='thread'):
        t = Task(name, fn, parent, kind)
        if kind == 'process':
            t.proc = name
            for lk in _locks:
                if t.parent is not None and t.parent.proc in lk.st:
                    lk.st[name] = list(lk.st[t.parent.proc])
        t.prio = self.rng.random() if self.replay is None else 0.0
        self.tasks.append(t)
        self.by_name[name] = t
        _thread.start_new_thread(self._main, (t,))
        return t

    def _main(self, t):
        t.gate.acquire()
        t.state = 'run'
        if t.thread is not None:
            threading._active[_thread.get_ident()] = t.thread
        try:
            t.fn()
        except BaseException as err:        # noqa - reported by the run
            self.log.append(('task-error', t.name, repr(err)))
        finally:
            if t.thread is not None:
                threading._active.pop(_thread.get_ident(), None)
        t.state = 'done'
        t.n += 1
        self._leave('end')

    def run(self, fns, wall=60.0):
        """Run the workload threads fns (name -> callable) to the end."""
        for name, fn in fns:
            self.spawn(name, fn)
        cands = self.ready()
        if self.replay is not None:
            first = self.by_name.get(self.replay.get(('', 0)), cands[0])
        else:
            first = self._pick(cands, True) if self.mode != 'serial' else cands[0]
        self.decisions.append(['', 0, first.name])
        self.sig = zlib.crc32(first.name.encode())
        self.cur = first
        first.state = 'run'
        first.gate.release()
        if not self.done_gate.acquire(timeout=wall):
            raise HarnessError(f'a run exceeded its wall time of {wall}s (step {self.step})')
        self.cur = None

    def record(self, *what):
        self.seq += 1
        self.log.append((self.seq,) + what)
        return self.seq


# ------------------------------------------------------------------ simulated thread and process
class SimThread(RealThread):
    """threading.Thread under the simulator (a plain Thread outside of a run)."""
    _kind = 'thread'

    def start(self):
        s = sim
        if s is None or s.cur is None:
            return RealThread.start(self)
        if getattr(self, '_task', None) is not None:
            raise RuntimeError('threads can only be started once')
        self._task = _start_task(s, self, 'thread')

    def join(self, timeout=None):
        t = getattr(self, '_task', None)
        if t is None:
            if sim is not None and sim.cur is not None:
                raise RuntimeError('cannot join thread before it is started')
            return RealThread.join(self, timeout)
        _join(t, timeout)

    def is_alive(self):
        t = getattr(self, '_task', None)
        if t is None:
            return RealThread.is_alive(self) if sim is None else False
        return t.alive


def _start_task(s, obj, kind):
    s.point('start')
    i = s.n_started
    s.n_started += 1
    f = s.plan['start'].get(i)
    if f:
        s.fault(f'{kind} start failure')
        raise (RuntimeError("can't start new thread") if kind == 'thread'
               else OSError(11, 'Resource temporarily unavailable'))
    cur = s.cur
    cur.kids += 1
    t = s.spawn(f'{cur.name}.{cur.kids}', lambda: _run_target(obj, kind), cur, kind)
    t.thread = obj if kind == 'thread' else None
    k = s.plan['kill'].get(i)
    if k is not None and kind == 'process':
        t.kill_at = k
    s.started.append(t)
    s.point('started')
    return t


def _run_target(obj, kind):
    try:
        obj.run()
        obj._exit = 0
    except BaseException as err:            # like a real worker: reported, not propagated
        obj._exit = 1
        sim.log.append(('worker-exception', type(err).__name__, str(err)[:200]))


def _join(t, timeout):
    s = sim
    s.point('join')
    if t.alive:
        s.block(lambda: not t.alive, timeout, 'join')


class SimProcess:
    """multiprocessing.Process under the simulator: a thread that shares nothing the
    code under test can observe except what it was given, can be killed, and talks to
    its parent through SimManager channels that pickle everything."""
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._given = None
        SimProcess._counter += 1
        self.name = name or f'Process-{SimProcess._counter}'
        self.daemon = bool(daemon)
        self._task, self._exit, self.pid = None, None, None

    def run(self):
        if self._target:
            args, kwargs = self._given or (self._args, self._kwargs)
            self._target(*args, **kwargs)

    def start(self):
        s = sim
        if s is None or s.cur is None:
            raise HarnessError('SimProcess started outside of a simulated run')
        if self._task is not None:
            raise AssertionError('cannot start a process twice')
        # A child process works on copies of everything but the channels.
        self._given = _copied((self._args, self._kwargs))
        self._task = _start_task(s, self, 'process')
        self.pid = 10_000 + len(s.tasks)

    def join(self, timeout=None):
        if self._task is None:
            raise AssertionError('can only join a started process')
        _join(self._task, timeout)

    def is_alive(self):
        return self._task is not None and self._task.alive

    @property
    def exitcode(self):
        if self._task is None or self._task.alive:
            return None
        return -9 if self._task.state == 'dead' else self._exit

    def terminate(self):
        t = self._task
        if t is not None and t.alive:
            t.state = 'dead'

    kill = terminate

    def close(self):
        pass

    @property
    def sentinel(self):
        raise HarnessError('SimProcess.sentinel is not simulated')

    @property
    def ident(self):
        return self.pid


# ------------------------------------------------------------------ manager and its channels
def _copied(obj):
    cur, sim.cur = sim.cur, None
    try:
        return copy.deepcopy(obj)
    except Exception:
        return obj
    finally:
        sim.cur = cur


class _Channel:
    _manager = None

    def __deepcopy__(self, memo):
        return self

    def _call(self, name, args=(), kwargs=None):
        s = sim
        if s is None or s.cur is None:
            return self._apply(name, args, kwargs or {})
        s.point('channel')
        i = s.n_chan
        s.n_chan += 1
        f = s.plan['chan'].get(i)
        m = self._manager
        if s.plan['mandie'].get(i) and not m.dead:
            s.fault('manager death')
            m.dead = True
            if s.plan['mandie'][i] == 'during':
                raise EOFError()
        if m.dead:
            raise ConnectionRefusedError(111, 'Connection refused')
        if f == 'before':
            s.fault('channel broken before the message')
            raise BrokenPipeError(32, 'Broken pipe')
        args, kwargs = pickle.loads(pickle.dumps((args, kwargs or {})))
        try:
            res = self._apply(name, args, kwargs)
            err = None
        except Exception as e:
            res, err = None, e
        s.point('channel')
        if f == 'after':
            s.fault('channel broken after the message')
            raise EOFError()
        if err is not None:
            raise pickle.loads(pickle.dumps(err))
        return pickle.loads(pickle.dumps(res))

    def _apply(self, name, args, kwargs):
        return getattr(self._value, name)(*args, **kwargs)


def _proxy(name, names):
    ns = {}
    for n in names:
        def m(self, *a, _n=n, **k):
            return self._call(_n, a, k)
        ns[n] = m
    return type(name, (_Channel,), ns)


SimListProxy = _proxy('SimListProxy', (
    '__add__', '__contains__', '__delitem__', '__getitem__', '__len__', '__mul__', '__reversed__',
    '__rmul__', '__setitem__', 'append', 'count', 'extend', 'index', 'insert', 'pop', 'remove',
    'reverse', 'sort', '__imul__'))
SimDictProxy = _proxy('SimDictProxy', (
    '__contains__', '__delitem__', '__getitem__', '__len__', '__setitem__', 'clear', 'copy', 'get',
    'pop', 'popitem', 'setdefault', 'update'))


def _dict_keys(self):
    return self._call('__class__.keys')


class SimManager:
    dead = False

    def _new(self, p, value):
        if self.dead:
            raise ConnectionRefusedError(111, 'Connection refused')
        p._value, p._manager = pickle.loads(pickle.dumps(value)), self
        return p

    def __init__(self, *a, **k):
        s = sim
        if s is not None and s.cur is not None:
            s.point('manager')
            i = s.n_manager
            s.n_manager += 1
            if s.plan['manager'].get(i):
                s.fault('manager start failure')
                raise OSError(11, 'Resource temporarily unavailable')

    def list(self, seq=()):
        return self._new(SimListProxy(), list(seq))

    def dict(self, *a, **k):
        p = self._new(SimDictProxy(), dict(*a, **k))
        for n in ('keys', 'values', 'items'):
            setattr(p, n, lambda n=n: _listed(p, n))
        return p

    def Lock(self):
        return SimLock(shared=True)

    def RLock(self):
        return SimRLock(shared=True)

    def shutdown(self):
        pass

    def start(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def __getattr__(self, name):
        raise HarnessError(f'Manager.{name} is not simulated')


def _listed(p, n):
    v = p._value
    p2 = SimListProxy()
    p2._value, p2._manager = list(getattr(v, n)()), p._manager
    return p2._call('__add__', ([],))


# ------------------------------------------------------------------ locks
_locks = []


class SimLock:
    """threading.Lock under the simulator; every simulated process has its own copy."""
    reentrant = False

    def __init__(self, shared=False):
        self.st = {}                # process -> [owner, count]
        self.shared = shared
        _locks.append(self)

    def _state(self):
        s = sim
        proc = 'main'
        if s is not None and s.cur is not None and not self.shared:
            proc = s.cur.proc
        return self.st.setdefault(proc, [None, 0])

    def acquire(self, blocking=True, timeout=-1):
        s = sim
        st = self._state()
        me = s.cur.name if s is not None and s.cur is not None else '-'
        if self.reentrant and st[1] and st[0] == me:
            st[1] += 1
            return True
        if me == '-':
            if st[1]:
                if not blocking:
                    return False
                raise HarnessError('a lock is held outside of a run')
            st[0], st[1] = me, 1
            return True
        s.point('lock')
        if st[1]:
            if not blocking:
                return False
            s.block(lambda: not st[1], None if timeout is None or timeout < 0 else timeout, 'lock')
            if st[1]:
                return False
        st[0], st[1] = me, 1
        return True

    def release(self):
        st = self._state()
        if not st[1]:
            raise RuntimeError('release unlocked lock')
        st[1] -= 1
        if not st[1]:
            st[0] = None
        # A yield point here would let an injected exception escape from a release,
        # which no real lock does; the next line of the library is one.

    def locked(self):
        return bool(self._state()[1])

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _is_owned(self):
        s = sim
        st = self._state()
        return bool(st[1]) and st[0] == (s.cur.name if s is not None and s.cur is not None else '-')

    def _at_fork_reinit(self):
        self.st.clear()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        st = self._state()
        saved = tuple(st)
        st[0], st[1] = None, 0
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        st = self._state()
        st[0], st[1] = saved


def _want():
    return importing or (sim is not None and sim.cur is not None)


def _Lock():
    return SimLock() if _want() else _real_Lock()


def _RLock():
    return SimRLock() if _want() else _real_RLock()


def _sleep(seconds, _real=__import__('time').sleep):
    if sim is not None and sim.cur is not None:
        sim.sleep(seconds)
    else:
        _real(seconds)


def pause(tag='user'):
    """A yield point inside user code (callbacks of the workload)."""
    s = sim
    if s is not None and s.cur is not None:
        s.point(tag)


# ------------------------------------------------------------------ set up
def patch():
    """Put the seams in place; must run before jsons is imported."""
    import multiprocessing
    import queue
    import time
    threading.Lock, threading.RLock = _Lock, _RLock
    threading._allocate_lock = _Lock
    threading.Thread = SimThread
    multiprocessing.Process = SimProcess
    multiprocessing.Manager = SimManager
    time.sleep = _sleep
    queue.SimpleQueue = queue._PySimpleQueue


_codes = []


def import_jsons():
    global importing
    if any(m == 'jsons' or m.startswith('jsons.') for m in sys.modules):
        raise HarnessError('jsons was imported before the simulator was in place')
    sys.path.insert(0, REPO)
    importing = True
    try:
        import jsons
        import jsons.decorators
    finally:
        importing = False
    if not os.path.realpath(jsons.__file__).startswith(os.path.realpath(JSONS_DIR)):
        raise HarnessError(f'jsons was imported from {jsons.__file__}, not from {JSONS_DIR}')
    return jsons


def find_codes():
    """All code objects of the library."""
    import gc
    import types
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(JSONS_DIR):
            walk(o.__code__)
    out = sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    return out


def instrument():
    global _codes
    _codes = find_codes()
    if len(_codes) < 50:
        raise HarnessError(f'only {len(_codes)} code objects of jsons found')
    MON.use_tool_id(TOOL, 'sim')
    for c in _codes:
        MON.set_local_events(TOOL, c, MON.events.LINE)
    return _codes


_intr = {}            # code -> offsets where CPython may deliver an asynchronous exception


def _interruptible(code):
    """The evaluation loop checks for pending signals and exceptions when a function is
    entered or resumed, at backward jumps and after calls; the latter is seen here at the
    following instruction, where that has the same exception handlers."""
    entries = dis._parse_exception_table(code)

    def handler(off):
        for e in entries:
            if e.start <= off < e.end:
                return e.target
        return None
    out, prev = set(), None
    for ins in dis.get_instructions(code):
        if ins.opname in ('RESUME', 'JUMP_BACKWARD'):
            out.add(ins.offset)
        elif prev is not None and prev.opname in ('CALL', 'CALL_FUNCTION_EX') \
                and handler(prev.offset) == handler(ins.offset):
            out.add(ins.offset)
        prev = ins
    return frozenset(out)


_gran = 'line'


def attach(s, gran='line'):
    """Make s the active simulator of this process."""
    global sim, _gran
    sim = s
    if gran == 'none':              # nothing inside the library is a yield point
        return
    s.instr = gran != 'line'
    ev = MON.events.LINE if gran == 'line' else MON.events.INSTRUCTION
    if gran != 'line' and not _intr:
        for c in _codes:
            _intr[c] = _interruptible(c)
    if gran != _gran:
        for c in _codes:
            MON.set_local_events(TOOL, c, ev)
        _gran = gran
    MON.register_callback(TOOL, ev, s.on_code)


def detach():
    global sim
    sim = None
    MON.register_callback(TOOL, MON.events.LINE, None)
    MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
