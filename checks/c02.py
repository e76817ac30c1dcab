"""C02: a failing parallel call raises; it never returns a partially filled result."""
import multiprocessing
import random
import threading
import time
from collections import deque
from dataclasses import dataclass
from typing import Deque, Dict, List, Optional, Set, Tuple

import core
import engine
import ops
import universe as U
from c01 import jsons_error
from canon import canon

ID = 'C02'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 4000, 'thorough': 120000}
RULE = ('A run: one caller (sometimes with a second, undisturbed one) loads or dumps a collection of 1-8 elements '
        'with 2-6 tasks while faults happen: any subset of elements fails (exceptions of several classes, with and '
        'without arguments, also non-Exceptions) or takes 0.5 s - 25 h of simulated time, the k-th worker cannot start, a worker process is killed at '
        'step s, the channel breaks before or after the m-th message, the manager cannot start or dies at the m-th message; then the faults '
        'stop and the same call is made again.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['scheduler', 'threading.Thread and locks', 'multiprocessing.Process (killable simulated task) and '
        'Manager (pickling channels that can break)']
ASSUMPTIONS = ['a killed worker loses everything it had not yet sent through its channel; the channel itself '
               'stays intact']


@dataclass(frozen=True)
class Tick:
    n: int


@dataclass
class Bag:
    name: str
    ticks: List[Tick]


class Odd(Exception):
    """Cannot be pickled or rebuilt from its args."""

    def __init__(self, a, b):
        super().__init__()
        self.f = lambda: (a, b)


class Quit(BaseException):
    pass


EXC = {'value': lambda n: ValueError(f'bad {n}'), 'bare': lambda n: ValueError(), 'odd': lambda n: Odd(n, n),
       'key': lambda n: KeyError(n), 'obj': lambda n: RuntimeError(Tick(n)), 'stop': lambda n: StopIteration(n),
       'quit': lambda n: Quit(), 'exit': lambda n: SystemExit(1), 'kbd': lambda n: KeyboardInterrupt(),
       'mem': lambda n: MemoryError(), 'des': None, 'ser': None, 'val': None}
SHAPES_L = ['list', 'holes', 'list', 'nested', 'dict', 'bag', 'opt', 'deque', 'set', 'tup']
SHAPES_D = ['tuple', 'holes', 'deque', 'nested', 'frozenset', 'inlist', 'strict']


def generate(r, seed, tier):
    way = r.choice(['load', 'load', 'dump'])
    n = r.choice([1, 2, 2, 3, 4, 5, 6, 8])
    kind = r.choice(['thread', 'thread', 'process'])
    sc = {'way': way, 'n': n, 'tasks': r.choice([2, 2, 3, 4, 6]), 'task_type': kind, 'warn': r.random() < 0.15,
          'shape': r.choice(SHAPES_L if way == 'load' else SHAPES_D), 'second': r.random() < 0.25, 'fail': {}}
    if sc['shape'] not in ('list', 'deque', 'set', 'holes'):
        sc['warn'] = False      # there it tolerates the failure of a whole inner collection
    plan = {}
    sc['slow'] = {}
    if r.random() < 0.25:
        for i in r.sample(range(n), r.choice([1, 1, min(2, n)])):
            sc['slow'][str(i)] = r.choice([0.5, 3, 20, 100, 4000, 90000])
    c = r.random()
    if c < 0.5:
        for i in sorted(r.sample(range(n), r.choice([1, 1, min(2, n), n]))):
            w = r.choice(['call', 'call', 'call', 'val']) if way == 'load' else 'call'
            sc['fail'][str(i)] = [w, r.choice(list(EXC) if r.random() < 0.6 else ['value', 'bare'])]
    if c > 0.45:
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice(['start', 'start'] if kind == 'thread' else ['start', 'kill', 'kill', 'kill', 'chan', 'chan',
                                                                      'chan', 'manager', 'mandie', 'mandie'])
            d = plan.setdefault(f, {})
            if f == 'start':
                d[str(r.randrange(sc['tasks']))] = 1
            elif f == 'kill':
                d[str(r.randrange(sc['tasks']))] = 1 + int(r.expovariate(1 / 60.0))
            elif f == 'chan':
                d[str(r.randrange(2 * n + 4))] = r.choice(['before', 'after'])
            elif f == 'mandie':
                d[str(r.randrange(2 * n + 4))] = r.choice(['before', 'during'])
            else:
                d['0'] = 1
    sc['plan'] = plan
    return sc


def run(run):
    import jsons
    sc = run.sc
    world = ops.World(jsons)
    fork = jsons.fork(name='Ticks')
    n = sc['n']
    nums = list(range(n))
    state = {'faults': True}

    def boom(what, i):
        t = sc['slow'].get(str(i))
        if t and what == 'call' and state['faults']:
            run.mark(f'slow {i}', 'slow element')
            time.sleep(t)
        f = sc['fail'].get(str(i))
        if f and f[0] == what and state['faults']:
            run.mark(f'fail {i}', 'element failure (' + f[1] + ')')
            make = EXC[f[1]]
            if make is None:
                raise {'des': lambda: jsons.DeserializationError('no', i, Tick),
                       'ser': lambda: jsons.SerializationError('no'),
                       'val': lambda: jsons.ValidationError('no')}[f[1]]()
            raise make(i)

    def ser(o, **kw):
        U.hook('ser Tick')
        if 100 > o.n:
            boom('call', o.n)
        U.hook('ser Tick')
        return {'n': o.n}

    def des(o, cls, **kw):
        U.hook('des Tick')
        if 100 > o['n']:
            boom('call', o['n'])
        return Tick(o['n'])

    def val(o):
        U.hook('val Tick')
        if 100 > o.n:
            boom('val', o.n)
        return True
    jsons.set_serializer(ser, Tick, fork_inst=fork)
    jsons.set_deserializer(des, Tick, fork_inst=fork)
    jsons.set_validator(val, Tick, fork_inst=fork)
    kw = {'fork_inst': fork}
    if sc['warn'] and sc['way'] == 'load':
        kw['warn_on_fail'] = True
    kind = {'thread': threading.Thread, 'process': multiprocessing.Process}[sc['task_type']]
    par = {'tasks': sc['tasks'], 'task_type': kind}

    def make(base):
        ids = [base + i for i in nums]
        h = n // 2
        sh = sc['shape']
        if sc['way'] == 'load':
            l = [{'n': i} for i in ids]
            doc, t = {'list': (l, List[Tick]), 'nested': ([l[:h], l[h:]], List[List[Tick]]),
                      'dict': ({'a': l[:h], 'b': l[h:]}, Dict[str, List[Tick]]),
                      'bag': ({'name': 'x', 'ticks': l}, Bag), 'opt': (l, Optional[List[Tick]]),
                      'deque': (l, Deque[Tick]), 'set': (l, Set[Tick]), 'tup': ([l, 1], Tuple[List[Tick], int]),
                      'holes': ([None] + [x for i in l for x in ([i, None] if i['n'] % 3 == 0 else [i])], List[Optional[Tick]])}[sh]
            x = [Tick(i) for i in ids]
            want = {'nested': lambda: [x[:h], x[h:]], 'dict': lambda: {'a': x[:h], 'b': x[h:]}, 'bag': lambda: Bag('x', x),
                    'deque': lambda: deque(x), 'set': lambda: set(x), 'tup': lambda: (x, 1),
                    'holes': lambda: [d and Tick(d['n']) for d in doc]}.get(sh, lambda: x)()
            return lambda p: jsons.load(doc, t, **kw, **p), want
        l = [Tick(i) for i in ids]
        v = {'tuple': tuple(l), 'deque': deque(l), 'nested': (tuple(l[:h]), deque(l[h:])), 'strict': tuple(l),
             'frozenset': frozenset(l), 'inlist': [tuple(l), 5],
             'holes': tuple(x for i in l for x in ([None, i] if i.n % 2 == 0 else [i]))}[sh]
        kw2 = dict(kw, strict=True) if sh == 'strict' else kw

        def plain(e):
            return {'n': e.n} if isinstance(e, Tick) else e if e is None or isinstance(e, int) else [plain(y) for y in e]
        return lambda p: jsons.dump(v, **kw2, **p), plain(v)
    call, want = make(0)
    other, _ = make(1000)

    def op(p, f=call):
        return ops.Op(sc, lambda: f(p), [])

    def quiet():
        state['faults'] = False
        return op({}).outcome('solo')
    clean = engine.solo(quiet, 'none')[0]
    if clean[0] != 'ok':
        raise core.HarnessError(f'the sequential call fails: {clean}')
    if clean[1] != canon(want):
        raise engine.Violation('sequential', f'without faults and tasks the call gives {clean[1]} instead of {canon(want)}')
    expected = engine.solo(lambda: op({}).outcome('solo'), 'none')[0]
    other_exp = engine.solo(lambda: op({}, other).outcome('solo'), 'none')[0]
    got = {}

    def caller():
        got['a'] = op(par).outcome('a')
        got['live'] = [t.name for t in core.sim.tasks if t.op == 'a' and t.alive and t is not core.sim.cur]
        state['faults'] = False
        core.sim.plan.update(start={}, kill={}, chan={}, manager={}, mandie={})
        got['again'] = op(par).outcome('again')

    def second():
        got['b'] = op({'tasks': 2, 'task_type': threading.Thread}, other).outcome('b')
    fns = [('t0', caller)]
    plan = sc['plan']
    if sc['second']:
        fns.append(('t1', second))
        plan = {k: v for k, v in plan.items() if k != 'start'}      # numbers of starts are shared
    s = run.simulate(fns, plan=plan)
    fired = sorted(s.faults)
    if fired and not sc['fail']:
        run.probe('system faults only')
    a = got['a']
    run.note(sc['way'], sc['shape'], sc['fail'], plan, fired, '->', str(a)[:300], 'again', str(got['again'])[:150])
    system = bool(s.faults)
    if a[0] == 'err':
        if not jsons_error(a[1]):
            raise engine.Violation('foreign error', f'{a[1]} {a[2]} escapes instead of an error of the library ({fired})')
        if expected[0] == 'ok' and not system:
            raise engine.Violation('needless error', f'{a} although nothing fails')
        run.probe('raised')
    else:
        if expected[0] == 'err':
            raise engine.Violation('partial', f'an element fails ({expected[1]}: {expected[2]}), but the call returns {a[1]}')
        if a[1] != expected[1]:
            raise engine.Violation('partial', f'the call returns {a[1]} instead of {expected[1]} ({fired})')
        run.probe('returned the full result')
    if got['live']:
        raise engine.Violation('live task', f'still running when the call ended ({a[:3]}): {got["live"]}')
    if got['again'][:2] != clean[:2]:
        raise engine.Violation('retry', f'after the faults stopped: {got["again"]} instead of {clean}')
    if sc['second'] and got['b'][:2] != other_exp[:2]:
        raise engine.Violation('other call', f'{got["b"]} instead of {other_exp}')


def simplify(sc):
    if sc['second']:
        yield dict(sc, second=False)
    for k in sc['fail']:
        yield dict(sc, fail={a: b for a, b in sc['fail'].items() if a != k})
    for k in sc['slow']:
        yield dict(sc, slow={a: b for a, b in sc['slow'].items() if a != k})
    for k in sc['plan']:
        yield dict(sc, plan={a: b for a, b in sc['plan'].items() if a != k})
        for i in sc['plan'][k]:
            yield dict(sc, plan=dict(sc['plan'], **{k: {a: b for a, b in sc['plan'][k].items() if a != i}}))
    if sc['n'] > 1:
        yield dict(sc, n=sc['n'] - 1)
    if sc['tasks'] > 2:
        yield dict(sc, tasks=sc['tasks'] - 1)
    base = 'list' if sc['way'] == 'load' else 'tuple'
    if sc['shape'] != base:
        yield dict(sc, shape=base)
    if sc['warn']:
        yield dict(sc, warn=False)
