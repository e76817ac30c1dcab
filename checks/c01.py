"""C01: parallel processing returns exactly the sequential result."""
import json
import multiprocessing
import random
import threading
import time
from collections import deque
from dataclasses import dataclass
from typing import List

import core
import engine
import ops
import universe as U
from canon import canon, diff

ID = 'C01'
LEVEL = 'exploration'
COUNTS = {'quick': 6000, 'thorough': 50000}
RULE = ('A run: 1-2 caller threads load or dump a collection (list, tuple, set, frozenset, deque, nested, inside '
        'dicts and objects, 0-9 elements, valid or not, any options and fork) with 1-12 tasks, as threads or '
        'processes, under a random schedule of callers and workers.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['scheduler', 'threading.Thread and locks', 'multiprocessing.Process (a simulated task on copies of its '
        'arguments) and Manager (every message pickled)']
ASSUMPTIONS = ['a worker process shares nothing but its channels with its parent; the copies of its arguments '
               'are made by copy.deepcopy (functions and classes are shared, as after a fork)']


@dataclass
class Tick:
    n: int


FLAT = [['int'], ['str'], ['dt'], ['cls', 'Pt'], ['decimal'], ['enum', 'Color'], ['float'], ['none'],
        ['uuid'], ['opt', ['cls', 'Pt']], ['cls', 'Lap']]

STRIPS = [('strip_nulls', [True]), ('strip_privates', [True]), ('strip_properties', [True]), ('strip_class_variables', [True]),
          ('strip_attr', ['x', ['name', 'y'], ['pub']]), ('strip_microseconds', [True]), ('use_enum_name', [False]),
          ('key_transformer', ['camel', 'pascal', 'lisp']), ('fork_inst', ['A', 'B']), ('verbose', ['yes', 'cls'])]


def gen_call(r):
    how = r.choice(['load', 'load', 'load', 'loads', 'loadb', 'dump', 'dump', 'dumps', 'tick', 'tick'])
    tasks = r.choice([2, 2, 3, 3, 4, 5, 7, 12])
    kind = r.choice(['thread', 'thread', 'process'])
    v = r.randrange(1 << 30)
    n = r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 9])
    if how == 'tick':
        if r.random() < 0.15:
            n, tasks = r.choice([13, 17, 24, 40]), r.choice([2, 3, 5, 12, 16, 23, 45])
        return {'k': 'tick', 'way': r.choice(['load', 'dump']), 'n': n, 'slow': r.randrange(n) if n and r.random() < 0.2 else None, 'v': v, 'tasks': tasks, 'task_type': kind,
                'col': r.choice(['tuple', 'deque', 'dq']), 'warn': r.random() < 0.2}
    elem = r.choice(FLAT) if r.random() < 0.45 else U.schema(r, 2)
    flat = elem in FLAT
    if r.random() < 0.3:
        elem = r.choice([['list', elem], ['vtuple', elem], ['dict', ['str'], ['list', elem]], ['tuple', elem, elem]])
        flat = False
    if how[0] == 'l':
        s = [r.choice(['list', 'list', 'list', 'deque']), elem]
        o = dict(r.choice(ops.LOAD_OPTS))
    else:
        s = [r.choice(['vtuple', 'vtuple', 'deque', 'list']), elem]
        o = dict(r.choice(ops.DUMP_OPTS))
    if r.random() < 0.12:
        s = r.choice([['dict', ['str'], s], ['opt', s], ['list', s], ['vtuple', s]])
        flat = False
    op = {'k': how, 's': s, 'v': v, 'n': n if flat else min(n, 4), 'o': o}
    if how == 'dump' and r.random() < 0.3:
        op['cls'] = True
        if r.random() < 0.4:
            op.update(s=[r.choice(['vtuple', 'deque']), r.choice([['cls', 'Base'], ['opt', ['cls', 'Base']], elem])],
                      poly=True, o={'strict': True})
            flat = False
    if how[:4] == 'dump' and r.random() < 0.12:
        # Several options at once, in lists of typed objects.
        o = {'strict': True} if r.random() < 0.75 else {}
        for name, vs in r.sample(STRIPS, r.choice([1, 1, 2, 3])):
            o[name] = r.choice(vs)
        e = ['cls', r.choice(['_Hid', '_Hid', 'Acct', 'Acct', 'Cfg', 'Wide', 'Race', 'Person'])]
        op = {'k': 'dump', 's': [r.choice(['vtuple', 'vtuple', 'deque', 'list']), r.choice([e, e, ['opt', e], ['list', e]])],
              'v': v, 'n': min(n, 6), 'o': o}
        if r.random() < 0.8:
            op['cls'] = True
        flat = False
    if how[0] == 'l' and r.random() < 0.2:
        op['bad'] = r.randrange(1 << 30)
    if how[0] == 'l' and r.random() < 0.1:
        e = ['cls', r.choice(['Race', 'Race', 'Lap', 'Person'])]
        op.update(s=['list', r.choice([e, e, ['list', e], ['opt', e], ['tuple', e, ['int']]])], n=min(n, 4),
                  rename=r.choice(['camel', 'pascal', 'lisp']), o={'key_transformer': 'snake'})
        flat = False
    if how[0] == 'l' and r.random() < 0.06:
        op = {'k': how, 's': [r.choice(['list', 'list', 'deque']), ['cls', 'Base']], 'v': v, 'n': min(n, 5), 'o': dict(r.choice(ops.LOAD_OPTS)),
              'poly': True, 'meta': True}
        flat = False
    ops.fix(op)
    op.update(tasks=tasks, task_type=kind, flat=flat and op['s'] == s)
    return op


def generate(r, seed, tier):
    return {'calls': [gen_call(r) for _ in range(r.choice([1, 1, 1, 2, 2]))]}


KIND = {'thread': threading.Thread, 'process': multiprocessing.Process}


def build(world, op, fork, seen):
    """(parallel call, sequential call)."""
    if op['k'] != 'tick':
        par = dict(op, o=dict(op['o'], tasks=op['tasks'], task_type=op['task_type']))
        return world.build(par), world.build(op)
    lib = world.lib
    r = random.Random(op['v'])
    nums = [r.randrange(1000) * 10 + i for i in range(op['n'])]
    kw = {'fork_inst': fork}
    par = {'tasks': op['tasks'], 'task_type': KIND[op['task_type']]}
    if op['way'] == 'load':
        if op['warn']:
            kw['warn_on_fail'] = True
        doc = [{'n': n} for n in nums]
        t = {'deque': List[Tick], 'tuple': List[Tick], 'dq': U.Deque[Tick]}[op['col']]
        return (ops.Op(op, lambda: lib.load(doc, t, **kw, **par), [doc]),
                ops.Op(op, lambda: lib.load(doc, t, **kw), [doc]))
    val = {'tuple': tuple, 'deque': deque, 'dq': deque}[op['col']](Tick(n) for n in nums)
    return (ops.Op(op, lambda: lib.dump(val, **kw, **par), [val]),
            ops.Op(op, lambda: lib.dump(val, **kw), [val]))


def shape(out, threads):
    """The comparable part of an outcome."""
    if out[0] == 'err':
        return ('err', out[1], out[2])
    return ('ok', out[1], tuple(sorted(out[2])) if threads else ())


def loose(x):
    """An outcome up to the order of sets (a set may come out of a pickle in another order)."""
    if isinstance(x, tuple) and len(x) == 2 and x[0] in ('str', 'bytes'):
        try:
            return loose(json.loads(x[1]))
        except ValueError:
            return x
    if isinstance(x, (tuple, list)):
        return sorted((loose(e) for e in x), key=repr)
    if isinstance(x, dict):
        return sorted(([k, loose(v)] for k, v in x.items()), key=repr)
    return x


def has_sets(s, seen=()):
    if s[0] in ('set', 'frozenset'):
        return True
    if s[0] == 'cls':
        return s[1] not in seen and any(has_sets(x, (*seen, s[1])) for x in U.DECL.get(s[1], {}).values())
    return any(has_sets(x, seen) for x in s[1:] if isinstance(x, list))


def run(run):
    import jsons
    world = ops.World(jsons)
    fork = jsons.fork(name='Ticks')
    seen = {}

    slow = {}
    for i, op in enumerate(run.sc['calls']):
        if op.get('slow') is not None and op['n']:
            r = random.Random(op['v'])
            slow[[r.randrange(1000) * 10 + j for j in range(op['n'])][op['slow'] % op['n']]] = 100.0

    def saw(what, n):
        if n in slow and what != 'val':
            run.mark(f'slow {n}', 'slow element')
            time.sleep(slow[n])
        k = core.sim.cur.op if core.sim is not None and core.sim.cur is not None else None
        seen.setdefault(k, []).append((what, n))

    def ser(o, **kw):
        U.hook('ser Tick')
        saw('ser', o.n)
        return {'n': o.n}

    def des(o, cls, **kw):
        U.hook('des Tick')
        saw('des', o['n'])
        return Tick(o['n'])

    def val(o):
        U.hook('val Tick')
        saw('val', o.n)
        return True
    jsons.set_serializer(ser, Tick, fork_inst=fork)
    jsons.set_deserializer(des, Tick, fork_inst=fork)
    jsons.set_validator(val, Tick, fork_inst=fork)
    pairs = [build(world, op, fork, seen) for op in run.sc['calls']]
    expected = [engine.solo(lambda: b.outcome('solo'), 'none')[0] for a, b in pairs]
    got = {}

    def caller(i):
        def main():
            n0 = len(core.sim.started)
            got[i] = pairs[i][0].outcome(i)
            mine = [t for t in core.sim.started[n0:] if t.op == i]
            got[i, 'tasks'] = [t.kind for t in mine]
            got[i, 'live'] = [t.name for t in mine if t.alive]
        return main
    s = run.simulate([(f't{i}', caller(i)) for i in range(len(pairs))])
    for i, op in enumerate(run.sc['calls']):
        th = op['task_type'] == 'thread'
        kinds = got[i, 'tasks']
        run.note(op, '->', str(got[i])[:200], kinds)
        if kinds:
            run.probe(f'parallel {op["k"]} ({op["task_type"]})')
        exp = expected[i]
        equal = shape(got[i], th) == shape(exp, th)
        if not equal and not th and op['k'][0] == 'd' and has_sets(op['s']):
            equal = loose(shape(got[i], th)) == loose(shape(exp, th))
        if not equal:
            raise engine.Violation('differs', f'{op}: with one task: {str(exp)[:500]}; with {op["tasks"]} {op["task_type"]} '
                                   f'tasks: {str(got[i])[:500]} ({diff(shape(exp, th), shape(got[i], th))})')
        if got[i][0] == 'err' and not jsons_error(got[i][1]):
            raise engine.Violation('foreign error', f'{op}: {got[i]}')
        if set(kinds) - {op['task_type']}:
            raise engine.Violation('task kind', f'{op}: started {kinds}')
        if op.get('flat') or op['k'] == 'tick':
            if len(kinds) > op['tasks']:
                raise engine.Violation('too many tasks', f'{op}: started {len(kinds)} tasks')
        if got[i, 'live']:
            raise engine.Violation('live task', f'{op}: still running at return: {got[i, "live"]}')
        if op['k'] == 'tick':
            r = random.Random(op['v'])
            nums = sorted(r.randrange(1000) * 10 + j for j in range(op['n']))
            for what in (['des', 'val'] if op['way'] == 'load' else ['ser']):
                calls = sorted(n for w, n in seen.get(i, []) if w == what)
                if calls != nums:
                    raise engine.Violation('not once', f'{op}: {what} was called for {calls} instead of {nums}')
        judge(op, pairs[i][0], got[i])


def jsons_error(name):
    import jsons.exceptions as e
    t = getattr(e, name, None)
    return isinstance(t, type) and issubclass(t, e.JsonsError)


def judge(op, par, out):
    m = ops.model(op)
    if m is None or op['k'] == 'tick':
        return
    if out[0] != 'ok':
        raise engine.Violation('model', f'{op}: {out}')
    if m[0] == 'val':
        c = canon(par.result)
        d = '' if c == m[1] else diff(m[1], c)
    else:
        text = op['k'] != 'dump'
        d = U.match(m[1], json.loads(par.result) if text else par.result, text)
    if d:
        raise engine.Violation('model', f'{op}: {d}')


def simplify(sc):
    cs = sc['calls']
    if len(cs) > 1:
        for c in engine.drop_each(cs):
            yield dict(sc, calls=c)
    for i, op in enumerate(cs):
        for o in ops.simpler(op):
            yield dict(sc, calls=cs[:i] + [o] + cs[i + 1:])
        if op.get('slow') is not None:
            yield dict(sc, calls=cs[:i] + [dict(op, slow=None)] + cs[i + 1:])
        if op['tasks'] > 2:
            yield dict(sc, calls=cs[:i] + [dict(op, tasks=op['tasks'] - 1)] + cs[i + 1:])
