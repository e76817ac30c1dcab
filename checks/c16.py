"""C16: the library keeps nothing of what its calls processed."""
import collections
import datetime as dtm
import gc
import sys
import threading
import types
import weakref
from dataclasses import make_dataclass
from typing import List

import core
import engine
import c03
import c06
import c07
import ops
import universe as U

ID = 'C16'
LEVEL = 'exploration'
COUNTS = {'quick': 2500, 'thorough': 60000}
RULE = ('A run: 1-3 threads with random operations (dumps, loads, transforms, decorated functions, JsonSerializable; valid and '
        'invalid data; options, forks, tasks; operations inside callbacks), some of which fail or are interrupted at random '
        'points. When no call is in progress any more (after an interruption: after the next call), the number of references '
        'to every object that was given to a call must be what it was before, and no object that a call created, no exception '
        'and no frame of the library may be alive.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks', 'reference counts and garbage collector of CPython']
STUB = ['thread scheduler', 'threading.Lock/RLock/Thread', 'delivery of asynchronous exceptions']
ASSUMPTIONS = ['classes are not counted (dumped classes are announced for good, by design)',
               'immortal objects and interned strings are not counted']
IMMORTAL = 1 << 28


def generate(r, seed, tier):
    pool = r.choice(c03.GROUPS) if r.random() < 0.4 else [U.schema(r, 2) for _ in range(2)]

    def new():
        c = r.random()
        if c < 0.2:
            return c07.special(r)
        if c < 0.25:
            return {'k': 'fork', 'v': r.randrange(1 << 30), 'of': r.choice(['', 'A', 'B', 'C', 'J']), 'kids': r.choice([0, 0, 1, 2]),
                    'own': r.choice([0, 0, 1, 2, 3]), 'bad': r.random() < 0.3}
        if c < 0.33:
            return {'k': 'local', 'v': r.randrange(1 << 30), 'bad': r.random() < 0.5, 'slots': r.random() < 0.3, 'kt': r.random() < 0.4,
                    'fork': r.choice(['', '', 'A', 'C']), 'strict': r.random() < 0.3, 'times': r.choice([1, 1, 2])}
        if c < 0.65:
            return ops.gen_op(r)
        if c < 0.8:
            return {'k': 'fussy', 'v': r.randrange(1 << 30), 'o': {}} if c < 0.71 else \
                {'k': 'baddump', 'v': r.randrange(1 << 30), 'o': r.choice([{}, {'strict': True}, {'strip_attr': ['name', 'y']},
                                                                                      {'strip_attr': ['q', 'k', 'z']}])}
        return c03.pooled_op(r, pool)
    nt = r.choice([1, 1, 2, 3])
    threads = []
    for _ in range(nt):
        t = [[new(), None] for _ in range(r.choice([1, 2, 3, 5]))]
        if r.random() < 0.3:
            t.append(list(r.choice(t)))
        threads.append(t)
    sc = {'threads': threads, 'exc': r.choice(list(c06.EXCS)), 'nested': [], 'end': r.choice(['dump', 'load'])}
    if r.random() < 0.4:
        for t in threads:
            for st in t:
                if r.random() < 0.4:
                    st[1] = round(r.random(), 4)
    if r.random() < 0.2:
        i = r.randrange(nt)
        sc['nested'].append([i, r.randrange(len(threads[i])), r.choice([1, 1, 2, 4]), new()])
    return sc


# ------------------------------------------------------------------ counting
PLAIN = (type(None), bool, int, float, type, types.ModuleType, types.BuiltinFunctionType)


def parts(inputs):
    """The objects that the inputs of an operation consist of (each once), but no classes."""
    out, seen, todo = [], set(), list(inputs)
    while todo:
        o = todo.pop()
        if isinstance(o, PLAIN) or id(o) in seen or isinstance(o, type) or type(o).__module__ == 'typing':
            continue
        seen.add(id(o))
        out.append(o)
        if isinstance(o, dict):
            todo += list(o)
            todo += list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            todo += list(o)
        elif isinstance(o, types.FunctionType):
            continue
        else:
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                todo += list(d.values())
            for n in getattr(type(o), '__slots__', ()):
                if isinstance(n, str) and n[:2] != '__':
                    todo.append(getattr(o, n, None))
    return out


def counts(objs):
    sys._clear_type_cache()             # it holds names of attributes
    return [sys.getrefcount(o) for o in objs]


MODULES = ('universe', 'quirks', 'ops', 'c07', 'c03', 'tree')


def made(known):
    """The objects that are alive although no call is in progress."""
    import jsons
    import jsons.exceptions
    out = []
    for o in gc.get_objects():
        t = type(o)
        if isinstance(o, BaseException):
            if isinstance(o, jsons.JsonsError) or t.__module__ in MODULES:
                out.append(o)
        elif t is types.FrameType or t is types.TracebackType:
            f = o if t is types.FrameType else o.tb_frame
            if f.f_code.co_filename.startswith(core.JSONS_DIR):
                out.append(o)
        elif (t in (core.SimThread, core.SimProcess, core.SimManager) or str(t.__module__).partition('.')[0] == 'jsons') and id(o) not in known:
            out.append(o)
        elif t.__module__ in MODULES and id(o) not in known and not isinstance(o, (ops.Op, ops.World, type)):
            out.append(o)
    return out


def forking(world, lib, op, refs):
    """A fork of its own for a call or two."""
    v = op['v'] % 9

    def call():
        U.hook('fork')
        f = lib.fork(fork_inst=world.forks[op['of']] if op['of'] else lib.JsonSerializable, name=f'Own{v}' if v % 2 else None)
        chain = [f]
        for _ in range(op['kids']):
            chain.append(lib.fork(fork_inst=chain[-1]))

        def ser(o, **kw):
            U.hook('ser own')
            if op['bad']:
                raise ops.Custom('no')
            return {'x': o.x, 'y': v}

        def des(o, cls, **kw):
            U.hook('des own')
            return U.Pt(o['x'], v)

        def val(o):
            U.hook('val own')
            return o.x != 3
        refs.extend(map(weakref.ref, [*chain, ser, des, val]))
        if op['own'] & 1:
            lib.set_serializer(ser, U.Pt, fork_inst=f)
        if op['own'] & 2:
            lib.set_deserializer(des, U.Pt, fork_inst=f)
            lib.set_validator(val, U.Pt, fork_inst=chain[-1])
        last = chain[-1]
        out = lib.dump(U.Box([U.Pt(v, 1), U.Pt(2, 3)], 2), fork_inst=last)
        return out, lib.load([{'x': v, 'y': 5}, {'x': 1, 'y': 1}], List[U.Pt], fork_inst=last, tasks=1 + v % 2,
                             task_type=threading.Thread)
    return ops.Op(op, call, [])


def localized(world, lib, op, refs):
    """Classes and functions that exist during the operation only."""
    v = op['v']

    def call():
        U.hook('local')
        if op['slots']:
            class In:
                __slots__ = ('num',)

                def __init__(self, num: int):
                    self.num = num
        else:
            In = make_dataclass('In', [('num', int)])
        Out = make_dataclass('Out', [('one', In), ('two', In), ('when', dtm.datetime)])

        def kt(k):
            U.hook('kt')
            return k

        def getter():
            U.hook('getter')
            if op['bad']:
                raise ops.Custom('no')
            return In(5)
        refs.extend(map(weakref.ref, [In, Out, kt, getter]))
        kw = {'key_transformer': kt} if op['kt'] else {}
        if op['fork']:
            kw['fork_inst'] = world.forks[op['fork']]
        if op['strict']:
            kw['strict'] = True
        d = {'one': {'num': v % 7}, 'two': {'num': 1}, 'when': '2020-01-01T00:00:00Z'}
        if op['bad'] and v % 5 > 1:
            del d['two']
            kw['attr_getters'] = {'two': getter}
        elif op['bad']:
            d[('one', 'two', 'when')[v % 3]] = ('x', 5, {'num': 'x'})[v // 3 % 3]
        elif v % 3 == 0:
            del d['two']
            kw['attr_getters'] = {'two': getter}
        out = None
        for _ in range(op['times']):
            try:
                out = lib.load(d, Out, **kw)
            except (lib.JsonsError, ops.Custom) as e:
                out = None
                engine.clean(str(e))
        return None if out is None else out.one.num
    return ops.Op(op, call, [])


def build(world, lib, op, refs):
    if op['k'] == 'local':
        return localized(world, lib, op, refs)
    return forking(world, lib, op, refs) if op['k'] == 'fork' else c07.build(world, lib, op)


def holders(o, skip):
    """Who holds o, for the report."""
    out = []
    for h in gc.get_referrers(o):
        if id(h) not in skip and type(h) is not types.FrameType:
            out.append(f'{type(h).__name__} {str(h)[:80]}')
    return '; '.join(sorted(out)[:4])


def run(run):
    import jsons
    sc = run.sc
    world = ops.World(jsons)
    keyed, refs = {}, []
    for ti, t in enumerate(sc['threads']):
        for j, (o, f) in enumerate(t):
            keyed[f'{ti}.{j}'] = build(world, jsons, o, refs)
    nested = {}
    for ti, j, n, o in sc['nested']:
        if f'{ti}.{j}' in keyed:
            nested[f'{ti}.{j}'] = [n, build(world, jsons, o, refs)]
    points = {}
    for ti, t in enumerate(sc['threads']):
        for j, (o, f) in enumerate(t):
            if f is not None:
                points[f'{ti}.{j}'] = engine.solo(lambda: keyed[f'{ti}.{j}'].outcome('solo'), 'instr')[2]
    every = list(keyed.items()) + [(f'in {k}', v[1]) for k, v in nested.items()]
    hit = []

    def worker(ti):
        def main():
            t = core.sim.cur
            for j, (o, f) in enumerate(sc['threads'][ti]):
                key = f'{ti}.{j}'
                op = keyed[key]
                if f is not None:
                    t.intr_at = t.m + 1 + int(f * points[key])
                    t.intr_exc, t.fired = c06.EXCS[sc['exc']]('interrupt'), False
                try:
                    res = op.outcome(key)
                finally:
                    t.intr_at, t.intr_exc = -1, None
                    op.result = None
                if t.fired:
                    hit.append(key)
                t.fired = False
                run.note(key, op.spec, '->', str(res)[:150])
        return main

    def inner(op):
        def call():
            op.outcome(None)
            op.result = None
        return call
    for k, (n, op) in nested.items():
        world.nested[k] = [n, inner(op)]
    objs = [(k, parts(op.inputs)) for k, op in every]
    gc.collect()
    known = {id(o) for _, lst in objs for o in lst}
    before = made(known)
    known |= {id(o) for o in before}
    first = [counts(lst) for _, lst in objs]
    s = run.simulate([(f't{i}', worker(i)) for i in range(len(sc['threads']))], gran='instr' if points else None, cap=2_000_000)
    for site in s.intr_sites:
        run.note('interrupted at', site)
    for t in s.tasks:                   # the simulator forgets
        t.fn = t.thread = t.parent = t.intr_exc = t.pred = None
    del s, t
    world.nested.clear()
    if hit:
        run.probe('interrupted')
        if sc['end'] == 'dump':
            jsons.dump(1)
        else:
            jsons.load(1, int)
    engine.warned.clear()
    gc.collect()
    now = [counts(lst) for _, lst in objs]
    late = made(known)
    for (k, lst), a, b in zip(objs, first, now):
        for o, x, y in zip(lst, a, b):
            if y > x and y < IMMORTAL and not (isinstance(o, str) and interned(o)):
                skip = {id(lst), id(objs)}
                raise engine.Violation('retained', f'a {type(o).__name__} given to {dict(every)[k].spec} is still referenced '
                                       f'({y - x} times) after all calls: {engine.clean(str(o))[:120]}; held by {holders(o, skip)}')
    for o in late:
        what = o.f_code.co_qualname if type(o) is types.FrameType else str(o)
        raise engine.Violation('retained', f'a {type(o).__name__} of a call that ended is still alive: {engine.clean(what)[:200]}; held by '
                               f'{holders(o, {id(late)})}')
    for r in refs:
        o = r()
        if o is not None:
            raise engine.Violation('retained', f'{getattr(o, "__qualname__", o)}, which nobody uses any more, is still alive; held by '
                                   f'{holders(o, {id(refs)})}')
    run.stats['nontrivial'] = True


def interned(s):
    """Names are kept by the interpreter (in the cache of attribute look-ups, for example)."""
    return type(s) is str and sys.intern(''.join(list(s))) is s


def simplify(sc):
    ts = sc['threads']
    if sc['nested']:
        yield dict(sc, nested=[])
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t, nested=[])
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:], nested=[])
        for j, (o, f) in enumerate(t):
            if f is not None:
                yield dict(sc, threads=ts[:i] + [t[:j] + [[o, None]] + t[j + 1:]] + ts[i + 1:])
            for o2 in ops.simpler(o):
                yield dict(sc, threads=ts[:i] + [t[:j] + [[o2, f]] + t[j + 1:]] + ts[i + 1:])
