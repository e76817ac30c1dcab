"""C13: nothing is returned that its validator in force rejects."""
import json
import multiprocessing
import threading
from collections import Counter

import core
import engine
import ops
import tree
import universe as U
from canon import canon, diff

ID = 'C13'
LEVEL = 'exploration'
COUNTS = {'quick': 4000, 'thorough': 120000}
RULE = ('A run: validators (and some deserializers) for random types (classes, subclasses, named tuples, primitives, '
        'containers, keys) in a random tree of forks; 1-3 threads with 1-3 loads of random documents each (nested '
        'containers, unions, hashed keys, threads and simulated processes as tasks, warn_on_fail, strict), some from '
        'inside callbacks of others; validators reject by value or at their k-th invocation, by returning something '
        'falsy or raising anything; another thread may replace validators meanwhile. The history of verdicts is '
        'checked against the returned values, and every outcome against a reference model.')
REAL = ['all of /repo/jsons', 'typish', 'user validators, deserializers and classes']
STUB = ['thread scheduler', 'threading.Thread and locks', 'multiprocessing.Process and Manager (simulated tasks with '
        'copies and pickling channels)']
ASSUMPTIONS = ['the verdict of a validator on a value is taken at the moment it is called']
VALID = ['It', 'It', 'It', 'Al', 'Two', 'Pr', 'Bg', 'Nt', 'Ky', 'Sub', 'Sl', 'Lt', 'int', 'str', 'dec', 'dt', 'kind', 'list',
         'dict', 'tuple', 'set', 'Ho', 'At', 'Kd', 'Pp',
         'none', 'none']


def policy(r, accept=False):
    if accept:
        return {'yes': r.choice(list(tree.YES))}
    p = {'no': r.choice(list(tree.NO) if r.random() < 0.7 else ['false', 'value']), 'yes': r.choice(list(tree.YES))}
    if r.random() < 0.75:
        p.update(salt=r.randrange(1 << 20), mod=r.choice([2, 3, 6, 15, 40]))
    else:
        p['nth'] = sorted(r.sample(range(1, 9), r.choice([1, 1, 2])))
    return p


def gen_regs(r, forks, kinds, n):
    """Registrations in an order in which some forks are made before and some after them."""
    regs, made = [], ['G']
    pend = list(forks[1:])
    for i in range(n):
        while pend and r.random() < 0.4:
            f = pend.pop(0)
            regs.append(['fork', f, r.choice(made)])
            made.append(f)
        regs.append([r.choice(kinds), None, r.choice(made)])
    for f in pend:
        regs.append(['fork', f, r.choice(made)])
        made.append(f)
    return regs


def generate(r, seed, tier):
    forks = ['G', 'F', 'H'][:r.choice([1, 2, 2, 3])]
    regs = gen_regs(r, forks, ['val', 'val', 'val', 'val', 'des'], r.choice([1, 2, 3, 4, 6]))
    accept = r.random() < 0.15
    focus = r.sample(VALID, 6)
    for g in regs:
        if g[0] == 'val':
            g[1] = r.choice(focus)
            g += ['leaf', policy(r, accept or r.random() < 0.25)]
        elif g[0] == 'des':
            g[1] = r.choice(['It', 'Al', 'Two', 'Ky', 'dec', 'dt', 'kind', 'Pr', 'Bg', 'It'])
            g += ['leaf' if g[1] not in ('Pr', 'Bg') else 'deleg', None]
    nt = r.choice([1, 1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        t = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if t and r.random() < 0.3:
                t.append(dict(r.choice(t)))         # the same document once more
            else:
                t.append(gen_load(r, forks))
        threads.append(t)
    sc = {'regs': regs, 'threads': threads, 'swaps': [], 'nested': []}
    if r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2, 3])):
            sc['swaps'].append(gen_swap(r, regs, focus))
    if r.random() < 0.3:
        # From inside a callback: perhaps a validator is replaced, then something is loaded.
        i = r.randrange(nt)
        j = r.randrange(len(threads[i]))
        swap = gen_swap(r, regs, focus) if r.random() < 0.6 else None
        spec = dict(r.choice(threads[i])) if r.random() < 0.5 else gen_load(r, forks)
        sc['nested'].append([i, j, r.choice([1, 1, 2, 4, 7]), spec, swap])
    return sc


def gen_swap(r, regs, focus):
    g = r.choice([g for g in regs if g[0] == 'val'] or [['val', 'It', 'G']])
    return ['val', g[1] if r.random() < 0.8 else r.choice(focus), g[2], 'leaf', policy(r, r.random() < 0.3)]


def gen_load(r, forks):
    strict = r.random() < 0.2
    s = tree.schema(r, r.choice([0, 1, 1, 2, 2, 3]), strict)
    op = {'s': s, 'v': r.randrange(1 << 30), 'fork': r.choice(forks), 'way': r.choice(['load', 'load', 'load', 'loads', 'loadb']), 'o': {}}
    if strict:
        op['o']['strict'] = True
    if r.random() < 0.4:
        op['tasks'] = [r.choice([2, 2, 3, 5, 9]), r.choice(['thread', 'thread', 'process'])]
    if s[0] in ('list', 'set', 'fset', 'deque') and r.random() < 0.35:
        op['o']['warn_on_fail'] = True
    return op


class Load:
    """A load of the workload."""

    def __init__(self, world, spec, base):
        import random
        self.spec, self.world = spec, world
        s = self.s = spec['s']
        self.value = tree.Gen(random.Random(spec['v']), base)(s)
        self.doc = tree.doc(s, self.value)
        kw = dict(spec['o'], **world.fork_kw(spec['fork']))
        if spec.get('tasks'):
            kw['tasks'] = spec['tasks'][0]
            kw['task_type'] = {'thread': threading.Thread, 'process': multiprocessing.Process}[spec['tasks'][1]]
        d, t, lib = self.doc, tree.hint(s), world.lib
        if spec['way'] != 'load':
            d = json.dumps(d)
            if spec['way'] == 'loadb':
                d = d.encode()
        self.fn = lambda: getattr(lib, spec['way'])(d, t, **kw)
        self.op = ops.Op(spec, self.fn, [])

    def call(self, key):
        w = self.world
        t0 = w.tick()
        out = self.op.outcome(key)
        return out, getattr(self.op, 'result', None) if out[0] == 'ok' else None, t0, w.tick()


def setup(run, sc):
    import jsons
    world = tree.World(jsons, run)
    now = [0]

    def tick():
        now[0] += 1
        return now[0]
    world.tick = tick
    world.hist = {}
    for g in sc['regs']:
        if g[0] == 'fork':
            world.fork(g[1], g[2])
        elif g[2] in world.forks:
            world.register(g[0], g[1], g[2], g[3], g[4])
    for f, tab in world.reg.tab.items():
        for (kind, name), label in tab.items():
            if kind == 'val':
                world.hist[(f, name)] = [[label, 0, 0]]
    return world


def run(run):
    sc = run.sc
    world = setup(run, sc)
    base = [0]

    def load(spec, again=()):
        for l in again:
            if l.spec == spec:
                return l
        base[0] += 1000
        return Load(world, spec, base[0])
    threads = []
    for t in sc['threads']:
        ls = []
        for spec in t:
            l = load(spec, ls)
            # The same document, not the same call.
            if l in ls:
                m = Load.__new__(Load)
                m.__dict__.update(l.__dict__, op=ops.Op(spec, l.fn, []))
                l = m
            ls.append(l)
        threads.append(ls)
    keys = {f'{i}.{j}': l for i, t in enumerate(threads) for j, l in enumerate(t)}
    got = {}
    swapped = {g[2] for g in sc['swaps']}

    def replace(g, n):
        if g[2] in world.forks:
            label = f'swap {g[1]} {g[2]} {n}'
            h = [label, world.tick(), 1 << 60]
            world.hist.setdefault((g[2], g[1]), []).append(h)
            world.register('val', g[1], g[2], g[3], g[4], label=label)
            h[2] = world.tick()
            run.probe('validator replaced')
    for i, j, n, spec, swap in sc['nested']:
        if swap:
            swapped.add(swap[2])
        key = f'{i}.{j}'
        if key in keys and key not in world.nested:
            l = load(spec)
            keys[key + ' in'] = l

            def inner(key=key, l=l, swap=swap):
                if swap:
                    replace(swap, 'in ' + key)
                got[key + ' in'] = l.call(key + ' in')
                run.probe('re-entrant call')
            world.nested[key] = [n, inner]
    expected = {}
    for k, l in keys.items():
        m = tree.Model(world, l.spec['fork'], bool(l.spec['o'].get('strict')))
        try:
            v = m.load(l.s, l.doc, warn=bool(l.spec['o'].get('warn_on_fail')))
            expected[k] = ('ok', canon(v), m.events)
        except tree.Fail as e:
            expected[k] = ('err', e.args[0], m.events)

    def worker(i):
        def main():
            for j, l in enumerate(threads[i]):
                got[f'{i}.{j}'] = l.call(f'{i}.{j}')
        return main
    fns = [(f't{i}', worker(i)) for i in range(len(threads))]
    if sc['swaps']:
        fns.append(('reg', lambda: [replace(g, n) for n, g in enumerate(sc['swaps'])]))
    run.simulate(fns, cap=3_000_000)
    for k, l in keys.items():
        if k in got:
            judge(run, world, k, l, got[k], expected[k], l.spec['fork'] in swapped)


def in_force(world, fork, name, t0, t1):
    """(labels that may be in force between t0 and t1, whether one certainly is all the time)"""
    h = world.hist.get((fork, name), [])
    out = []
    for i, (label, a, b) in enumerate(h):
        if a <= t1 and not (i + 1 < len(h) and h[i + 1][2] < t0):
            out.append(label)
    return out, bool(h) and h[0][2] <= t0


def judge(run, world, k, l, got, exp, swapped):
    out, result, t0, t1 = got
    spec, fork = l.spec, l.spec['fork']
    vals = [e for e in world.events.get(k, []) if e[0] == 'val']
    neg = [e for e in vals if not e[3]]
    run.note(f'load {k}', spec, '->', str(out)[:200], f'{len(vals)} verdicts, {len(neg)} negative')
    what = f'load {k} {spec}'
    force = {}
    for (f, name) in world.hist:
        if f == fork:
            force[name] = in_force(world, f, name, t0, t1)
    allowed = {x for ls, _ in force.values() for x in ls}
    for e in vals:
        if e[1] not in allowed:
            raise engine.Violation('foreign validator', f'{what}: {e[1]} is asked about {e[2]}, although it is not in force in fork '
                                   f'{fork} ({sorted(allowed)})')
    if out[0] == 'ok':
        pos = Counter((e[1].split()[1], e[2]) for e in vals if e[3])
        for name, x in tree.Model(world, fork).walk(l.s, result):
            own = force.get(name, ([], False))
            if not own[0] and name in tree.PARENT:
                name = tree.PARENT[name]
                own = force.get(name, ([], False))
            if not own[1]:
                continue
            c = canon(x)
            key = (name, c)
            if name in tree.PARENT and not pos[key]:
                key = (tree.PARENT[name], c)
            pos[key] -= 1
            if pos[key] < 0:
                said = [e[3] for e in vals if e[2] == c]
                raise engine.Violation('unvalidated', f'{what} returns {c}, an element of type {name}, which its validator '
                                       f'({own[0]}) did not accept (verdicts: {said})')
    if not neg:
        if out[0] != 'ok':
            raise engine.Violation('needless', f'{what} fails although no validator rejects anything: {out}')
        c = canon(result)
        if exp[0] == 'ok' and not swapped and c != exp[1]:
            raise engine.Violation('value', f'{what}: {diff(exp[1], c)}')
    quits = any(world.verdicts[e[1]].get('no') == 'quit' for e in neg)
    if out[0] != 'ok' and not quits and out[1] not in ('ValidationError', 'DeserializationError'):
        raise engine.Violation('error', f'{what}: {out}')
    pure = not swapped and not any(world.verdicts[x].get('nth') for x in allowed)
    # In which order keys and values are loaded is not specified.
    anyorder = any(x in str(l.s) for x in ('dict', "'Kd'", "'Bg'"))
    # And an exception that is not an Exception ends a task only.
    if not pure or ((anyorder or spec.get('tasks')) and any(world.verdicts[x].get('no') == 'quit' for x in allowed)):
        return
    run.probe('exact outcome known')
    if exp[0] == 'ok':
        if out[0] != 'ok':
            raise engine.Violation('outcome', f'{what} fails: {out}; expected {exp[1]}')
        c = canon(result)
        if c != exp[1]:
            raise engine.Violation('outcome', f'{what}: {diff(exp[1], c)}')
        # (What else of an element that is dropped is validated depends on the order of its keys.)
        want = Counter((e[1], e[2]) for e in exp[2] if e[0] == 'val') if not neg else Counter()
        miss = want - Counter((e[1], e[2]) for e in vals)
        if miss:
            raise engine.Violation('not offered', f'{what}: never offered to their validator: {list(miss.items())[:3]}')
    else:
        if out[0] == 'ok':
            raise engine.Violation('outcome', f'{what} returns {out[1]}, but a validator rejects a part of it')
        want = {'val': 'ValidationError', 'des': 'DeserializationError'}.get(exp[1])
        if want and out[1] != want and not anyorder:
            raise engine.Violation('error', f'{what}: {out}; expected a {want}')


def simplify(sc):
    for n in engine.drop_each(sc['nested']):
        yield dict(sc, nested=n)
    for n in engine.drop_each(sc['swaps']):
        yield dict(sc, swaps=n)
    ts = sc['threads']
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    for n in engine.drop_each(sc['regs']):
        yield dict(sc, regs=n)
    for i, t in enumerate(ts):
        for j, op in enumerate(t):
            for o in simpler(op):
                yield dict(sc, threads=ts[:i] + [t[:j] + [o] + t[j + 1:]] + ts[i + 1:])


def simpler(op):
    if op.get('tasks'):
        yield {k: v for k, v in op.items() if k != 'tasks'}
        yield dict(op, tasks=[2, op['tasks'][1]])
    for k in op['o']:
        yield dict(op, o={a: b for a, b in op['o'].items() if a != k})
    if op['way'] not in ('load', 'dump'):
        yield dict(op, way='load' if op['way'].startswith('load') else 'dump')
    for x in op['s'][1:]:
        if isinstance(x, list) and x != ['c', 'None']:
            yield dict(op, s=x)
    if op['fork'] != 'G':
        yield dict(op, fork='G')
