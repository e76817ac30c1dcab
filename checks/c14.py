"""C14: user callbacks run exactly once per value they apply to, in the caller's context."""
import json
import multiprocessing
import random
import threading
from collections import Counter, deque
from dataclasses import dataclass
from decimal import Decimal
from typing import List

import core
import engine
import ops
import tree
import c13
import universe as U
from canon import canon, diff

ID = 'C14'
LEVEL = 'exploration'
COUNTS = {'quick': 6000, 'thorough': 120000}
RULE = ('A run: serializers, deserializers (some of which call the default ones) and validators for random types in a '
        'random tree of forks; 1-3 threads with 1-3 operations each (dump*, load*, transform, decorated functions, '
        'JsonSerializable methods) on random values, with tasks, getters, options and operations inside callbacks. '
        'Every call of a serializer, deserializer, validator, constructor, property, getter and decorated body is '
        'recorded with its value and context, and compared with what the reference model demands.')
REAL = ['all of /repo/jsons', 'typish', 'all user callbacks and classes']
STUB = ['thread scheduler', 'threading.Thread and locks', 'multiprocessing.Process and Manager (simulated tasks with '
        'copies and pickling channels)']
ASSUMPTIONS = ['failed alternatives of a union are attempts: what they call before they fail is part of the expected history']


def same_key(k):
    """A key transformer that changes none of the keys of the workload."""
    U.hook('kt')
    return 'TWO' if k == 'two_words' else k


def generate(r, seed, tier):
    forks = ['G', 'F', 'H', 'J'][:r.choice([1, 2, 2, 3, 4])]
    regs = c13.gen_regs(r, [f for f in forks if f != 'J'], ['ser', 'des', 'val', 'ser', 'des'], r.choice([1, 2, 3, 5, 8]))
    focus = r.sample(c13.VALID, 8)
    for g in regs:
        if g[0] == 'fork':
            continue
        if g[0] == 'val':
            g[1] = r.choice(focus)
            g += ['leaf', {'yes': r.choice(list(tree.YES))}]
            if r.random() < 0.2:
                g[-1] = {'no': 'false', 'mod': r.choice([2, 4, 12]), 'salt': r.randrange(1 << 20)}
        elif g[0] == 'ser':
            g[1] = r.choice(['It', 'It', 'Sub', 'Al', 'Two', 'Ky', 'dec', 'dt', 'kind', 'int', 'str', 'Pr', 'Bg', 'Kd', 'Ho', 'At',
                             'Pp', 'Sl', 'Lt', 'Nt'])
            g += [r.choice(['leaf', 'deleg']) if g[1] in tree.CLS and g[1] != 'Nt' else 'leaf', None]
        else:
            g[1] = r.choice(['It', 'It', 'Al', 'Two', 'Ky', 'dec', 'dt', 'kind', 'int', 'str', 'Pr', 'Bg', 'Kd', 'Ho', 'At', 'Pp', 'Sl',
                             'Lt', 'Sub'])
            g += [r.choice(['leaf', 'deleg']) if g[1] in tree.FLAT else 'deleg' if g[1] in tree.CLS else 'leaf', None]
    nt = r.choice([1, 1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        t = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if t and r.random() < 0.3:
                t.append(dict(r.choice(t)))
            else:
                t.append(gen_op(r, forks))
        threads.append(t)
    for op in [op for t in threads for op in t if op['o'].get('warn_on_fail')]:
        # Something that is dropped.
        name = classes_in(op['s'])
        if name and r.random() < 0.8:
            regs.append(['val', r.choice(name), op['fork'] if op['fork'] != 'J' else 'G', 'leaf',
                         {'no': 'false', 'mod': r.choice([2, 3, 5]), 'salt': r.randrange(1 << 20)}])
    sc = {'regs': regs, 'threads': threads, 'nested': [], 'js': 'J' in forks}
    if r.random() < 0.25:
        i = r.randrange(nt)
        sc['nested'].append([i, r.randrange(len(threads[i])), r.choice([1, 1, 2, 4, 7]), gen_op(r, forks)])
    return sc


def classes_in(s):
    """The classes in a schema."""
    return [s[1]] if s[0] == 'c' else [n for x in s[1:] for n in classes_in(x)]


def gen_op(r, forks):
    k = r.choice(['dump', 'dump', 'dump', 'load', 'load', 'load', 'getters', 'transform', 'deco', 'js'])
    if k == 'js' and 'J' not in forks:
        k = 'load'
    strict = r.random() < 0.2 and k != 'deco'
    s = tree.schema(r, r.choice([0, 1, 1, 2, 2, 3]), strict)
    op = {'k': k, 's': s, 'v': r.randrange(1 << 30), 'fork': r.choice(forks), 'o': {}, 'way': ''}
    if r.random() < 0.4:
        op['tasks'] = [r.choice([2, 2, 3, 5, 9]), r.choice(['thread', 'thread', 'process'])]
    if strict:
        op['o']['strict'] = True
    if r.random() < 0.3:
        op['o']['flavour'] = 'sweet'
    if r.random() < 0.2:
        op['o']['key_transformer'] = 'same'
    if k in ('dump', 'transform', 'deco', 'js'):
        if r.random() < 0.15:
            op['o']['strip_nulls'] = True
        if r.random() < 0.1:
            op['o']['strip_properties'] = True
        if r.random() < 0.1:
            op['o']['strip_privates'] = True
    if k == 'dump':
        op['way'] = r.choice(['dump', 'dump', 'dumps', 'dumpb'])
        op['cls'] = r.random() < 0.35
    elif k == 'load':
        op['way'] = r.choice(['load', 'load', 'loads', 'loadb'])
        if s[0] == 'list' and r.random() < 0.3 and 'kdict' not in str(s) and 'Kd' not in classes_in(s):
            # (What a dropped element calls before it fails depends on the order, which no one promises for hashed keys.)
            op['o']['warn_on_fail'] = True
            if not (s[1][0] == 'c' and s[1][1] in tree.FLAT + ('Pr',)):
                op.pop('tasks', None)       # (nor for elements of elements at the same time)
    elif k == 'getters':
        c = r.choice(['It', 'Two', 'Pr', 'Bg', 'At', 'Pr', 'Ho'])
        fs = list(tree.FIELDS[c])
        op['s'] = r.choice([['c', c], ['list', ['c', c]], ['dict', ['c', c]], ['vtuple', ['c', c]], ['opt', ['c', c]]])
        op['c'] = c
        op['get'] = sorted(r.sample(fs, r.randrange(1, len(fs) + 1)))
        op['absent'] = sorted(a for a in op['get'] if r.random() < 0.7)
        op['o'].pop('strict', None)
    elif k == 'transform':
        op['fork2'] = r.choice(forks)
        op['mapper'] = r.random() < 0.5
        for o in ('strip_nulls', 'strip_privates'):
            op['o'].pop(o, None)
        op['o']['strip_properties'] = True
        op.pop('tasks', None)
    elif k == 'deco':
        op['s2'] = tree.schema(r, 1)
        op['way'] = r.choice(['loaded', 'loaded', 'dumped'])
        op['ret'] = r.random() < 0.4
        if op['way'] == 'loaded':
            for o in ('strip_nulls', 'strip_properties', 'strip_privates'):
                op['o'].pop(o, None)
    elif k == 'js':
        op['s'], op['fork'] = ['c', 'Jn'], 'J'
        op['way'] = r.choice(['dump', 'dumps', 'dumpb', 'json', 'load', 'loads', 'loadb', 'from_json'])
        if op['way'][0] in 'lf':
            for o in ('strip_nulls', 'strip_properties', 'strip_privates'):
                op['o'].pop(o, None)
        if op['way'] == 'json':
            op['o'] = {}
            op.pop('tasks', None)
    return op


class Call:
    """An operation of the workload: how to call it, and what it must do."""

    def __init__(self, world, spec, base):
        self.spec, self.world, self.base = spec, world, base
        lib = world.lib
        s, k = spec['s'], spec['k']
        gen = tree.Gen(random.Random(spec['v']), base)
        o = dict(spec['o'])
        if o.get('key_transformer'):
            o['key_transformer'] = same_key
        par = {}
        if spec.get('tasks'):
            par = {'tasks': spec['tasks'][0],
                   'task_type': {'thread': threading.Thread, 'process': multiprocessing.Process}[spec['tasks'][1]]}
        kw = {**o, **world.fork_kw(spec['fork']), **par}
        self.opts = o
        self.tag = None
        self.context = {}
        strip = tuple(x for x in o if x.startswith('strip'))
        m = self.model = tree.Model(world, spec['fork'], bool(o.get('strict')))
        t = tree.hint(s)
        self.want = self.most = None

        def expect(f):
            """f() is the expected result, or tree.Fail."""
            try:
                self.want = ('ok', f())
            except tree.Fail as e:
                self.want = ('err', e)
                if tree.straight(s) and tree.straight(spec.get('s2', s)) and 'warn_on_fail' not in o:
                    # every value is met at most once, also by a call that fails
                    m.events.clear()
                    m.accept = True
                    try:
                        f()
                        self.most = Counter(m.events)
                    except tree.Fail:
                        pass
        if k == 'dump' or k == 'js' and spec['way'][0] in 'dj':
            v = gen(s, True)
            self.context = {'ser': (spec['fork'], o)}
            way = spec['way']
            if k == 'js':
                self.fn = {'json': lambda: v.json}.get(way) or (lambda: getattr(v, way)(**dict(o, **par)))
            elif spec['cls']:
                self.fn = lambda: getattr(lib, way)(v, cls=t, **kw)
            else:
                self.fn = lambda: getattr(lib, way)(v, **kw)
            expect(lambda: m.dump(s, v, bool(spec.get('cls')), strip))
            text = way in ('dumps', 'dumpb')
            self.same = lambda want, got: tree.same_doc(s, want, json.loads(got) if text else got)
        elif k in ('load', 'js'):
            self.v = gen(s)
            d = tree.doc(s, self.v)
            self.context = {'des': (spec['fork'], {a: b for a, b in o.items() if a != 'warn_on_fail'})}
            way = spec['way']
            x = json.dumps(d) if way in ('loads', 'loadb') else d
            x = x.encode() if way == 'loadb' else x
            if k == 'js':
                self.fn = lambda: getattr(world.js, way)(x, **dict(o, **par))
            else:
                self.fn = lambda: getattr(lib, way)(x, t, **kw)
            warn = bool(o.get('warn_on_fail'))
            expect(lambda: m.load(s, d, warn=warn))
            self.same = lambda want, got: canon(want) == canon(got)
        elif k == 'getters':
            d = tree.doc(s, gen(s))
            for x in d if s[0] in ('list', 'vtuple') else list(d.values()) if s[0] == 'dict' else [d]:
                for a in spec['absent']:
                    if x is not None:
                        x.pop(a, None)
            getters, models = {}, {}
            for a in spec['get']:
                val = gen(tree.FIELDS[spec['c']][a])

                def getter(a=a, val=val):
                    U.hook('getter')
                    world.event('getter', a, val)
                    return val

                def mod(mm, a=a, val=val):
                    mm.add('getter', a, val)
                    return val
                getters[a], models[a] = getter, mod
            self.context = {'des': (spec['fork'], o)}
            self.fn = lambda: lib.load(d, t, attr_getters=getters, **kw)
            expect(lambda: m.load(s, d, getters=models))
            self.same = lambda want, got: canon(want) == canon(got)
        elif k == 'transform':
            v = gen(s, True)
            m2 = tree.Model(world, spec['fork2'], m.strict)
            self.context = {'ser': (spec['fork2'], o), 'des': (spec['fork'], {a: b for a, b in o.items() if a != 'strip_properties'})}

            def mapper(d):
                U.hook('mapper')
                world.event('mapper', '', 0)
                return d
            more = {'mapper': mapper} if spec['mapper'] else {}
            dk = dict(o, **world.fork_kw(spec['fork2']))
            self.fn = lambda: lib.transform(v, t, dump_kwargs=dk, **more, **{a: b for a, b in kw.items() if a != 'strip_properties'})

            def both():
                d = m2.dump(s, v, False, strip)
                m.events += m2.events
                m2.events.clear()
                if spec['mapper']:
                    m.add('mapper', '', 0)
                return m.load(s, document(d))
            expect(both)
            self.same = lambda want, got: canon(want) == canon(got)
        else:
            self.deco(lib, world, spec, gen, o, kw, strip, expect)

    def deco(self, lib, world, spec, gen, o, kw, strip, expect):
        import jsons.decorators as dec
        m = self.model
        ss = [spec['s'], spec['s2']]
        dump = spec['way'] == 'dumped'
        vs = [gen(s, dump) for s in ss]
        ret = gen(ss[0], dump)
        self.context = {'ser' if dump else 'des': (spec['fork'], o)}
        args = vs if dump else [tree.doc(s, v) for s, v in zip(ss, vs)]

        def fn(a, b):
            U.hook('body')
            world.event('body', '', 0)
            self.seen = (a, b)
            return ret if dump else tree.doc(ss[0], ret)
        fn.__annotations__ = {'a': tree.hint(ss[0]), 'b': tree.hint(ss[1]), 'return': tree.hint(ss[0])}
        f = getattr(dec, spec['way'])(returnvalue=spec['ret'], **kw)(fn)

        def call():
            out = f(*args)
            return (*self.seen, out)
        self.fn = call

        def both():
            out = []
            for s, x in zip(ss, args):
                out.append(m.dump(s, x, True, strip) if dump else m.load(s, x))
            m.add('body', '', 0)
            r = ret if dump else tree.doc(ss[0], ret)
            if spec['ret']:
                r = m.dump(ss[0], ret, True, strip) if dump else m.load(ss[0], r)
            return (*out, r)
        expect(both)

        def same(want, got):
            last = tree.same_doc if dump and spec['ret'] else lambda s, a, b: canon(a) == canon(b)
            one = tree.same_doc if dump else lambda s, a, b: canon(a) == canon(b)
            return all(one(None, a, b) for a, b in zip(want[:2], got[:2])) and last(None, want[2], got[2])
        self.same = same

    def call(self, key):
        for kind, (fork, o) in self.context.items():
            self.world.context[(key, kind)] = (fork, o)
        op = ops.Op(self.spec, self.fn, [])
        out = op.outcome(key)
        return out, op.result if out[0] == 'ok' else None


def document(d):
    """A document that the model describes, as the library could have written it."""
    if isinstance(d, tuple):
        keys, values = d[1:]
        if not keys:
            return {}
        return {'-keys': {str(i): document(k) for i, k in enumerate(keys)}, **{str(i): document(v) for i, v in enumerate(values)}}
    if isinstance(d, dict):
        return {k: document(v) for k, v in d.items()}
    if isinstance(d, list):
        return [document(x) for x in d]
    return d


def setup(run, sc):
    import jsons
    world = tree.World(jsons, run)
    for g in sc['regs']:
        if g[0] == 'fork':
            world.fork(g[1], g[2])
        elif g[2] in world.forks:
            world.register(g[0], g[1], g[2], g[3], g[4])
    if sc.get('js'):
        import sys
        base = jsons.JsonSerializable.fork('JBase')

        @dataclass
        class Jn(base):
            items: List[tree.It]
            q: Decimal
            sub: tree.Al

            def __post_init__(self):
                tree.made(self)
        Jn.__module__, Jn.__qualname__ = 'c14', 'Jn'
        sys.modules['c14'].Jn = Jn
        tree.CLS['Jn'] = tree.TYPE['Jn'] = world.js = Jn
        tree.FIELDS['Jn'] = {'items': ['list', ['c', 'It']], 'q': tree.DEC, 'sub': ['c', 'Al']}
        world.forks['J'] = Jn
        world.reg.fork('J', 'G')
        world.forks['JBase'] = base
        for kind, name in (('ser', 'It'), ('des', 'It'), ('val', 'Al'), ('ser', 'dec')):
            if run.sc['seed'] % 3:
                world.forks['J'] = base
                world.register(kind, name, 'J', 'leaf', {'yes': 'true'})
        world.forks['J'] = Jn
    return world


def run(run):
    sc = run.sc
    world = setup(run, sc)
    base = [0]

    def make(spec):
        base[0] += 10000
        return Call(world, spec, base[0])
    threads = [[make(spec) for spec in t] for t in sc['threads']]
    keys = {f'{i}.{j}': c for i, t in enumerate(threads) for j, c in enumerate(t)}
    got = {}
    for i, j, n, spec in sc['nested']:
        key = f'{i}.{j}'
        if key in keys and key not in world.nested:
            c = keys[key + ' in'] = make(spec)

            def inner(key=key, c=c):
                got[key + ' in'] = c.call(key + ' in')
                run.probe('re-entrant call')
            world.nested[key] = [n, inner]
    world.events.clear()

    def worker(i):
        def main():
            for j, c in enumerate(threads[i]):
                got[f'{i}.{j}'] = c.call(f'{i}.{j}')
        return main
    run.simulate([(f't{i}', worker(i)) for i in range(len(threads))], cap=3_000_000)
    for k, c in keys.items():
        if k in got:
            judge(run, world, k, c, *got[k])
    if world.wrong:
        op, label, what, given, want = world.wrong[0]
        raise engine.Violation('context', f'{keys[op].spec}: {label} is called with {what}={given}; expected {want}')


def judge(run, world, k, c, out, result):
    spec = c.spec
    evs = Counter((e[0], e[1], e[2]) for e in world.events.get(k, []))
    run.note(f'call {k}', spec, '->', str(out)[:200], f'{sum(evs.values())} callbacks')
    what = f'call {k} {spec}'
    if c.want[0] == 'err':
        if out[0] == 'ok':
            raise engine.Violation('outcome', f'{what} returns {out[1]}, but a validator rejects a part of it')
        run.probe('failing call')
        more = evs - c.most if c.most is not None else None
        if more:
            raise engine.Violation('repeated', f'{what} fails, but calls too often: {list(more.items())[:3]}')
        return
    if out[0] != 'ok':
        raise engine.Violation('outcome', f'{what} fails: {out}')
    if not c.same(c.want[1], result):
        raise engine.Violation('outcome', f'{what}: got {str(canon(result))[:500]} instead of {str(c.want[1])[:500]}')
    want = Counter(c.model.events)
    run.stats['probes']['callbacks checked'] = run.stats['probes'].get('callbacks checked', 0) + sum(want.values())
    if evs != want:
        more, less = evs - want, want - evs
        kind = 'repeated' if more and all(want[e] for e in more) and not less else 'skipped' if less and not more else 'misdirected'
        raise engine.Violation(kind, f'{what}: too often: {list(more.items())[:3]}; too seldom: {list(less.items())[:3]}')


def simplify(sc):
    for n in engine.drop_each(sc['nested']):
        yield dict(sc, nested=n)
    ts = sc['threads']
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    for n in engine.drop_each(sc['regs']):
        yield dict(sc, regs=n)
    for i, t in enumerate(ts):
        for j, op in enumerate(t):
            for o in simpler(op):
                yield dict(sc, threads=ts[:i] + [t[:j] + [o] + t[j + 1:]] + ts[i + 1:])


def simpler(op):
    for o in c13.simpler(dict(op, way='load')) if op['k'] in ('dump', 'load') else ():
        yield dict(o, way=op['way'])
    if op.get('tasks'):
        yield {k: v for k, v in op.items() if k != 'tasks'}
    for k in op['o']:
        yield dict(op, o={a: b for a, b in op['o'].items() if a != k})
