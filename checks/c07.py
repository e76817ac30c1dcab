"""C07: inputs are never modified, so they can be shared and retried."""
import json
import random
from collections import OrderedDict
from dataclasses import dataclass
from typing import Any, Dict, List, Optional, Union

import core
import engine
import c03
import c06
import ops
import universe as U
from canon import canon, diff

ID = 'C07'
LEVEL = 'exploration'
COUNTS = {'quick': 2500, 'thorough': 80000}
RULE = ('A run: 1-3 random operations (loads of documents with class information, hashed keys and shared parts, into '
        'unions, with getters and JSON options; dumps of objects, also with serializers that return parts of the '
        'object; transforms; decorated functions; valid and invalid data), each called several times, one after the '
        'other and from 1-3 threads at the same time on the very same inputs, sometimes interrupted. The inputs are '
        'compared with a description made beforehand at every preemption and after every call; every call that is not '
        'interrupted must give what it gives alone.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['thread scheduler', 'threading.Lock/RLock/Thread', 'delivery of asynchronous exceptions']
ASSUMPTIONS = ['user code of the workload does not modify what it is given']


@dataclass
class Blob:
    """Its serializer returns a part of the object itself."""
    payload: dict


@dataclass
class Parcel:
    blob: Blob
    opt: Optional[Blob]
    extra: Any
    raw: dict
    tags: list


@dataclass
class Many:
    keyed: Dict[U.Key, U.Pt]
    by: Dict[str, Union[int, U.Pt, str]]
    pts: List[Union[U.Lap, U.Pt]]


class Deep:
    def __init__(self, a: U.Pt, b: 'Deep' = None):
        self.a, self.b = a, b


SPECIAL = ['parcel', 'parcel', 'hashed', 'hashed', 'union', 'meta', 'meta', 'types', 'jd', 'getters', 'getters']


def special(r):
    k = r.choice(SPECIAL)
    v = r.randrange(1 << 30)
    op = {'k': k, 'v': v}
    if k == 'parcel':
        op['o'] = r.choice([{'verbose': 'yes'}, {'verbose': 'yes'}, {'verbose': 'yes', 'strict': True}, {},
                            {'strip_nulls': True}, {'verbose': 'yes', 'key_transformer': 'hooked'},
                            {'strip_attr': ['x', 'q', 'none']}])
        op['list'] = r.random() < 0.4
    elif k in ('hashed', 'union'):
        op['t'] = r.randrange(6)
        op['bad'] = r.random() < 0.3
        op['o'] = r.choice([{}, {}, {'strict': True}, {'key_transformer': 'hooked'}])
    elif k == 'meta':
        op['t'] = r.choice(['Person', 'Race', 'Derived', 'Holder', 'Other', 'Acct', 'Late'])
        op['hint'] = r.random() < 0.5
        op['bad'] = r.random() < 0.25
        op['o'] = r.choice([{}, {}, {'strict': True}, {'key_transformer': 'hooked'}])
    elif k == 'jd':
        op['w'] = r.choice(['dumps', 'dumpb', 'loads', 'loadb'])
    return op


def build(world, lib, op):
    r = random.Random(op['v'])
    k = op['k']
    kw = world.kwargs(op.get('o') or {})
    if k == 'parcel':
        def blob():
            return Blob({'a': U.gen_json(r), 'b': {'c': U.gen_int(r)}})
        v = Parcel(blob(), r.choice([None, blob()]), r.choice([1, {'x': {'y': 1}}, [1, {'z': 2}], blob()]),
                   {'k': {'m': 'n'}, 'w': U.gen_json(r)}, [1, 'x', {'q': 1}])
        if op['list']:
            v = [v, {'p': v}, v]
        return ops.Op(op, lambda: lib.dump(v, **kw), [v, kw])
    if k == 'hashed':
        key = U.plain(U.ref(['cls', 'Key'], U.Key(1, 'x')))
        pt = {'x': 1, 'y': 2}
        d = {'-keys': {'77': key, '78': {'a': 2, 'b': 'y'}}, '77': pt, '78': {'x': 5} if op['bad'] else pt}
        many = {'keyed': d, 'by': {'a': 1, 'b': pt, 'c': 'text'}, 'pts': [pt, {'lap_no': 1, 'split_ms': 1.5}, pt]}
        d, t = [(d, Dict[U.Key, U.Pt]), (many, Many), ([many, many], List[Many]), (d, Union[Dict[U.Key, U.Lap], Dict[U.Key, U.Pt]]),
                ({'m': many, 'n': many}, Dict[str, Many]), (many, Union[int, U.Pt, Many])][op['t']]
        return ops.Op(op, lambda: lib.load(d, t, **kw), [d, kw])
    if k == 'union':
        key = {'a': r.randrange(9), 'b': 'k'}
        d = {'-keys': {'5': key}, '5': r.choice([3, 'x', {'x': 1, 'y': 2}])}
        t = [Union[Dict[U.Key, int], Dict[U.Key, str], Dict[U.Key, U.Pt]],
             Optional[Dict[U.Key, Union[int, U.Pt]]],
             List[Union[Dict[U.Key, int], Dict[U.Key, U.Pt]]],
             Dict[str, Union[Dict[U.Key, U.Lap], Dict[U.Key, str], int]],
             Union[U.Pt, U.Lap, Dict[U.Key, U.Pt], Dict[U.Key, int]],
             Union[List[U.Pt], Dict[U.Key, Any]]][op['t']]
        if op['t'] == 2:
            d = [d, d]
        elif op['t'] == 3:
            d = {'q': d, 'r': 5}
        if op['bad']:
            d = {'x': d}
        return ops.Op(op, lambda: lib.load(d, t, **kw), [d, kw])
    if k == 'meta':
        t = U.CLS[op['t']]
        d = U.plain(U.ref(['cls', op['t']], U.gen(['cls', op['t']], r, 2)))
        d = json.loads(json.dumps(d))
        if op['bad']:
            d = ops.spoil(d, r)
        if isinstance(d, dict):
            d['-meta'] = {'classes': {'/': f'{t.__module__}.{t.__qualname__}'}}
            for a, s in U.DECL[op['t']].items():
                if s[0] == 'cls':
                    d['-meta']['classes']['/' + a] = f'{U.CLS[s[1]].__module__}.{s[1]}'
        return ops.Op(op, lambda: lib.load(d, t if op['hint'] else None, **kw), [d, kw])
    if k == 'types':
        d = {'p': U.Derived(U.gen(['uuid'], r), U.Color.RED), 'q': U.Pt(1, 2), 'r': None}
        types = {'p': U.Base, 'q': U.Pt}
        return ops.Op(op, lambda: lib.dump(d, types=types, strict=True), [d, types])
    if k == 'jd':
        v = U.gen(['cls', 'Race'], r, 2)
        doc = json.dumps(U.plain(U.ref(['cls', 'Race'], v)))
        jd = {'dumps': {'indent': 1, 'sort_keys': True}, 'dumpb': {'separators': [',', ':']}, 'loads': {'strict': False},
              'loadb': {'parse_int': int}}[op['w']]
        f = {'dumps': lambda: lib.dumps(v, jd), 'dumpb': lambda: lib.dumpb(v, jdkwargs=jd),
             'loads': lambda: lib.loads(doc, U.Race, jd), 'loadb': lambda: lib.loadb(doc.encode(), U.Race, jdkwargs=jd)}[op['w']]
        return ops.Op(op, f, [v, jd])
    if k == 'getters':
        n = r.randrange(1, 4)
        g = {'y': lambda: 5, 'x': lambda: (U.hook('getter'), 1)[1]}
        if n == 2:
            del g['x']
        docs = [{'x': 3}, {'x': 1, 'y': 2}, {}][:n]
        t = List[U.Pt]
        if r.random() < 0.3:
            docs, t = {'k': docs[0]}, Dict[str, U.Pt]
        elif r.random() < 0.3:
            docs, t = docs, List[Union[U.Lap, U.Pt]]
        kw = {'attr_getters': g}
        if r.random() < 0.3:
            kw['tasks'] = 2
            kw['task_type'] = __import__('threading').Thread
        return ops.Op(op, lambda: lib.load(docs, t, **kw), [docs, kw])
    return world.build(op)


class Pinned:
    """A source of randomness of which the first random() is given: picks the kind of operation."""

    def __init__(self, r, first):
        self.r, self.given = r, [first]

    def random(self):
        return self.given.pop() if self.given else self.r.random()

    def __getattr__(self, name):
        return getattr(self.r, name)


def generate(r, seed, tier):
    base = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        c = r.random()
        if c < 0.5:
            base.append(special(r))
        elif c < 0.58:
            base.append(ops.gen_op(Pinned(r, 0.65)))
        elif c < 0.8:
            base.append(ops.gen_op(r))
        else:
            base.append(c03.pooled_op(r, r.choice(c03.GROUPS)))
        if base[-1]['k'] in ('load', 'dump') and r.random() < 0.3:
            base[-1]['share'] = True
    nt = r.choice([1, 2, 2, 3])
    sc = {'base': base, 'threads': [[r.randrange(len(base)) for _ in range(r.choice([1, 2, 2]))] for _ in range(nt)],
          'hits': {}, 'exc': r.choice(list(c06.EXCS))}
    if r.random() < 0.3:
        t = r.randrange(nt)
        sc['hits'] = {f'{t}.0': round(r.random(), 4)}
    return sc


def shared(x, depth=0):
    """The same document, with equal parts being one object."""
    seen = {}

    def walk(y):
        if type(y) is list:
            y = [walk(z) for z in y]
        elif type(y) is dict:
            y = {k: walk(z) for k, z in y.items()}
        else:
            return y
        return seen.setdefault(repr(canon(y, order=True)), y)
    return walk(x)


def run(run):
    import jsons
    sc = run.sc
    world = ops.World(jsons)

    def ser_blob(o, **kw):
        U.hook('ser Blob')
        return o.payload
    jsons.set_serializer(ser_blob, Blob)
    base = []
    for o in sc['base']:
        if o.get('share') and o['k'] == 'load':
            d, t, kw = shared(ops.document(o)), U.hint(o['s']), world.kwargs(o.get('o') or {})
            base.append(ops.Op(o, lambda d=d, t=t, kw=kw: jsons.load(d, t, **kw), [d, kw]))
        else:
            base.append(build(world, jsons, o))

    def snap(op):
        return canon(op.inputs, order=True, exact_dt=True)
    before = [snap(op) for op in base]
    expected = []
    for op in base:
        expected.append(engine.solo(lambda: op.outcome('solo'), 'none')[0])
    points = {}
    for k in sc['hits']:
        i = sc['threads'][int(k.split('.')[0])][0] if int(k.split('.')[0]) < len(sc['threads']) else 0
        points[k] = engine.solo(lambda: base[i].outcome('solo'), 'instr')[2]
    looks = [0]

    def check(when, which=None):
        for i, op in enumerate(base):
            if which is not None and i != which:
                continue
            now = snap(op)
            if now != before[i]:
                raise engine.Violation('input modified', f'{when}: the input of {op.spec} changed: {diff(before[i], now)}')

    bad = []

    def inv(cur):
        if looks[0] < 150 and not bad:
            looks[0] += 1
            try:
                check('while calls are in flight')
            except engine.Violation as v:
                bad.append(v)
    got = {}

    def worker(ti):
        def main():
            t = core.sim.cur
            for j, i in enumerate(sc['threads'][ti]):
                key = f'{ti}.{j}'
                hit = sc['hits'].get(key)
                if hit is not None:
                    t.intr_at = t.m + 1 + int(hit * points[key])
                    t.intr_exc, t.fired = c06.EXCS[sc['exc']]('interrupt'), False
                try:
                    op = ops.Op(base[i].spec, base[i].fn, base[i].inputs)
                    res = op.outcome(key)
                finally:
                    t.intr_at = -1
                if hit is None or not t.fired:
                    got[key] = (i, res)
                t.fired = False
        return main
    s = run.simulate([(f't{i}', worker(i)) for i in range(len(sc['threads']))], inv=inv, gran='instr' if sc['hits'] else None,
                     cap=2_000_000)
    for site in s.intr_sites:
        run.note('interrupted at', site)
    if bad:
        raise bad[0]
    check('after the calls')
    retry = []
    engine.serial(lambda: retry.extend(op.outcome('retry') for op in base), 'none')
    check('after calling again')
    for i, res in enumerate(retry):
        got[f'retry {i}'] = (i, res)
    for key, (i, res) in got.items():
        run.note(key, base[i].spec, '->', str(res)[:200])
        if res != expected[i]:
            raise engine.Violation('differs', f'call {key} of {base[i].spec}: at first {str(expected[i])[:400]}, here '
                                   f'{str(res)[:400]} ({diff(expected[i], res)})')
    run.stats['nontrivial'] = True


def simplify(sc):
    ts = sc['threads']
    if sc['hits']:
        yield dict(sc, hits={})
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t, hits={})
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    if len(sc['base']) > 1:
        for i in range(len(sc['base'])):
            yield dict(sc, base=[sc['base'][i]], threads=[[0] * len(t) for t in ts])
    for i, op in enumerate(sc['base']):
        for o in ops.simpler(op):
            yield dict(sc, base=sc['base'][:i] + [o] + sc['base'][i + 1:])
