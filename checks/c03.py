"""C03: concurrent and re-entrant calls do not influence each other."""
import engine
import ops
import twins
import universe as U
from canon import canon, diff

ID = 'C03'
LEVEL = 'exploration'
COUNTS = {'quick': 6500, 'thorough': 60000}
RULE = ('A run: 2-4 threads with 1-3 random operations each (dump*/load*/transform/JsonSerializable/decorated '
        'functions, valid and invalid data, options, forks, re-entrant callbacks, nested parallel loads), after a '
        'random history of 0-4 operations; every line (or instruction) of the library is a possible preemption.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks of the workload (real code, yield inside)']
STUB = ['thread scheduler (seeded, one thread at a time)', 'threading.Lock/RLock/Thread, time.sleep']
ASSUMPTIONS = ['a single line (or byte code instruction) of Python is atomic, as under the GIL',
               'code outside of /repo/jsons (standard library, typish) runs without preemption']


GROUPS = [[['union', ['int'], ['word']], ['union', ['word'], ['int']]],
          [['cls', 'IntStr'], ['cls', 'StrInt'], ['union', ['int'], ['word']], ['union', ['word'], ['int']],
           ['opt', ['int']], ['dict', ['str'], ['union', ['int'], ['word']]]],
          [['cls', 'Base'], ['cls', 'Derived'], ['cls', 'Other'], ['cls', 'Holder'], ['cls', 'Wide'],
           ['list', ['cls', 'Base']]],
          [['cls', 'Cfg'], ['cls', 'Late'], ['cls', 'Acct'], ['cls', 'Box'], ['cls', 'Slim']],
          [['tuple', ['int'], ['str']], ['vtuple', ['int']], ['tuple', ['str'], ['int']], ['jtuple']],
          [['cls', 'Pick'], ['union', ['cls', 'Pt'], ['cls', 'Base']], ['union', ['cls', 'Base'], ['cls', 'Pt']],
           ['opt', ['cls', 'Pt']], ['opt', ['cls', 'Lap']]],
          [['dict', ['str'], ['int']], ['dict', ['int'], ['str']], ['dict', ['cls', 'Key'], ['int']],
           ['mapping', ['str'], ['cls', 'Pt']], ['defaultdict', ['str'], ['list', ['int']]], ['cls', 'Keyed']],
          [['set', ['int']], ['frozenset', ['int']], ['deque', ['int']], ['list', ['int']], ['vtuple', ['int']]],
          [['enum', 'Color'], ['enum', 'Rank'], ['enum', 'Suit'], ['dict', ['enum', 'Color'], ['int']]]]


def pooled_op(r, pool):
    """An operation on one of a few types, with random options."""
    op = {'k': r.choice(['dump', 'load', 'dump', 'loads', 'load']), 's': r.choice(pool), 'v': r.randrange(1 << 30), 'n': 2}
    op['o'] = dict(r.choice(ops.DUMP_OPTS if op['k'] == 'dump' else ops.LOAD_OPTS))
    if op['k'] == 'dump' and r.random() < 0.5:
        op['cls'] = True
    if op['k'] != 'dump' and r.random() < 0.2:
        op['bad'] = r.randrange(1 << 30)
    ops.fix(op)
    return op


FLAGS = {'dump': [('strict', [True]), ('strip_nulls', [True]), ('strip_privates', [True]), ('strip_properties', [True]),
                  ('strip_class_variables', [True]), ('strip_attr', ['x', ['name', 'y'], ['x']]), ('strip_microseconds', [True]),
                  ('key_transformer', ['camel', 'pascal', 'lisp']), ('fork_inst', ['A', 'B']), ('verbose', ['yes', 'cls']),
                  ('use_enum_name', [False])],
         'load': [('strict', [True]), ('key_transformer', ['snake', 'hooked']), ('fork_inst', ['A', 'B', 'C']), ('warn_on_fail', [True]),
                  ('getters', [['x', 'extra'], ['name', 'lap_no', 'code']]), ('use_enum_name', [False])]}


def neighbours(r, pool):
    """Operations that differ from each other in a single option (or in nothing but their values)."""
    kind = r.choice(['dump', 'dump', 'load'])
    base = {'k': kind, 's': r.choice(pool), 'v': r.randrange(1 << 30), 'n': 2}
    o = {}
    for n, vs in r.sample(FLAGS[kind], r.choice([0, 1, 1, 2, 3])):
        o[n] = r.choice(vs)
    if kind == 'dump' and r.random() < 0.7:
        base['cls'] = True
        if r.random() < 0.8:
            o['strict'] = True
    ops.fix(base)
    flips = r.sample(FLAGS[kind], r.choice([1, 1, 2]))
    swap = None
    if kind == 'dump' and r.random() < 0.4:
        # The same number of options, but other ones.
        flips, swap = [], r.sample(FLAGS[kind][1:6], 2)

    def new():
        op = dict(base, o=dict(o))
        for (n, vs), take in zip(swap or [], r.choice([[1, 0], [0, 1], [0, 1], [1, 0], [1, 1]])):
            op['o'].pop(n, None)
            if take:
                op['o'][n] = r.choice(vs)
        for n, vs in flips:
            if r.random() < 0.5:
                if n in o:
                    del op['o'][n]
                else:
                    op['o'][n] = r.choice(vs)
        if r.random() < 0.3:
            op['v'] = r.randrange(1 << 30)
            ops.fix(op)
        return op
    return new


def generate(r, seed, tier):
    nt = r.choice([1, 2, 2, 2, 3, 3, 4])
    prof = r.random()
    sched = {}
    many = [1, 1, 2, 3]
    if prof < 0.18:
        def new():
            return ops.gen_op(r)
    elif prof < 0.25:
        fam = r.choice([None, 'mod', 'local', 'sub', 'same', 'local'])

        def new():
            return twins.gen_op(r, fam)
    elif prof < 0.38:
        pool = r.choice([[['cls', c]] for c in ('Acct', 'Acct', '_Hid', 'Person', 'Race', 'Outer', 'Att', 'Cfg', 'Wide', 'Leafs')]
                        + [[U.schema(r, 2)]])
        new = neighbours(r, pool)
        nt = r.choice([1, 1, 2, 2])
        many = [2, 3, 4, 6, 9]
    elif prof < 0.55:
        # The same decorated function, method, ... with other values.
        same = {'k': ''}
        if r.random() < 0.75:
            same = {'k': 'deco', 'f': r.choice(ops.DECOS if r.random() < 0.3 else ['tiny', 'tinyd'])}
        while same['k'] not in ('deco', 'js', 'transform', 'fussy', 'baddump'):
            same = ops.gen_op(r)
        nt = r.choice([2, 2, 3])
        if r.random() < 0.8:
            sched = {'sched': engine.window_cfg(r)}

        def new():
            return dict(same, v=r.randrange(1 << 30))
    elif prof < 0.77:
        pool = r.choice(GROUPS + [GROUPS[0], GROUPS[1], GROUPS[3], GROUPS[3]])
        pool = r.sample(pool, min(len(pool), r.choice([1, 2, 2, 3])))
        if r.random() < 0.5:
            sched = {'sched': engine.window_cfg(r)}
        if r.random() < 0.3:
            # Not List[Union[str, int]]: to the typing module it is List[Union[int, str]].
            pool = [['list', s] for s in pool if s != ['union', ['word'], ['int']]] + pool

        def new():
            return pooled_op(r, pool)
    else:
        pool = [U.schema(r, 2) for _ in range(r.choice([1, 1, 2]))]

        def new():
            return pooled_op(r, pool)
    if prof >= 0.55 and r.random() < 0.3:
        # All calls use the same feature.
        do, lo = r.choice([{'verbose': 'yes'}, {'verbose': 'yes'}, {'verbose': 'cls'}, r.choice(ops.DUMP_OPTS)]), r.choice(ops.LOAD_OPTS)
        plain = new
        nt = max(nt, 2)
        if r.random() < 0.6:
            sched = {'sched': engine.window_cfg(r)}

        def new():
            op = plain()
            if op['k'][0] in 'dl':
                op['o'] = dict(do if op['k'] == 'dump' else lo)
                ops.fix(op)
            return op
    sc = {'threads': [[new() for _ in range(r.choice(many))] for _ in range(nt)],
          'history': [new() for _ in range(r.choice([0, 0, 1, 2, 4]))], 'nested': [], **sched}
    if nt == 1 or r.random() < 0.35:
        # From inside the n-th callback of an operation another one is called.
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(nt)
            j = r.randrange(len(sc['threads'][i]))
            if r.random() < 0.7:
                op = sc['threads'][i][j]
                if op['k'] in ('dump', 'load'):
                    op['o'] = dict(op.get('o') or {}, key_transformer='hooked')
            sc['nested'].append([i, j, r.choice([1, 1, 2, 3, 5]), new()])
    return sc


def run(run):
    import jsons
    world = ops.World(jsons)
    sc = run.sc
    threads = [[world.build(o) for o in t] for t in sc['threads']]
    history = [world.build(o) for o in sc['history']]
    nested = [(i, j, n, world.build(o)) for i, j, n, o in sc['nested']
              if i < len(threads) and j < len(threads[i])]
    expected, calls = {}, {}

    def alone(key, op):
        expected[key] = engine.solo(lambda: op.outcome('solo'), 'none')[0]
        calls[key] = op
        judge(op, expected[key], 'alone')
    for i, t in enumerate(threads):
        for j, op in enumerate(t):
            alone(f'{i}.{j}', op)
    got = {}

    def inner(key, op):
        def call():
            got[key] = op.outcome(key)
            run.probe('re-entrant call')
        return call
    for i, j, n, op in nested:
        key = f'{i}.{j}'
        if key in world.nested:
            continue
        alone(key + ' in', op)
        world.nested[key] = [n, inner(key + ' in', op)]
    if history:
        engine.serial(lambda: [op.outcome('history') for op in history])

    def worker(i):
        def main():
            for j, op in enumerate(threads[i]):
                got[f'{i}.{j}'] = op.outcome(f'{i}.{j}')
        return main
    run.simulate([(f't{i}', worker(i)) for i in range(len(threads))])
    for k, exp in expected.items():
        op = calls[k]
        if k not in got and k.endswith(' in'):
            continue                    # the operation has no n-th callback
        run.note(f'call {k}', op.spec, '->', str(got.get(k))[:200])
        if got.get(k) != exp:
            raise engine.Violation('differs', f'operation {k} {op.spec}: alone in a fresh process: {str(exp)[:400]}; '
                                   f'here: {str(got.get(k))[:400]} ({diff(exp, got.get(k))})')
        if got[k][0] == 'ok':
            judge(op, got[k], 'concurrently')
    if nested and any(k.endswith(' in') for k in got):
        run.stats['nontrivial'] = True


def judge(op, outcome, how):
    """The result must be what the reference model says."""
    m = ops.model(op.spec)
    if m is None:
        return
    if outcome[0] != 'ok':
        raise engine.Violation('model', f'{op.spec} ({how}) fails: {outcome}')
    if how == 'alone':
        return
    if m[0] == 'val':
        c = canon(op.result)
        if c != m[1]:
            raise engine.Violation('model', f'{op.spec} ({how}): {diff(m[1], c)}')
        return
    res, text = op.result, False
    if op.spec['k'] != 'dump':
        import json
        res, text = json.loads(res), True
    d = U.match(m[1], res, text)
    if d:
        raise engine.Violation('model', f'{op.spec} ({how}): {d}')


def simplify(sc):
    ts = sc['threads']
    for n in engine.drop_each(sc['nested']):
        yield dict(sc, nested=n)
    for h in engine.drop_each(sc['history']):
        yield dict(sc, history=h)
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j, op in enumerate(t):
            for o in ops.simpler(op):
                yield dict(sc, threads=ts[:i] + [t[:j] + [o] + t[j + 1:]] + ts[i + 1:])
