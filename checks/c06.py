"""C06: a call that fails or is interrupted anywhere leaves no trace."""
import asyncio
import random

import alter
import core
import engine
import c03
import c04
import c05
import ops
import universe as U

ID = 'C06'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 2000, 'thorough': 60000}
RULE = ('A run of the first kind: after a random history one or two random operations (all kinds of loads, dumps, '
        'decorated calls, with valid and invalid data, options, forks, parallel) receive an exception at a random point '
        'where CPython may deliver one (sometimes while another thread works); then 2-5 operations (also the very same calls) on the same types '
        'and forks must give what they give in a fresh process. Of the second kind: registrations, announcements, '
        'forks, settings and probes on a tree of forks are interrupted; the probes that follow must fit the '
        'registration done or not done, class by class, and done after it was repeated. Of the third kind: '
        'classes get other properties, hints, variables or constructors between calls that fail or are interrupted; each '
        'other call must see the class as it is.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['thread scheduler', 'threading.Lock/RLock/Thread', 'delivery of asynchronous exceptions (at function entry, '
        'backward jumps and after calls of library code, and in user callbacks)']
ASSUMPTIONS = ['asynchronous exceptions arrive inside the library or user callbacks only, not inside the standard library',
               'an interrupted registration may have taken effect for the class itself and not yet for its subclasses']
EXCS = {'kbd': KeyboardInterrupt, 'exit': SystemExit, 'cancel': asyncio.CancelledError, 'user': ops.UserInterrupt,
        'mem': MemoryError, 'custom': ops.Custom, 'timeout': TimeoutError}


def generate(r, seed, tier):
    exc = r.choice(['kbd', 'kbd', 'exit', 'cancel', 'user', 'user', 'mem', 'custom', 'timeout'])
    c = r.random()
    if c < 0.25:
        return alter.generate(r)
    if c < 0.5:
        sc = c05.generate(r, seed, tier)
        for ph in sc['phases']:
            ph['threads'] = [ph['threads'][0]]
            ph['hits'] = [[i, round(r.random() ** 1.5, 4)] for i in range(len(ph['threads'][0])) if r.random() < 0.5]
        return {'kind': 'tree', 'phases': sc['phases'], 'exc': exc}
    pool = r.choice(c03.GROUPS) if r.random() < 0.4 else [U.schema(r, 2) for _ in range(r.choice([1, 2]))]

    def new():
        return ops.gen_op(r) if r.random() < 0.4 else c03.pooled_op(r, pool)
    victims = [[new(), round(r.random(), 4)] for _ in range(r.choice([1, 1, 2, 3]))]
    for v in victims:
        if r.random() < 0.4 and v[0]['k'] in ('dump', 'load'):
            v[0]['o'] = dict(v[0].get('o') or {}, key_transformer='hooked')
    while len(victims) < 6 and r.random() < 0.4:
        victims.append([dict(r.choice(victims)[0]), round(r.random(), 4)])
    after = [new() for _ in range(r.choice([1, 2, 3]))]
    often = None
    if r.random() < 0.15:
        v = r.randrange(1 << 30)
        op = r.choice([{'k': 'baddump', 'v': v, 'o': r.choice([{}, {'strict': True}, {'strict': True}])},
                       {'k': 'fussy', 'v': v, 'o': {}},
                       {'k': 'load', 's': ['list', ['cls', 'Race']], 'v': v, 'n': 2, 'o': {}, 'bad': v},
                       {'k': 'load', 's': ['list', U.schema(r, 2)], 'v': v, 'n': 2, 'o': {}, 'bad': v},
                       new(), new()])
        often = [op, r.choice([8, 15, 30, 60, 60]), r.random() < 0.4, r.randrange(1 << 30)]
        victims = victims[:2]
    return {'kind': 'ops', 'often': often, 'same': r.random() < 0.6, 'victims': victims, 'again': r.random() < 0.8, 'after': after, 'exc': exc,
            'history': [new() for _ in range(r.choice([0, 0, 1, 2]))],
            'other': [new() for _ in range(r.choice([1, 2]))] if r.random() < 0.25 else []}


def run(run):
    if run.sc['kind'] == 'tree':
        return run_tree(run)
    if run.sc['kind'] == 'alter':
        return alter.run(run, EXCS)
    import jsons
    sc = run.sc
    world = ops.World(jsons)
    victims, made = [], {}
    for o, f in sc['victims']:
        op = made.get(repr(o)) if sc.get('same') else None
        op = made[repr(o)] = op or world.build(o)
        victims.append((ops.Op(o, op.fn, op.inputs), f))
    after = [world.build(o) for o in sc['after']]
    if sc['again']:
        # The calls that were interrupted once more, perhaps with the very same objects.
        after = [ops.Op(v.spec, v.fn, v.inputs) if sc.get('same') else world.build(v.spec) for v, _ in victims] + after
    other = [world.build(o) for o in sc['other']]
    history = [world.build(o) for o in sc['history']]
    if sc.get('often'):
        often = world.build(sc['often'][0])
        after = after + [ops.Op(often.spec, often.fn, often.inputs)]
        many = engine.solo(lambda: often.outcome('solo'), 'instr')[2]
    points = [engine.solo(lambda: v.outcome('solo'), 'instr')[2] for v, _ in victims]
    expected = {}
    for kind, lst in (('after', after), ('other', other)):
        for i, op in enumerate(lst):
            expected[f'{kind}{i}'] = engine.solo(lambda: op.outcome('solo'), 'none')[0]
    got, hit = {}, []

    def main():
        t = core.sim.cur
        for op in history:
            op.outcome('history')
        if sc.get('often'):
            spec, times, hits, salt = sc['often']
            where = random.Random(salt)
            for i in range(times):
                t.fired = False
                if hits:
                    t.intr_at = t.m + 1 + int(where.random() * many)
                    t.intr_exc = EXCS[sc['exc']]('interrupt')
                try:
                    often.outcome('often')
                finally:
                    t.intr_at = -1
            run.probe('many failed calls' + (' interrupted' if hits else ''))
        for i, (v, f) in enumerate(victims):
            t.intr_at = t.m + 1 + int(f * points[i])
            t.intr_exc, t.fired = EXCS[sc['exc']]('interrupt'), False
            try:
                res = v.outcome(f'victim{i}')
            finally:
                t.intr_at = -1
            if t.fired:
                hit.append(i)
                run.probe('interrupted: ' + ('swallowed by the call' if res[0] == 'ok' else 'call raised'))
            run.note('victim', v.spec, 'interrupted' if t.fired else 'not interrupted', str(res)[:150])
        for i, op in enumerate(after):
            got[f'after{i}'] = op.outcome(f'after{i}')

    def second():
        for i, op in enumerate(other):
            got[f'other{i}'] = op.outcome(f'other{i}')
    fns = [('t0', main)] + ([('t1', second)] if other else [])
    s = run.simulate(fns, gran='instr', cap=4_000_000, serial=not other)
    for site in s.intr_sites:
        run.note('at', site)
    for k, exp in expected.items():
        if got[k] != exp:
            op = (after if k[0] == 'a' else other)[int(k[5:])]
            raise engine.Violation('trace left', f'{k} {op.spec}: in a fresh process: {str(exp)[:400]}; after the '
                                   f'interrupted calls: {str(got[k])[:400]} ({c03.diff(exp, got[k])})')


# ------------------------------------------------------------------ registrations
class Tree(c05.Tree):
    """Items that were begun but not ended were interrupted: any prefix may have happened."""
    hits = {}
    top = 0
    exc = None
    fired = ()

    def bind(self, node, what, val, fork):
        self.binding = None if fork else (next(n for n, x in self.nodes.items() if x is node), what, val)
        res = super().bind(node, what, val, fork)
        self.binding = None
        return res

    binding = None

    def interrupted(self, op):
        """Run op; True if the interrupt arrived while it ran."""
        t = core.sim.cur
        t.intr_exc, t.fired = EXCS[self.exc]('interrupt'), False
        marks = {k: len(v) for k, v in self.obs.items()}
        opn = t.op
        try:
            self.do(op)
        except (engine.Violation, BaseException) as e:       # noqa
            if isinstance(e, core.HarnessError) or not t.fired:
                raise
        finally:
            t.intr_at = -1
            t.op = opn
        if t.fired:
            for k, n in marks.items():
                del self.obs[k][n:]                     # what this call says does not count
            if self.binding:
                n, what, val = self.binding
                self.bound[n, what] = self.allowed(n, what) | {val}
                self.own.pop((n, what), None)
                self.binding = None
        return t.fired


def prefixes(items):
    """Every combination of prefixes of the interrupted items."""
    outs = [[]]
    for it in items:
        if it[1] == 1 << 40:
            outs = [o + [[it[0], it[0], it[2][:n]]] for o in outs for n in range(len(it[2]) + 1)]
        else:
            outs = [o + [it] for o in outs]
    return outs


def run_tree(run):
    import jsons
    sc = run.sc
    tree = Tree(jsons)
    tree.exc = sc['exc']
    c04.CB = tree.callback
    states = {k: {frozenset([('G', (), ())])} for k in c05.KINDS}
    again = []

    def worker(ops_, hits=None):
        def main():
            for i, op in enumerate(ops_):
                if hits and i in hits:
                    t = core.sim.cur
                    span = 1500 if op['k'] in ('probe', 'dumpann') else 60
                    t.intr_at = t.m + 1 + int(hits[i] * span)
                    if tree.interrupted(op):
                        again.append(op)
                        run.probe('interrupted ' + op['k'])
                else:
                    tree.do(op)
        return main

    def judge(when):
        for k in c05.KINDS:
            items, tree.items[k] = tree.items[k], []
            if items and states[k] is not None:
                new = set()
                for its in prefixes(items):
                    fs = c05.final_states(states[k], its)
                    if fs is None:
                        new = None
                        break
                    # A fork that was interrupted left no node.
                    new |= {frozenset(x for x in s if x[0] in known) for s in fs}
                states[k] = new
            obs, tree.obs[k] = tree.obs[k], []
            for node, key, val in obs:
                if states[k] is None or node in unsure:
                    continue
                left = {s for s in states[k] if c05.predict(s, k, node, key) == val}
                if not left:
                    want = sorted({repr(c05.predict(s, k, node, key)) for s in states[k]})
                    raise engine.Violation('registration', f'{when}: {k} of {key!r} on {node} is {val!r}, expected {" or ".join(want)}')
                states[k] = left
    probes = lambda names: [{'k': 'probe', 'node': n, 'what': w} for n in names if n in tree.nodes
                            for w in ('ser', 'des', 'ann', 'warn')]
    for i, ph in enumerate(sc['phases']):
        run.note('phase', i, ph)
        tree.touched = {}
        again.clear()
        hits = {int(a): b for a, b in ph['hits']}
        s = run.simulate([('t0', worker(ph['threads'][0], hits))], gran='instr', serial=True, cap=4_000_000)
        for site in s.intr_sites:
            run.note('interrupted at', site)
        unsure, known = set(tree.touched), set(tree.nodes) - {'J'}
        judge(f'during phase {i}')
        unsure = set()
        run.simulate([('probe', worker(probes(ph['probes'])))], serial=True, gran='none')
        judge(f'after phase {i}')
        todo = [op for op in again if op['k'] not in ('probe',)]
        if todo:
            run.simulate([('again', worker(todo))], serial=True, gran='none')
            known = set(tree.nodes) - {'J'}
            unsure = set(tree.nodes)
            judge(f'when repeating phase {i}')
            unsure = set()
    run.simulate([('probe', worker(probes(list(tree.nodes))))], serial=True, gran='none')
    judge('at the end')


def simplify(sc):
    if sc['kind'] == 'alter':
        yield from alter.simplify(sc)
        return
    if sc['kind'] == 'tree':
        for c in c05.simplify(sc):
            yield c
        ps = sc['phases']
        for i, p in enumerate(ps):
            for h in engine.drop_each(p['hits']):
                yield dict(sc, phases=ps[:i] + [dict(p, hits=h)] + ps[i + 1:])
        return
    for k in ('history', 'other', 'after', 'victims'):
        if len(sc[k]) > (k == 'victims'):
            for x in engine.drop_each(sc[k]):
                yield dict(sc, **{k: x})
    if sc.get('often'):
        op, times, hits, salt = sc['often']
        yield dict(sc, often=None)
        if times > 1:
            yield dict(sc, often=[op, times // 2, hits, salt])
            yield dict(sc, often=[op, times - 1, hits, salt])
        if hits:
            yield dict(sc, often=[op, times, False, salt])
    if sc['again'] and sc['after']:
        yield dict(sc, again=False)
    if sc.get('same'):
        yield dict(sc, same=False)
    for i, op in enumerate(sc['after']):
        for o in ops.simpler(op):
            yield dict(sc, after=sc['after'][:i] + [o] + sc['after'][i + 1:])
