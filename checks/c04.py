"""C04: registrations take effect atomically, at once and for good."""
import threading
from typing import Tuple

import core
import engine
from canon import qual

ID = 'C04'
LEVEL = 'exploration'
COUNTS = {'quick': 13000, 'thorough': 200000}
RULE = ('A run: 1-4 threads register serializers, deserializers, validators and class announcements (single classes '
        'and sequences, high and low priority, two forks) while they dump, load and look up instances of the same '
        'class hierarchy; some registrations are made from inside callbacks of a dump or load that is under way. '
        'The history of registrations and lookups is checked for linearizability against a registry model.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['thread scheduler (seeded)', 'threading.Lock/RLock/Thread']
ASSUMPTIONS = ['a registration of several classes at once may take effect class by class',
               'for one class, exact lookups may see a registration slightly before lookups of its subclasses do']


class A:
    def __init__(self, n: int):
        self.n = n
        CB('ctor', type(self).__name__, n, None)

    @property
    def prop(self):
        CB('prop', type(self).__name__, self.n, None)
        return 1


class B(A):
    pass


class C(B):
    pass


class M1:
    def __init__(self, n: int):
        self.n = n
        CB('ctor', type(self).__name__, n, None)

    @property
    def prop(self):
        CB('prop', type(self).__name__, self.n, None)
        return 1


class M2:
    pass


class D(M1, M2):
    pass


class Ann1:
    pass


class Ann2:
    pass


class Ann3:
    pass


def _same(i):
    t = type('Same', (), {})
    t.__module__, t.__qualname__ = 'no_such_module', 'Same'
    t.index = i
    return t


SAME = {f'S{i}': _same(i) for i in (1, 2)}
CLASSES = {'A': A, 'B': B, 'C': C, 'M1': M1, 'M2': M2, 'D': D, 'None': type(None)}
ANN = {'Ann1': Ann1, 'Ann2': Ann2, 'Ann3': Ann3, **SAME}
ANCESTORS = {'A': ['A'], 'B': ['B', 'A'], 'C': ['C', 'B', 'A'], 'M1': ['M1'], 'M2': ['M2'], 'None': ['None'], 'D': ['D', 'M1', 'M2']}
USABLE = ['A', 'B', 'C', 'D', 'M1']         # have an n
SAME_NAME = 'no_such_module.Same'
CB = lambda *a: None


# ------------------------------------------------------------------ generation
def gen_reg(r, pool):
    kind = r.choice(pool['kinds'])
    f = r.choice(pool['forks'])
    if kind == 'ann':
        if r.random() < 0.3:
            return {'k': 'dumpann', 'cls': r.choice(list(SAME)), 'fork': f}
        c = r.choice(pool['ann'])
        return {'k': 'ann', 'cls': c, 'name': SAME_NAME if c in SAME and r.random() < 0.5 else r.choice(pool['names']),
                'fork': f}
    cs = [r.choice(pool['classes'] + ['M2'])]
    if r.random() < 0.25:
        cs = r.sample([c for c in CLASSES if c != 'None'], r.choice([2, 2, 3]))
    elif kind != 'val' and r.random() < 0.1:
        cs = ['None']
    return {'k': 'reg', 'kind': kind, 'cls': cs, 'seq': len(cs) > 1 or r.random() < 0.1,
            'hi': kind == 'val' or r.random() < 0.8, 'fork': f, 'tuple': r.random() < 0.5}


def gen_use(r, pool, nested=True):
    f = r.choice(pool['forks'])
    c = r.random()
    if c < 0.15 or pool['kinds'] == ['ann']:
        return {'k': 'vload', 'name': r.choice(pool['names'] + [SAME_NAME]), 'fork': f}
    if c < 0.4:
        kind = r.choice(['ser', 'des', 'val'])
        return {'k': 'get', 'kind': kind, 'cls': 'None' if kind != 'val' and r.random() < 0.15 else r.choice(pool['classes']),
                'fork': f}
    cs = [r.choice(pool['classes']) for _ in range(r.choice([1, 1, 2, 3]))]
    op = {'k': 'use', 'how': r.choice(['dump', 'load']), 'cls': cs, 'fork': f}
    if len(cs) > 1 and r.random() < 0.2:
        op['tasks'] = 2
    if nested and r.random() < 0.35:
        op['nested'] = {str(r.randrange(len(cs))): [gen_reg(r, pool) if r.random() < 0.6 else gen_use(r, pool, False)
                                                    for _ in range(r.choice([1, 1, 2]))]}
    return op


def focused(r):
    """The first registrations for a base class against lookups of its subclasses."""
    kind = r.choice(['ser', 'des', 'val', 'val', 'ann'])
    f = r.choice(['G', 'F'])
    pool = {'classes': ['A', 'B', 'C'] if r.random() < 0.7 else ['M1', 'D'], 'forks': [f], 'names': ['n1'],
            'ann': ['Ann1', 'S1'], 'kinds': [kind]}
    regs = [gen_reg(r, dict(pool, classes=pool['classes'][:2])) for _ in range(r.choice([1, 1, 2]))]

    def look():
        if kind == 'ann':
            return gen_use(r, pool)
        if r.random() < 0.5:
            return {'k': 'get', 'kind': kind, 'cls': r.choice(pool['classes'][1:]), 'fork': f}
        return {'k': 'use', 'how': 'dump' if kind == 'ser' else 'load', 'cls': [r.choice(pool['classes'][1:])], 'fork': f}
    looks = [[look() for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(r.choice([1, 1, 2]))]
    sched = engine.sched_cfg(r)
    if r.random() < 0.6:
        sched = {'mode': 'rare', 'p': r.choice([0.1, 0.2, 0.4]), 'hold': r.choice([0, 20, 200]), 'gran': 'line'}
    return {'threads': [regs] + looks, 'before': [], 'final': pool, 'sched': sched}


def again(r):
    """One class is registered again and again while others look it (or a subclass) up."""
    kind = r.choice(['ser', 'des', 'des', 'val'])
    f = r.choice(['G', 'F'])
    base, subs = r.choice([('A', ['A', 'B', 'C']), ('B', ['B', 'C']), ('M1', ['M1', 'D'])])
    pool = {'classes': subs, 'forks': [f], 'names': ['n1'], 'ann': ['Ann1', 'S1'], 'kinds': [kind]}

    def reg(c=base):
        return {'k': 'reg', 'kind': kind, 'cls': [c], 'seq': False, 'hi': kind == 'val' or r.random() < 0.8, 'fork': f,
                'tuple': False}

    def look():
        c = r.choice(subs)
        if r.random() < 0.7:
            return {'k': 'get', 'kind': kind, 'cls': c, 'fork': f}
        return {'k': 'use', 'how': 'dump' if kind == 'ser' else 'load', 'cls': [c], 'fork': f}
    sched = None
    c = r.random()
    if c < 0.35:
        sched = {'mode': 'rare', 'p': r.choice([0.1, 0.2]), 'hold': r.choice([300, 600, 1500]), 'gran': 'line'}
    elif c < 0.75:
        sched = {'mode': 'site', 'p': 0.0, 'mod': r.choice([6, 10, 20]), 'salt': r.randrange(1 << 30), 'gran': 'line'}
    sc = {'threads': [[reg() for _ in range(r.choice([1, 2, 3]))]] + [[look() for _ in range(r.choice([3, 4, 6]))]
                                                                   for _ in range(r.choice([1, 1, 2]))],
          'before': [reg()] + ([reg(r.choice(subs[1:]))] if r.random() < 0.3 else []), 'final': pool}
    if r.random() < 0.3:
        sc['threads'].append([reg(r.choice(['M2', 'A', 'B']))])
    return dict(sc, sched=sched or engine.sched_cfg(r))


def first(r):
    """The very first registration for a class, in the middle of look-ups of that class."""
    kind = r.choice(['ser', 'des', 'val', 'val', 'val'])
    f = r.choice(['G', 'F'])
    base, subs = r.choice([('A', ['A', 'A', 'B']), ('B', ['B', 'B', 'C']), ('M1', ['M1', 'D'])])
    pool = {'classes': subs, 'forks': [f], 'names': ['n1'], 'ann': ['Ann1', 'S1'], 'kinds': [kind]}
    reg = {'k': 'reg', 'kind': kind, 'cls': [base], 'seq': r.random() < 0.1, 'hi': kind == 'val' or r.random() < 0.8, 'fork': f,
           'tuple': False}

    def look():
        return {'k': 'get', 'kind': kind, 'cls': r.choice(subs), 'fork': f}
    looks = [look() for _ in range(r.choice([2, 4, 6]))]
    if r.random() < 0.2:
        looks.append({'k': 'use', 'how': 'dump' if kind == 'ser' else 'load', 'cls': [r.choice(subs)], 'fork': f})
    sched = r.choice([{'mode': 'rare', 'p': r.choice([0.2, 0.4]), 'hold': r.choice([50, 100, 200]), 'gran': 'line'},
                      {'mode': 'site', 'p': 0.0, 'mod': r.choice([3, 6]), 'salt': r.randrange(1 << 30), 'gran': 'line'},
                      {'mode': 'rand', 'p': r.choice([0.02, 0.05, 0.2]), 'gran': r.choice(['line', 'instr'])},
                      {'mode': 'pct', 'd': r.choice([1, 2]), 'k': r.choice([30, 60, 120]), 'gran': 'line'},
                      {'mode': 'pct', 'd': r.choice([1, 2]), 'k': r.choice([30, 60, 120]), 'gran': 'line'}])
    return {'threads': [[reg], looks], 'before': [], 'final': pool, 'sched': sched}


def together(r):
    """Many registrations for different base classes at the same time: none may be lost."""
    kind = r.choice(['ser', 'des', 'val', 'val', 'ann'])
    f = r.choice(['G', 'G', 'F'])
    pool = {'classes': ['A', 'B', 'C', 'D', 'M1'], 'forks': [f], 'names': ['n1', 'n2', 'n3', 'n4'], 'ann': list(ANN),
            'kinds': [kind]}
    nt = r.choice([2, 2, 3, 4])
    if kind == 'ann':
        names = r.sample(pool['names'], 4)
        ts = [[{'k': 'ann', 'cls': r.choice(list(ANN)), 'name': n, 'fork': f}] for n in names[:nt]]
    else:
        cs = r.sample(['A', 'M1', 'M2', 'B', 'A', 'M1'], nt)
        ts = [[{'k': 'reg', 'kind': kind, 'cls': [c], 'seq': False, 'hi': kind == 'val' or r.random() < 0.8, 'fork': f,
                'tuple': False}] for c in cs]
    before = [] if r.random() < 0.7 else [gen_reg(r, dict(pool, classes=['A', 'M1']))]
    sched = r.choice([{'mode': 'rand', 'p': r.choice([0.02, 0.05, 0.2]), 'gran': 'instr'},
                      {'mode': 'rare', 'p': r.choice([0.1, 0.3]), 'hold': r.choice([0, 20, 100]), 'gran': 'instr'}, None])
    return {'threads': ts, 'before': before, 'final': pool, 'sched': sched or engine.sched_cfg(r)}


def generate(r, seed, tier):
    c = r.random()
    if c < 0.2:
        return focused(r)
    if c < 0.35:
        return again(r)
    if c < 0.47:
        return together(r)
    if c < 0.57:
        return first(r)
    nt = r.choice([1, 2, 2, 2, 3, 3, 4])
    pool = {'classes': r.choice([['A'], ['A', 'B'], ['A', 'B', 'C'], ['M1', 'D'], ['D', 'A'], USABLE]),
            'forks': r.choice([['G'], ['G'], ['F'], ['G', 'F']]), 'names': r.choice([['n1'], ['n1', 'n2']]),
            'ann': r.sample(list(ANN), 2), 'kinds': r.choice([['ser'], ['des'], ['val'], ['ann'], ['ser', 'des', 'val', 'ann'],
                                                              ['ser', 'des', 'val', 'ann']])}
    bias = r.choice([0.3, 0.5, 0.7])
    return {'threads': [[gen_reg(r, pool) if r.random() < bias else gen_use(r, pool)
                         for _ in range(r.choice([1, 2, 2, 3, 4] if nt > 1 else [3, 5, 8]))] for _ in range(nt)],
            'before': [gen_reg(r, pool) if r.random() < 0.6 else gen_use(r, pool) for _ in range(r.choice([0, 0, 1, 2]))],
            'final': pool}


# ------------------------------------------------------------------ the run
class History:
    def __init__(self, lib, forks):
        self.lib, self.forks = lib, forks
        self.t = 0
        self.regs = []          # [inv, ret, kind, fork, [classes], hi, id]
        self.looks = []         # [start, end, kind, fork, class, value]
        self.calls = {}         # key of the current operation -> its record
        self.ids = {}           # function -> id
        self.elem = 0
        self.opn = 0

    def tick(self):
        self.t += 1
        return self.t

    def kw(self, op):
        return {} if op['fork'] == 'G' else {'fork_inst': self.forks[op['fork']]}

    def callback(self, what, cls, n, fid):
        """From every callback: a lookup has just chosen this function."""
        now = self.tick()
        s = core.sim
        rec = self.calls.get(s.cur.op) if s is not None and s.cur is not None else None
        if rec is not None:
            kind = {'prop': 'ser', 'ctor': 'des'}.get(what, what)
            e = rec['elems'].setdefault(n, {})
            if kind not in e:           # a property may be read more than once
                e[kind] = True
                start = e['last'] if 'last' in e else rec['start'] if rec['par'] else rec['last']
                self.looks.append([start, now, kind, rec['fork'], cls, fid or 'default'])
                if kind == 'des':
                    e['val at'] = len(self.looks)
                    e['cls'] = cls
            core.pause(what)
            for op in rec['nested'].pop(str(n % 100), ()):
                self.do(op)
            e['last'] = rec['last'] = self.tick()
            for m in rec['elems'].values():
                if 'des' in m and 'next' not in m and m is not e:
                    m['next'] = now
        else:
            core.pause(what)

    def make(self, kind, fid):
        if kind == 'ser':
            def f(o, **kw):
                self.callback('ser', type(o).__name__, o.n, fid)
                return {'by': fid}
        elif kind == 'des':
            def f(o, cls, **kw):
                self.callback('des', cls.__name__, o['n'], fid)
                x = cls.__new__(cls)
                x.n, x.by = o['n'], fid
                return x
        else:
            def f(o):
                self.callback('val', type(o).__name__, o.n, fid)
                return True
        self.ids[f] = fid
        return f

    def do(self, op):
        s = core.sim
        self.opn += 1
        key = f'op{self.opn}'
        before, s.cur.op = s.cur.op, key
        try:
            self._do(op, key)
        except engine.Violation:
            raise
        except core.HarnessError:
            raise
        except Exception as e:
            chain = []
            while e is not None:
                chain.append(f'{type(e).__name__}: {e}')
                e = e.__cause__
            raise engine.Violation('fails', f'{op} fails: {"; caused by ".join(chain)}') from None
        finally:
            s.cur.op = before

    def _do(self, op, key):
        lib, k, kw = self.lib, op['k'], self.kw(op)
        if k == 'reg':
            kind = op['kind']
            fid = f'{kind}{len(self.regs)}'
            f = self.make(kind, fid)
            arg = [None if c == 'None' and op['tuple'] else CLASSES[c] for c in op['cls']]
            arg = (tuple(arg) if op['tuple'] else arg) if op['seq'] else arg[0]
            reg = [self.tick(), 1 << 40, kind, op['fork'], op['cls'], op['hi'], fid]
            self.regs.append(reg)
            if kind == 'val':
                lib.set_validator(f, arg, **kw)
            else:
                (lib.set_serializer if kind == 'ser' else lib.set_deserializer)(f, arg, op['hi'], **kw)
            reg[1] = self.tick()
        elif k in ('ann', 'dumpann'):
            c = ANN[op['cls']]
            reg = [self.tick(), 1 << 40, 'ann', op['fork'], [op.get('name', SAME_NAME)], True, op['cls']]
            self.regs.append(reg)
            if k == 'ann':
                lib.announce_class(c, op['name'], **kw)
            else:
                lib.dump(c(), **kw)
            reg[1] = self.tick()
        elif k == 'get':
            start = self.tick()
            f = {'ser': lib.get_serializer, 'des': lib.get_deserializer, 'val': lib.get_validator}[op['kind']](
                CLASSES[op['cls']], **kw)
            self.looks.append([start, self.tick(), op['kind'], op['fork'], op['cls'], self.ids.get(f, 'default')])
        elif k == 'vload':
            start = self.tick()
            try:
                o = lib.load({'-meta': {'classes': {'/': op['name']}}}, **kw)
                got = [n for n, c in ANN.items() if type(o) is c]
                got = got[0] if got else qual(type(o))
            except lib.exceptions.UnknownClassError:
                got = 'default'
            self.looks.append([start, self.tick(), 'ann', op['fork'], op['name'], got])
        else:
            ns = []
            for i, c in enumerate(op['cls']):
                self.elem += 1
                ns.append(self.elem * 100 + i)
            start = self.tick()
            rec = self.calls[key] = {'start': start, 'last': start, 'fork': op['fork'], 'elems': {},
                                     'nested': dict(op.get('nested') or {}), 'par': 'tasks' in op}
            if 'tasks' in op:
                kw = dict(kw, tasks=op['tasks'], task_type=threading.Thread)
            if op['how'] == 'dump':
                vals = []
                for c, n in zip(op['cls'], ns):
                    o = CLASSES[c].__new__(CLASSES[c])
                    o.n = n
                    vals.append(o)
                start = rec['start'] = rec['last'] = self.tick()
                lib.dump(tuple(vals) if len(vals) > 1 else vals[0], **kw)
            else:
                docs = [{'n': n} for n in ns]
                ts = [CLASSES[c] for c in op['cls']]
                if len(docs) > 1:
                    lib.load(docs, Tuple[tuple(ts)], **kw)
                else:
                    lib.load(docs[0], ts[0], **kw)
            end = self.tick()
            for c, n in zip(op['cls'], ns):
                e = rec['elems'].get(n)
                kind = 'ser' if op['how'] == 'dump' else 'des'
                if e is None or kind not in e:
                    raise engine.Violation('no call', f'{op}: element {n} of class {c} was not processed')
                if op['how'] == 'load' and 'val' not in e:
                    self.looks.append([e['last'], end if rec['par'] else e.get('next', end), 'val', op['fork'], c, 'default'])
            del self.calls[key]


# ------------------------------------------------------------------ the oracle
def explain(regs, looks, ann):
    """Can the lookups be explained by registrations that happen one after another?
    None if so, else the first lookup that cannot (or False if the search was cut)."""
    # Items: (inv, ret, steps, payload); every step of a registration is a table or list change.
    items = []
    for inv, ret, kind, fork, cs, hi, fid in regs:
        steps = []
        for c in cs:
            steps.append(('t', c, fid))
            if not ann:
                steps.append(('l', c, hi, kind))
        items.append((inv, ret, steps))
    looks = sorted(looks)
    n = len(items)
    budget = [150_000]
    seen = set()
    worst = [0]

    def head(c, lst):
        return next((x for x in lst if x in ANCESTORS[c]), None)

    def search(pos, nl, table, lst, done, half):
        """pos: steps done per registration; the lookups before nl are done, and so are those in
        done; half: (lookup, class) pairs of which the class was chosen, but not yet its function
        (a lookup that overlaps several registrations may see them separately)."""
        budget[0] -= 1
        if budget[0] < 0:
            return None
        while nl in done:
            done = done - {nl}
            nl += 1
        worst[0] = max(worst[0], nl)
        if nl == len(looks):
            return True
        key = (pos, nl, done, half, tuple(sorted(table.items())), lst)
        if key in seen:
            return False
        seen.add(key)
        # The earliest end of anything not done: nothing that starts later may come first.
        limit = min(looks[i][1] for i in range(nl, len(looks)) if i not in done)
        for j in range(n):
            if pos[j] < len(items[j][2]):
                limit = min(limit, items[j][1])
        cut = False
        for i in range(nl, len(looks)):
            lk = looks[i]
            if lk[0] > limit:
                break
            if i in done:
                continue
            c, want, nexts = lk[4], lk[5], []
            chosen = next((x for k, x in half if k == i), 0)
            if chosen:
                if table.get(chosen) == want:
                    nexts.append((done | {i}, half - {(i, chosen)}))
            elif table.get(c, 'default' if ann else None) == want:
                nexts.append((done | {i}, half))
            elif not ann:
                x = head(c, lst)
                if x is None and want == 'default' and c not in table:
                    nexts.append((done | {i}, half))
                elif x is not None and table.get(x) == want and c not in table:
                    nexts.append((done | {i}, half))
                elif x is not None and want != 'default':
                    nexts.append((done, half | {(i, x)}))
            for d2, h2 in nexts:
                r = search(pos, nl, table, lst, d2, h2)
                if r:
                    return True
                if r is None:
                    return None
        for j in range(n):
            inv, ret, steps = items[j]
            if pos[j] == len(steps) or inv > limit:
                continue
            st = steps[pos[j]]
            if st[0] == 't':
                t2, l2 = dict(table), lst
                t2[st[1]] = st[2]
            else:
                t2 = table
                if st[3] == 'val':
                    l2 = lst + (st[1],)
                elif st[2]:
                    l2 = (st[1],) + lst
                else:
                    l2 = lst            # behind object: never reached
            r = search(pos[:j] + (pos[j] + 1,) + pos[j + 1:], nl, t2, l2, done, half)
            if r:
                return True
            if r is None:
                cut = True
                return None
        return None if cut else False
    import sys
    sys.setrecursionlimit(10000)
    r = search((0,) * n, 0, {}, (), frozenset(), frozenset())
    if r:
        return None
    if r is None:
        return False
    return looks[min(worst[0], len(looks) - 1)]


def run(run):
    global CB
    import jsons
    sc = run.sc
    forks = {'F': jsons.fork(name='RegFork')}
    h = History(jsons, forks)
    CB = h.callback

    def worker(ops):
        def main():
            for op in ops:
                h.do(op)
        return main
    if sc['before']:
        run.simulate([('pre', worker(sc['before']))], serial=True, gran='none')
    run.simulate([(f't{i}', worker(t)) for i, t in enumerate(sc['threads'])])
    pool = sc['final']
    final = []
    for f in ['G', 'F']:
        for kind in ('ser', 'des', 'val'):
            final += [{'k': 'get', 'kind': kind, 'cls': c, 'fork': f} for c in pool['classes'] + ['None'] * (kind != 'val')]
        final.append({'k': 'use', 'how': 'dump', 'cls': pool['classes'], 'fork': f})
        final.append({'k': 'use', 'how': 'load', 'cls': pool['classes'], 'fork': f})
        final += [{'k': 'vload', 'name': n, 'fork': f} for n in pool['names'] + [SAME_NAME]]
    run.simulate([('end', worker(final))], serial=True, gran='none')
    for r in h.regs:
        run.note('reg', r)
    for lk in h.looks:
        run.note('lookup', lk)
    if len(h.regs):
        run.probe('registrations')
    run.stats['nontrivial'] = bool(h.regs)
    for f in ('G', 'F'):
        for kind in ('ser', 'des', 'val', 'ann'):
            regs = [x for x in h.regs if x[3] == f and x[2] == kind]
            looks = [x for x in h.looks if x[3] == f and x[2] == kind]
            bad = explain(regs, looks, kind == 'ann')
            if bad is False:
                run.probe('linearizability search cut')
            elif bad:
                raise engine.Violation('not linearizable', f'lookup {bad} ([start, end, kind, fork, class, result]) does not fit '
                                       f'any order of the registrations {[x for x in regs]} ([start, end, kind, fork, classes, '
                                       f'high priority, id]) and the other lookups')
            if any(a[0] < b[1] and b[0] < a[1] for a in regs for b in looks):
                run.probe(f'lookup overlaps registration ({kind})')


def simplify(sc):
    ts = sc['threads']
    for h in engine.drop_each(sc['before']):
        yield dict(sc, before=h)
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        for u in engine.drop_each(t):
            yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j, op in enumerate(t):
            for o in smaller(op):
                yield dict(sc, threads=ts[:i] + [t[:j] + [o] + t[j + 1:]] + ts[i + 1:])


def smaller(op):
    if op.get('nested'):
        yield {k: v for k, v in op.items() if k != 'nested'}
    if len(op.get('cls', '')) > 1 and isinstance(op['cls'], list):
        for c in engine.drop_each(op['cls']):
            o = dict(op, cls=c)
            if len(c) == 1:
                o.pop('tasks', None)
            yield o
    if op.get('tasks'):
        yield {k: v for k, v in op.items() if k != 'tasks'}
