"""C05: a fork is a snapshot, isolated from its parent and every other fork."""
import datetime as dtm
import sys
import threading
from collections import defaultdict, deque
from dataclasses import dataclass
from typing import DefaultDict, Deque, Dict, FrozenSet, List, Mapping, NamedTuple, Optional, Set, Tuple, Union

import core
import engine
import c04
from c04 import ANN, ANCESTORS, CLASSES, SAME_NAME, A

ID = 'C05'
LEVEL = 'exploration'
COUNTS = {'quick': 3200, 'thorough': 80000}
RULE = ('A run: 2-5 phases grow a tree of forks (jsons.fork, JsonSerializable.fork/with_dump/with_load/set_*) while '
        'registrations, announcements, warning settings and default arguments are made on any of its nodes; phases are '
        'sequential or 2-3 threads wide, also from inside callbacks of a dump or load. After each phase nodes are probed '
        'for everything they hold; a model of all possible snapshots must contain a state that explains all probes.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks', 'warnings module']
STUB = ['thread scheduler (seeded)', 'threading.Lock/RLock/Thread']
ASSUMPTIONS = ['whether a default argument bound on a fork later shows in children it already had is not specified; '
               'both are accepted', 'a fork may hold a registration that overlaps it for the class itself and not yet '
               'for its subclasses']
KINDS = ['ser', 'des', 'val', 'ann', 'warn']
USE = ['A', 'B', 'C', 'D', 'M1']
SHAPES = ['list', 'dict', 'deque', 'nt', 'obj', 'dd', 'opt', 'union', 'set', 'key', 'bare', 'untyped']
CODES = ['attribute-not-serialized', 'element-not-deserialized', 'datetime-without-tz']


@dataclass
class Fragile:
    a: int
    bad: object


@dataclass
class Wrap:
    a: A


class Bare:
    def __init__(self, a):
        self.a = a


class Nt(NamedTuple):
    a: A
    b: int


@dataclass
class Plain:
    m: int
    o: Optional[int] = None


class Pair(NamedTuple):
    p: int
    q: str


# Built-in types that may be registered as well, and calls that must come to what is registered for them.
_T = '2020-01-02T03:04:05Z'
PARTS = {'int': int, 'float': float, 'timedelta': dtm.timedelta, 'datetime': dtm.datetime}
DES_PARTS = {
    'float': [({'real': 1.5, 'imag': 2.5}, complex, True)],
    'timedelta': [({'name': 'X', 'offset': 3600.0}, dtm.timezone, False)],
    'datetime': [(_T, None, True), ([_T], list, True), ({'k': _T}, None, True), ({'a': _T}, Bare, True), ([_T, 1], Tuple[dtm.datetime, int], True),
                 ({"k": [_T]}, Dict[str, list], True), (_T, Union[int, dtm.datetime], False), ({_T: 1}, Dict[dtm.datetime, int], False)],
    'int': [(['1'], List[int], False), ({'1': 'x'}, Dict[int, str], False), ('1', Union[int, dtm.date], False), (['1'], Tuple[int, ...], False),
            ({'k': ['1']}, DefaultDict[str, List[int]], False), ('1', Optional[int], False), ({'m': '1'}, Plain, False),
            ({'m': 1, 'o': '2'}, Plain, True), ({'k': '1'}, Mapping[str, int], False), (['1', 'x'], Pair, False), ({'p': '1', 'q': 'x'}, Pair, False),
            (['1'], Set[int], False), (['1', '2'], Deque[int], False), (['1'], FrozenSet[int], True)]}
SER_PARTS = {
    'timedelta': [(dtm.timezone(dtm.timedelta(hours=1)), None)],
    'datetime': [({dtm.datetime(2020, 1, 2, tzinfo=dtm.timezone.utc): 1}, None), ([dtm.datetime(2020, 1, 2, tzinfo=dtm.timezone.utc)], None),
                 (dtm.datetime(2020, 1, 2, tzinfo=dtm.timezone.utc), Union[dtm.datetime, int])],
    'int': [([1], None), ([1], List[int]), ({'k': 1}, None), ((1,), None), ((1,), Tuple[int, ...]), ({1}, None), (deque([1]), None), (Pair(1, 'x'), None),
            (Plain(1), None), (Plain(1, 2), Plain), (1, Optional[int]), (1, Union[int, str]), (Bare(1), None), (frozenset([1]), FrozenSet[int])]}


def find(d, ok):
    if isinstance(d, dict):
        if ok(d):
            return d
        d = list(d.values())
    if isinstance(d, list):
        for x in d:
            y = find(x, ok)
            if y is not None:
                return y
    return None


class Bad:
    @property
    def p(self):
        raise ValueError('no')


# ------------------------------------------------------------------ generation
def generate(r, seed, tier):
    nodes = {'G': 'S', 'J': 'J'}        # name -> type
    count = [0]

    def new_node(t):
        count[0] += 1
        n = f'F{count[0]}'
        mine[n] = t
        return n

    def gen(pool, par):
        p = r.choice(pool)
        t = mine.get(p) or nodes[p]
        c = r.random()
        if c < 0.28:
            how = r.choice(['fork', 'method', 'with_dump', 'with_load', 'set']) if t == 'J' and p != 'G' else 'fork'
            n = new_node(t)
            op = {'k': 'fork', 'from': p, 'node': n, 'how': how}
            if how == 'set':
                op.update(kind=r.choice(['ser', 'des']), cls=[r.choice(USE)], hi=r.random() < 0.8)
            pool.append(n)
            return op
        if c < 0.68:
            kind = r.choice(['ser', 'des', 'val'])
            cs = [r.choice(USE)] if r.random() < 0.8 else r.sample(USE, 2)
            if kind == 'des' and r.random() < 0.3:
                cs = [r.choice(list(DES_PARTS))]
            elif kind == 'ser' and r.random() < 0.2:
                cs = [r.choice(list(SER_PARTS))]
            return {'k': 'reg', 'node': p, 'kind': kind, 'cls': cs, 'hi': kind == 'val' or r.random() < 0.8,
                    'method': t == 'J' and kind != 'val' and r.random() < 0.5}
        if c < 0.8:
            if r.random() < 0.3:
                return {'k': 'dumpann', 'node': p, 'cls': r.choice(['S1', 'S2'])}
            return {'k': 'ann', 'node': p, 'cls': r.choice(['Ann1', 'Ann2', 'S1']), 'name': r.choice(['n1', 'n2'])}
        if c < 0.92 or t != 'J' or par:
            n = p if p != 'J' else 'G'
            if r.random() < 0.4:
                return {'k': 'warn', 'node': n, 'on': r.random() < 0.6}
            return {'k': 'code', 'node': n, 'code': r.choice(CODES)}
        return {'k': 'bind', 'node': p, 'what': r.choice(['dump', 'load']), 'val': r.choice(['x', 'x', ''])}
    phases = []
    for _ in range(r.choice([2, 3, 3, 4, 5])):
        nt = r.choice([1, 1, 1, 2, 2, 3])
        threads = []
        mine = {}
        bias = r.sample(list(nodes), min(len(nodes), 3))
        for _ in range(nt):
            pool = [n for n in list(bias)]
            t = []
            for _ in range(r.choice([2, 3, 4, 5]) if nt == 1 else r.choice([1, 1, 2, 3])):
                if r.random() < 0.2:
                    n = r.choice(pool)
                    op = {'k': 'probe', 'node': n, 'what': r.choice(['ser', 'des', 'val', 'ann', 'warn'])}
                    if r.random() < 0.6 and op['what'] in ('ser', 'des', 'val'):
                        op['nested'] = {str(r.randrange(len(USE))): [gen(pool, nt > 1) for _ in range(r.choice([1, 2]))]}
                    t.append(op)
                else:
                    t.append(gen(pool, nt > 1))
            threads.append(t)
        nodes.update(mine)
        probes = r.sample(list(nodes), min(len(nodes), r.choice([1, 2, 3])))
        phases.append({'threads': threads, 'probes': probes})
    return {'phases': phases}


# ------------------------------------------------------------------ the run
class Tree(c04.History):
    def __init__(self, lib):
        super().__init__(lib, {})
        self.nodes = {'G': None, 'J': lib.JsonSerializable}
        self.parent = {'G': None, 'J': 'G'}
        self.type = {'G': 'S', 'J': 'J'}
        self.items = {k: [] for k in KINDS}         # kind -> [inv, ret, steps] of this phase
        self.obs = {k: [] for k in KINDS}           # kind -> [node, key, value]
        self.touched = {}                           # node -> number of times touched in this phase
        self.bound = {('J', 'dump'): {''}, ('J', 'load'): {''}}
        self.own = {}
        self.part = {}
        self.plain = {'des': {t: lib.get_deserializer(t) for t in PARTS.values()},
                      'ser': {t: lib.get_serializer(t) for t in PARTS.values()}}

    def fk(self, node):
        f = self.nodes[node]
        return {} if f is None else {'fork_inst': f}

    def canonical(self, node):
        return 'G' if node == 'J' else node         # JsonSerializable shares the global registries

    def do(self, op):
        if op['k'] == 'fork' and op['from'] not in self.nodes or op['k'] != 'fork' and op['node'] not in self.nodes:
            return                                  # its fork was simplified away
        super().do(op)

    def begin(self, kinds_steps):
        inv = self.tick()
        out = []
        for kind, steps in kinds_steps.items():
            it = [inv, 1 << 40, steps]
            self.items[kind].append(it)
            out.append(it)
        return out

    def end(self, items):
        t = self.tick()
        for it in items:
            it[1] = t

    def reg_steps(self, node, kind, cs, hi, fid):
        n = self.canonical(node)
        out = []
        for c in cs:
            out += [('t', n, c, fid), ('l', n, c, hi, kind)]
        return out

    def _do(self, op, key):
        lib, k = self.lib, op['k']
        if k == 'reg':
            fid = f'{op["kind"]}{op["node"]}.{self.opn}'
            f = self.make(op['kind'], fid)
            arg = [PARTS.get(c) or CLASSES[c] for c in op['cls']]
            arg = arg if len(arg) > 1 else arg[0]
            it = self.begin({op['kind']: self.reg_steps(op['node'], op['kind'], op['cls'], op['hi'], fid)})
            self.touched[self.canonical(op['node'])] = 1
            node = self.nodes[op['node']]
            if op['kind'] == 'val':
                lib.set_validator(f, arg, **self.fk(op['node']))
            elif op.get('method'):
                (node.set_serializer if op['kind'] == 'ser' else node.set_deserializer)(f, arg, op['hi'])
            else:
                (lib.set_serializer if op['kind'] == 'ser' else lib.set_deserializer)(
                    f, arg, op['hi'], **self.fk(op['node']))
            self.end(it)
        elif k in ('ann', 'dumpann'):
            n = self.canonical(op['node'])
            it = self.begin({'ann': [('t', n, op.get('name', SAME_NAME), op['cls'])]})
            self.touched[n] = 1
            if k == 'ann':
                lib.announce_class(ANN[op['cls']], op['name'], **self.fk(op['node']))
            else:
                lib.dump(ANN[op['cls']](), **self.fk(op['node']))
            self.end(it)
        elif k in ('warn', 'code'):
            n = self.canonical(op['node'])
            it = self.begin({'warn': [('w', n, op['on']) if k == 'warn' else ('c', n, op['code'])]})
            self.touched[n] = 1
            if k == 'warn':
                lib.suppress_warnings(op['on'], **self.fk(op['node']))
            else:
                lib.suppress_warning(op['code'], **self.fk(op['node']))
            self.end(it)
        elif k == 'fork':
            self.do_fork(op)
        elif k == 'bind':
            self.bind(self.nodes[op['node']], op['what'], op['val'], False)
            self.own[op['node'], op['what']] = op['val']
        elif k == 'probe':
            self.probe(op['node'], op['what'], key, op.get('nested'))
        else:
            raise core.HarnessError(k)

    def bind(self, node, what, val, fork):
        lib = self.lib
        if what == 'dump':
            kw = {'key_transformer': lib.KEY_TRANSFORMER_CAMELCASE} if val else {'strip_privates': True}
            return node.with_dump(fork=fork, **kw)
        kw = {'key_transformer': lib.KEY_TRANSFORMER_SNAKECASE} if val else {'warn_on_fail': False}
        return node.with_load(fork=fork, **kw)

    def do_fork(self, op):
        lib, p, n = self.lib, op['from'], op['node']
        cp = self.canonical(p)
        how = op['how']
        steps = {k: [('fl', cp, n), ('ft', cp, n)] for k in KINDS}
        parent = self.nodes[p]
        snap = {w: self.allowed(p, w) for w in ('dump', 'load')} if self.type[p] == 'J' else None
        if how == 'set':
            fid = f'{op["kind"]}{n}.{self.opn}'
            steps[op['kind']] += self.reg_steps(n, op['kind'], op['cls'], op['hi'], fid)
            f = self.make(op['kind'], fid)
        it = self.begin(steps)
        if how == 'fork':
            new = lib.fork(**self.fk(p), name=n)
        elif how == 'method':
            new = parent.fork(n)
        elif how in ('with_dump', 'with_load'):
            new = self.bind(parent, how[5:], 'x', True)
            self.own[n, how[5:]] = 'x'
        else:
            new = (parent.set_serializer if op['kind'] == 'ser' else parent.set_deserializer)(
                f, CLASSES[op['cls'][0]], op['hi'], fork=True)
        self.end(it)
        if new is parent:
            raise engine.Violation('no fork', f'{op} returns its parent')
        self.nodes[n], self.parent[n], self.type[n] = new, p, self.type[p]
        if snap:
            for w in snap:
                self.bound[n, w] = snap[w]
        if not isinstance(new, type) or (parent is not None and not issubclass(new, parent)):
            raise engine.Violation('no fork', f'{op} returns {new}')

    def allowed(self, n, w):
        """The default arguments that may be bound at node n."""
        if (n, w) in self.own:
            return {self.own[n, w]}
        up = self.parent[n]
        return self.bound[n, w] | (self.allowed(up, w) if self.type.get(up) == 'J' else set())

    # -------------------------------------------------------- probes
    def probe(self, node, what, key, nested=None):
        """Record what node does for every class, name or warning."""
        lib, kw, n = self.lib, self.fk(node), self.canonical(node)
        obs = self.obs[what]
        if what == 'ann':
            for name in ('n1', 'n2', SAME_NAME):
                try:
                    o = lib.load({'-meta': {'classes': {'/': name}}}, **kw)
                    v = next((a for a, c in ANN.items() if type(o) is c), repr(type(o)))
                except lib.exceptions.UnknownClassError:
                    v = 'default'
                obs.append([n, name, v])
            return
        if what == 'warn':
            calls = {CODES[0]: lambda: lib.dump(Fragile(1, Bad()), **kw),
                     CODES[1]: lambda: lib.load(['x', '1'], List[int], warn_on_fail=True, **kw),
                     CODES[2]: lambda: lib.dump(dtm.datetime(2020, 1, 2, 3), **kw)}
            for code, f in calls.items():
                engine.warned.pop(key, None)
                f()
                obs.append([n, code, any(code in m for _, m in engine.warned.pop(key, ()))])
            return
        ns = []
        for i, c in enumerate(USE):
            self.elem += 1
            ns.append(self.elem * 100 + i)
        rec = self.calls[key] = {'start': 0, 'last': 0, 'fork': n, 'elems': {}, 'nested': dict(nested or {}), 'par': False}
        mark = len(self.looks)
        if what == 'ser':
            vals = []
            for c, i in zip(USE, ns):
                o = CLASSES[c].__new__(CLASSES[c])
                o.n = i
                vals.append(o)
            out = lib.dump(tuple(vals), **kw)
            got = [x.get('by', 'default') for x in out]
        else:
            out = lib.load([{'n': i} for i in ns], Tuple[tuple(CLASSES[c] for c in USE)], **kw)
            got = [getattr(x, 'by', 'default') for x in out]
        seen = {}
        for lk in self.looks[mark:]:
            if lk[3] == n:
                seen.setdefault((lk[2], lk[4]), []).append(lk[5])
        del self.calls[key]
        if nested and n in self.touched:
            return                                  # its own registries changed meanwhile
        if what in ('ser', 'des'):
            for c, v in zip(USE, got):
                obs.append([n, c, v])
        if what == 'des' or what == 'val':
            for c in USE:
                vs = seen.get(('val', c), ['default'])
                if not nested:                      # lookups of nested calls are mixed in
                    self.obs['val'].append([n, c, vs[0]])
        if not nested and what in ('ser', 'des'):
            self.inside(node, what)
            # Through methods of a JsonSerializable class.
            if self.type[node] == 'J':
                self.methods(node, what)

    def inside(self, node, what):
        """The fork of the call counts in every kind of container."""
        lib, kw, n = self.lib, self.fk(node), self.canonical(node)
        self.elem += 1
        num = self.elem * 100
        shape = SHAPES[self.elem % len(SHAPES)]
        if what == 'ser':
            a = A.__new__(A)
            a.n = num
            v = {'list': [a], 'dict': {'k': a}, 'deque': deque([a]), 'nt': Nt(a, 1), 'obj': Wrap(a), 'dd': defaultdict(list, k=[a]),
                 'opt': a, 'union': a, 'set': {a}, 'key': {a: 1}, 'bare': Bare(a), 'untyped': {'k': [{'j': a}]}}[shape]
            a = find(lib.dump(v, **kw), lambda d: 'by' in d or 'n' in d)
            if a is None:
                raise engine.Violation('not isolated', f'{shape} of {node}: the element is missing')
            self.obs['ser'].append([n, 'A', a.get('by', 'default')])
            for name, cases in SER_PARTS.items():
                v, t = cases[self.elem % len(cases)]
                self.parts('ser', n, name, (v, t), lambda: lib.dump(v, t, **kw))
            return
        d = {'n': num}
        doc, t = {'list': ([d], List[A]), 'dict': ({'k': d}, Dict[str, A]), 'deque': ([d], Deque[A]),
                  'nt': ({'a': d, 'b': 1}, Nt), 'obj': ({'a': d}, Wrap), 'dd': ({'k': [d]}, DefaultDict[str, List[A]]),
                  'opt': (d, Optional[A]), 'union': (d, Union[int, A]), 'set': ([d], Set[A]),
                  'key': ({'1': 1, '-keys': {'1': d}}, Dict[A, int]), 'bare': ({'a': d}, Bare), 'untyped': (None, None)}[shape]
        if shape not in ('untyped', 'bare'):
            o = lib.load(doc, t, **kw)
            a = {'list': lambda: o[0], 'dict': lambda: o['k'], 'deque': lambda: o[0], 'nt': lambda: o.a, 'obj': lambda: o.a,
                 'dd': lambda: o['k'][0], 'opt': lambda: o, 'union': lambda: o, 'set': lambda: list(o)[0],
                 'key': lambda: list(o)[0]}[shape]()
            self.obs['des'].append([n, 'A', getattr(a, 'by', 'default')])
        for name, cases in DES_PARTS.items():
            doc, t, strict = cases[self.elem % len(cases)]
            self.parts('des', n, name, (doc, t), lambda: lib.load(doc, t, strict=strict, **kw))

    def parts(self, kind, n, name, what, call):
        """A call that must come to what the fork holds for a built-in type."""
        key = core.sim.cur.op
        self.part[key] = []
        call()
        got = {f for t, f in self.part.pop(key) if t == name} or {'default'}
        if len(got) > 1:
            raise engine.Violation('not isolated', f'{kind} of {what} on {n} uses {sorted(got)} for {name}')
        self.obs[kind].append([n, name, got.pop()])

    def make(self, kind, fid, cs=()):
        f = super().make(kind, fid)
        if kind == 'val':
            return f

        def g(o, cls=None, **kw):
            t = cls if kind == 'des' else type(o)
            name = next((a for a, c in PARTS.items() if c is t), None)
            if name is None:
                return f(o, cls=cls, **kw)
            core.pause('part')
            key = core.sim.cur.op
            if key in self.part:
                self.part[key].append((name, fid))
            return self.plain[kind][t](o, cls=cls, **kw)
        return g

    def methods(self, node, what):
        base, n = self.nodes[node], self.canonical(node)

        class X(base):
            def __init__(self, first_name: str = 'dflt', item: A = None):
                self.first_name, self.item = first_name, item
        self.elem += 1
        num = self.elem * 100
        if what == 'ser':
            a = A.__new__(A)
            a.n = num
            d = X('f', a).dump()
            keys = {'firstName': 'x', 'first_name': ''}
            got = [keys.get(x) for x in d if x != 'item']
            if len(got) != 1 or got[0] not in self.allowed(node, 'dump'):
                raise engine.Violation('default arguments', f'dump() of a class of {node} gives {d}; bound: {self.allowed(node, "dump")}')
            self.obs['ser'].append([n, 'A', d['item'].get('by', 'default')])
            import json
            d = json.loads(X('f', a).dumps())
            self.obs['ser'].append([n, 'A', d['item'].get('by', 'default')])
        else:
            o = X.load({'firstName': 'f', 'item': {'n': num}})
            got = 'x' if o.first_name == 'f' else ''
            if got not in self.allowed(node, 'load'):
                raise engine.Violation('default arguments', f'load() of a class of {node} gives first_name={o.first_name!r}; '
                                       f'bound: {self.allowed(node, "load")}')
            self.obs['des'].append([n, 'A', getattr(o.item, 'by', 'default')])
            o = X.loads('{"first_name": "f", "item": {"n": %d}}' % num)
            self.obs['des'].append([n, 'A', getattr(o.item, 'by', 'default')])


# ------------------------------------------------------------------ the model
def final_states(states, items, budget=60_000):
    """All states that the items may lead to, from any of the states; None if too many.
    A state: a frozenset of (node, table, list); table and list are tuples."""
    out, seen = set(), set()
    left = [budget]
    n = len(items)

    def search(pos, st):
        left[0] -= 1
        if left[0] < 0:
            return False
        key = (pos, st)
        if key in seen:
            return True
        seen.add(key)
        open_ = [j for j in range(n) if pos[j] < len(items[j][2])]
        if not open_:
            out.add(st)
            return True
        limit = min(items[j][1] for j in open_)
        for j in open_:
            if items[j][0] > limit:
                continue
            if not search(pos[:j] + (pos[j] + 1,) + pos[j + 1:], apply(st, items[j][2][pos[j]])):
                return False
        return True
    sys.setrecursionlimit(20000)
    for s in states:
        if not search((0,) * n, s):
            return None
    return out


def apply(st, step):
    d = {n: (t, l) for n, t, l in st}
    k = step[0]
    if k == 'fl':
        d[step[2]] = ((), d[step[1]][1])
    elif k == 'ft':
        d[step[2]] = (d[step[1]][0], d[step[2]][1])
    elif k == 't':
        t, l = d[step[1]]
        x = dict(t)
        x[step[2]] = step[3]
        d[step[1]] = (tuple(sorted(x.items())), l)
    elif k == 'l':
        t, l = d[step[1]]
        if step[4] == 'val':
            l = l + (step[2],)
        elif step[3]:
            l = (step[2],) + l
        d[step[1]] = (t, l)
    elif k == 'w':
        t, l = d[step[1]]
        d[step[1]] = (tuple(x for x in t if x != '*') + (('*',) if step[2] else ()), l)
    elif k == 'c':
        t, l = d[step[1]]
        d[step[1]] = (tuple(sorted({*t, step[2]})), l)
    return frozenset((n, t, l) for n, (t, l) in d.items())


def predict(st, kind, node, key):
    t, l = next((t, l) for n, t, l in st if n == node)
    if kind == 'warn':
        return '*' not in t and key not in t
    t = dict(t)
    if key in t:
        return t[key]
    if kind != 'ann':
        for x in l:
            if x in ANCESTORS.get(key, ()):
                return t.get(x, 'default')
    return 'default'


def run(run):
    import jsons
    tree = Tree(jsons)
    c04.CB = tree.callback
    states = {k: {frozenset([('G', (), ())])} for k in KINDS}

    def worker(ops):
        def main():
            for op in ops:
                tree.do(op)
        return main

    def probes(names):
        return [{'k': 'probe', 'node': n, 'what': w} for n in names if n in tree.nodes for w in ('ser', 'des', 'ann', 'warn')]

    def judge(when):
        for k in KINDS:
            items = tree.items[k]
            if items and states[k] is not None:
                states[k] = final_states(states[k], items)
                if states[k] is None:
                    run.probe('too many possible states')
            tree.items[k] = []
            obs, tree.obs[k] = tree.obs[k], []
            for node, key, val in obs:
                if states[k] is None:
                    continue
                if node in unsure:
                    continue
                left = {s for s in states[k] if predict(s, k, node, key) == val}
                if not left:
                    want = sorted({repr(predict(s, k, node, key)) for s in states[k]})
                    raise engine.Violation('not isolated', f'{when}: {k} of {key!r} on {node} (child of {tree.parent[node]}) is '
                                           f'{val!r}, expected {" or ".join(want)}')
                states[k] = left
    for i, ph in enumerate(run.sc['phases']):
        tree.touched = {}
        run.note('phase', i, ph)
        run.simulate([(f't{j}', worker(t)) for j, t in enumerate(ph['threads'])], serial=len(ph['threads']) == 1,
                     gran='none' if len(ph['threads']) == 1 else None)
        # What was probed during the phase counts for nodes that the phase did not change.
        unsure = set(tree.touched)
        new = {op['node'] for t in ph['threads'] for op in flat(t) if op['k'] == 'fork'}
        unsure |= new if len(ph['threads']) > 1 else set()
        judge(f'during phase {i}')
        unsure = set()
        run.simulate([('probe', worker(probes(ph['probes'])))], serial=True, gran='none')
        judge(f'after phase {i}')
    run.simulate([('probe', worker(probes(list(tree.nodes))))], serial=True, gran='none')
    judge('at the end')
    run.stats['nontrivial'] = len(tree.nodes) > 2
    run.probe(f'forks: {min(len(tree.nodes) - 2, 8)}')
    if any(s is not None and len(s) > 1 for s in states.values()):
        run.probe('several possible states at the end')


def flat(ops):
    for op in ops:
        yield op
        for n in (op.get('nested') or {}).values():
            yield from flat(n)


def simplify(sc):
    ps = sc['phases']
    if len(ps) > 1:
        for p in engine.drop_each(ps):
            yield dict(sc, phases=p)
    for i, p in enumerate(ps):
        ts = p['threads']

        def put(t):
            return dict(sc, phases=ps[:i] + [dict(p, threads=t)] + ps[i + 1:])
        if len(ts) > 1:
            for t in engine.drop_each(ts):
                yield put(t)
        for j, t in enumerate(ts):
            for u in engine.drop_each(t):
                yield put(ts[:j] + [u] + ts[j + 1:])
            for m, op in enumerate(t):
                for o in c04.smaller(op):
                    yield put(ts[:j] + [t[:m] + [o] + t[m + 1:]] + ts[j + 1:])
        for q in engine.drop_each(p['probes']):
            yield dict(sc, phases=ps[:i] + [dict(p, probes=q)] + ps[i + 1:])
