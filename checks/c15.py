"""C15: a verbose dump finds its own classes again, or the load says that it cannot."""
import importlib.abc
import importlib.machinery
import json
import random
import re
import sys
import threading
from dataclasses import dataclass, make_dataclass
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import core
import engine
import universe as U
from canon import canon

ID = 'C15'
LEVEL = 'exploration'
COUNTS = {'quick': 2000, 'thorough': 60000}
RULE = ('A run: 1-4 lives of a process (each starts without announcements; only dumped documents survive). In each life '
        '1-3 threads dump random objects verbosely (nested, subclasses in attributes, lists, dicts, unions, named tuples; '
        'importable and local classes; all verbosities, forks, key transformers), announce classes (also again, under other '
        'names, in forks), load documents of this life and the lives before without a target type, while modules cannot be '
        'imported for some time in various ways. Each result is compared with the object that was dumped.')
REAL = ['all of /repo/jsons', 'typish', 'importlib (import_module, sys.modules)']
STUB = ['thread scheduler', 'threading.Thread and locks', 'the finder of the modules of the workload (with import failures)',
        'death of a process (a new process without announcements and imported modules)']
ASSUMPTIONS = ['a class is identified by its module and simple name; of two classes announced under one name the last counts',
               'recorded are: the roots, all attributes, elements of lists, homogeneous values of a dict']


# ------------------------------------------------------------------ the classes of the workload
def data(module, name, fields, bases=()):
    c = make_dataclass(name, fields, bases=bases)
    c.__module__, c.__qualname__ = module, name
    return c


Item = data('depot.goods', 'Item', [('n', int)])
Box = data('depot.goods', 'Box', [('m', int)], (Item,))
Tag = data('depot.tags', 'Tag', [('w', str)])
Part = data('depot.parts.deep', 'Part', [('n', int)])
Cog = data('depot.parts.deep', 'Cog', [('t', int)], (Part,))
Hidden = data('depot.goods', 'Hidden', [('n', int)])        # not to be found in its module
Pair = NamedTuple('Pair', [('a', Part), ('b', int)])
Pair.__module__ = 'depot.parts.deep'
Loc1 = data('kiosk', 'Loc', [('n', int)])
Loc2 = data('kiosk', 'Loc', [('n', int)])                   # another class of the same name
Kid = data('kiosk', 'Kid', [('m', int)], (Loc1,))


class Crate:
    def __init__(self, item: Item, items: List[Item], by: Dict[str, Item], opt: Optional[Item], alt: Union[Item, Tag], extra):
        self.item, self.items, self.by, self.opt, self.alt, self.extra = item, items, by, opt, alt, extra


class Rig:
    def __init__(self, part: Part, two_words: Part, pair: Pair, nest: Dict[str, Dict[str, Item]], parts: Item):
        self.part, self.two_words, self.pair, self.nest, self.parts = part, two_words, pair, nest, parts


class Shop:
    def __init__(self, item: Item, loc: Loc1, locs: List[Loc1], loc_by: Dict[str, Loc1], hid: Hidden):
        self.item, self.loc, self.locs, self.loc_by, self.hid = item, loc, locs, loc_by, hid


class Bin:
    def __init__(self, nums: Dict[int, Item], tup: Tuple[Item, int], shelves: Dict[str, List[Item]], grid: List[List[Item]],
                 item: Item, name: str):
        self.nums, self.tup, self.shelves, self.grid, self.item, self.name = nums, tup, shelves, grid, item, name


class Wall:
    def __init__(self, rigs: Dict[str, Rig], crate: Optional[Crate], two: Tuple[Rig, int], alt: Union[Crate, Rig], walls: List['Wall'],
                 item: Item, big_rig: Optional[Rig] = None, row_of_all: Optional[Tuple[Item, Part, Item]] = None):
        self.rigs, self.crate, self.two, self.alt, self.walls, self.item = rigs, crate, two, alt, walls, item
        self.big_rig, self.row_of_all = big_rig, row_of_all


Bin.__module__ = Wall.__module__ = 'depot.goods'
Crate.__module__, Rig.__module__, Shop.__module__ = 'depot.goods', 'depot.parts.deep', 'kiosk'

CLS = {'Item': Item, 'Box': Box, 'Tag': Tag, 'Part': Part, 'Cog': Cog, 'Hidden': Hidden, 'Pair': Pair, 'Loc1': Loc1, 'Loc2': Loc2,
       'Kid': Kid, 'Crate': Crate, 'Rig': Rig, 'Shop': Shop, 'Bin': Bin, 'Wall': Wall}
NAME = {k: f'{c.__module__}.{c.__name__}' for k, c in CLS.items()}
MODULES = {'depot': {}, 'depot.parts': {}, 'depot.goods': {'Item': Item, 'Box': Box, 'Crate': Crate, 'Bin': Bin, 'Wall': Wall},
           'depot.tags': {'Tag': Tag},
           'depot.parts.deep': {'Part': Part, 'Cog': Cog, 'Pair': Pair, 'Rig': Rig}}
IMPORTABLE = {f'{m}.{n}': (m, c) for m, d in MODULES.items() for n, c in d.items()}
SIMPLE = {'Item': {'n': int}, 'Box': {'n': int, 'm': int}, 'Tag': {'w': str}, 'Part': {'n': int}, 'Cog': {'n': int, 't': int},
          'Hidden': {'n': int}, 'Loc1': {'n': int}, 'Loc2': {'n': int}, 'Kid': {'n': int, 'm': int}}
FAIL = {'missing': lambda m: None, 'import': lambda m: ImportError(f'cannot import {m}'), 'module': lambda m: ModuleNotFoundError(m),
        'disk': lambda m: OSError(5, 'Input/output error'), 'memory': lambda m: MemoryError(), 'syntax': lambda m: SyntaxError('bad'),
        'runtime': lambda m: RuntimeError('not now'), 'name': lambda m: NameError('x'), 'key': lambda m: KeyError('x'),
        'value': lambda m: ValueError('x'), 'attr': lambda m: AttributeError('x'), 'half': None, 'none': None, 'blocked': None}


class Depot(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Finds the modules of the workload, unless there is an outage."""

    def __init__(self, run):
        self.out, self.run, self.log = {}, run, []      # module -> kind; [(step, module, kind or None)]

    def find_spec(self, name, path=None, target=None):
        if name in MODULES and self.out.get(name) != 'missing':
            return importlib.machinery.ModuleSpec(name, self, is_package=name in ('depot', 'depot.parts'))
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        kind = self.out.get(module.__name__)
        if kind:
            self.run.mark('import', f'import failure ({kind})')
        if kind not in (None, 'half', 'none'):
            raise FAIL[kind](module.__name__)
        for n, c in MODULES[module.__name__].items():
            if kind == 'none':
                setattr(module, n, None)
            elif kind is None:
                setattr(module, n, c)

    def switch(self, name, kind):
        """Starts (kind) or ends (None) the outage of a module; it is imported afresh."""
        self.log.append((core.sim.step, name, kind))
        if kind:
            self.out[name] = kind
        else:
            self.out.pop(name, None)
        sys.modules.pop(name, None)
        if kind == 'blocked':
            sys.modules[name] = None

    def state(self, name, start, end):
        """All states (importable or not) of a module between two steps."""
        now, out = False, set()
        for step, m, kind in self.log:
            if m != name:
                continue
            if step > end:
                break
            if step >= start:
                out.add(now)
            now = bool(kind)
            if step >= start:
                out.add(now)
        return {not x for x in out | {now}}


# ------------------------------------------------------------------ values
def gen_flat(r, kinds):
    c = r.choice(kinds)
    return [c, {a: f'w{r.randrange(1000)}' if t is str else r.randrange(1000) for a, t in SIMPLE[c].items()}]


def gen_value(r, depth=2):
    c = r.choice(['Item', 'Box', 'Tag', 'Cog', 'Kid', 'Loc1', 'Loc2', 'Hidden', 'Crate', 'Crate', 'Rig', 'Rig', 'Shop', 'Shop', 'Bin', 'Bin',
                  'Wall'])
    if c == 'Wall' and depth < 1:
        c = 'Item'
    return gen_of(r, c, depth)


def gen_of(r, c, depth):
    if c in SIMPLE:
        return gen_flat(r, [c])
    item = ['Item', 'Box']
    loc = ['Loc1', 'Kid', 'Loc1', 'Loc2']

    def n():
        return r.choice([0, 1, 1, 2, 3])

    def by(kinds):
        k = r.choice(kinds)
        ks = ['', 'k/1', '/'] if r.random() < 0.1 else ['k0', 'k1', 'k2']
        return ['#dict', {ks[i]: gen_flat(r, [k]) for i in range(n())}]
    if c == 'Bin':
        def row():
            return ['#list', [gen_flat(r, item) for _ in range(n())]]
        f = {'nums': ['#idict', by(['Item'])[1]], 'tup': ['#tup', [gen_flat(r, item), 7]],
             'shelves': ['#dict', {f's{i}': ['#list', [gen_flat(r, item) for _ in range(n())]] for i in range(n())}],
             'grid': ['#list', [row() for _ in range(n())]], 'item': gen_flat(r, item), 'name': 'bin'}
        f['nums'][1] = {str(i): x for i, x in enumerate(f['nums'][1].values())}
        if r.random() < 0.3:
            f['later'] = gen_value(r, depth - 1) if depth > 0 else gen_flat(r, list(SIMPLE))
        return [c, f]
    if c == 'Wall':
        return [c, {'rigs': ['#dict', {f'r{i}': gen_of(r, 'Rig', depth - 2) for i in range(n())}],
                    'crate': gen_of(r, 'Crate', depth - 2) if r.random() < 0.5 else None,
                    'two': ['#tup', [gen_of(r, 'Rig', depth - 2), 4]], 'alt': gen_of(r, r.choice(['Crate', 'Rig']), depth - 2),
                    'walls': ['#list', [gen_of(r, 'Wall', depth - 2)] * r.choice([0, 0, 1]) if depth > 1 else []],
                    'item': gen_flat(r, item), 'big_rig': gen_of(r, 'Rig', depth - 2) if r.random() < 0.6 else None,
                    'row_of_all': ['#tup', [gen_flat(r, item), gen_flat(r, ['Part', 'Cog']), gen_flat(r, item)]]
                    if r.random() < 0.6 else None}]
    if c == 'Crate':
        extra = r.choice([None, 5, 'some', 'obj', 'obj'])
        return [c, {'item': gen_flat(r, item), 'items': ['#list', [gen_flat(r, item) for _ in range(n())]], 'by': by(item),
                    'opt': gen_flat(r, item) if r.random() < 0.6 else None, 'alt': gen_flat(r, ['Item', 'Box', 'Tag']),
                    'extra': (gen_value(r, depth - 1) if depth > 0 else gen_flat(r, list(SIMPLE))) if extra == 'obj' else extra}]
    if c == 'Rig':
        part = ['Part', 'Cog']
        f = {'part': gen_flat(r, part), 'two_words': gen_flat(r, part), 'pair': ['Pair', {'a': gen_flat(r, ['Part']), 'b': 3}],
             'nest': ['#dict', {f'x{i}': ['#dict', {f'y{j}': gen_flat(r, ['Item']) for j in range(n())}] for i in range(n())}],
             'parts': gen_flat(r, ['Item', 'Box'])}
        if r.random() < 0.6:
            f['later'] = gen_value(r, depth - 1) if depth > 0 and r.random() < 0.5 else gen_flat(r, list(SIMPLE))
        return [c, f]
    return [c, {'item': gen_flat(r, item), 'loc': gen_flat(r, loc), 'locs': ['#list', [gen_flat(r, loc) for _ in range(n())]],
                'loc_by': by(loc), 'hid': gen_flat(r, ['Hidden'])}]


def build(v):
    if not isinstance(v, list):
        return v
    k, x = v
    if k in ('#list', '#tuple', '#tup'):
        return (list if k == '#list' else tuple)(map(build, x))
    f = {a: build(b) for a, b in x.items()}
    if k in ('#dict', '#idict'):
        return f if k == '#dict' else {int(a): b for a, b in f.items()}
    later = f.pop('later', None)
    o = CLS[k](**f)
    if later is not None:
        o.later = later
    return o


def classes(v, out=None):
    """All classes (keys of CLS) in a value."""
    out = set() if out is None else out
    if isinstance(v, list):
        if v[0] in CLS:
            out.add(v[0])
        for x in v[1] if isinstance(v[1], list) else v[1].values():
            classes(x, out)
    return out


def wrong(v, o, is_class, path=''):
    """The first difference between the description v and the loaded object o, or None."""
    if not isinstance(v, list):
        return None if type(v) is type(o) and v == o else f'{path or "/"}: {o!r} instead of {v!r}'
    k, x = v
    if k in ('#list', '#tuple', '#tup'):
        if type(o) is not (tuple if k == '#tup' else list) or len(o) != len(x):
            return f'{path or "/"}: {show(o)} instead of a list of {len(x)}'
        return next(filter(None, (wrong(a, b, is_class, f'{path}/{i}') for i, (a, b) in enumerate(zip(x, o)))), None)
    if k == '#idict':
        k, o = '#dict', {str(a): b for a, b in o.items()} if type(o) is dict and {type(a) for a in o} <= {int} else None
    if k == '#dict':
        if type(o) is not dict or o.keys() != x.keys():
            return f'{path or "/"}: {show(o)} instead of a dict with {list(x)}'
        return next(filter(None, (wrong(x[a], o[a], is_class, f'{path}/{a}') for a in x)), None)
    if not is_class(k, type(o)):
        return f'{path or "/"}: {show(o)} instead of a {NAME[k]}'
    have = o._asdict() if k == 'Pair' else vars(o)
    if have.keys() != x.keys():
        return f'{path or "/"}: attributes {sorted(have)} instead of {sorted(x)}'
    return next(filter(None, (wrong(x[a], have[a], is_class, f'{path}/{a}') for a in x)), None)


def show(o):
    t = type(o)
    return engine.clean(f'a {t.__module__}.{t.__name__}: {o!r}'[:200])


# ------------------------------------------------------------------ scenarios
# Meta info that holds no classes:
BARE = [{}, {'classes': {}}, {'classes': None}, None, 5, 'x', [], {'dump_time': '2026-01-02T03:04:05Z'}, {'classes': {'/n': 'no.such'}},
        {'classes': []}, {'classes': {'/': None}}, 'time']
OPTS = [{}, {}, {}, {'kt': 1}, {'strip_nulls': 1}, {'kt': 1, 'strip_nulls': 1}]


def gen_op(r, docs, forks):
    k = r.choice(['dump', 'dump', 'load', 'load', 'load', 'load', 'announce', 'announce', 'craft', 'bare', 'plain', 'out', 'back', 'back'])
    fork = r.choice(forks)
    if k == 'load' and not docs:
        k = 'dump'
    if k in ('dump', 'plain'):
        v = gen_value(r)
        c = r.random()
        if c < 0.25:
            v = [r.choice(['#list', '#list', '#tuple']), [gen_value(r, 1) for _ in range(r.choice([1, 2, 3]))]]
        elif c < 0.33:
            v = ['#dict', {f'r{i}': gen_value(r, 1) for i in range(2)}]
        if k == 'plain':
            return {'k': k, 'v': v, 'fork': fork}
        docs.append(len(docs))
        return {'k': k, 'v': v, 'fork': fork, 'doc': docs[-1], 'o': r.choice(OPTS), 'verbose': r.choice(['yes', 'cls', 'all', 'one']),
                'way': r.choice(['dump', 'dumps', 'dumpb'])}
    if k == 'load':
        op = {'k': k, 'doc': r.choice(docs[-4:] if r.random() < 0.6 else docs), 'fork': fork, 'way': r.choice(['load', 'load', 'loads'])}
        if r.random() < 0.2:
            op['tasks'] = r.choice([2, 3])      # (threads: local classes cannot be pickled)
        return op
    if k == 'announce':
        c = r.choice(['Loc1', 'Loc2', 'Kid', 'Shop', 'Hidden', 'Loc1', 'Shop', 'Hidden', 'Item', 'Box', 'Cog', 'Rig', 'Crate', 'Pair', 'Tag',
                      'Part'])
        return {'k': k, 'c': c, 'fork': fork, 'name': r.choice([None, None, None, None, 'goodie', 'trinket', 'my.own.name'])}
    if k == 'bare':
        return {'k': k, 'v': gen_flat(r, list(SIMPLE)), 'fork': fork, 'meta': r.choice(BARE), 'typed': r.random() < 0.5,
                'inner': r.random() < 0.3, 'way': r.choice(['load', 'loads', 'loadb'])}
    if k == 'craft':
        v = gen_flat(r, ['Item', 'Loc1', 'Hidden', 'Tag'])
        return {'k': k, 'v': v, 'fork': fork, 'name': r.choice(['goodie', 'trinket', 'my.own.name', 'no.such.name', 'nothing',
                                                               NAME[v[0]], NAME[v[0]]])}
    m = r.choice(['depot.goods', 'depot.goods', 'depot.parts.deep', 'depot.tags', 'depot.parts', 'depot'])
    return {'k': k, 'm': m, 'how': r.choice(list(FAIL))}


def generate(r, seed, tier):
    docs, lives = [], []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        forks = ['G', 'F', 'H'][:r.choice([1, 1, 2, 3])]
        threads, new = [], []
        before = [gen_op(r, docs, ['G']) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        for _ in range(r.choice([1, 1, 2, 3])):
            mine = list(docs)
            mine_n = len(mine)
            t = []
            for _ in range(r.choice([1, 2, 3, 5])):
                op = gen_op(r, mine, forks)
                t.append(op)
            new.append((t, mine_n))
            threads.append(t)
        # documents of the threads get numbers of their own
        n = len(docs)
        for t, base in new:
            ren = {}
            for op in t:
                if op['k'] == 'dump':
                    ren[op['doc']] = n
                    op['doc'] = n
                    docs.append(n)
                    n += 1
                elif op['k'] == 'load':
                    op['doc'] = ren.get(op['doc'], op['doc'])
        out = {}
        if r.random() < 0.3:
            m = r.choice(['depot.goods', 'depot.parts.deep', 'depot.tags', 'depot'])
            out[m] = r.choice(list(FAIL))
        lives.append({'before': before, 'threads': threads, 'forks': [[f, r.choice(['G'] + forks[1:j])]
                                                                      for j, f in enumerate(forks) if j], 'out': out})
    return {'lives': lives}


# ------------------------------------------------------------------ one life of the process
class Life:
    def __init__(self, run, life, docs):
        import jsons
        self.lib, self.run, self.life, self.docs = jsons, run, life, docs
        self.forks = {'G': None}
        self.writes = []                # [fork, name, class, start, end, sure]
        self.depot = Depot(run)

    def kw(self, fork):
        f = self.forks.get(fork)
        return {} if f is None else {'fork_inst': f}

    def op(self, key, op):
        lib, k = self.lib, op['k']
        core.sim.cur.op = key
        start = core.sim.step
        kw = self.kw(op.get('fork', 'G'))
        fork = op.get('fork', 'G') if op.get('fork', 'G') in self.forks else 'G'
        if k in ('out', 'back'):
            self.depot.switch(op['m'], op['how'] if k == 'out' else None)
        elif k == 'announce':
            name = op['name'] or NAME[op['c']]
            w = [fork, name, CLS[op['c']], start, 1 << 60, True]
            self.writes.append(w)
            lib.announce_class(CLS[op['c']], *([op['name']] if op['name'] else []), **kw)
            w[4] = core.sim.step
            self.run.note(key, 'announce', op['c'], name, fork)
        elif k in ('dump', 'plain'):
            ws = self.writes_of(fork, op['v'], start)
            text = self.dump(op, kw)
            for w in ws:
                w[4] = core.sim.step
            self.run.note(key, k, op['v'], fork, text and text[:150])
            if k == 'dump':
                self.docs[op['doc']] = {'v': op['v'], 'o': op['o'], 'text': text}
        elif k == 'load':
            if op['doc'] in self.docs:
                self.load(key, op, self.docs[op['doc']], kw, fork, start)
        elif k == 'bare':
            self.bare(key, op, kw, fork, start)
        else:
            self.craft(key, op, kw, fork, start)

    def writes_of(self, fork, v, start):
        """The announcements that a dump of v makes or may make."""
        roots = set()
        if v[0] in CLS:
            roots = {v[0]}
        more = ('Item', 'Part', 'Loc1', 'Pair', 'Hidden', 'Tag', 'Crate', 'Rig', 'Wall') if classes(v) - set(SIMPLE) else ()
        new = [[fork, NAME[c], CLS[c], start, 1 << 60, False] for c in more]
        new += [[fork, NAME[c], CLS[c], start, 1 << 60, c in roots] for c in sorted(classes(v))]
        self.writes += new
        return new

    def dump(self, op, kw):
        lib = self.lib
        o = {}
        if op['k'] == 'dump':
            if op['o'].get('kt'):
                o['key_transformer'] = lib.KEY_TRANSFORMER_CAMELCASE
            if op['o'].get('strip_nulls'):
                o['strip_nulls'] = True
            vb = lib.Verbosity
            o['verbose'] = {'yes': True, 'cls': vb.WITH_CLASS_INFO, 'all': vb.WITH_EVERYTHING, 'one': 1}[op['verbose']]
        v = build(op['v'])
        way = op.get('way', 'dump')
        d = getattr(lib, way)(v, **o, **kw)
        return json.dumps(d) if way == 'dump' else d if way == 'dumps' else d.decode()

    def available(self, name, fork, start, end):
        """Whether the class of that name (surely, possibly) can be found, and which classes that may be."""
        found, sure, poss = set(), False, False
        if name in IMPORTABLE:
            module, c = IMPORTABLE[name]
            states = [self.depot.state(m, start, end) for m in (module, module.rpartition('.')[0], 'depot')]
            # (A parent package that was imported before does not matter, nor does a module in sys.modules.)
            if True in states[0]:
                poss = True
                found.add(c)
            if all(s == {True} for s in states):
                return True, True, {c}
        ws = [w for w in self.writes if w[1] == name and w[0] == fork and w[3] <= end]
        if any(w[4] < start and w[5] for w in ws):
            sure = True
        for w in ws:
            poss = True
            later = [x for x in ws if x[5] and x[3] > w[4] and x[4] < start]
            if not later:
                found.add(w[2])
        return sure, poss, found

    def judge(self, key, what, names, fork, start, end, check, got):
        """check(is_class): the first difference of the result."""
        info = {n: self.available(n, fork, start, end) for n in names}
        lost = sorted(n for n, (s, p, f) in info.items() if not p)
        if got[0] == 'ok':
            def is_class(k, t):
                return t in info[NAME[k]][2] if NAME[k] in info else t is CLS[k]
            if lost:
                raise engine.Violation('lost class', f'{what}: {lost} can neither be imported nor are announced; got {show(got[1])}')
            bad = check(is_class)
            if bad:
                raise engine.Violation('wrong object', f'{what}: {bad}')
            self.run.probe('object restored')
            return
        e = got[1]
        chain = [e]
        while chain[-1].__cause__ is not None and len(chain) < 20:
            chain.append(chain[-1].__cause__)
        if all(s for s, p, f in info.values()):
            raise engine.Violation('not found', f'{what}: all of {sorted(info)} are available, but: {type(e).__name__}: '
                                   f'{engine.clean(str(e))[:300]}')
        lib = self.lib
        known = any(isinstance(x, lib.exceptions.UnknownClassError) for x in chain)
        if not known:
            raise engine.Violation('wrong error', f'{what}: {type(e).__name__}: {engine.clean(str(e))[:300]}, but not an '
                                   f'UnknownClassError')
        self.run.probe('unknown class reported')

    def load(self, key, op, doc, kw, fork, start):
        lib = self.lib
        o = dict(kw)
        if doc['o'].get('kt'):
            o['key_transformer'] = lib.KEY_TRANSFORMER_SNAKECASE
        if op.get('tasks'):
            o.update(tasks=op['tasks'], task_type=threading.Thread)
        try:
            got = ('ok', lib.loads(doc['text'], **o) if op['way'] == 'loads' else lib.load(json.loads(doc['text']), **o))
        except core.HarnessError:
            raise
        except Exception as e:
            got = ('err', e)
        end = core.sim.step
        self.run.note(key, op, '->', show(got[1]))
        names = {NAME[c] for c in classes(doc['v'])}
        self.judge(key, f'{key} {op} of {doc["v"]}', names, fork, start, end, lambda ic: wrong(doc['v'], got[1], ic), got)

    def craft(self, key, op, kw, fork, start):
        d = dict(op['v'][1], **{'-meta': {'classes': {'/': op['name']}}})
        try:
            got = ('ok', self.lib.load(d, **kw))
        except core.HarnessError:
            raise
        except Exception as e:
            got = ('err', e)
        end = core.sim.step
        self.run.note(key, op, '->', show(got[1]))
        sure, poss, found = self.available(op['name'], fork, start, end)
        fits = {c for c in found if c in [CLS[x] for x in SIMPLE] and SIMPLE[next(a for a in CLS if CLS[a] is c)] == SIMPLE[op['v'][0]]}
        if found - fits:
            return                      # that class takes other attributes
        self.judge(key, f'{key} {op}', {op['name']}, fork, start, end,
                   lambda ic: None if type(got[1]) in fits and vars(got[1]) == op['v'][1] else show(got[1]), got)

    def bare(self, key, op, kw, fork, start):
        """A document with meta info that holds no class is a dict, or what the given type says."""
        lib, (c, attrs) = self.lib, op['v']
        self.writes.append([fork, NAME[c], CLS[c], start, 1 << 60, False])
        if op['meta'] == 'time':
            d = lib.dump(build(op['v']), verbose=lib.Verbosity.WITH_DUMP_TIME, **kw)
        else:
            d = dict(attrs, **{'-meta': op['meta']})
        d = [d] if op['inner'] else d
        load, x = (lib.load, d) if op['way'] == 'load' else (lib.loads, json.dumps(d)) if op['way'] == 'loads' else \
            (lib.loadb, json.dumps(d).encode())
        t = (List[CLS[c]] if op['inner'] else CLS[c]) if op['typed'] else None
        try:
            got = load(x, t, **kw)
        except core.HarnessError:
            raise
        except Exception as e:
            raise engine.Violation('bare meta', f'{key} {op}: {type(e).__name__}: {engine.clean(str(e))[:300]}')
        self.writes[-1][4] = core.sim.step
        self.run.note(key, op, '->', show(got))
        g = got[0] if op['inner'] and type(got) is list and len(got) == 1 else got
        have = dict(g) if type(g) is dict and not op['typed'] else vars(g) if type(g) is CLS[c] and op['typed'] else None
        if have is None or {a: b for a, b in have.items() if a != '-meta'} != attrs or g is got and op['inner']:
            raise engine.Violation('bare meta', f'{key} {op}: got {show(got)}')
        self.run.probe('meta info without classes')

    def main(self):
        sys.meta_path.insert(0, self.depot)
        life = self.life
        ops = []

        def before():
            for m, kind in life['out'].items():
                self.depot.switch(m, kind)
            for i, op in enumerate(life['before']):
                self.op(f'b.{i}', op)
            for f, of in life['forks']:
                of = of if of in self.forks else 'G'
                self.forks[f] = self.lib.fork(**self.kw(of), name=f)
                self.writes += [[f, *w[1:]] for w in self.writes if w[0] == of]
        self.run.simulate([('before', before)], serial=True)
        # Steps start again in the next simulation: all that was is at the very beginning.
        for w in self.writes:
            w[3], w[4] = -2, -1
        state = dict(self.depot.out)
        self.depot.log = [(-1, m, k) for m, k in state.items()]

        def worker(i):
            def main():
                for j, op in enumerate(life['threads'][i]):
                    self.op(f'{i}.{j}', op)
            return main
        self.run.simulate([(f't{i}', worker(i)) for i in range(len(life['threads']))], cap=3_000_000)


STATE = ('stats', 'trace', 'phase', 'out_decisions')


def run(run):
    sc, docs = run.sc, {}
    for i, life in enumerate(sc['lives']):
        run.note(f'life {i}', life['forks'], life['out'])

        def child():
            x = Life(run, life, docs)
            v = None
            try:
                x.main()
            except engine.Violation as e:
                v = (e.kind, e.msg, e.key)
            return v, x.docs, {a: getattr(run, a) for a in STATE}
        v, docs, state = engine.in_child(child)
        for a in STATE:
            setattr(run, a, state[a])
        if v:
            raise engine.Violation(*v)
        if i:
            run.mark('restart', 'restart of the process')


def simplify(sc):
    ls = sc['lives']
    if len(ls) > 1:
        for x in engine.drop_each(ls):
            yield dict(sc, lives=x)
    for i, life in enumerate(ls):
        def put(**kw):
            return dict(sc, lives=ls[:i] + [dict(life, **kw)] + ls[i + 1:])
        if len(life['threads']) > 1:
            for x in engine.drop_each(life['threads']):
                yield put(threads=x)
        for x in engine.drop_each(life['before']):
            yield put(before=x)
        for j, t in enumerate(life['threads']):
            for x in engine.drop_each(t):
                yield put(threads=life['threads'][:j] + [x] + life['threads'][j + 1:])
            for n, op in enumerate(t):
                for o in simpler(op):
                    yield put(threads=life['threads'][:j] + [t[:n] + [o] + t[n + 1:]] + life['threads'][j + 1:])
        for n, op in enumerate(life['before']):
            for o in simpler(op):
                yield put(before=life['before'][:n] + [o] + life['before'][n + 1:])
        if life['out']:
            yield put(out={})


def simpler(op):
    if op.get('tasks'):
        yield {k: v for k, v in op.items() if k != 'tasks'}
    if op.get('o'):
        yield dict(op, o={})
    v = op.get('v')
    if v and op['k'] in ('dump', 'plain'):
        if v[0] in ('#list', '#tuple'):
            for x in v[1]:
                yield dict(op, v=x)
        elif v[0] == '#dict':
            for x in v[1].values():
                yield dict(op, v=x)
        for a, x in (v[1].items() if isinstance(v[1], dict) else ()):
            if isinstance(x, list) and x[0] == '#list':
                for y in engine.drop_each(x[1]):
                    yield dict(op, v=[v[0], dict(v[1], **{a: ['#list', y]})])
            if isinstance(x, list) and x[0] == '#dict':
                for y in x[1]:
                    yield dict(op, v=[v[0], dict(v[1], **{a: ['#dict', {p: q for p, q in x[1].items() if p != y}]})])
            if a in ('extra', 'opt') and x is not None:
                yield dict(op, v=[v[0], dict(v[1], **{a: None})])
            if a == 'later':
                yield dict(op, v=[v[0], {p: q for p, q in v[1].items() if p != a}])
