"""C08: a failure in user code is contained and reported as a library error."""
import json
import multiprocessing
import random
import threading
from collections import deque
from dataclasses import dataclass
from typing import Deque, Dict, List, Optional, Tuple, Union

import core
import engine
import ops
import universe as U
from canon import canon, canon_json, diff

ID = 'C08'
LEVEL = 'fault_enumeration'
COUNTS = {'quick': 4000, 'thorough': 150000}
RULE = ('A run: 1-3 threads dump, load or call decorated functions with trees of objects (lists, dicts, tuples, deques, '
        'optionals, unions, nested objects); any subset of the callbacks (serializer, deserializer, validator, '
        'constructor, property, setter, getter, key transformer) fails at chosen values with one of 90 kinds of exceptions (with or without arguments, text, causes) or a '
        'falsy verdict; strict or not, warn_on_fail or not, 1-4 tasks, text, bytes or objects. A small reference '
        'implementation predicts result, failure and warnings; then everything is repeated without failures.')
REAL = ['all of /repo/jsons', 'typish', 'user callbacks']
STUB = ['thread scheduler', 'threading.Thread and locks', 'multiprocessing.Process and Manager']
ASSUMPTIONS = []


@dataclass(frozen=True)
class S:
    n: int


@dataclass(frozen=True)
class S2:
    s: int


class O:
    def __init__(self, n: int, s: S, o: Optional['O'] = None):
        event('ctor', n)
        self.n, self.s, self.o = n, s, o

    @property
    def p(self):
        event('prop', self.n)
        return self.n * 2

    @property
    def q(self):
        return self.n * 3

    @q.setter
    def q(self, v):
        event('set', self.n)

    def __repr__(self):
        s = core.sim
        if s is not None and s.cur is not None and STATE.get(s.cur.op, {}).get('ugly'):
            raise AttributeError('this object is not complete')
        return f'O({self.n})'


@dataclass
class T:
    items: List[S]
    table: Dict[str, S]
    pair: Tuple[S, S]
    many: Tuple[S, ...]
    opt: Optional[S]
    uni: Union[S, O, S2]
    obj: O
    objs: List[O]
    deq: Deque[S]
    grid: List[List[S]]


HINTS = {'T': T, 'O': O, 'S': S, 'lS': List[S], 'lO': List[O], 'lT': List[T], 'dO': Dict[str, O], 'tS': Tuple[S, ...],
         'oT': Optional[T], 'llS': List[List[S]], 'dlS': Dict[str, List[S]]}
DECL_T = {'items': 'lS', 'table': 'dS', 'pair': 'SS', 'many': 'tS', 'opt': 'oS', 'uni': 'u', 'obj': 'O', 'objs': 'lO',
          'deq': 'qS', 'grid': 'llS'}


# ------------------------------------------------------------------ failures
class Custom(Exception):
    pass


class Two(Exception):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b


class Mute(Exception):
    def __str__(self):
        raise RuntimeError('no text')


class Silent(Exception):
    def __init__(self, n):
        super().__init__(n)

    def __str__(self):
        return ''

    def __repr__(self):
        raise ValueError('no repr')


def chained(n, how):
    """An exception raised while another one (raised while a third one) was handled."""
    e, inner, root = Custom(n), KeyError('inner'), OSError('root')
    inner.__cause__ = inner.__context__ = root
    e.__context__ = inner
    if how == 'cause':
        e.__cause__ = inner
    elif how == 'none':
        e.__cause__ = None
    return e


LIB = None
EXC = {'value': lambda n: ValueError(f'bad {n}'), 'bare': lambda n: ValueError(), 'key': lambda n: KeyError('k'),
       'custom': lambda n: Custom(n), 'two': lambda n: Two(n, n), 'attr': lambda n: AttributeError('at'),
       'type': lambda n: TypeError('ty'), 'stop': lambda n: StopIteration(n), 'zero': lambda n: ZeroDivisionError('z'),
       'assert': lambda n: AssertionError(), 'os': lambda n: OSError(5, 'Input/output error'), 'mem': lambda n: MemoryError(),
       'rec': lambda n: RecursionError('deep'), 'empty': lambda n: RuntimeError(''), 'obj': lambda n: RuntimeError([n], {n: 1}),
       'unicode': lambda n: UnicodeDecodeError('utf-8', b'x', 0, 1, 'why'), 'notimpl': lambda n: NotImplementedError(),
       'group': lambda n: ExceptionGroup('g', [ValueError(n)]), 'index': lambda n: IndexError(n),
       'des': lambda n: LIB.DeserializationError('no', n, S), 'ser': lambda n: LIB.SerializationError('no'),
       'val': lambda n: LIB.ValidationError('no'), 'jsons': lambda n: LIB.JsonsError('no'),
       'timeout': lambda n: TimeoutError('t'), 'mute': lambda n: Mute(n), 'silent': lambda n: Silent(n),
       'cause': lambda n: chained(n, 'cause'), 'cause2': lambda n: chained(n, 'cause'), 'cause3': lambda n: chained(n, 'cause'),
       'context': lambda n: chained(n, 'context'), 'none context': lambda n: chained(n, 'none'),
       **{k: (lambda n, c=c: c(n)) for k, c in ops.ordinary().items()}}
FALSE = {'false': False, '0': 0, 'none': None, 'str': ''}
STATE = {}          # operation -> {'plan': .., 'raised': [..]}


def event(kind, ident):
    """Every callback of the workload: fails if the plan of the operation says so."""
    s = core.sim
    if s is None or s.cur is None:
        return None
    core.pause(kind)
    st = STATE.get(s.cur.op)
    if st is None:
        return None
    what = st['plan'].get(kind, {}).get(str(ident))
    if what is None:
        return None
    st['fired'].append(f'{kind}:{what}')
    if what in FALSE:
        return FALSE[what]
    e = EXC[what](ident)
    st['raised'].append(e)
    raise e


# ------------------------------------------------------------------ values
def gen(shape, r, ids, depth=2):
    """A description: nested lists/dicts of ['S', n], ['O', n, s, o] and {'T': ..}."""
    n = r.choice([0, 1, 2, 2, 3])
    if shape == 'S':
        return ['S', next(ids)]
    if shape == 'O':
        return ['O', next(ids), gen('S', r, ids), gen('O', r, ids, depth - 1) if depth > 0 and r.random() < 0.4 else None]
    if shape == 'oS':
        return gen('S', r, ids) if r.random() < 0.7 else None
    if shape == 'oT':
        return gen('T', r, ids)
    if shape == 'u':
        return r.choice([lambda: gen('S', r, ids), lambda: gen('O', r, ids, 0), lambda: ['S2', next(ids)]])()
    if shape == 'T':
        return {'T': {a: gen(s, r, ids, 1) for a, s in DECL_T.items()}}
    if shape == 'SS':
        return {'tuple': [gen('S', r, ids), gen('S', r, ids)]}
    if shape[0] in 'ltq':
        return {{'l': 'list', 't': 'tuple', 'q': 'deque'}[shape[0]]: [gen(shape[1:], r, ids, depth - 1) for _ in range(n)]}
    if shape[0] == 'd':
        return {'dict': {f'k{next(ids)}': gen(shape[1:], r, ids, depth - 1) for _ in range(n)}}
    raise KeyError(shape)


def build(d):
    """The Python value of a description (no failures here: outside of a run)."""
    if d is None:
        return None
    if isinstance(d, list):
        if d[0] == 'O':
            return O(d[1], build(d[2]), build(d[3]))
        return {'S': S, 'S2': S2}[d[0]](d[1])
    (k, v), = d.items()
    if k == 'T':
        return T(**{a: build(x) for a, x in v.items()})
    if k == 'dict':
        return {a: build(x) for a, x in v.items()}
    return {'list': list, 'tuple': tuple, 'deque': deque}[k]([build(x) for x in v])


# ------------------------------------------------------------------ the reference implementation
class Stop(Exception):
    """Fails; lost: it is not the first member of a union of which no member fits."""

    def __init__(self, kind='error', lost=False):
        super().__init__()
        self.kind, self.lost = kind, lost


class Model:
    def __init__(self, plan, o):
        self.plan, self.o, self.warns = plan, o, []
        self.strict, self.kt = o.get('strict', False), 'kt' in plan
        self.warn = o.get('warn_on_fail', False)

    def event(self, kind, ident):
        what = self.plan.get(kind, {}).get(str(ident))
        if what is not None:
            raise Stop('falsy' if what in FALSE else 'error')

    def key(self, k):
        if self.kt:
            self.event('kt', k)

    def dump(self, h, d):
        if d is None:
            return None
        if h in ('oS', 'oT'):
            return self.dump(h[1:], d)          # NoneType does not fit
        if h == 'u':
            return self.dump_union(d)
        if isinstance(d, list):
            if d[0] == 'S':
                self.event('ser', d[1])
                return {'s': d[1]}
            if d[0] == 'S2':
                self.key('s')
                return {'s': d[1]}
            return self.dump_obj('O', {'n': d[1], 'o': d[3], 'p': None, 'q': None, 's': d[2]}, d[1])
        (k, v), = d.items()
        if k == 'T':
            return self.dump_obj('T', {a: v[a] for a in sorted(v)}, None)
        if k == 'dict':
            out = {}
            for a, x in v.items():
                y = self.dump(h[1:] if h else None, x)
                self.key(a)
                out[a] = y
            return out
        return [self.dump(None if h in (None, 'SS') else h[1:], x) for x in v]

    def dump_obj(self, name, attrs, n):
        if self.strict:
            # The order of the attributes is not determined: neither is which one fails first.
            stops = []
            for a, x in attrs.items():
                try:
                    if a == 'p':
                        self.event('prop', n)
                    elif a not in 'nq':
                        self.dump(DECL_T.get(a) if name == 'T' else None, x)
                    self.key(a)
                except Stop as s:
                    stops.append(s)
            if stops:
                raise Stop(lost=any(s.lost for s in stops))
        out = {}
        for a, x in attrs.items():
            if a == 'p':
                self.event('prop', n)
                y = n * 2
            elif a == 'n':
                y = x
            elif a == 'q':
                y = n * 3
            else:
                try:
                    y = self.dump(DECL_T.get(a) if name == 'T' else None, x)
                except Stop:
                    if self.strict:
                        raise
                    self.warns.append(('attribute-not-serialized', name))
                    continue
            self.key(a)
            out[a] = y
        return out

    def dump_union(self, d):
        for m in ('S', 'O', 'S2'):
            try:
                if m == 'S':
                    if d[0] != 'S':
                        raise Stop
                    return self.dump('S', d)
                if m == d[0]:
                    return self.dump(m, d)
                if self.strict:
                    if not (m == 'S2' and d[0] == 'O'):
                        raise Stop          # has not the attributes of m
                    # An O has the attribute s; dumped as an S2 that is an S for an int.
                    raise Stop
                if d[0] == 'S':             # dumped like any object
                    self.key('n')
                    return {'n': d[1]}
                return self.dump(None, d)
            except Stop:
                pass
        raise Stop(lost=True)

    # ---- loading: doc is a JSON document; the value as a description
    def load(self, h, doc):
        if h == 'S':
            if not isinstance(doc.get('s'), int):
                raise Stop
            self.event('des', doc['s'])
            self.event('val', doc['s'])
            return ['S', doc['s']]
        if h == 'S2':
            self.keys(doc)
            if not isinstance(doc.get('s'), int):
                raise Stop
            return ['S2', doc['s']]
        if h == 'O':
            self.keys(doc)
            if 'n' not in doc:
                raise Stop
            s = self.load('S', doc['s'])
            o = self.load('O', doc['o']) if doc.get('o') is not None else None
            self.event('ctor', doc['n'])
            self.event('set', doc['n'])
            self.event('oval', doc['n'])
            return ['O', doc['n'], s, o]
        if h in ('oS', 'oT'):
            return None if doc is None else self.load(h[1:], doc)
        if h == 'u':
            for m in ('S', 'O', 'S2'):
                try:
                    return self.load(m, doc)
                except Stop:
                    pass
            raise Stop(lost=True)
        if h == 'T':
            self.keys(doc)
            return {'T': {a: self.load(s, doc[a]) for a, s in DECL_T.items()}}
        if h == 'SS':
            return {'tuple': [self.load('S', x) for x in doc]}
        if h[0] == 'd':
            out = {}
            for a, x in doc.items():
                self.key(a)
                out[a] = self.load(h[1:], x)
            return {'dict': out}
        if h[0] == 't':
            return {'tuple': [self.load(h[1:], x) for x in doc]}
        out = []
        warn, self.warn = self.warn, False          # only the outermost list tolerates
        for i, x in enumerate(doc):
            try:
                out.append(self.load(h[1:], x))
            except Stop:
                if not warn:
                    raise
                self.warns.append(('element-not-deserialized', f'at index {i}.'))
        self.warn = warn
        return {'list' if h[0] == 'l' else 'deque': out}

    def keys(self, doc):
        for k in doc:
            self.key(k)


def clean_doc(h, d):
    return Model({}, {}).dump(h, d)


# ------------------------------------------------------------------ scenarios
def generate(r, seed, tier):
    def op(ids):
        way = r.choice(['dump', 'dump', 'load', 'load', 'load', 'loaded', 'dumped', 'getter'])
        shape = r.choice(['T', 'T', 'T', 'O', 'lS', 'lO', 'lT', 'dO', 'tS', 'oT', 'llS', 'dlS', 'S'])
        if way in ('loaded', 'dumped'):
            shape = r.choice(['T', 'O', 'lS', 'lO', 'llS'])
        if way == 'getter':
            shape = 'O'
        d = gen(shape, r, ids)
        o = {}
        if way == 'dump' and r.random() < 0.35:
            o['strict'] = True
        if way in ('load', 'loaded') and r.random() < 0.45:
            o['warn_on_fail'] = True
        if shape in ('lS', 'lO', 'tS', 'llS') and way in ('dump', 'load') and r.random() < 0.5:
            o['tasks'] = r.choice([2, 3, 4])
            o['task_type'] = r.choice(['thread', 'thread', 'process'])
        nums = sorted(set(numbers(d)))
        plan = {}
        kinds = {'dump': ['ser', 'ser', 'ser', 'prop', 'kt'], 'load': ['des', 'des', 'val', 'ctor', 'set', 'oval', 'kt'],
                 'loaded': ['des', 'val', 'ctor', 'set', 'body'], 'dumped': ['ser', 'prop', 'body'], 'getter': ['getter', 'getter', 'ctor', 'set']}[way]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            kind = r.choice(kinds)
            es = list(EXC) + (list(FALSE) * 2 if kind in ('val', 'oval') else [])
            if r.random() < 0.4:
                es = ['value', 'bare', 'custom']
            if kind == 'set':       # (a setter may say with an AttributeError that there is none)
                es = [e for e in es if e not in ('attr', 'AttributeError')]
            p = plan.setdefault(kind, {})
            if kind == 'kt':
                ks = sorted(set(keys(clean_doc(None if way != 'load' else shape, d))))
                if ks:
                    p[r.choice(ks)] = r.choice(es)
            elif kind == 'body':
                p['0'] = r.choice(es)
            elif kind == 'getter':
                p[r.choice(['n', 'extra'])] = r.choice(es)
            else:
                for x in r.sample(nums, min(len(nums), r.choice([1, 1, 2, 30]))):
                    p[str(x)] = r.choice(es)
        if 'kt' not in plan and way in ('dump', 'load') and r.random() < 0.2:
            plan['kt'] = {}
        return {'way': way, 'shape': shape, 'd': d, 'o': o, 'plan': plan, 'form': r.choice(['', '', 's', 'b']), 'ugly': r.random() < 0.3}

    def counter():
        i = r.randrange(1000)
        while True:
            i += 1
            yield i
    return {'threads': [[op(counter()) for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 1, 2, 3]))]}


def numbers(d):
    if isinstance(d, list):
        yield d[1]
        for x in d[2:]:
            yield from numbers(x)
    elif isinstance(d, dict):
        for v in d.values():
            for x in (v.values() if isinstance(v, dict) else v):
                yield from numbers(x)


def keys(doc):
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield k
            yield from keys(v)
    elif isinstance(doc, list):
        for v in doc:
            yield from keys(v)


def kt(k):
    event('kt', k)
    return k


def as_text(x):
    try:
        return str(x)
    except Exception:
        return f'a {type(x).__name__}'


def chain(e):
    out = []
    while e is not None and len(out) < 50:
        out.append(e)
        e = e.__cause__
    return out


def run(run):
    global LIB
    import jsons
    import jsons.decorators as dec
    LIB = jsons
    sc = run.sc
    fork = jsons.fork(name='F')

    def ser(o, **kw):
        if not isinstance(o, S):
            raise TypeError('not an S')
        event('ser', o.n)
        return {'s': o.n}

    def des(o, cls, **kw):
        if not isinstance(o['s'], int):
            raise ValueError('not an S')
        event('des', o['s'])
        return S(o['s'])

    def val(o):
        return True if (res := event('val', o.n)) is None and not falsy('val', o.n) else res

    def oval(o):
        return True if (res := event('oval', o.n)) is None and not falsy('oval', o.n) else res

    def falsy(kind, n):
        st = STATE.get(core.sim.cur.op) if core.sim and core.sim.cur else None
        return st is not None and st['plan'].get(kind, {}).get(str(n)) in FALSE
    jsons.set_serializer(ser, S, fork_inst=fork)
    jsons.set_deserializer(des, S, fork_inst=fork)
    jsons.set_validator(val, S, fork_inst=fork)
    jsons.set_validator(oval, O, fork_inst=fork)
    kinds = {'thread': threading.Thread, 'process': multiprocessing.Process}
    problems = []

    def call(op, key):
        """Perform the operation: (function, its inputs)."""
        h = HINTS[op['shape']]
        kw = {'fork_inst': fork, **op['o']}
        if 'task_type' in kw:
            kw['task_type'] = kinds[kw['task_type']]
        if 'kt' in op['plan']:
            kw['key_transformer'] = kt
        v = build(op['d'])
        doc = clean_doc(op['shape'], op['d'])
        way, form = op['way'], op['form']
        bodies = []
        if way == 'dump':
            if form == '':
                return (lambda: jsons.dump(v, **kw)), bodies
            f = {'s': jsons.dumps, 'b': jsons.dumpb}[form]
            return (lambda: json.loads(f(v, **kw))), bodies
        if way == 'load':
            if form == '':
                return (lambda: jsons.load(doc, h, **kw)), bodies
            f = {'s': jsons.loads, 'b': jsons.loadb}[form]
            text = json.dumps(doc) if form == 's' else json.dumps(doc).encode()
            return (lambda: f(text, h, **kw)), bodies
        if way == 'getter':
            doc.pop('n')
            g = {'n': lambda: (event('getter', 'n'), op['d'][1])[1], 'extra': lambda: (event('getter', 'extra'), 5)[1]}
            return (lambda: jsons.load(doc, O, attr_getters=g, **kw)), bodies

        def body(a):
            bodies.append(1)
            event('body', 0)
            return v if way == 'dumped' else a
        if way == 'loaded':
            body.__annotations__ = {'a': h}
            f = dec.loaded(returnvalue=False, **kw)(body)
            return (lambda: f(doc)), bodies
        f = dec.dumped(parameters=False, **kw)(body)
        return (lambda: f(1)), bodies

    def predict(op, plan):
        m = Model(plan, op['o'])
        try:
            if op['way'] in ('dump', 'dumped'):
                if op['way'] == 'dumped':
                    m.event('body', 0)
                res = ('ok', canon_json(m.dump(op['shape'] if op['shape'] != 'oT' else 'T', op['d'])))
            elif op['way'] == 'getter':
                m.event('getter', 'n')
                d = m.load('O', clean_doc('O', op['d']))
                m.event('getter', 'extra')
                o = build(d)
                o.extra = 5
                res = ('ok', canon(o))
            else:
                d = m.load(op['shape'], clean_doc(op['shape'], op['d']))
                if op['way'] == 'loaded':
                    m.event('body', 0)
                res = ('ok', canon(build(d)))
        except Stop as s:
            res = ('err', s)
        return res, m.warns

    def judge(op, key, plan, out, warned, st, bodies):
        exp, warns = predict(op, plan)
        run.note(key, op['way'], op['shape'], op['o'], plan, op['form'], '->', as_text(out)[:160], warned)
        par = op['o'].get('tasks', 1) > 1
        proc = op['o'].get('task_type') == 'process'
        name = f'{key}: {op["way"]} of {op["shape"]} {op["d"]} {op["o"]} with failures {plan}'
        got = [(next((c for c in ('attribute-not-serialized', 'element-not-deserialized') if c in w), '?'), w) for _, w in warned]

        def bad(kind, text):
            raise engine.Violation(kind, f'{text}: {name}')
        body = op['way'] in ('loaded', 'dumped')
        if body:
            raised_in_body = plan.get('body') and bodies
            if raised_in_body:
                if out[0] != 'err' or out[1] is not st['raised'][-1]:
                    bad('body', f'the exception of the function itself became {as_text(out)}')
                return
        if exp[0] == 'ok':
            if out[0] != 'ok':
                bad('not tolerated', f'raised {as_text(out)}, expected {exp[1]}')
            c = canon_json(out[1]) if op['way'] in ('dump', 'dumped') else canon(out[1])
            if c != exp[1]:
                bad('result', f'returned {c}, expected {exp[1]} ({diff(exp[1], c)})')
        else:
            if out[0] == 'ok':
                bad('swallowed', f'returned {out[1]} although user code failed')
            e = out[1]
            want = jsons.SerializationError if op['way'] in ('dump', 'dumped') else jsons.JsonsError
            if not isinstance(e, want):
                bad('foreign error', f'{type(e).__name__} {as_text(e)} escapes')
            if not exp[1].lost and exp[1].kind == 'error' and not proc and st['raised'] and \
                    not any(x is y for x in chain(e) for y in st['raised']):
                bad('cause', f'the cause chain {as_text(chain(e))} has none of {as_text(st["raised"])}')
            if body and op['way'] == 'loaded' and bodies:
                bad('body', 'the function ran although its argument could not be loaded')
        if not par:
            if [g[0] for g in got] != [w[0] for w in warns]:
                bad('warnings', f'warnings {got} instead of {warns}')
            for (c, text), (_, part) in zip(got, warns):
                if part not in text:
                    bad('warnings', f'warning {text!r} does not mention {part!r}')
        elif exp[0] == 'ok' and not proc:
            if sorted(g[0] for g in got) != sorted(w[0] for w in warns):
                bad('warnings', f'warnings {got} instead of {warns}')

    built = {}
    for i, t in enumerate(sc['threads']):
        for j, op in enumerate(t):
            for plan, tag in ((op['plan'], ''), ({k: {} for k in op['plan']}, ' again')):
                key = f'{i}.{j}{tag}'
                built[key] = (op, plan) + call(op, key)
                STATE[key] = {'plan': plan, 'raised': [], 'fired': [], 'ugly': op.get('ugly')}
    outs = {}

    def worker(i, tag):
        def main():
            for j, op in enumerate(sc['threads'][i]):
                key = f'{i}.{j}{tag}'
                core.sim.cur.op = key
                engine.warned.pop(key, None)
                try:
                    outs[key] = ('ok', built[key][2]())
                except core.HarnessError:
                    raise
                except BaseException as e:      # noqa
                    outs[key] = ('err', e)
                core.sim.cur.op = None
        return main
    n = range(len(sc['threads']))
    run.simulate([(f't{i}', worker(i, '')) for i in n])
    run.simulate([(f't{i}', worker(i, ' again')) for i in n], gran='none')
    for key, (op, plan, f, bodies) in built.items():
        for x in STATE[key]['fired']:
            run.mark(x, x.split(':')[0] + ' fails')
        judge(op, key, plan, outs[key], engine.warned.get(key, []), STATE[key], bodies)


def simplify(sc):
    ts = sc['threads']
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        def put(x):
            return dict(sc, threads=ts[:i] + [x] + ts[i + 1:])
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield put(u)
        for j, op in enumerate(t):
            def op_(**k):
                return put(t[:j] + [dict(op, **k)] + t[j + 1:])
            for k in op['plan']:
                yield op_(plan={a: b for a, b in op['plan'].items() if a != k})
                for x in op['plan'][k]:
                    yield op_(plan=dict(op['plan'], **{k: {a: b for a, b in op['plan'][k].items() if a != x}}))
            for k in op['o']:
                if k != 'task_type':
                    yield op_(o={a: b for a, b in op['o'].items() if a != k})
            if op['form']:
                yield op_(form='')
            if op.get('ugly'):
                yield op_(ugly=False)
            (k, v), = op['d'].items() if isinstance(op['d'], dict) else ((None, None),)
            if k in ('list', 'tuple', 'deque'):
                for x in engine.drop_each(v):
                    yield op_(d={k: x})
            if k == 'dict':
                for a in v:
                    yield op_(d={k: {b: c for b, c in v.items() if b != a}})
            if k == 'T':
                for a, x in v.items():
                    if isinstance(x, dict) and len(x) == 1 and a != 'pair':
                        (kk, vv), = x.items()
                        if vv:
                            yield op_(d={'T': dict(v, **{a: {kk: [] if kk != 'dict' else {}}})})
