"""Typed trees in which every type can have a user callback, and a reference model that
tells, without the library, which callbacks a load or a dump must invoke, with which values.

Used by C13 (validators) and C14 (exactly once)."""
import datetime as dtm
import enum
import json
import random
import zlib
from collections import Counter, deque
from dataclasses import dataclass, field
from decimal import Decimal
from typing import Deque, Dict, FrozenSet, List, NamedTuple, Optional, Set, Tuple, Union

import attr

import core
import ops
import universe as U
from canon import canon

EVENT = lambda kind, label, value: None


def made(o):
    U.hook('ctor')
    EVENT('ctor', type(o).__name__, o)


class Kind(enum.Enum):
    ONE = 'one'
    TWO = 2
    SIX = 'SIX'


@dataclass
class It:
    n: int

    def __post_init__(self):
        made(self)


@dataclass
class Sub(It):
    m: int


@dataclass
class Al:
    w: str

    def __post_init__(self):
        made(self)


@dataclass
class Two:
    n: int

    def __post_init__(self):
        made(self)


@dataclass(frozen=True)
class Ky:
    a: int
    b: str

    def __post_init__(self):
        made(self)


@dataclass
class Pr:
    left: It
    right: Optional[Al]
    q: Decimal

    def __post_init__(self):
        made(self)


@dataclass
class Bg:
    items: List[It]
    by: Dict[str, Al]
    alt: Union[It, Al]
    tup: Tuple[It, str]
    deep: Optional[List[Pr]] = None

    def __post_init__(self):
        made(self)


@dataclass
class Kd:
    keyed: Dict[Ky, It]
    kinds: List[Kind]
    when: dtm.datetime

    def __post_init__(self):
        made(self)


class Lt:
    """Annotated attributes that the constructor does not take."""
    note: Al
    rows: List[It]
    mark: dtm.datetime

    def __init__(self, code: int):
        self.code = code
        made(self)


class Sl:
    __slots__ = ('a', 'b')

    def __init__(self, a: It, b: int):
        self.a, self.b = a, b
        made(self)


class Nt(NamedTuple):
    a: It
    b: int


@dataclass
class Ho:
    """Holds instances of a subclass when it is dumped."""
    base: It
    many: List[It]

    def __post_init__(self):
        made(self)


@attr.s(auto_attribs=True)
class At:
    x: It
    y: Tuple[int, ...]

    def __attrs_post_init__(self):
        made(self)


class Pp:
    """With properties."""

    def __init__(self, n: int):
        self.n = n
        made(self)

    @property
    def twice(self):
        U.hook('prop')
        EVENT('prop', 'twice', self.n)
        return 2 * self.n

    @property
    def item(self):
        U.hook('prop')
        EVENT('prop', 'item', self.n)
        return Al(f'of{self.n}')


INT, STR, DEC, DT, KIND = ['int'], ['str'], ['dec'], ['dt'], ['kind']
FIELDS = {'It': {'n': INT}, 'Sub': {'n': INT, 'm': INT}, 'Al': {'w': STR}, 'Two': {'n': INT}, 'Ky': {'a': INT, 'b': STR},
          'Pr': {'left': ['c', 'It'], 'right': ['opt', ['c', 'Al']], 'q': DEC},
          'Bg': {'items': ['list', ['c', 'It']], 'by': ['dict', ['c', 'Al']], 'alt': ['union', ['c', 'It'], ['c', 'Al']],
                 'tup': ['tuple', ['c', 'It'], STR], 'deep': ['opt', ['list', ['c', 'Pr']]]},
          'Kd': {'keyed': ['kdict', ['c', 'It']], 'kinds': ['list', KIND], 'when': DT},
          'Lt': {'code': INT, 'note': ['c', 'Al'], 'rows': ['list', ['c', 'It']], 'mark': DT},
          'Sl': {'a': ['c', 'It'], 'b': INT}, 'Nt': {'a': ['c', 'It'], 'b': INT},
          'Ho': {'base': ['c', 'It'], 'many': ['list', ['c', 'It']]}, 'At': {'x': ['c', 'It'], 'y': ['vtuple', INT]},
          'Pp': {'n': INT}}
CLS = {c.__name__: c for c in (It, Sub, Al, Two, Ky, Pr, Bg, Kd, Lt, Sl, Nt, Ho, At, Pp)}
FLAT = ('It', 'Sub', 'Al', 'Two', 'Ky')
TYPE = dict(CLS, int=int, str=str, dec=Decimal, dt=dtm.datetime, kind=Kind, list=list, dict=dict, tuple=tuple, set=set, none=type(None))
PRIM = ('int', 'str', 'dec', 'dt', 'kind')
PARENT = {'Sub': 'It', 'Nt': 'tuple'}
HINTED = {'Lt': ('note', 'rows', 'mark'), 'Sl': ()}        # hints that a dump can see; default: all fields


def hint(s):
    k = s[0]
    if k == 'c':
        return CLS[s[1]]
    if k == 'udts':
        return List
    if k in TYPE and len(s) == 1:
        return TYPE[k]
    a = [hint(x) for x in s[1:]]
    return {'list': lambda: List[a[0]], 'vtuple': lambda: Tuple[a[0], ...], 'tuple': lambda: Tuple[tuple(a)],
            'dict': lambda: Dict[str, a[0]], 'kdict': lambda: Dict[Ky, a[0]],
            'pdict': lambda: Dict[a[0], a[1]], 'set': lambda: Set[a[0]],
            'fset': lambda: FrozenSet[a[0]], 'deque': lambda: Deque[a[0]], 'opt': lambda: Optional[a[0]],
            'union': lambda: Union[tuple(a)]}[k]()


def schema(r, depth=2, strict=False):
    c = r.random()
    if depth == 0 or c < 0.4:
        if r.random() < 0.8:
            return ['c', r.choice(['It', 'It', 'Al', 'Two', 'Pr', 'Pr', 'Bg', 'Kd', 'At' if strict else 'Lt', 'Sl', 'Nt', 'At', 'Sub', 'Ho',
                                   'Pp'])]
        return [r.choice(PRIM + ('udts',))]
    e = schema(r, depth - 1, strict)
    k = r.choice(['list', 'list', 'list', 'vtuple', 'tuple', 'dict', 'dict', 'kdict', 'pdict', 'set', 'fset', 'deque', 'opt', 'union'])
    if k in ('set', 'fset'):
        e = r.choice([INT, STR, KIND, DT])
    if k == 'tuple':
        return [k, e, schema(r, depth - 1, strict)]
    if k == 'pdict':
        return [k, r.choice([DT, DEC, KIND]), e]
    if k == 'opt' and e[0] in ('opt', 'union'):
        return e
    if k == 'union':
        return r.choice([['union', ['c', 'It'], ['c', 'Al']], ['union', ['c', 'It'], ['c', 'Two']],
                         ['union', ['c', 'Pr'], ['c', 'It'], ['c', 'Two']], ['union', ['c', 'Al'], ['c', 'Two'], ['c', 'It']]])
    return [k, e]


class Gen:
    """Values whose parts are (mostly) different from each other."""

    def __init__(self, r, base):
        self.r, self.n = r, base

    def num(self):
        self.n += 1
        return self.n

    def size(self):
        return self.r.choice([0, 1, 2, 2, 3, 5])

    def __call__(self, s, dump=False):
        k, r = s[0], self.r
        if k == 'c':
            f = {a: self(t, dump) for a, t in FIELDS[s[1]].items()}
            if s[1] == 'Ho' and dump:
                if r.random() < 0.7:
                    f['base'] = Sub(self.num(), self.num())
                f['many'] = [Sub(self.num(), self.num()) if i % 2 else x for i, x in enumerate(f['many'])]
            return build(s[1], f)
        if k == 'int':
            return self.num()
        if k == 'str':
            return f'w{self.num()}'
        if k == 'dec':
            return Decimal(self.num()) / 8
        if k == 'dt':
            return dtm.datetime(2020, 1, 1, tzinfo=U.UTC) + dtm.timedelta(minutes=self.num())
        if k == 'kind':
            return r.choice(list(Kind))
        if k == 'udts':                 # a list without a type, of texts that are timestamps
            return [self(DT) for _ in range(self.size())]
        if k == 'opt':
            return None if r.random() < 0.25 else self(s[1], dump)
        if k == 'union':
            return self(s[1] if dump else r.choice(s[1:]), dump)
        if k == 'tuple':
            return tuple(self(x, dump) for x in s[1:])
        if k == 'pdict':
            return {self(s[1], dump): self(s[2], dump) for _ in range(self.size())}
        items = [self(s[1], dump) for _ in range(self.size())]
        if k == 'list':
            return items
        if k == 'dict':
            return {f'k{self.num()}': x for x in items}
        if k == 'kdict':
            return {Ky(self.num(), 'x'): x for x in items}
        return {'vtuple': tuple, 'set': set, 'fset': frozenset, 'deque': deque}[k](items)


def build(name, f):
    if name == 'Lt':
        o = Lt(f['code'])
        o.note, o.rows, o.mark = f['note'], f['rows'], f['mark']
        return o
    return CLS[name](**f)


def straight(s):
    """No alternatives anywhere in s."""
    return s[0] not in ('opt', 'union') and all(straight(x) for x in (FIELDS[s[1]].values() if s[0] == 'c' else s[1:]))


def doc(s, v):
    """The document of the value v of schema s."""
    k = s[0]
    if v is None:
        return None
    if k == 'c':
        return {a: doc(t, getattr(v, a)) for a, t in FIELDS[s[1]].items()}
    if k in ('int', 'str'):
        return v
    if k == 'dec':
        return str(v)
    if k == 'dt':
        return v.strftime('%Y-%m-%dT%H:%M:%SZ')
    if k == 'kind':
        return v.name
    if k == 'udts':
        return [doc(DT, x) for x in v]
    if k == 'opt':
        return doc(s[1], v)
    if k == 'union':
        return doc(next(m for m in s[1:] if m[0] == 'c' and type(v) is CLS[m[1]]), v)
    if k == 'tuple':
        return [doc(t, x) for t, x in zip(s[1:], v)]
    if k == 'dict':
        return {a: doc(s[1], x) for a, x in v.items()}
    if k == 'pdict':
        return {doc(s[1], a): doc(s[2], x) for a, x in v.items()}
    if k == 'kdict':
        if not v:
            return {}
        return {'-keys': {str(i): {'a': x.a, 'b': x.b} for i, x in enumerate(v)},
                **{str(i): doc(s[1], x) for i, x in enumerate(v.values())}}
    return [doc(s[1], x) for x in v]


def seen(kind, v):
    """What an event records of the value v; the keys of hashed keys do not matter."""
    def free(d):
        if isinstance(d, list):
            return [free(x) for x in d]
        if isinstance(d, dict) and '-keys' in d:
            return ['-keys'] + sorted([[free(k), free(d.get(h, d.get(str(h))))] for h, k in d['-keys'].items()], key=repr)
        return {a: free(x) for a, x in d.items()} if isinstance(d, dict) else d
    return canon(free(v) if kind == 'des' else v)


# ------------------------------------------------------------------ registrations
class Quit(BaseException):
    """Not an Exception."""


def _raise(e):
    raise e


NO = {'false': lambda: False, 'zero': lambda: 0, 'none': lambda: None, 'empty': lambda: '',
      'value': lambda: _raise(ValueError('no good')), 'bare': lambda: _raise(ValueError()),
      'key': lambda: _raise(KeyError('k')), 'assert': lambda: _raise(AssertionError()),
      'stop': lambda: _raise(StopIteration(3)), 'rec': lambda: _raise(RecursionError('deep')),
      'mem': lambda: _raise(MemoryError()), 'user': lambda: _raise(ops.Custom('no', 1)), 'val': None, 'des': None,
      'quit': lambda: _raise(Quit())}
YES = {'true': True, 'one': 1, 'text': 'False', 'list': [0]}


class Registry:
    """What is registered, fork by fork: the reference model of the registrations."""

    def __init__(self):
        self.tab = {'G': {}}            # fork -> (kind, type) -> label
        self.hist = {}                  # (fork, type) -> [label, from, to] of the validators over time

    def fork(self, new, of):
        self.tab[new] = dict(self.tab[of])

    def put(self, fork, kind, name, label):
        self.tab[fork][(kind, name)] = label

    def get(self, fork, kind, name):
        t = self.tab[fork]
        return t.get((kind, name)) or (t.get((kind, PARENT[name])) if name in PARENT else None)


class World:
    """The library with callbacks on many types in several forks."""

    def __init__(self, lib, run):
        self.lib, self.run = lib, run
        self.reg = Registry()
        self.forks = {'G': None}        # G: the default one
        self.hows = {}                  # label -> how the callback works
        self.events = {}                # operation -> [(kind, label, value), ...]
        self.wrong = []                 # callbacks invoked in the wrong context
        self.context = {}               # operation -> (fork, options)
        self.verdicts = {}              # label -> policy
        self.count = Counter()
        self.nested = {}
        global EVENT
        EVENT = self.event
        U.HOOK, U.LIB = self.hook, lib

    def hook(self, tag):
        core.pause(tag)
        s = core.sim
        n = self.nested.get(s.cur.op) if s is not None and s.cur is not None else None
        if n:
            n[0] -= 1
            if n[0] == 0:
                n[1]()

    def op(self):
        s = core.sim
        return s.cur.op if s is not None and s.cur is not None else None

    def event(self, kind, label, value, extra=None):
        op = self.op()
        if op is not None:
            self.events.setdefault(op, []).append((kind, label, seen(kind, value), extra))

    def fork_kw(self, fork):
        return {} if fork == 'G' else {'fork_inst': self.forks[fork]}

    # -------------------------------------------------------- making registrations
    def fork(self, new, of):
        self.forks[new] = self.lib.fork(**self.fork_kw(of), name=new)
        self.reg.fork(new, of)

    def register(self, kind, name, fork, how='leaf', policy=None, label=None, only=False):
        label = label or f'{kind} {name} {fork} {len(self.reg.tab[fork])}'
        f = getattr(self, '_' + kind)(name, label, how)
        self.hows[label] = how
        lib, kw = self.lib, self.fork_kw(fork)
        if kind == 'val':
            self.verdicts[label] = policy or {}
            lib.set_validator(f, TYPE[name], **kw)
        else:
            {'ser': lib.set_serializer, 'des': lib.set_deserializer}[kind](f, TYPE[name], **kw)
        self.reg.put(fork, kind, name, label)
        return label

    def check_context(self, label, kw):
        op = self.op()
        kind = label.split()[0]
        if (op, kind) not in self.context:
            return
        fork, opts = self.context[(op, kind)]
        given = kw.get('fork_inst')
        if given is None or (given in self.forks.values() if fork == 'G' else given is not self.forks[fork]):
            self.wrong.append((op, label, 'fork_inst', repr(given), fork))
        for k, v in opts.items():
            w = kw.get(k, '(absent)')
            if k == 'key_transformer':
                if label.split()[:2] in (['des', x] for x in ('str', 'dt', 'dec', 'kind')):
                    continue  # the key of a dict, transformed already
                if not callable(w) or w('two_words') != v('two_words'):
                    self.wrong.append((op, label, k, repr(w), repr(v)))
            elif w != v:
                self.wrong.append((op, label, k, repr(w), repr(v)))

    def _ser(self, name, label, how):
        lib = self.lib

        def ser(o, **kw):
            U.hook('ser')
            self.event('ser', label, o)
            self.check_context(label, kw)
            if how == 'deleg':
                return lib.default_object_serializer(o, **kw)
            return plain(name, o)
        return ser

    def _des(self, name, label, how):
        lib = self.lib

        def des(o, cls=None, **kw):
            U.hook('des')
            self.event('des', label, o)
            self.check_context(label, kw)
            if how == 'deleg':
                return lib.default_object_deserializer(o, cls, **kw)
            return unplain(name, o)
        return des

    def _val(self, name, label, how):
        def val(o):
            U.hook('val')
            verdict = self.verdict(label, o)
            self.event('val', label, o, verdict)
            U.hook('val')
            if verdict:
                return YES[self.verdicts[label].get('yes', 'true')]
            no = self.verdicts[label]['no']
            self.run.mark('reject', 'validator rejects (' + no + ')')
            if no == 'val':
                raise self.lib.ValidationError('no good')
            if no == 'des':
                raise self.lib.DeserializationError('no good', o, None)
            return NO[no]()
        return val

    def verdict(self, label, o, pure=False):
        p = self.verdicts[label]
        if p.get('mod'):
            return zlib.crc32(f'{p["salt"]}/{canon(o)!r}'.encode()) % p['mod'] != 0
        if p.get('nth') and not pure:
            self.count[label] += 1
            return self.count[label] not in p['nth']
        return True


def plain(name, o):
    if name in CLS:
        return {a: doc(t, getattr(o, a)) for a, t in FIELDS[name].items()}
    return doc([name], o)


def unplain(name, o):
    if name in CLS:
        return CLS[name](**{a: undoc(t, o[a]) for a, t in FIELDS[name].items()})
    return undoc([name], o)


def undoc(s, o):
    k = s[0]
    if k == 'int':
        return int(o)
    if k == 'dec':
        return Decimal(o)
    if k == 'dt':
        return dtm.datetime.strptime(o, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=U.UTC)
    if k == 'kind':
        return Kind[o]
    return o


# ------------------------------------------------------------------ the reference model
class Fail(Exception):
    """The load must fail: 'val' with a ValidationError, 'des' with a DeserializationError,
    'base' with whatever the validator raised."""


class Absent(Fail):
    pass


class Model:
    """What a load or dump in the given fork must do: its result and its events."""

    def __init__(self, world, fork, strict=False):
        self.w, self.fork, self.strict = world, fork, strict
        self.events = []
        self.accept = False             # suppose that every validator accepts

    def label(self, kind, name):
        return self.w.reg.get(self.fork, kind, name)

    def how(self, label):
        return self.w.hows.get(label, 'leaf')

    def add(self, kind, label, value):
        self.events.append((kind, label, seen(kind, value)))

    # -------------------------------------------------------- loads
    def check(self, name, v):
        label = self.label('val', name)
        if label:
            self.add('val', label, v)
            if not self.accept and not self.w.verdict(label, v, pure=True):
                no = self.w.verdicts[label]['no']
                raise Fail('base' if no == 'quit' else 'val')
        return v

    def load(self, s, d, warn=False, getters=None):
        k = s[0]
        if k == 'opt':
            return self.load(['union', s[1], None], d, getters=getters)
        if k == 'union':
            for m in s[1:]:
                if (m is None) != (d is None):
                    continue
                try:
                    return self.load(m, d, getters=getters) if m else self.check('none', None)
                except Fail as e:
                    if e.args[0] == 'base':
                        raise
            raise Fail('des')
        if k in PRIM:
            if k in ('int', 'str') and not self.strict:
                return self.check(k, d)
            label = self.label('des', k)
            if label:
                self.add('des', label, d)
            return self.check(k, undoc(s, d))
        if k == 'udts':
            items = []
            for x in d:
                try:
                    items.append(self.check('str', self.stamp(x)))
                except Fail as e:
                    if not warn or e.args[0] == 'base':
                        raise
            return self.check('list', items)
        if k == 'c':
            return self.check(s[1], self.obj(s[1], d, getters))
        if k == 'tuple':
            return self.check('tuple', tuple([self.load(t, x, getters=getters) for t, x in zip(s[1:], d)]))
        if k == 'vtuple':
            return self.check('tuple', tuple([self.load(s[1], x, getters=getters) for x in d]))
        if k == 'dict':
            out = {}
            for a in d:
                key = self.load(STR, a)
                out[key] = self.load(s[1], d[a], getters=getters)
            return self.check('dict', out)
        if k == 'pdict':
            out = {}
            for a in d:
                key = self.load(s[1], a)
                out[key] = self.load(s[2], d[a], getters=getters)
            return self.check('dict', out)
        if k == 'kdict':
            keys = {i: self.load(['c', 'Ky'], d['-keys'][i]) for i in d.get('-keys', {})}
            out = {keys[i]: self.load(s[1], d[i]) for i in d if i != '-keys'}
            return self.check('dict', out)
        items = []
        for x in d:
            try:
                items.append(self.load(s[1], x, getters=getters))
            except Fail as e:
                if not warn or e.args[0] == 'base':
                    raise
        if k == 'list':
            return self.check('list', items)
        v = {'set': set, 'fset': frozenset, 'deque': deque}[k](items)
        return self.check(k, v) if k == 'set' else v

    def stamp(self, x):
        """A text for which no type is known."""
        label = self.label('des', 'str')
        if label:
            self.add('des', label, x)
            return x
        return self.load(DT, x)

    def obj(self, name, d, getters):
        label = self.label('des', name)
        if label:
            self.add('des', label, d)
        over = {}
        if label and self.how(label) == 'leaf':
            name = label.split()[1]
            try:
                o = unplain(name, d)
            except KeyError:
                raise Fail('des') from None
        else:
            f = {}
            for a, t in FIELDS[name].items():
                if a in (getters or {}) and a not in d:
                    f[a] = getters[a](self)
                    continue
                if a not in d:
                    raise Absent('des')
                if name == 'Lt' and a != 'code':
                    continue
                f[a] = self.load(t, d[a])
            if name == 'Lt':
                self.add('ctor', 'Lt', Lt(f['code']))
                for a in ('note', 'rows', 'mark'):
                    f[a] = self.load(FIELDS[name][a], d[a])
            for a in (getters or {}):
                if a in d:
                    over[a] = getters[a](self)
            o = build(name, f)
        if name not in ('Nt', 'Lt'):
            self.add('ctor', name, o)
        for a in over:
            setattr(o, a, over[a])
        if name == 'It' and 'm' in d and not self.strict and not (label and self.how(label) == 'leaf'):
            o.m = self.load(INT, d['m'])  # a Sub dumped in the place of an It
        return o

    def walk(self, s, v):
        """(type, value) of all elements that a validator could be registered for."""
        k = s[0]
        if v is None:
            yield 'none', None
            return
        if k == 'opt':
            yield from self.walk(s[1], v)
            return
        if k == 'union':
            yield from self.walk(next((m for m in s[1:] if m[0] == 'c' and type(v) is CLS[m[1]]), s[1]), v)
            return
        if k == 'c':
            des = self.label('des', s[1])
            if not des or self.how(des) != 'leaf':
                for a, t in FIELDS[type(v).__name__].items():
                    yield from self.walk(t, getattr(v, a))
            yield s[1], v
            return
        if k in PRIM:
            yield k, v
            return
        if k == 'udts':
            for x in v:
                yield 'str', x
                if not self.label('des', 'str'):
                    yield 'dt', x
            yield 'list', v
            return
        if k in ('dict', 'kdict', 'pdict'):
            for a, x in v.items():
                yield from self.walk(STR if k == 'dict' else ['c', 'Ky'] if k == 'kdict' else s[1], a)
                yield from self.walk(s[-1], x)
        else:
            for i, x in enumerate(v):
                yield from self.walk(s[1 + i] if k == 'tuple' else s[1], x)
        name = {'kdict': 'dict', 'pdict': 'dict', 'vtuple': 'tuple'}.get(k, k)
        if name in TYPE:
            yield name, v

    # -------------------------------------------------------- dumps
    def elems(self, s, v, hinted, list_=False):
        """(schema, element, hinted) of the elements of a collection that is dumped."""
        ss = s[1:] if s[0] == 'tuple' else [s[1]] * len(v)
        if hinted and (self.strict or list_):
            return [(t, x, True) for t, x in zip(ss, v)]
        items = list(v)
        if self.strict and items and isinstance(v, (list, tuple, deque)) and type(items[0]).__name__ in CLS \
                and all(isinstance(x, type(items[0])) for x in items):
            return [(['c', type(items[0]).__name__], x, True) for x in items]
        return [(t, x, False) for t, x in zip(ss, items)]

    def dump(self, s, v, hinted, opts=()):
        """s: the schema; hinted: the library knows it (else it goes by the value)."""
        k = s[0]
        if v is None:
            return None
        if k == 'opt':
            return self.dump(s[1], v, hinted, opts)
        if k == 'union':
            return self.dump(next(m for m in s[1:] if type(v) is CLS[m[1]]), v, True, opts)
        if k in PRIM:
            label = self.label('ser', k)
            if label:
                self.add('ser', label, v)
            return doc(s, v)
        if k == 'c':
            name = s[1] if hinted else type(v).__name__
            label = self.label('ser', name)
            if label:
                self.add('ser', label, v)
            if label and self.how(label) == 'leaf':
                return plain(label.split()[1], v)
            if name == 'Nt':
                return {a: self.dump(t, getattr(v, a), False, opts) for a, t in FIELDS[name].items()}
            if not (self.strict and hinted):
                name = type(v).__name__
            out = {}
            hs = HINTED.get(name, tuple(FIELDS[name]))
            for a, t in FIELDS[name].items():
                x = getattr(v, a)
                if x is None and 'strip_nulls' in opts:
                    continue
                out[a] = self.dump(t, x, a in hs, opts)
            if name == 'Pp' and 'strip_properties' not in opts:
                self.add('prop', 'twice', v.n)
                self.add('prop', 'item', v.n)
                al = Al(f'of{v.n}')
                self.add('ctor', 'Al', al)
                out['twice'] = self.dump(INT, 2 * v.n, False, opts)
                out['item'] = self.dump(['c', 'Al'], al, False, opts)
            return out
        if k == 'udts':
            return [self.dump(DT, x, False, opts) for x in v]
        if k == 'dict':
            return {a: self.dump(s[1], x, False, opts) for a, x in v.items() if x is not None or 'strip_nulls' not in opts}
        if k == 'pdict':
            out = {}
            for a, x in v.items():
                if x is None and 'strip_nulls' in opts:
                    continue
                x = self.dump(s[2], x, False, opts)
                out[self.dump(s[1], a, False, opts)] = x
            return out
        if k == 'kdict':
            values, keys = [], []
            for a, x in v.items():
                if x is None and 'strip_nulls' in opts:
                    continue
                values.append(self.dump(s[1], x, False, opts))
                keys.append(self.dump(['c', 'Ky'], a, False, opts))
            return ('kdict', keys, values)
        return [self.dump(t, x, h, opts) for t, x, h in self.elems(s, v, hinted, k == 'list')]


def same_doc(s, want, got):
    """Whether a dumped document is the expected one (any order of sets, any hash keys)."""
    if isinstance(want, tuple):
        keys, values = want[1:]
        if not keys:
            return got == {}
        g = got.get('-keys')
        if not isinstance(g, dict) or len(g) != len(keys) or len(got) != len(values) + 1:
            return False
        pairs = [(g[h], got.get(h, got.get(str(h)))) for h in g]
        for k, v in zip(keys, values):
            hit = [p for p in pairs if same_doc(None, k, p[0]) and same_doc(None, v, p[1])]
            if not hit:
                return False
        return True
    if isinstance(want, dict):
        return isinstance(got, dict) and want.keys() == got.keys() and all(same_doc(None, want[k], got[k]) for k in want)
    if isinstance(want, list):
        if not isinstance(got, list) or len(want) != len(got):
            return False
        return all(same_doc(None, a, b) for a, b in zip(want, got)) or \
            sorted(map(repr, want)) == sorted(map(repr, got))
    return type(want) is type(got) and want == got
