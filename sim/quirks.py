"""Operations on less common classes and options: named tuples with defaults, plain named tuples,
setters, __slots__, generic classes, custom collections, bound options."""
import collections
import dataclasses
import datetime as dtm
import enum
import types
from decimal import Decimal
from pathlib import PurePosixPath
from typing import (Any, DefaultDict, Deque, Dict, Generic, Iterable, List, Mapping, NamedTuple, Optional, OrderedDict, Sequence,
                    Set, Tuple, TypeVar, Union)

import universe as U

T = TypeVar('T')


class Opts(NamedTuple):
    a: int
    b: Optional[List[int]] = None
    c: str = 'see'
    d: Optional[U.Pt] = None


Loose = collections.namedtuple('Loose', ['p', 'q'])


class Gauge:
    """A property with a setter, and an attribute that the constructor does not know."""
    unit = 'mm'

    def __init__(self, low: int = 0):
        self.low = low
        self._high = None

    @property
    def high(self) -> Optional[int]:
        U.hook('high')
        return self._high

    @high.setter
    def high(self, v):
        U.hook('set high')
        self._high = v


class Slots:
    __slots__ = ('m', 'n')

    def __init__(self, m: int, n: str = 'n'):
        self.m, self.n = m, n


class Pair(Generic[T]):
    def __init__(self, first: T, second: T):
        self.first, self.second = first, second


class Level(enum.Enum):
    LOW = 'low'
    HIGH = {'deep': [1]}
    ALSO = 3


class MyList(list):
    pass


class MyDict(dict):
    pass


@dataclasses.dataclass
class Defaults:
    name: str
    tags: List[str] = dataclasses.field(default_factory=list)
    table: Dict[str, List[int]] = dataclasses.field(default_factory=dict)
    pt: Optional[U.Pt] = None
    when: dtm.datetime = dtm.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dtm.timezone.utc)
    hidden: int = dataclasses.field(default=7, repr=False, compare=False)


@dataclasses.dataclass
class Ref:
    nxt: Optional['Ref'] = None
    many: Optional[List['Ref']] = None
    v: int = 0


class Shared:
    """Mutable defaults that all instances share."""

    def __init__(self, a: int = 1, tags: List[str] = ['t', 'u'], table: Optional[dict] = {'k': [1]}, pt: U.Pt = U.Pt(3, 4)):
        self.a, self.tags, self.table, self.pt = a, tags, table, pt


class Kw:
    def __init__(self, x: int, *rest, flag: bool = False, **more):
        self.x, self.rest, self.flag, self.more = x, rest, flag, more


class Abstract:
    def __init__(self, a=1, b: 'int' = 2):
        self.a, self.b = a, b


def nt(r, w):
    d = r.choice([[1], [1, None], [1, [2, 3]], [1, None, 'x'], [2, [], 'y', {'x': 1, 'y': 2}], {'a': 1}, {'a': 1, 'b': [4]},
                  [], {'b': []}, ['x']])
    return d, Opts


def loads_of(r, w):
    """(document, type)"""
    c = r.randrange(16)
    if c == 15:
        d = {'a': r.randrange(9), 'tags': ['x'], 'table': {}, 'pt': {'x': 1, 'y': 2}}
        for k in r.sample(list(d), r.randrange(5)):
            del d[k]
        return d, Shared
    if c == 0:
        return nt(r, w)
    if c == 1:
        return [nt(r, w)[0] for _ in range(3)], List[Opts]
    if c == 2:
        return {'low': r.randrange(9), 'high': r.choice([3, None, 'x']), 'other': [1]}, Gauge
    if c == 3:
        return {'m': r.choice([1, '2', 'x']), 'n': 'q'}, Slots
    if c == 4:
        return {'first': 1, 'second': r.choice(['2', 'x'])}, r.choice([Pair, Pair[int], Pair[str]])
    if c == 5:
        return r.choice(['LOW', 'low', 'ALSO', 3, {'deep': [1]}, 'nope']), Level
    if c == 6:
        d = {'name': 'n', 'tags': ['a'], 'table': {'k': [1, 2]}, 'pt': {'x': 1, 'y': 2}}
        for k in r.sample(list(d), r.randrange(4)):
            del d[k]
        return d, Defaults
    if c == 7:
        return {'v': 1, 'nxt': {'v': 2, 'many': [{'v': 3}, {'nxt': {'v': 'x'}}]}}, Ref
    if c == 8:
        return {'x': 1, 'flag': r.choice([True, 0]), 'y': 2}, Kw
    if c == 9:
        return {'a': 5, 'b': r.choice([1, 'x'])}, Abstract
    if c == 10:
        return [1, '2', 3.5], r.choice([Sequence[int], Iterable[int], Tuple, list, tuple, set, collections.deque, frozenset, MyList,
                                        Set[int], Deque[float], Any, None])
    if c == 11:
        return {'a': 1, 'b': {'c': [1, 2]}}, r.choice([dict, Dict, Mapping[str, Any], OrderedDict[str, Any], MyDict, None,
                                                       collections.OrderedDict, Dict[str, Any], collections.ChainMap])
    if c == 12:
        return r.choice(['2020-01-02', '2020-01-02T03:04:05Z', '1', 'null', 'None', '03:04:05', 1, 1.0, True, None, 'a/b']), r.choice(
            [Union[int, str], Optional[dtm.datetime], Union[dtm.date, dtm.time, str], Any, float, str, PurePosixPath, bool, Decimal])
    if c == 13:
        return {'-keys': {'k1': 1, 'k2': [1, 2]}, 'k1': 'a', 'k2': 'b'}, r.choice([Dict[Any, str], dict, None])
    n = r.choice(['quirks.Ref', 'alias.Ref'])
    return {'-meta': {'classes': {'/': n, '/nxt': n}}, 'v': 1, 'nxt': {'v': 2}}, r.choice([None, Ref, Any])


def dumps_of(r, w):
    """(value, options)"""
    g = Gauge(4)
    g.high = r.randrange(9)
    o = r.choice([{}, {}, {'strict': True}, {'strip_nulls': True}, {'strip_properties': True}, {'strip_class_variables': True},
                  {'strip_attr': ('b', 'pt')}, {'use_enum_name': False}, {'strip_privates': True}, {'verbose': True},
                  {'strip_microseconds': False}])
    d = Defaults('n', ['a', 'b'], {'k': [1]}, U.Pt(1, 2))
    cyc = Ref(v=1)
    v = r.choice([Opts(1), Opts(1, [2], 'x', U.Pt(1, 2)), [Opts(2, []), Opts(3)], Loose(1, U.Pt(1, 2)), g, Slots(1), Pair(1, U.Pt(2, 3)),
                  list(Level), Level.HIGH, d, Ref(Ref(Ref(None, [Ref()], 3), v=2)), Kw(1, 2, 3, flag=True, z=4), Abstract(),
                  MyList([1, U.Pt(1, 2)]), MyDict(a=U.Pt(1, 2)), types.MappingProxyType({'a': 1}), collections.OrderedDict(b=1, a=d),
                  collections.ChainMap({'a': 1}, {'b': 2}), collections.Counter('aab'), {1: 2, None: 3, U.Color.RED: 4, True: 5},
                  {U.Pt: 1}, (x for x in ()), {'a': {1, 2}, 'b': frozenset('x')}, bytearray(b'x'), memoryview(b'x'), cyc, [[], (), {}, None, '', 0],
                  U.Pt, Ref, len, 3 + 4j, 10 ** 40, float('inf')])
    return v, o


def build(op, lib, world):
    """(callable, inputs) of a quirk operation."""
    import random
    r = random.Random(op['v'])
    if r.random() < 0.5:
        doc, t = loads_of(r, world)
        kw = r.choice([{}, {}, {'strict': True}, {'key_transformer': lib.KEY_TRANSFORMER_SNAKECASE}, {'warn_on_fail': True}])
        if r.random() < 0.25:
            doc, t = [doc, doc], (List[t] if t is not None else list)
            if r.random() < 0.5:
                doc = [doc[0], doc[0]]
        if r.random() < 0.15 and isinstance(t, type) and t.__module__ == __name__:
            t = f'{__name__}.{t.__name__}'
        return (lambda: lib.load(doc, t, **kw)), [doc, kw]
    v, o = dumps_of(r, world)
    kw = dict(o)
    if r.random() < 0.25:
        kw['cls'] = type(v)
    if r.random() < 0.2:
        v = r.choice([[v, v], {'k': v}, (v,)])
        kw.pop('cls', None)
    return (lambda: lib.dump(v, **kw)), [kw] if isinstance(v, types.GeneratorType) else [v, kw]
