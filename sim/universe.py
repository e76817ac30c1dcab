"""The universe of types and values of the workloads, and the reference model.

A schema is a JSON-able list: [kind, args...].  From a schema and a seed come a type
(hint), a Python value (gen) and, computed here without the library, the document the
value must be dumped to (ref).  The reference model is deliberately simple: it knows
what every declared attribute is, and never inspects the library.
"""
import datetime as dtm
import enum
import math
import pathlib
import random
import re
import typing
import uuid
import zoneinfo
from collections import OrderedDict, defaultdict, deque
from dataclasses import dataclass, field
from decimal import Decimal
from typing import (Any, DefaultDict, Deque, Dict, FrozenSet, List, Mapping, NamedTuple, NewType,
                    Optional, Set, Tuple, Union)

import attr

UTC = dtm.timezone.utc
HOOK = lambda tag: None      # a yield point inside user code; set by the workload
LIB = None                   # the library, for classes that call it themselves


def hook(tag='user'):
    HOOK(tag)


# ------------------------------------------------------------------ classes
class Color(enum.Enum):
    RED = 'red'
    GREEN = 2
    BLUE = 'RED'          # the value of one member is the name of another


class Rank(enum.IntEnum):
    LOW = 1
    MID = 5
    HIGH = 10


class Suit(str, enum.Enum):
    CLUB = 'c'
    HEART = 'h'


@dataclass
class Pt:
    x: int
    y: int


@dataclass
class Person:
    name: str
    age: int
    tags: List[str]
    born: dtm.datetime
    boss: Optional['Person'] = None


class Acct:
    """A plain class: typed constructor, a class variable and a read-only property."""
    KIND = 'acct'

    def __init__(self, owner: Person, balance: Decimal, notes: Optional[Dict[str, str]] = None):
        hook('Acct()')
        self.owner, self.balance, self.notes = owner, balance, notes

    @property
    def label(self):
        hook('label')
        return f'{self.KIND}-{self.balance}'


class Box:
    """No type hints at all."""

    def __init__(self, value, size=1):
        hook('Box()')
        self.value, self.size = value, size


class Slim:
    __slots__ = ('alpha', 'beta')

    def __init__(self, alpha: int, beta: Optional[dtm.date] = None):
        self.alpha, self.beta = alpha, beta


class Trip(NamedTuple):
    start: dtm.date
    km: float
    stops: List[str] = []
    note: Optional[str] = None


@dataclass
class Base:
    ident: uuid.UUID


@dataclass
class Derived(Base):
    extra: Color


@dataclass
class Other(Base):
    weight: float
    inner: Pt


@dataclass
class Holder:
    things: List[Base]
    main: Base


@attr.s(auto_attribs=True)
class Att:
    _hidden: int
    shown: Tuple[str, int]


@dataclass
class IntStr:
    val: Union[int, str]


@dataclass
class StrInt:
    val: Union[str, int]


@dataclass
class Lap:
    lap_no: int
    split_ms: float


@dataclass
class Pick:
    """A union of classes."""
    one: Union[Pt, Lap]
    many: List[Union[Pt, Base]]


class Cfg:
    """Annotated class variables next to constructor arguments."""
    level: int = 3
    when: Optional[dtm.datetime] = None

    def __init__(self, level: int):
        self.level = level


class Late:
    """An annotated attribute that the constructor does not take."""
    note: dtm.datetime
    rows: Dict[str, List[Pt]]

    def __init__(self, code: int):
        self.code = code


@dataclass
class Node:
    val: int
    kids: List['Node'] = field(default_factory=list)
    left: Optional['Node'] = None


@dataclass
class Nest:
    grid: List[List[int]]
    table: Dict[str, Dict[str, Pt]]
    pairs: Tuple[Tuple[int, str], ...]
    names: Set[str]
    opt: Optional[List[Optional[Decimal]]] = None


@dataclass
class Leafs:
    a: dtm.datetime
    b: dtm.date
    c: dtm.time
    d: dtm.timedelta
    e: Decimal
    f: uuid.UUID
    g: complex
    h: pathlib.PurePosixPath
    i: Color
    j: Rank
    k: dtm.timezone
    l: float
    m: bool
    n: zoneinfo.ZoneInfo


@dataclass
class _Hid:
    pub: int
    _priv: str


@dataclass(frozen=True)
class Key:
    """A dict key that is not a JSON key and whose hash the simulator decides."""
    a: int
    b: str

    def __hash__(self):
        return HASH(self)


def _plain_hash(k):
    return (k.a * 1_000_003 + sum(map(ord, k.b))) & 0x7fffffff


HASH = _plain_hash


def set_hash(mode, salt=0):
    """How Key hashes in this process: spread, or (legal) collisions."""
    global HASH
    if mode == 'spread':
        HASH = lambda k: (_plain_hash(k) * 2654435761 + salt * 97) & 0x7fffffffffff
    elif mode == 'few':
        HASH = lambda k: (_plain_hash(k) + salt) % 3
    elif mode == 'one':
        HASH = lambda k: salt
    else:
        HASH = _plain_hash


@dataclass
class Keyed:
    scores: Dict[Key, int]
    by_pair: Dict[Tuple[int, int], str]


@dataclass
class Mixed:
    """Attributes of many container kinds."""
    q: Deque[int]
    fs: FrozenSet[int]
    dd: DefaultDict[str, List[int]]
    mp: Mapping[str, Pt]
    ids: Dict[int, str]
    by_day: Dict[dtm.date, float]
    by_color: Dict[Color, int]
    acct: Optional[Acct] = None


class Wide(Base):
    """A hand written class inheriting from a dataclass, with keyword arguments."""

    def __init__(self, ident: uuid.UUID, first_name: str, last_name: str = 'x', *,
                 big_count: int = 0):
        super().__init__(ident)
        hook('Wide()')
        self.first_name, self.last_name, self.big_count = first_name, last_name, big_count


class Echo:
    """Its constructor and its property call the library themselves (re-entrant use)."""
    pt: Pt
    code: int

    def __init__(self, code: int, raw: str):
        self.code, self.raw = code, raw
        self.pt = LIB.loads(raw, Pt)
        hook('Echo()')

    @property
    def text(self):
        hook('text')
        return LIB.dumps(Lap(self.code, 0.5))


@dataclass
class Bare:
    """Type hints without sub types."""
    t: tuple
    l: list
    d: dict
    s: set


class Outer:
    """An inner class, a class variable that is a class, and nesting."""
    class Inner:
        def __init__(self, num: int):
            self.num = num

    def __init__(self, inner: Inner, name: str):
        self.inner, self.name = inner, name


@dataclass
class Race:
    """Snake case names, for key transformers."""
    race_name: str
    best_lap: Lap
    all_laps: List[Lap]
    by_driver: Dict[str, Lap]
    null_able: Optional[int] = None


# Declared attributes: name -> schema.  ref_extra: what a dump shows on top of them.
DECL = {
    'Pt': {'x': ['int'], 'y': ['int']},
    'Person': {'name': ['str'], 'age': ['int'], 'tags': ['list', ['str']], 'born': ['dt'],
               'boss': ['opt', ['cls', 'Person']]},
    'Acct': {'owner': ['cls', 'Person'], 'balance': ['decimal'],
             'notes': ['opt', ['dict', ['str'], ['str']]]},
    'Box': {'value': ['json'], 'size': ['int']},
    'Slim': {'alpha': ['int'], 'beta': ['opt', ['date']]},
    'Trip': {'start': ['date'], 'km': ['float'], 'stops': ['list', ['str']],
             'note': ['opt', ['str']]},
    'Base': {'ident': ['uuid']},
    'Derived': {'ident': ['uuid'], 'extra': ['enum', 'Color']},
    'Other': {'ident': ['uuid'], 'weight': ['float'], 'inner': ['cls', 'Pt']},
    'Holder': {'things': ['list', ['cls', 'Base']], 'main': ['cls', 'Base']},
    'Att': {'_hidden': ['int'], 'shown': ['tuple', ['str'], ['int']]},
    'IntStr': {'val': ['union', ['int'], ['word']]},
    'StrInt': {'val': ['word']},
    'Pick': {'one': ['union', ['cls', 'Pt'], ['cls', 'Lap']],
             'many': ['list', ['union', ['cls', 'Pt'], ['cls', 'Base']]]},
    'Cfg': {'level': ['int'], 'when': ['opt', ['dt']]},
    'Late': {'code': ['int'], 'note': ['dt'], 'rows': ['dict', ['str'], ['list', ['cls', 'Pt']]]},
    'Node': {'val': ['int'], 'kids': ['list', ['cls', 'Node']], 'left': ['opt', ['cls', 'Node']]},
    'Nest': {'grid': ['list', ['list', ['int']]],
             'table': ['dict', ['str'], ['dict', ['str'], ['cls', 'Pt']]],
             'pairs': ['vtuple', ['tuple', ['int'], ['str']]], 'names': ['set', ['str']],
             'opt': ['opt', ['list', ['opt', ['decimal']]]]},
    'Leafs': {'a': ['dt'], 'b': ['date'], 'c': ['time'], 'd': ['timedelta'], 'e': ['decimal'],
              'f': ['uuid'], 'g': ['complex'], 'h': ['path'], 'i': ['enum', 'Color'],
              'j': ['enum', 'Rank'], 'k': ['timezone'], 'l': ['float'], 'm': ['bool'],
              'n': ['zone']},
    '_Hid': {'pub': ['int'], '_priv': ['str']},
    'Key': {'a': ['int'], 'b': ['str']},
    'Keyed': {'scores': ['dict', ['cls', 'Key'], ['int']],
              'by_pair': ['dict', ['tuple', ['int'], ['int']], ['str']]},
    'Mixed': {'q': ['deque', ['int']], 'fs': ['frozenset', ['int']],
              'dd': ['defaultdict', ['str'], ['list', ['int']]],
              'mp': ['mapping', ['str'], ['cls', 'Pt']], 'ids': ['dict', ['int'], ['str']],
              'by_day': ['dict', ['date'], ['float']],
              'by_color': ['dict', ['enum', 'Color'], ['int']], 'acct': ['opt', ['cls', 'Acct']]},
    'Wide': {'ident': ['uuid'], 'first_name': ['str'], 'last_name': ['str'],
             'big_count': ['int']},
    'Echo': {'code': ['int'], 'pt': ['cls', 'Pt'], 'raw': ['str']},
    'Bare': {'t': ['jtuple'], 'l': ['jlist'], 'd': ['jdict'], 's': ['set', ['word']]},
    'Outer': {'inner': ['cls', 'Inner'], 'name': ['str']}, 'Inner': {'num': ['int']},
    'Lap': {'lap_no': ['int'], 'split_ms': ['float']},
    'Race': {'race_name': ['str'], 'best_lap': ['cls', 'Lap'], 'all_laps': ['list', ['cls', 'Lap']],
             'by_driver': ['dict', ['str'], ['cls', 'Lap']], 'null_able': ['opt', ['int']]},
}
CLS = {n: Outer.Inner if n == 'Inner' else globals()[n] for n in DECL}
PROPS = {'Acct': {'label': lambda o: f'acct-{o.balance}'},
         'Echo': {'text': lambda o: '{"lap_no": %d, "split_ms": 0.5}' % o.code}}
CVARS = {'Acct': {'KIND': 'acct'}}
PUBLIC = {'Att': {'_hidden': 'hidden'}}       # attrs classes are dumped with public names
SUBS = {'Base': ['Base', 'Derived', 'Other']}
MODNAME = __name__


# ------------------------------------------------------------------ types of schemas
_PLAIN = {'int': int, 'str': str, 'word': str, 'date_str': str, 'float': float, 'bool': bool,
          'none': type(None), 'any': Any,
          'dt': dtm.datetime, 'ndt': dtm.datetime, 'date': dtm.date, 'time': dtm.time,
          'timedelta': dtm.timedelta, 'timezone': dtm.timezone, 'zone': zoneinfo.ZoneInfo,
          'complex': complex, 'decimal': Decimal, 'uuid': uuid.UUID,
          'path': pathlib.PurePosixPath, 'bytes': bytes, 'jtuple': tuple, 'jlist': list,
          'jdict': dict}


def hint(s):
    k = s[0]
    if k in _PLAIN:
        return _PLAIN[k]
    if k == 'enum':
        return {'Color': Color, 'Rank': Rank, 'Suit': Suit}[s[1]]
    if k == 'cls':
        return CLS[s[1]]
    a = [hint(x) for x in s[1:]]
    if k == 'json':
        return None
    if k == 'list':
        return List[a[0]]
    if k == 'set':
        return Set[a[0]]
    if k == 'frozenset':
        return FrozenSet[a[0]]
    if k == 'deque':
        return Deque[a[0]]
    if k == 'tuple':
        return Tuple[tuple(a)] if a else Tuple[()]
    if k == 'vtuple':
        return Tuple[a[0], ...]
    if k == 'dict':
        return Dict[a[0], a[1]]
    if k == 'defaultdict':
        return DefaultDict[a[0], a[1]]
    if k == 'mapping':
        return Mapping[a[0], a[1]]
    if k == 'opt':
        return Optional[a[0]]
    if k == 'union':
        return Union[tuple(a)]
    raise KeyError(k)


# ------------------------------------------------------------------ values of schemas
_WORDS = ['', 'a', 'x y', 'naïve', '日本', '-cls', 'null', 'true', 'T', 'Z', '1e5', '{"a":1}', '\\u0000',
          '\u0000', 'a"b\\c', '0', 'None', '\U0001f600', ' lead', 'UPPER', 'snake_case', 'camelCase',
          '/', '//', '.', 'a.b', '-', '2020', '20:20', 'x' * 40]
_KEYS = ['a', 'b', 'c', 'key', 'k1', 'zz', 'ö', 'x y', 'one', 'two', 'three', 'four']
_ZONES = ['Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'America/St_Johns',
          'Australia/Lord_Howe', 'Pacific/Kiritimati', 'Pacific/Marquesas', 'UTC',
          'America/Sao_Paulo', 'Asia/Kathmandu']
_OFFS = [0, 60, 120, -60, 330, 345, -210, -195, -570, 765, 840, -720, -30, 30, -15, 1439, -1439, 15,
         -45, 45, -1, 1]


def gen_str(r):
    c = r.random()
    if c < 0.5:
        return r.choice(_WORDS)
    return ''.join(r.choice('abcdefgh IJK_-0123é') for _ in range(r.randrange(0, 12)))


def gen_int(r):
    return r.choice([0, 1, -1, r.randrange(-50, 50), r.randrange(-10**6, 10**6), 2**31, -2**63,
                     2**53 + 1, 10**25, 255])


def gen_float(r):
    return r.choice([0.0, -0.0, 1.5, -2.25, 0.1, 1e-7, 1e22, 1.7976931348623157e308, 5e-324, 3.0,
                     r.uniform(-1000, 1000), r.random()])


def gen_dt(r, kinds='uoz'):
    y = r.choice([1970, 2000, 2020, 2024, 1999, 2038, 1900, 9998, 2, 900, r.randrange(1, 9998)])
    base = dtm.datetime(y, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24),
                        r.randrange(60), r.randrange(60),
                        r.choice([0, 0, 1, 999999, 500000, r.randrange(10**6), 120000]))
    k = r.choice(kinds)
    if k == 'u':
        return base.replace(tzinfo=UTC)
    if k == 'o':
        off = r.choice(_OFFS)
        if r.random() < 0.3:
            off = r.randrange(-1439, 1440)
        return base.replace(tzinfo=dtm.timezone(dtm.timedelta(minutes=off)))
    if k == 'n':
        return base
    y = r.randrange(1972, 2037)
    z = zoneinfo.ZoneInfo(r.choice(_ZONES))
    return base.replace(year=y, tzinfo=z, fold=r.choice([0, 0, 1]))


def gen_decimal(r):
    return Decimal(r.choice(['0', '1.10', '-0', '1E+10', '0.000001', '123456789.987654321',
                             '-3.14', '1E-20', '99999999999999999999.99', '5',
                             str(r.randrange(-10**9, 10**9)) + '.' + str(r.randrange(1000))]))


def gen_json(r, depth=2):
    """Any JSON value (strings that do not look like dates)."""
    c = r.randrange(7 if depth else 5)
    if c == 0:
        return None
    if c == 1:
        return r.choice([True, False])
    if c == 2:
        return gen_int(r)
    if c == 3:
        return gen_float(r)
    if c == 4:
        return gen_str(r)
    if c == 5:
        return [gen_json(r, depth - 1) for _ in range(r.randrange(3))]
    return {r.choice(_KEYS): gen_json(r, depth - 1) for _ in range(r.randrange(3))}


def gen(s, r, size=3, poly=False):
    """A value of schema s; poly: also instances of subclasses of a declared class."""
    k = s[0]
    if k == 'int':
        return gen_int(r)
    if k in ('str', 'date_str'):
        if k == 'date_str' and r.random() < 0.5:
            return gen_dt(r, 'u').strftime('20%y-%m-%dT%H:%M:%SZ')
        return gen_str(r)
    if k == 'word':
        return r.choice(['abc', 'héllo', 'x y', 'w' + str(r.randrange(1000)), '-', 'one'])
    if k == 'float':
        return gen_float(r)
    if k == 'bool':
        return r.choice([True, False])
    if k == 'none':
        return None
    if k in ('json', 'any'):
        return gen_json(r, 1)
    if k == 'jtuple':
        return tuple(gen_json(r, 1) for _ in range(r.randrange(3)))
    if k == 'jlist':
        return [gen_json(r, 1) for _ in range(r.randrange(3))]
    if k == 'jdict':
        return {r.choice(_KEYS): gen_json(r, 1) for _ in range(r.randrange(3))}
    if k == 'dt':
        return gen_dt(r)
    if k == 'ndt':
        return gen_dt(r, 'n')
    if k == 'date':
        return gen_dt(r, 'n').date()
    if k == 'time':
        return gen_dt(r, 'n').time()
    if k == 'timedelta':
        return dtm.timedelta(days=r.choice([0, 0, 1, -1, 365, -400, 20000]),
                             seconds=r.choice([0, 1, 59, 86399, r.randrange(86400)]),
                             microseconds=r.choice([0, 0, 1, 999999, r.randrange(10**6)]))
    if k == 'timezone':
        off = dtm.timedelta(minutes=r.choice(_OFFS))
        return r.choice([UTC, dtm.timezone(off), dtm.timezone(off, 'x' + str(r.randrange(9)))])
    if k == 'zone':
        return zoneinfo.ZoneInfo(r.choice(_ZONES))
    if k == 'complex':
        return complex(gen_float(r), gen_float(r))
    if k == 'decimal':
        return gen_decimal(r)
    if k == 'uuid':
        return uuid.UUID(int=r.choice([0, 1, 2**128 - 1, r.getrandbits(128)]))
    if k == 'path':
        return pathlib.PurePosixPath(r.choice(['/', '.', 'a/b', '/a/b.txt', '../x', 'ü/ y', 'a', 'C:\\x']))
    if k == 'bytes':
        return bytes(r.randrange(256) for _ in range(r.randrange(4)))
    if k == 'enum':
        return r.choice(list(hint(s)))
    if k == 'opt':
        return None if r.random() < 0.4 else gen(s[1], r, size, poly)
    if k == 'union':
        return gen(r.choice(s[1:]), r, size, poly)
    n = r.choice([0, 1, size, r.randrange(size + 1)]) if size > 0 else 0
    if k in ('list', 'vtuple', 'deque', 'set', 'frozenset'):
        vals = [gen(s[1], r, size - 1, poly) for _ in range(n)]
        if k in ('set', 'frozenset') and s[1][0] in ('dt', 'float', 'int', 'decimal', 'bool'):
            uniq = []
            for v in vals:
                if v == v and all(v != u for u in uniq):
                    uniq.append(v)
            vals = uniq
        return {'list': list, 'vtuple': tuple, 'deque': deque, 'set': set,
                'frozenset': frozenset}[k](vals)
    if k == 'tuple':
        return tuple(gen(x, r, size - 1, poly) for x in s[1:])
    if k in ('dict', 'mapping', 'defaultdict'):
        d = {}
        for _ in range(n):
            key = r.choice(_KEYS) if s[1][0] == 'str' else gen(s[1], r, 1, poly)
            d.setdefault(key, gen(s[2], r, size - 1, poly))
        if k == 'defaultdict':
            dd = defaultdict(list)
            dd.update(d)
            return dd
        return d
    if k == 'cls':
        name = s[1]
        if poly and name in SUBS:
            name = r.choice(SUBS[name])
        decl = DECL[name]
        vals = {}
        for a, sub in decl.items():
            if sub == ['opt', ['cls', name]] or sub == ['list', ['cls', name]]:
                if size <= 0 or r.random() < 0.4:
                    vals[a] = None if sub[0] == 'opt' else []
                    continue
                vals[a] = gen(sub, r, min(size - 1, 2), poly)
            else:
                vals[a] = gen(sub, r, size - 1, poly)
        return make(name, vals)
    raise KeyError(k)


def make(name, vals):
    if name == 'Late':
        o = Late(vals['code'])
        o.note, o.rows = vals['note'], vals['rows']
        return o
    if name == 'Cfg':
        o = Cfg(vals['level'])
        if vals.get('when') is not None:
            o.when = vals['when']
        return o
    if name == 'Echo':
        o = Echo.__new__(Echo)          # its constructor would call the library
        o.code, o.pt = vals['code'], vals['pt']
        o.raw = '{"x": %d, "y": %d}' % (o.pt.x, o.pt.y)
        return o
    if name == 'Att':
        return Att(hidden=vals['_hidden'], shown=vals['shown'])
    return CLS[name](**vals)


# ------------------------------------------------------------------ the reference model: dump
def off_str(minutes):
    sign = '-' if minutes < 0 else '+'
    return '%s%02d:%02d' % (sign, abs(minutes) // 60, abs(minutes) % 60)


class Skip(Exception):
    """The reference model does not determine this document."""


def ref_dt(d, opts):
    if d.tzinfo is None:
        raise Skip('naive datetime')
    txt = '%04d-%02d-%02dT%02d:%02d:%02d' % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    if d.microsecond and not opts.get('strip_microseconds'):
        txt += '.%06d' % d.microsecond
    off = d.utcoffset()
    secs = off.days * 86400 + off.seconds
    if secs % 60:
        raise Skip('offset with seconds')
    if secs == 0:
        return ('either', (txt + 'Z', txt + '+00:00', txt + '-00:00'))
    return txt + off_str(secs // 60)


def ref(s, v, opts=None):
    """The document that dumping v (declared as s) must give.  A time stamp with offset
    zero may be written in any of its RFC 3339 forms; such text is a marker tuple that
    match() understands."""
    o = opts or {}
    k = s[0]
    if k == 'jtuple':
        return [ref(['json'], x, o) for x in v]
    if v is None or k in ('json', 'any', 'jlist', 'jdict', 'int', 'str', 'word', 'float', 'bool', 'none'):
        if isinstance(v, dict) and o.get('key_transformer'):
            kt = KT[o['key_transformer']]
            return {kt(x) if x else x: ref(['json'], y, o) for x, y in v.items()
                    if not (o.get('strip_nulls') and y is None)}
        if isinstance(v, dict):
            return {x: ref(['json'], y, o) for x, y in v.items()
                    if not (o.get('strip_nulls') and y is None)}
        if isinstance(v, list):
            return [ref(['json'], y, o) for y in v]
        return v
    if k in ('dt', 'ndt'):
        return ref_dt(v, o)
    if k == 'date':
        return '%04d-%02d-%02d' % (v.year, v.month, v.day)
    if k == 'time':
        t = '%02d:%02d:%02d' % (v.hour, v.minute, v.second)
        return t + ('.%06d' % v.microsecond if v.microsecond else '')
    if k == 'timedelta':
        return (v.days * 86400 * 10**6 + v.seconds * 10**6 + v.microseconds) / 10**6
    if k == 'timezone':
        off = v.utcoffset(None)
        return {'name': v.tzname(None), 'offset': float(off.days * 86400 + off.seconds)}
    if k == 'zone':
        return {'key': v.key}
    if k == 'complex':
        return {'real': v.real, 'imag': v.imag}
    if k in ('decimal', 'uuid'):
        return str(v)
    if k == 'path':
        return str(v)
    if k == 'bytes':
        return list(v)
    if k == 'enum':
        if o.get('use_enum_name', True):
            return v.name
        return v.value
    if k == 'opt':
        return ref(s[1], v, o)
    if k == 'union':
        for sub in s[1:]:
            if fits(sub, v):
                return ref(sub, v, o)
        raise Skip('no member of the union fits')
    if k in ('list', 'vtuple', 'deque'):
        return [ref(s[1], x, o) for x in v]
    if k in ('set', 'frozenset'):
        return ('anyorder', [ref(s[1], x, o) for x in v])
    if k == 'tuple':
        return [ref(x, y, o) for x, y in zip(s[1:], v)]
    if k in ('dict', 'mapping', 'defaultdict'):
        kt = KT[o['key_transformer']] if o.get('key_transformer') else None
        if s[1][0] in ('cls', 'tuple') and v:
            if kt:
                raise Skip('hashed keys with a key transformer')
            pairs = [(ref(s[1], x, o), ref(s[2], y, o)) for x, y in v.items()
                     if not (o.get('strip_nulls') and y is None)]
            return ('hashed', pairs) if pairs else {}
        out = {}
        for x, y in v.items():
            if o.get('strip_nulls') and y is None:
                continue
            key = ref(s[1], x, o)
            if isinstance(key, tuple):
                raise Skip('several forms of a key')
            if kt:
                if not isinstance(key, str) or not key:
                    raise Skip('transformed key that is no string')
                key = kt(key)
            out[key] = ref(s[2], y, o)
        return out
    if k == 'cls':
        name = type(v).__name__
        if name == 'Trip':
            return {a: ref(DECL[name][a], getattr(v, a), o) for a in DECL[name]}
        if name == 'Slim' and o.get('strip_class_variables'):
            raise Skip('whether slots are class variables')
        out = {}
        drop = o.get('strip_attr') or ()
        drop = (drop,) if isinstance(drop, str) else drop
        kt = KT[o['key_transformer']] if o.get('key_transformer') else (lambda x: x)

        def add(a, val):
            if not (o.get('strip_nulls') and val is None):
                out[kt(a)] = val
        for a, sub in DECL[name].items():
            if a in drop or (o.get('strip_privates') and a.startswith('_')):
                continue
            # Annotated class variables count as class variables.
            if o.get('strip_class_variables') and a in vars(CLS[name]) and \
                    not isinstance(vars(CLS[name])[a], property):
                continue
            pub = a.lstrip('_') if name in PUBLIC and not o.get('strip_privates') else a
            add(pub, ref(sub, getattr(v, a), o))
        if not o.get('strip_properties'):
            for a, f in PROPS.get(name, {}).items():
                if a not in drop:
                    add(a, f(v))
        if not o.get('strip_class_variables'):
            for a, val in CVARS.get(name, {}).items():
                if a not in drop:
                    add(a, val)
        return out
    raise KeyError(k)


def fits(s, v):
    k = s[0]
    if k == 'cls':
        return isinstance(v, CLS[s[1]])
    if k == 'int':
        return type(v) is int
    if k in ('str', 'word'):
        return type(v) is str
    if k == 'none':
        return v is None
    if k == 'list':
        return type(v) is list
    return isinstance(v, hint(s))


def plain(r, rng=None):
    """A concrete JSON document from a reference document."""
    if isinstance(r, tuple):
        if r[0] == 'either':
            return r[1][0] if rng is None else rng.choice(r[1])
        if r[0] == 'anyorder':
            out = [plain(x, rng) for x in r[1]]
            if rng is not None:
                rng.shuffle(out)
            return out
        if r[0] == 'hashed':
            d, keys = {}, {}
            for i, (k, v) in enumerate(r[1]):
                h = str(1000 + i)
                keys[h] = plain(k, rng)
                d[h] = plain(v, rng)
            d['-keys'] = keys
            return d
    if isinstance(r, dict):
        return {k: plain(v, rng) for k, v in r.items()}
    if isinstance(r, list):
        return [plain(x, rng) for x in r]
    return r


def match(r, got, text=False, path=''):
    """'' if the dumped document got is the one r describes; else where it differs.
    text: got went through JSON text (keys are strings)."""
    if isinstance(r, tuple):
        if r[0] == 'either':
            return '' if type(got) is str and got in r[1] else f'{path}: {got!r} not in {r[1]}'
        if r[0] == 'anyorder':
            if type(got) is not list or len(got) != len(r[1]):
                return f'{path}: {got!r} is not a list of {len(r[1])} elements'
            left = list(got)
            for x in r[1]:
                for i, y in enumerate(left):
                    if not match(x, y, text):
                        del left[i]
                        break
                else:
                    return f'{path}: no element like {x!r} in {got!r}'
            return ''
        if r[0] == 'hashed':
            if type(got) is not dict or type(got.get('-keys')) is not dict:
                return f'{path}: no -keys in {got!r}'
            keys = got['-keys']
            rest = {k: v for k, v in got.items() if k != '-keys'}
            if set(keys) != set(rest) or len(keys) != len(r[1]):
                return f'{path}: keys {sorted(map(str, keys))} of {len(r[1])} entries, values of {sorted(map(str, rest))}'
            left = list(keys)
            for k, v in r[1]:
                for h in left:
                    if not match(k, keys[h], text) and not match(v, rest[h], text):
                        left.remove(h)
                        break
                else:
                    return f'{path}: no entry for {k!r}'
            return ''
    if isinstance(r, dict):
        if type(got) is not dict:
            return f'{path}: {got!r} is not a dict'
        if text:
            r = {jkey(k): v for k, v in r.items()}
        if len(got) != len(r):
            return f'{path}: keys {sorted(map(str, got))} != {sorted(map(str, r))}'
        for k, v in r.items():
            hit = [g for g in got if type(g) is type(k) and g == k]
            if not hit:
                return f'{path}: no key {k!r} in {sorted(map(str, got))}'
            d = match(v, got[hit[0]], text, f'{path}/{k}')
            if d:
                return d
        return ''
    if isinstance(r, list):
        if type(got) is not list or len(got) != len(r):
            return f'{path}: {got!r} is not a list of {len(r)} elements'
        for i, (x, y) in enumerate(zip(r, got)):
            d = match(x, y, text, f'{path}/{i}')
            if d:
                return d
        return ''
    if isinstance(r, enum.Enum):
        r = r.value
    if type(r) is not type(got) and not (text and type(got) in (str, int, float) and r == got):
        return f'{path}: {got!r} ({type(got).__name__}) instead of {r!r} ({type(r).__name__})'
    if r != got or (type(r) is float and math.copysign(1, r) != math.copysign(1, got)):
        return f'{path}: {got!r} instead of {r!r}'
    return ''


def jkey(k):
    if k is True:
        return 'true'
    if k is False:
        return 'false'
    if k is None:
        return 'null'
    if type(k) is float:
        return repr(k)
    return str(k)


# Reference key transformers (names of the workloads are snake case, so these suffice).
def _camel(s):
    parts = s.split('_')
    return parts[0] + ''.join(p.title() for p in parts[1:])


def _pascal(s):
    c = _camel(s)
    return c[:1].upper() + c[1:]


def _checked(f):
    def kt(s):
        if not isinstance(s, str) or not re.fullmatch('[a-z]+(_[a-z]+)*', s):
            raise Skip('a key of another casing')
        return f(s)
    return kt


KT = {'camel': _checked(_camel), 'pascal': _checked(_pascal),
      'lisp': _checked(lambda s: s.replace('_', '-')), 'hooked': lambda s: s}


# ------------------------------------------------------------------ random schemas
LEAF = [['int'], ['str'], ['float'], ['bool'], ['dt'], ['date'], ['time'], ['timedelta'], ['timezone'],
        ['complex'], ['decimal'], ['uuid'], ['path'], ['enum', 'Color'], ['enum', 'Rank'],
        ['enum', 'Suit'], ['zone'], ['none']]
CLASSES = ['Pt', 'Person', 'Acct', 'Slim', 'Trip', 'Base', 'Derived', 'Other', 'Att', 'IntStr', 'Pick',
           'Cfg', 'Late', 'Node', 'Nest', 'Leafs', '_Hid', 'Keyed', 'Mixed', 'Wide', 'Race', 'Box',
           'StrInt', 'Echo', 'Bare', 'Outer']
HASHABLE = [['int'], ['str'], ['date'], ['timedelta'], ['decimal'], ['uuid'], ['enum', 'Color'], ['bool'],
            ['dt'], ['cls', 'Key'], ['path']]
DKEYS = [['str'], ['str'], ['int'], ['uuid'], ['date'], ['enum', 'Color'], ['decimal'], ['dt'],
         ['cls', 'Key'], ['tuple', ['int'], ['int']]]


def schema(r, depth=2):
    c = r.random()
    if depth <= 0 or c < 0.2:
        return r.choice(LEAF)
    if c < 0.5:
        return ['cls', r.choice(CLASSES)]
    k = r.choice(['list', 'list', 'list', 'set', 'frozenset', 'deque', 'tuple', 'vtuple', 'dict', 'dict',
                  'defaultdict', 'mapping', 'opt', 'union'])
    if k in ('set', 'frozenset'):
        return [k, r.choice(HASHABLE)]
    if k in ('list', 'deque', 'vtuple'):
        return [k, schema(r, depth - 1)]
    if k == 'opt':
        s = schema(r, depth - 1)
        return s if s[0] in ('opt', 'none', 'json', 'any', 'union') else ['opt', s]
    if k == 'tuple':
        return ['tuple'] + [schema(r, depth - 1) for _ in range(r.randrange(1, 4))]
    if k in ('dict', 'mapping', 'defaultdict'):
        key = r.choice(DKEYS)
        if k != 'dict':
            key = ['str']
        return [k, key, schema(r, depth - 1)]
    return r.choice([['union', ['int'], ['word']], ['union', ['cls', 'Pt'], ['cls', 'Base']],
                     ['union', ['enum', 'Color'], ['cls', 'Pt']],
                     ['union', ['cls', 'Person'], ['none']]])
