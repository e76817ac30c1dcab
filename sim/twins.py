"""Operations on classes that share their name (in two modules, made by a function, nested,
or a subclass named as its parent) but nothing else, and on values that are equal but differ."""
import dataclasses
import datetime as dtm
import enum
import sys
import types
from decimal import Decimal
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import universe as U


def _variants(module, qualname):
    """Classes that have the given name and differ in everything else."""
    out = []

    class Item:
        def __init__(self, num: int, when: dtm.datetime):
            U.hook('Item()')
            self.num, self.when = num, when

        @property
        def shown(self):
            U.hook('shown')
            return f'n{self.num}'
    out.append((Item, lambda r, c=Item: c(r.randrange(9), U.gen_dt(r, 'u')),
                lambda r: {'num': r.choice([1, '2']), 'when': '2020-01-02T03:04:05Z'}))

    class Item:
        unit = 'kg'

        def __init__(self, num: str, when: Optional[dtm.date] = None, shown: float = 1.5):
            U.hook('Item()')
            self.num, self.when, self.shown = num, when, shown
    out.append((Item, lambda r, c=Item: c('s' + str(r.randrange(9)), r.choice([None, dtm.date(2020, 1, r.randrange(1, 9))])),
                lambda r: {'num': r.choice(['7', '8']), 'when': r.choice(['2020-01-02', None]), 'shown': r.choice([1, '2.5'])}))

    @dataclasses.dataclass
    class Item:
        num: List[int]
        _when: Optional[str] = None
        unit: Decimal = Decimal('1.5')
    out.append((Item, lambda r, c=Item: c([1, r.randrange(9)], r.choice([None, 'w'])),
                lambda r: {'num': r.choice([[1, 2], ['3'], []]), '_when': 'x', 'unit': '2.5'}))

    class Item:
        __slots__ = ('num', 'unit')

        def __init__(self, num: Dict[str, int], unit: Union[int, str] = 5):
            self.num, self.unit = num, unit
    out.append((Item, lambda r, c=Item: c({'k': r.randrange(9)}), lambda r: {'num': {'a': '1'}, 'unit': r.choice([3, 'x'])}))

    class Item(NamedTuple):
        num: Tuple[int, str]
        shown: Optional[List[str]] = None
        when: float = 0.5
    out.append((Item, lambda r, c=Item: c((r.randrange(9), 'x')), lambda r: r.choice([[['1', 'b'], ['q'], 2], {'num': [1, 'b']}])))

    class Item(enum.Enum):
        num = r'a'
        shown = 2
    out.append((Item, lambda r, c=Item: r.choice(list(c)), lambda r: r.choice(['num', 'shown', 'a', 2])))

    class Item(enum.Enum):
        num = 2
        other = 'shown'
        unit = 'a'
    out.append((Item, lambda r, c=Item: r.choice(list(c)), lambda r: r.choice(['num', 'shown', 'a', 2])))
    for c, _, _ in out:
        c.__module__, c.__qualname__ = module, qualname
    return out


def _modules():
    fam = []
    for i, (c, v, d) in enumerate(_variants(None, 'Item')):
        m = types.ModuleType(f'twin_mod{i}')
        m.Item = c
        c.__module__ = m.__name__
        sys.modules[m.__name__] = m
        fam.append((c, v, d))
    return fam


class _Elder:
    def __init__(self, num: int):
        self.num = num


def _family():
    """A chain of subclasses, all of the same name."""
    class Item(_Elder):
        unit = 1

        def __init__(self, num: int, when: Optional[dtm.date] = None):
            super().__init__(num)
            self.when = when
    A = Item

    class Item(A):
        unit = 'b'

        def __init__(self, num: float, shown: List[int]):
            super().__init__(num, dtm.date(2020, 1, 1))
            self.shown = shown

        @property
        def twice(self):
            U.hook('twice')
            return self.num * 2
    B = Item
    for c in (A, B):
        c.__module__, c.__qualname__ = __name__, 'Item'
    _Elder.__name__ = _Elder.__qualname__ = 'Item'
    return [(_Elder, lambda r: _Elder(r.randrange(9)), lambda r: {'num': r.choice([1, '2', 'x'])}),
            (A, lambda r: A(r.randrange(9)), lambda r: {'num': 1, 'when': '2020-01-02'}),
            (B, lambda r: B(r.randrange(9), [1]), lambda r: {'num': '1.5', 'shown': ['2', 3]})]


FAMILIES = {'mod': _modules(), 'local': _variants(__name__, 'make.<locals>.Item'), 'sub': _family()}
SAME = [[1, True, 1.0, Decimal(1), U.Rank.LOW], [0, False, 0.0, -0.0, Decimal(0), Decimal('-0'), ''], ['a', U.Suit('c'), 'c'],
        [Decimal('1.1'), Decimal('1.10')], [(1, 2), [1, 2]], [set(), [], (), None], [{1: 'a'}, {True: 'a'}, {1.0: 'a'}]]
SAME_HINTS = [int, float, str, bool, Decimal, List[int], List[bool], Tuple[int, ...], Tuple[float, float], Union[int, str], Union[bool, int],
              Union[float, str], Optional[bool], Optional[int], None]
DUMP = [{}, {}, {'strip_properties': True}, {'strip_class_variables': True}, {'strip_privates': True}, {'strip_nulls': True},
        {'strict': True}, {'use_enum_name': False}]
LOAD = [{}, {}, {'strict': True}, {'use_enum_name': False}]


def gen_op(r, fam=None):
    fam = fam or r.choice(['mod', 'local', 'sub', 'same'])
    v = r.randrange(1 << 30)
    if fam == 'same':
        return {'k': 'twin', 'fam': fam, 'i': r.randrange(len(SAME)), 'm': r.choice(['dump', 'load', 'dumps', 'load']), 'v': v, 'o': {}}
    m = r.choice(['dump', 'load', 'dump', 'load', 'dumpcls', 'loads'])
    o = dict(r.choice(DUMP if m[0] == 'd' else LOAD))
    if fam == 'mod' and m == 'dump' and r.random() < 0.2:
        o['verbose'] = 'yes'
    if m == 'dumpcls' and r.random() < 0.7:
        o['strict'] = True
    return {'k': 'twin', 'fam': fam, 'i': r.randrange(len(FAMILIES[fam])), 'm': m, 'v': v, 'o': o, 'wrap': r.choice(['', '', 'list', 'dict', 'opt'])}


def build(op, lib, r, kw):
    """(callable, inputs)"""
    import json
    m = op['m']
    if op['fam'] == 'same':
        vals = SAME[op['i']]
        v = r.choice(vals + [r.choice(vals)])
        t = r.choice(SAME_HINTS)
        if r.random() < 0.3:
            v = [v, r.choice(vals)]
        if m == 'dumps':
            return (lambda: lib.dumps(v)), [v]
        if m == 'dump':
            a = {} if r.random() < 0.5 else {'cls': t}
            return (lambda: lib.dump(v, **a)), [v]
        d = json.loads(json.dumps(v)) if _plain(v) else 1
        return (lambda: lib.load(d, t, strict=op['v'] % 2 == 0)), [d]
    c, value, doc = FAMILIES[op['fam']][op['i']]
    w = op.get('wrap')
    t = {'list': List[c], 'dict': Dict[str, c], 'opt': Optional[c]}.get(w, c)
    if m[0] == 'd':
        v = value(r)
        v = {'list': [v, value(r)], 'dict': {'k': v}}.get(w, v)
        a = {'cls': t} if m == 'dumpcls' else {}
        return (lambda: lib.dump(v, **a, **kw)), [v, kw]
    d = doc(r)
    d = {'list': [d, doc(r)], 'dict': {'k': d}}.get(w, d)
    if m == 'loads':
        s = json.dumps(d)
        return (lambda: lib.loads(s, t, **kw)), [s, kw]
    return (lambda: lib.load(d, t, **kw)), [d, kw]


def _plain(v):
    if isinstance(v, (list, tuple)):
        return all(map(_plain, v))
    return type(v) in (int, float, bool, str, type(None))
