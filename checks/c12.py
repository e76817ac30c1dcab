"""C12: a damaged document is rejected or loads as what it says, never half-way."""
import collections
import datetime as dtm
import inspect
import json
import math
import random
import re
import uuid
from dataclasses import dataclass, field
from decimal import Decimal, InvalidOperation
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import c09
import core
import engine
import ops
import universe as U
from canon import canon, diff

ID = 'C12'
LEVEL = 'exploration'
COUNTS = {'quick': 8000, 'thorough': 150000}
RULE = ('A run: 1-3 documents (random types, plain and verbose, several encodings and layouts) are written by the library '
        'to a simulated store that also holds an older version; the store truncates, tears, flips bits, zeroes, repeats, '
        'moves and mixes blocks or whole elements; the result is loaded with loadb, loads, load, a fork, a decorated '
        'function, tasks, with and without type, partly from several threads at once. The outcome is compared with '
        'what the standard json module says about the same bytes, element by element against the declared types.')
REAL = ['all of /repo/jsons', 'typish', 'json and the codecs']
STUB = ['storage (documents in memory, damaged by the simulator)', 'thread scheduler']
ASSUMPTIONS = ['casts of one primitive to another, and lenient forms of dates and numbers, are not judged',
               'when the damage hits the meta section of a verbose dump only the type of the root is judged']


# ------------------------------------------------------------------ types with much to get wrong
@dataclass
class Prefs:
    """Everything has a default."""
    theme: str = 'dark'
    size: int = 12
    tags: List[str] = field(default_factory=list)
    home: Optional[U.Pt] = None
    per: Dict[str, int] = field(default_factory=dict)


class Rec(NamedTuple):
    first: str
    second: str = 'none'
    third: Optional[int] = None


class Plain:
    def __init__(self, count: int = 0, label: Optional[str] = None, *rest, **more):
        self.count, self.label = count, label


@dataclass
class Ledger:
    entries: List[Tuple[int, str]]
    recs: List[Rec]
    prefs: Prefs
    plain: Plain
    by: Dict[U.Key, List[int]]
    either: Union[List[int], str]
    maybe: Optional[List[Rec]] = None
    rank: U.Rank = U.Rank.MID


MINE = {'Prefs': Prefs, 'Rec': Rec, 'Plain': Plain, 'Ledger': Ledger}
U.DECL.update({
    'Prefs': {'theme': ['word'], 'size': ['int'], 'tags': ['list', ['word']], 'home': ['opt', ['cls', 'Pt']],
              'per': ['dict', ['str'], ['int']]},
    'Rec': {'first': ['word'], 'second': ['word'], 'third': ['opt', ['int']]},
    'Plain': {'count': ['int'], 'label': ['opt', ['word']]},
    'Ledger': {'entries': ['list', ['tuple', ['int'], ['word']]], 'recs': ['list', ['cls', 'Rec']],
               'prefs': ['cls', 'Prefs'], 'plain': ['cls', 'Plain'],
               'by': ['dict', ['cls', 'Key'], ['list', ['int']]],
               'either': ['union', ['list', ['int']], ['word']],
               'maybe': ['opt', ['list', ['cls', 'Rec']]], 'rank': ['enum', 'Rank']}})
U.CLS.update(MINE)

SCHEMAS = [['cls', 'Ledger'], ['cls', 'Ledger'], ['cls', 'Prefs'], ['cls', 'Rec'], ['cls', 'Plain'], ['list', ['cls', 'Rec']],
           ['list', ['cls', 'Prefs']], ['dict', ['str'], ['cls', 'Prefs']], ['cls', 'Person'], ['cls', 'Nest'],
           ['cls', 'Mixed'], ['cls', 'Leafs'], ['list', ['cls', 'Pt']], ['list', ['int']], ['list', ['opt', ['cls', 'Rec']]],
           ['dict', ['cls', 'Key'], ['cls', 'Pt']], ['cls', 'Node'], ['tuple', ['int'], ['word'], ['cls', 'Pt']],
           ['vtuple', ['tuple', ['int'], ['word']]], ['set', ['word']], ['deque', ['int']], ['frozenset', ['int']],
           ['union', ['list', ['int']], ['word']], ['opt', ['list', ['cls', 'Pt']]], ['list', ['dt']],
           ['dict', ['uuid'], ['decimal']], ['list', ['list', ['int']]], ['dict', ['str'], ['list', ['word']]],
           ['list', ['complex']], ['list', ['timezone']], ['list', ['enum', 'Color']], ['list', ['timedelta']]]
VERBOSE = [['cls', 'Person'], ['cls', 'Ledger'], ['cls', 'Acct'], ['cls', 'Outer'], ['cls', 'Pt'], ['cls', 'Race'],
           ['cls', 'Prefs'], ['list', ['cls', 'Pt']], ['list', ['cls', 'Person']], ['cls', 'Derived'], ['cls', 'Other'],
           ['cls', 'Slim'], ['cls', 'Node'], ['cls', 'Lap']]
# Coercing, untyped or self-loading ones say little.
SKIP = ('Echo', 'Bare', 'Box', 'StrInt')


# ------------------------------------------------------------------ generation
def gen_schema(r):
    for _ in range(20):
        s = r.choice(SCHEMAS) if r.random() < 0.6 else U.schema(r, 2)
        if not any(f"'{n}'" in str(s) for n in SKIP):
            return s
    return ['cls', 'Pt']


BYTE = ['cut', 'torn', 'flip', 'zero', 'stale', 'dup', 'lose', 'grow', 'flipdigit', 'dropc', 'deep', 'long']
TREE = ['splice', 'splice', 'dropel', 'dupel', 'move', 'cutstr', 'dupstr', 'dupstr', 'null', 'unwrap', 'wrap', 'swap', 'rename', 'empty', 'chartype', 'values']


def gen_fault(r):
    k = r.choice(BYTE + TREE) if r.random() < 0.85 else 'splice'
    return [k, r.randrange(1 << 30)]


def gen_item(r):
    it = {'v': r.randrange(1 << 30), 'n': r.choice([1, 2, 2, 3]), 'f': [gen_fault(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]}
    if r.random() < 0.3:
        it['s'] = r.choice(VERBOSE)
        it['verbose'] = r.choice(['yes', 'yes', 'cls'])
        it['typed'] = r.choice([True, False, False])
        if r.random() < 0.4:
            it['old'] = r.choice(VERBOSE)[-1]
            it['old'] = it['old'] if it['old'][0] == 'cls' else ['cls', 'Pt']
    else:
        it['s'] = gen_schema(r)
        it['typed'] = r.random() < 0.85
    if it['typed'] and any(n in str(it['s']) for n in ("'Rec'", "'Ledger'", 'Mixed')) and r.random() < 0.3:
        it['f'] = [['values', r.randrange(1 << 30)]] + it['f'][:r.choice([0, 0, 1])]
    if r.random() < 0.3:
        it['jd'] = r.choice([{'ensure_ascii': False}, {'indent': 2}, {'separators': [',', ':']}])
    if r.random() < 0.25:
        it['enc'] = r.choice(['utf-16', 'utf-32', 'utf-8-sig', 'latin-1', 'utf-16-le'])
    it['how'] = r.sample(['loadb', 'loads', 'load', 'fork', 'deco', 'js', 'bytes', 'tasks'], r.choice([1, 2, 3]))
    return it


def generate(r, seed, tier):
    sc = {'items': [gen_item(r) for _ in range(r.choice([1, 2, 3]))]}
    for it in sc['items']:
        try:
            U.ref(it['s'], make(it, 0))
        except U.Skip:
            it['s'] = ['cls', 'Ledger']
    if r.random() < 0.2:
        sc['threads'] = True
    else:
        sc['sched'] = {'mode': 'serial', 'gran': 'none'}
    return sc


def make(it, version):
    r = random.Random(f'{it["v"]}/{version}')
    s = it['s']
    if version and it.get('old'):
        s = it['old']
    return U.gen(s, r, it['n'])


# ------------------------------------------------------------------ the store
def jd(it):
    d = dict(it.get('jd') or {})
    if 'separators' in d:
        d['separators'] = tuple(d['separators'])
    return d


def paths(d, p=()):
    out = [p]
    if isinstance(d, dict):
        for k in d:
            out += paths(d[k], p + (k,))
    elif isinstance(d, list):
        for i, e in enumerate(d):
            out += paths(e, p + (i,))
    return out


def at(d, p):
    for k in p:
        if isinstance(d, dict) and k in d or isinstance(d, list) and isinstance(k, int) and k < len(d):
            d = d[k]
        else:
            return KeyError
    return d


def put(d, p, new):
    """d with another value at p (or without it: KeyError)."""
    if not p:
        return new if new is not KeyError else None
    x = at(d, p[:-1])
    if new is KeyError:
        del x[p[-1]]
    else:
        x[p[-1]] = new
    return d


def tree_fault(k, r, doc, old):
    """Damage that hits whole elements: sectors that hold exactly one."""
    ps = paths(doc)
    if k == 'splice':
        ps = [p for p in ps if at(old, p) is not KeyError] or ps
    elif k in ('dropel', 'dupel'):
        ps = [p for p in ps if p and (k == 'dropel' or isinstance(p[-1], int))] or ps
    elif k in ('cutstr', 'dupstr'):
        ps = [p for p in ps if isinstance(at(doc, p), str)] or ps
        if k == 'dupstr' and r.random() < 0.5:
            ps = [p for p in ps if isinstance(at(doc, p), str) and c09.TEXT.match(at(doc, p))] or ps
    elif k in ('unwrap', 'empty', 'chartype'):
        ps = [p for p in ps if isinstance(at(doc, p), (list, dict))] or ps
    elif k == 'values':
        ps = [p for p in ps if isinstance(at(doc, p), dict)] or ps
        ps = [p for p in ps if r.random() < 0.7 and isinstance(at(doc, p), dict) and 'first' in at(doc, p)] or ps
    elif k == 'rename':
        ps = [p for p in ps if p and isinstance(p[-1], str)] or ps
    p = r.choice(ps)
    cur = at(doc, p)
    if k == 'splice':
        o = at(old, p)
        return put(doc, p, cur if o is KeyError else o)
    if k == 'dropel':
        return put(doc, p, KeyError)
    if k == 'dupel':
        x = at(doc, p[:-1]) if p else None
        if isinstance(x, list):
            x.insert(p[-1], json.loads(json.dumps(cur)))
        return doc
    if k in ('move', 'swap'):
        q = r.choice(paths(doc))
        a = json.loads(json.dumps(at(doc, q)))
        if k == 'swap' and p[:len(q)] != q and q[:len(p)] != p:
            doc = put(doc, q, json.loads(json.dumps(cur)))
        return put(doc, p, a)
    if k == 'cutstr' and isinstance(cur, str):
        return put(doc, p, cur[:r.randrange(len(cur) + 1)])
    if k == 'dupstr' and isinstance(cur, str) and cur:
        # Some part of a string twice; often its end.
        a = r.randrange(len(cur)) if r.random() < 0.4 else max(0, len(cur) - r.choice([1, 3, 6, 6, 9]))
        b = len(cur) if r.random() < 0.6 else r.randrange(a, len(cur)) + 1
        return put(doc, p, cur[:b] + cur[a:])
    if k == 'null':
        return put(doc, p, None)
    if k == 'unwrap':
        inner = list(cur.values()) if isinstance(cur, dict) else cur if isinstance(cur, list) else []
        return put(doc, p, r.choice(inner)) if inner else put(doc, p, None)
    if k == 'wrap':
        return put(doc, p, [cur])
    if k == 'empty':
        return put(doc, p, r.choice([[], {}, '', 0, False]))
    if k == 'chartype':
        return put(doc, p, r.choice([list(cur), {str(i): e for i, e in enumerate(cur)}, 'abc', '123']) if
                   isinstance(cur, (list, dict)) else cur)
    if k == 'values' and isinstance(cur, dict):
        # Written by a version that had named tuples as lists (of other fields).
        vals = list(cur.values())
        c = r.random()
        return put(doc, p, vals if c < 0.4 else vals[:r.randrange(len(vals) + 1)] if c < 0.7 else
                   vals + [r.choice([1, None, 'x', cur])] * r.choice([1, 1, 2]))
    if k == 'rename' and p and isinstance(p[-1], str):
        x = at(doc, p[:-1])
        val = x.pop(p[-1])
        x[r.choice([p[-1] + 'x', p[-1][:-1], 'other', p[-1].upper()])] = val
    return doc


def byte_fault(k, r, b, old):
    n = len(b)
    i = r.randrange(n + 1)
    block = r.choice([1, 2, 4, 8, 16, 64])
    if r.random() < 0.5:
        i = i // block * block              # sector aligned
    j = min(n, i + block * r.choice([1, 1, 2, 3]))
    if k == 'cut':
        return b[:i]
    if k == 'torn':
        return b[:i] + old[i:]
    if k == 'stale':
        return b[:i] + old[i:j] + b[j:]
    if k == 'zero':
        return b[:i] + b'\0' * (j - i) + b[j:]
    if k == 'dup':
        return b[:j] + b[i:j] + b[j:]
    if k == 'lose':
        return b[:i] + b[j:]
    if k == 'grow':
        return b + old[-r.randrange(1, 40):]
    if k == 'flip' and n:
        i = min(i, n - 1)
        return b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    if k in ('flipdigit', 'dropc') and n:
        cand = [x for x in range(n) if chr(b[x]) in ('0123456789' if k == 'flipdigit' else '"{}[],:-.eETZ+\\')]
        if cand:
            x = r.choice(cand)
            return b[:x] + (bytes([b[x] ^ (1 << r.randrange(3))]) if k == 'flipdigit' else b'') + b[x + 1:]
    if k == 'deep':                         # the same block over and over again
        c = r.choice([b'[', b'{"a":', b'[[', b'[]', b'"'])
        return b[:i] + c * r.choice([50, 400, 3000, 30000]) + b[j:]
    if k == 'long':
        cand = [x for x in range(n) if chr(b[x]) in '123456789']
        if cand:
            x = r.choice(cand)
            return b[:x] + b[x:x + 1] * r.choice([20, 400, 5000]) + b[x:]
    return b


def damage(run, it, docs):
    """The bytes the store gives back (documents: the current and the older version)."""
    enc = it.get('enc', 'utf-8')
    cur, old = docs
    for k, seed in it['f']:
        r = random.Random(seed)
        before = cur
        if k in TREE:
            try:
                d, o = json.loads(cur.decode(enc)), json.loads(old.decode(enc))
            except (ValueError, RecursionError):
                continue
            d = tree_fault(k, r, d, o)
            try:
                cur = json.dumps(d, **jd(it)).encode(enc)
            except UnicodeEncodeError:
                cur = json.dumps(d).encode(enc)
        else:
            cur = byte_fault(k, r, cur, old)
        if cur != before:
            run.mark(f'{k}{len(cur)}', {'cut': 'truncated', 'torn': 'torn write', 'flip': 'bit flip', 'flipdigit': 'bit flip',
                                        'zero': 'zeroed block', 'stale': 'stale block', 'dup': 'repeated block', 'lose': 'lost block',
                                        'grow': 'old tail', 'dropc': 'lost byte', 'deep': 'block repeated many times',
                                        'long': 'block repeated many times', 'splice': 'element of the older version',
                                        'dropel': 'lost element', 'dupel': 'repeated element', 'move': 'misdirected element',
                                        'swap': 'swapped elements', 'cutstr': 'truncated string', 'dupstr': 'repeated part of a string', 'rename': 'damaged key'}.get(
                                            k, 'element replaced'))
    return cur


# ------------------------------------------------------------------ what a document says
class Wrong(Exception):
    pass


def require(c, *what):
    if not c:
        raise Wrong(' '.join(str(w)[:200] for w in what))


TIME = re.compile(r'^\d\d:\d\d:\d\d(\.\d{6})?$')
# Whatever else is taken for a timestamp, nothing of it is left out.
LENIENT = re.compile(r'^[-\d\s_]+T[\d\s_]+:[\d\s_]+:[\d\s_]+(\.[\d\s_]*)?(Z|[+-][\d\s_+-]+:[\d\s_+-]+)$')
DATE = re.compile(r'^\d{4}-\d\d-\d\d$')
UUID = re.compile(r'^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$')


def num(d):
    return type(d) in (int, float)


def same(a, b):
    return a == b or (a != a and b != b)


def agrees(s, d, v, where=''):
    """v is a value of schema s and, where d is in the form dumps have, the one it stands for."""
    k = s[0]
    t = type(d)
    if k in ('json', 'any', 'jlist', 'jdict'):
        return untyped(d, v, where)
    if k == 'none':
        require(v is None and d is None, where, 'is', repr(v), 'for', d)
    elif k == 'int':
        require(isinstance(v, int), where, 'is no int:', repr(v))
        require(t not in (int, bool) or v == d, where, 'is', v, 'for', d)
    elif k in ('str', 'word'):
        require(type(v) is str or (where.endswith(']') and isinstance(v, dtm.datetime)), where, 'is no str:', repr(v))
        require(t is not str or type(v) is not str or v == d, where, 'is', repr(v), 'for', repr(d))
    elif k == 'float':
        require(isinstance(v, (float, int)), where, 'is no float:', repr(v))
        require(not num(d) or same(v, float(d)), where, 'is', v, 'for', d)
    elif k == 'bool':
        require(type(v) is bool, where, 'is no bool:', repr(v))
        require(t is not bool or v is d, where, 'is', v, 'for', d)
    elif k in ('dt', 'ndt'):
        require(isinstance(v, dtm.datetime), where, 'is no datetime:', repr(v))
        if t is str and c09.TEXT.match(d):
            try:
                want = c09.text_instant(d)
            except (ValueError, OverflowError):
                return              # 24:00, day 31, ...
            got = (v - dtm.datetime(1970, 1, 1, tzinfo=U.UTC)) // dtm.timedelta(microseconds=1)
            want = want if isinstance(want, int) else (want - dtm.datetime(1970, 1, 1)) // dtm.timedelta(microseconds=1)
            require(got == want, where, 'is', v, 'for', d)
        else:
            require(t is str and LENIENT.match(d), where, 'is', v, 'for', repr(d))
    elif k == 'date':
        require(type(v) is dtm.date, where, 'is no date:', repr(v))
        require(t is str and (not DATE.match(d) or v.isoformat() == d), where, 'is', v, 'for', repr(d))
    elif k == 'time':
        require(type(v) is dtm.time, where, 'is no time:', repr(v))
        require(t is str and (not TIME.match(d) or U.ref(['time'], v) == (d[:8] if d.endswith('.000000') else d)), where, 'is', v,
                'for', repr(d))
    elif k == 'timedelta':
        require(isinstance(v, dtm.timedelta), where, 'is no timedelta:', repr(v))
        require(not num(d) or v == dtm.timedelta(seconds=d), where, 'is', v, 'for', d)
    elif k == 'decimal':
        require(isinstance(v, Decimal), where, 'is no Decimal:', repr(v))
        if t is str:
            try:
                w = Decimal(d)
            except InvalidOperation:
                raise Wrong(f'{where} is {v!r} for {d!r}')
            require(str(w) == str(v), where, 'is', v, 'for', d)
        require(t not in (int,) or v == d, where, 'is', v, 'for', d)
    elif k == 'uuid':
        require(isinstance(v, uuid.UUID), where, 'is no UUID:', repr(v))
        require(t is str and (not UUID.match(d) or str(v) == d), where, 'is', v, 'for', repr(d))
    elif k == 'path':
        require(isinstance(v, U.pathlib.PurePath), where, 'is no path:', repr(v))
        require(t is str and str(v) == str(U.pathlib.PurePosixPath(d)), where, 'is', v, 'for', repr(d))
    elif k == 'complex':
        require(isinstance(v, complex), where, 'is no complex:', repr(v))
        require(t is dict, where, 'is', v, 'for', d)
        for a in ('real', 'imag'):
            require(a in d and (not num(d[a]) or same(getattr(v, a), float(d[a]))), where, 'is', v, 'for', d)
    elif k == 'timezone':
        require(isinstance(v, dtm.timezone), where, 'is no timezone:', repr(v))
        require(t is dict and 'offset' in d and 'name' in d, where, 'is', v, 'for', d)
        require(not num(d['offset']) or v.utcoffset(None) == dtm.timedelta(seconds=d['offset']), where, 'is', v, 'for', d)
        require(v.tzname(None) == d['name'], where, 'is named', v.tzname(None), 'for', d)
    elif k == 'zone':
        require(t is dict and getattr(v, 'key', KeyError) == d.get('key'), where, 'is', repr(v), 'for', d)
    elif k == 'enum':
        e = U.hint(s)
        require(isinstance(v, e), where, 'is no', e, repr(v))
        require(v.name == d or v.value == d, where, 'is', v, 'for', repr(d))
    elif k in ('opt', 'union'):
        subs = s[1:] + ([['none']] if k == 'opt' else [])
        errs = []
        for x in subs:
            try:
                return agrees(x, d, v, where)
            except Wrong as e:
                errs.append(str(e))
        raise Wrong('; '.join(errs)[:500])
    elif k in ('list', 'vtuple', 'deque', 'tuple', 'jtuple', 'set', 'frozenset'):
        want = {'vtuple': tuple, 'jtuple': tuple, 'deque': collections.deque, 'set': set, 'frozenset': frozenset, 'list': list,
                'tuple': tuple}[k]
        require(type(v) is want, where, 'is no', want.__name__, repr(v))
        require(t is list, where, 'is', repr(v), 'for', repr(d))
        if k == 'tuple' and len(s) > 1:
            require(len(v) == len(s) - 1, where, 'has', len(v), 'elements:', v)
        if k in ('set', 'frozenset'):
            for a in d:
                require(any(ok(s[1], a, e) for e in v), where, 'has nothing for', repr(a), ':', v)
            for e in v:
                require(any(ok(s[1], a, e) for a in d), where, 'has', repr(e), 'from', d)
            return
        require(len(v) == len(d), where, 'has', len(v), 'elements instead of', len(d))
        for i, (a, e) in enumerate(zip(d, v)):
            agrees(s[i + 1] if k == 'tuple' and len(s) > 1 else ['json'] if k == 'jtuple' else s[1], a, e, f'{where}[{i}]')
    elif k in ('dict', 'mapping', 'defaultdict'):
        require(isinstance(v, dict) and isinstance(d, dict), where, 'is', repr(v), 'for', repr(d))
        pairs = [(a, b) for a, b in d.items()]
        if isinstance(d.get('-keys'), (dict, list, str)) and d['-keys']:
            require(isinstance(d['-keys'], dict) and set(d['-keys']) <= set(d), where, 'is', repr(v), 'for', d)
            pairs = [(d['-keys'].get(a, a), b) for a, b in d.items() if a != '-keys']
            require(all(h in d for h in d['-keys']), where, 'has values for', d)
        require(len(v) <= len(pairs), where, 'has', len(v), 'entries from', len(pairs))
        for a, b in v.items():
            require(any((ok(s[1], x, a) or a == x) and ok(s[2], y, b) for x, y in pairs), where, 'has', repr(a), ':', repr(b), 'from', d)
        for x, y in pairs:
            require(any(ok(s[1], x, a) or a == x for a in v), where, 'has no key for', x, ':', list(v))
    elif k == 'cls':
        return agrees_object(s[1], d, v, where)
    else:
        raise core.HarnessError(f'no agreement for {k}')


def ok(s, d, v):
    try:
        agrees(s, d, v, ']')
        return True
    except Wrong:
        return False


def agrees_object(name, d, v, where):
    cls = U.CLS[name]
    require(type(v) is cls, where, 'is no', name, ':', repr(type(v)))
    decl = U.DECL[name]
    pub = {a: a.lstrip('_') if name in U.PUBLIC else a for a in decl}
    if isinstance(d, list) and hasattr(cls, '_fields'):
        require(len(d) <= len(cls._fields), where, 'is', v, 'for', d)
        d = dict(zip(cls._fields, d))
    require(isinstance(d, dict), where, 'is', repr(v), 'for', repr(d))
    try:
        params = inspect.signature(cls).parameters
    except ValueError:
        params = {}
    for a, sub in decl.items():
        key = pub[a]
        if key in d:
            require(hasattr(v, a), where, f'has no {a}, which is in', d)
            if name == 'Late' and a != 'code' and sub[0] == 'dict' or not isinstance(v, object):
                continue
            agrees(sub, d[key], getattr(v, a), f'{where}.{a}')
        elif key in params:
            p = params[key]
            if p.default is not inspect.Parameter.empty and type(p.default).__name__ != '_HAS_DEFAULT_FACTORY_CLASS':
                require(canon(getattr(v, a)) == canon(p.default), where, f'.{a} is', getattr(v, a), 'but is not in', d)
            elif p.default is inspect.Parameter.empty:
                require(sub[0] in ('opt', 'json', 'none', 'any') or (sub[0] == 'union' and ['none'] in sub) and getattr(v, a) is None,
                        where, f'has {a} =', getattr(v, a, None), 'but it is not in', d)
            else:
                require(not getattr(v, a), where, f'.{a} is', getattr(v, a), 'but is not in', d)


def untyped(d, v, where):
    if isinstance(d, dict):
        require(type(v) is dict and len(v) == len(d), where, 'is', repr(v), 'for', d)
        for a in d:
            require(a in v, where, 'has no', a)
            untyped(d[a], v[a], f'{where}[{a!r}]')
    elif isinstance(d, list):
        require(type(v) is list and len(v) == len(d), where, 'is', repr(v), 'for', d)
        for i, (a, b) in enumerate(zip(d, v)):
            untyped(a, b, f'{where}[{i}]')
    elif isinstance(d, str):
        if isinstance(v, dtm.datetime):
            require(len(d) >= 14 and d[:4].isdigit(), where, 'is', v, 'for', d)
            return
        require(type(v) is str and v == d, where, 'is', repr(v), 'for', repr(d))
    else:
        require(type(v) is type(d) and same(v, d), where, 'is', repr(v), 'for', repr(d))


def meta_of(d):
    """The meta sections in a document, by path."""
    out = {}
    for p in paths(d):
        x = at(d, p)
        if isinstance(x, dict) and '-meta' in x:
            m = x['-meta']
            if isinstance(m, dict):
                m = {k: e for k, e in m.items() if k != 'dump_time'}
            out[p] = m
    return out


def named(n):
    """The class a meta section names (None: not known)."""
    for c in U.CLS.values():
        if isinstance(n, str) and n == f'{c.__module__}.{c.__name__}':
            return c
    return None


# ------------------------------------------------------------------ loading
class Tool:
    def __init__(self, lib):
        import jsons.decorators as dec
        self.lib = lib
        self.fork = lib.fork()
        self.dec = dec


def load_as(tool, how, it, data, typed):
    """The outcome of one way to load: ('ok', value) or ('err', exception)."""
    lib = tool.lib
    enc = it.get('enc', 'utf-8')
    cls = U.hint(it['s']) if typed else None
    try:
        if how == 'loadb':
            return ('ok', lib.loadb(data, cls, encoding=enc))
        if how == 'loads':
            return ('ok', lib.loads(data.decode(enc), cls))
        if how == 'bytes':
            return ('ok', lib.loads(data, cls) if enc == 'utf-8' else lib.loadb(data, cls, enc))
        if how == 'fork':
            return ('ok', lib.loadb(data, cls, encoding=enc, fork_inst=tool.fork))
        if how == 'load':
            return ('ok', lib.load(json.loads(data.decode(enc)), cls))
        if how == 'tasks':
            import threading
            kw = {'tasks': 3, 'task_type': threading.Thread} if it['s'][0] == 'list' else {}
            return ('ok', lib.loads(data.decode(enc), cls, **kw))
        if how == 'js':
            js = lib.JsonSerializable
            c = type('Doc', (js, cls), {}) if False else js
            return ('ok', lib.loads(data.decode(enc), cls, fork_inst=c))
        if how == 'deco':
            def f(a):
                return a
            if cls is not None:
                f.__annotations__ = {'a': cls}
            else:
                return ('ok', lib.loads(data.decode(enc)))
            return ('ok', tool.dec.loaded(loader=lib.loadb, encoding=enc, returnvalue=False)(f)(data))
    except core.HarnessError:
        raise
    except Exception as e:          # noqa
        return ('err', e)
    raise core.HarnessError(how)


def shown(data, it):
    try:
        return data.decode(it.get('enc', 'utf-8'))[:300]
    except ValueError:
        return bytes(data[:300])


def judge(run, lib, it, how, data, out, intact):
    """Is this outcome what the property allows?"""
    enc = it.get('enc', 'utf-8')
    typed = it['typed']
    where = f'{how} of {shown(data, it)!r}{"..." if len(data) > 300 else ""} ({enc}, type {it["s"] if typed else None})'

    def bad(kind, msg):
        raise engine.Violation(kind, f'{where} {msg}', how)
    lossy = None
    try:
        if how == 'bytes' and enc == 'utf-8':
            text = data.decode(json.detect_encoding(data), 'surrogatepass')
        else:
            text = data.decode(enc)
    except ValueError:
        text = None
    if text is None:
        if out[0] == 'ok':
            bad('undecodable', f'returns {out[1]!r} although the bytes are no {enc}')
        if not isinstance(out[1], (UnicodeDecodeError, lib.JsonsError)):
            bad('escaped', f'raises {out[1]!r}')
        run.probe('undecodable')
        return
    try:
        doc = json.loads(text)
    except json.JSONDecodeError:
        doc = KeyError
    except (ValueError, RecursionError):
        doc = lossy = KeyError
    if out[0] == 'err':
        e = out[1]
        if how == 'load' and doc is KeyError:
            return                          # failed before the library was called
        if not isinstance(e, lib.JsonsError):
            bad('escaped', f'raises {type(e).__name__}: {e}'[:700])
        if doc is KeyError and lossy is None and not isinstance(e, lib.DecodeError):
            bad('no-decode-error', f'raises {type(e).__name__} although it is no JSON')
        if intact and doc is not KeyError and (typed or '-keys' not in text):
            bad('intact', f'fails: {e!r}'[:900])
        run.probe('rejected' if doc is not KeyError else 'no JSON')
        return
    v = out[1]
    if doc is KeyError:
        bad('half-way', f'returns {v!r} although it is no JSON')
    metas = meta_of(doc)
    try:
        if not metas:
            agrees(it['s'], doc, v, 'the result') if typed else untyped(doc, v, 'the result')
            run.probe('intact' if intact else 'loads as what it says')
        elif not typed and isinstance(doc, dict) and isinstance(doc.get('-meta'), dict) and \
                isinstance(doc['-meta'].get('classes'), dict) and isinstance(doc['-meta']['classes'].get('/'), str):
            n = doc['-meta']['classes']['/']
            c = named(n)
            if c is not None:
                require(type(v) is c, 'the result is a', type(v), 'but the document says', n)
            if metas == it.get('metas') and c is not None:
                agrees_object(c.__name__, doc, v, 'the result')
            run.probe('class from the document')
        elif typed and it['s'][0] == 'cls':
            require(type(v) is U.CLS[it['s'][1]], 'the result is a', type(v))
            if metas == it.get('metas'):
                agrees_object(it['s'][1], doc, v, 'the result')
            run.probe('verbose, typed')
        elif typed and it['s'][0] == 'list':
            require(type(v) is list and isinstance(doc, list) and len(v) == len(doc), 'the result is', v)
            if metas == it.get('metas'):
                agrees(it['s'], doc, v, 'the result')
            run.probe('verbose list')
    except Wrong as w:
        bad('half-way', f'returns {v!r}: {w}'[:1500])


def run(run):
    import jsons
    sc = run.sc
    items = sc['items']
    stores = []

    def write():
        for it in items:
            docs = []
            for version in (0, 1):
                kw = {'verbose': {'yes': True, 'cls': jsons.Verbosity.WITH_CLASS_INFO}[it['verbose']]} if it.get('verbose') else {}
                v = make(it, version)
                enc = it.get('enc', 'utf-8')
                try:
                    docs.append(jsons.dumpb(v, encoding=enc, jdkwargs=jd(it), **kw))
                except UnicodeEncodeError:
                    docs.append(jsons.dumpb(v, encoding=enc, **kw))
            stores.append(docs)
    engine.serial(write, 'none')
    damaged = [damage(run, it, docs) for it, docs in zip(items, stores)]
    tool = Tool(jsons)
    outs = {}
    for it, docs in zip(items, stores):
        try:
            it = it
            metas = meta_of(json.loads(docs[0].decode(it.get('enc', 'utf-8'))))
        except ValueError:
            metas = {}
        it['metas'] = metas

    def load_all(i, data, tag):
        def go():
            for how in items[i]['how']:
                outs[i, tag, how] = (data, load_as(tool, how, items[i], data, items[i]['typed']))
        return go
    jobs = []
    for i in range(len(items)):
        jobs.append((f'd{i}', load_all(i, damaged[i], 'damaged')))
        if sc.get('threads'):
            jobs.append((f'i{i}', load_all(i, stores[i][0], 'intact')))
    if sc.get('threads'):
        run.simulate(jobs)
    else:
        for _, j in jobs:
            engine.serial(j, 'none')
    # Intact documents afterwards.
    for i in range(len(items)):
        engine.serial(load_all(i, stores[i][0], 'later'), 'none')
    for (i, tag, how), (data, out) in outs.items():
        run.note(i, tag, how, data[:200], '->', out[0], type(out[1]).__name__)
        judge(run, jsons, items[i], how, data, out, data == stores[i][0])
        if tag == 'later' and out[0] == 'ok' and items[i]['typed']:
            x = diff(canon(make(items[i], 0)), canon(out[1]))
            if x and not c11_ambiguous(items[i]):
                raise engine.Violation('afterwards', f'the intact document {data[:300]!r} of {items[i]["s"]} loads as {out[1]!r} ({x}) '
                                       f'after the damaged {damaged[i][:300]!r}', how)
    for it in items:
        it.pop('metas', None)
    run.stats['nontrivial'] = True


def c11_ambiguous(it):
    t = str(it['s'])
    return "['union', ['word']" in t or "['union', ['cls', 'Base']" in t or "'StrInt'" in t


def simplify(sc):
    for x in engine.drop_each(sc['items']):
        if x:
            yield dict(sc, items=x)
    if sc.get('threads'):
        yield dict({k: v for k, v in sc.items() if k != 'threads'}, sched={'mode': 'serial', 'gran': 'none'})
    for i, it in enumerate(sc['items']):
        def new(**o):
            n = {k: v for k, v in dict(it, **o).items() if v is not None}
            return dict(sc, items=sc['items'][:i] + [n] + sc['items'][i + 1:])
        for f in engine.drop_each(it['f']):
            yield new(f=f)
        for h in it['how']:
            if len(it['how']) > 1:
                yield new(how=[h])
        if it['how'] not in (['load'], ['loads']):
            yield new(how=['loads'])
        for k in ('jd', 'enc', 'verbose', 'old'):
            if it.get(k):
                yield new(**{k: None})
        if it['n'] > 1:
            yield new(n=1)
        for x in it['s'][1:]:
            if isinstance(x, list):
                yield new(s=x)
        if it['s'][0] == 'cls':
            for x in U.DECL.get(it['s'][1], {}).values():
                yield new(s=x)
