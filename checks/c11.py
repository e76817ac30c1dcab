"""C11: a dumped document restores the same value in any later process."""
import datetime as dtm
import inspect
import json
import random
from dataclasses import dataclass
from decimal import Decimal
from typing import Dict, FrozenSet, List, Optional, Set, Tuple, Union

import c09
import core
import engine
import ops
import universe as U
from canon import canon, diff

ID = 'C11'
LEVEL = 'exploration'
COUNTS = {'quick': 6000, 'thorough': 100000}
NODES = (1, 4242)
RULE = ('A run: 1-4 random values of random types (all supported leaves, texts with any characters, containers, classes, non-JSON dict keys, '
        'user types with registered serializers) are dumped to text or bytes by two processes that differ in hash '
        'seed, hash function of user keys (also all colliding), system clock, time zone, earlier calls (also failing '
        'ones), registration order, number of tasks and presence of the source code; both documents must be the one the reference model computes; '
        'a third process, again different in all of these, loads them and must get the original values.')
REAL = ['all of /repo/jsons', 'typish', 'json', 'two further Python interpreters with other hash seeds']
STUB = ['system clock', 'time zone', '__hash__ of user keys', 'thread scheduler (parallel loads and dumps)',
        'storage (texts handed from process to process)']
ASSUMPTIONS = ['processes that read and write have the same classes and registrations of the user',
               'unions are unambiguous; datetimes have a time zone (naive ones: C09)']


# ------------------------------------------------------------------ user types with serializers
class Money:
    def __init__(self, cents, unit='EUR'):
        self.cents, self.unit = cents, unit

    def __eq__(self, o):
        return type(o) is type(self) and (o.cents, o.unit) == (self.cents, self.unit)

    def __hash__(self):
        return U.HASH(U.Key(self.cents, self.unit))


class Tip(Money):
    """Uses the serializer of its parent."""


class Temp:
    def __init__(self, milli):
        self.milli = milli


class Grid:
    """Dumped as a list of rows."""
    def __init__(self, rows):
        self.rows = rows


@dataclass
class Invoice:
    total: Money
    temps: List[Temp]
    by: Dict[str, Money]
    grid: Grid
    opt: Optional[Tip]
    per: Dict[Money, int]
    pair: Tuple[Temp, int]


@dataclass
class Hashy:
    """Everything whose order or names depend on hashes."""
    words: Set[str]
    keys: FrozenSet[U.Key]
    m: Dict[U.Key, Dict[U.Key, List[U.Pt]]]
    n: Dict[Tuple[str, int], Set[int]]
    o: Dict[dtm.date, U.Key]
    p: Dict[U.Color, Dict[str, int]]
    q: List[Dict[U.Key, U.Key]]


@dataclass
class Texts:
    """Texts (and numbers) that not every encoding and not every reader of lines survives."""
    text: str
    texts: List[str]
    by: Dict[str, str]
    opt: Optional[str]
    num: float
    nums: Tuple[int, ...]
    raw: dict


U.DECL['Hashy'] = {'words': ['set', ['word']], 'keys': ['frozenset', ['cls', 'Key']],
                   'm': ['dict', ['cls', 'Key'], ['dict', ['cls', 'Key'], ['list', ['cls', 'Pt']]]],
                   'n': ['dict', ['tuple', ['word'], ['int']], ['set', ['int']]],
                   'o': ['dict', ['date'], ['cls', 'Key']],
                   'p': ['dict', ['enum', 'Color'], ['dict', ['str'], ['int']]],
                   'q': ['list', ['dict', ['cls', 'Key'], ['cls', 'Key']]]}
U.CLS['Hashy'] = Hashy


def register(lib, order, forks):
    """Registrations of the user, in some order."""
    def money(o, **kw):
        return f'{o.unit} {o.cents}'

    def to_money(d, cls=Money, **kw):
        unit, cents = d.split(' ')
        return cls(int(cents), unit)

    def temp(o, **kw):
        return o.milli

    def to_temp(d, cls=Temp, **kw):
        return Temp(d)

    def grid(o, **kw):
        return [list(x) for x in o.rows]

    def to_grid(d, cls=Grid, **kw):
        return Grid([tuple(x) for x in d])
    todo = [lambda f: lib.set_serializer(money, Money, **f),
            lambda f: lib.set_deserializer(to_money, [Money, Tip], **f),
            lambda f: lib.set_serializer(temp, Temp, **f),
            lambda f: lib.set_deserializer(to_temp, Temp, **f),
            lambda f: lib.set_serializer(grid, Grid, **f),
            lambda f: lib.set_deserializer(to_grid, Grid, **f)]
    for f in forks:
        for i in order:
            todo[i](f)


def gen_invoice(r):
    def money(cls=Money):
        return cls(r.randrange(-10**6, 10**6), r.choice(['EUR', 'USD', 'ƒ']))
    return Invoice(money(), [Temp(r.randrange(-300, 300)) for _ in range(r.randrange(3))],
                   {r.choice('abc'): money() for _ in range(r.randrange(3))},
                   Grid([(r.randrange(9), r.randrange(9)) for _ in range(r.randrange(3))]),
                   r.choice([None, money(Tip)]), {money(): r.randrange(9) for _ in range(r.randrange(3))},
                   (Temp(1), 2))


ODD = ['\ud83d.', 'a\udc00b', '\U0001f600', '\x00', '\x7f\x80\x9f', '\ufeff', 'a\u2028b\u2029', 'e\u0301', '\u00e9', 'ſß',
       '\r\n', '"', '\\', '\\u0041', '/', '\t', ' ', '', '\ufffd', '\uffff', 'true', 'null', '1', '-0', '[]', 'İı', '\u202e', '\x1a', '\x0b\x0c\x85',
       'None', '-meta', '-keys', '-cls', '~', '\udcff', '名前']


def gen_texts(r):
    def text():
        return ''.join(r.choice(ODD) for _ in range(r.choice([0, 1, 1, 1, 2, 5])))
    keys = [k for k in (text() for _ in range(3)) if k[:1] != '-']
    return Texts(text(), [text() for _ in range(r.randrange(4))], {k: text() for k in keys}, r.choice([None, text()]),
                 r.choice([0.1, 1e308, 5e-324, -0.0, float('inf'), -float('inf'), 1e16, 123456789.123456789]),
                 tuple(r.choice([0, 2 ** 63, -2 ** 64, 10 ** 400, 1]) for _ in range(r.randrange(3))),
                 {k: [text(), {k: None}] for k in keys})


def ref_texts(v):
    return dict(vars(v), nums=list(v.nums))


def ref_invoice(v):
    def m(x):
        return f'{x.unit} {x.cents}'
    return {'total': m(v.total), 'temps': [t.milli for t in v.temps], 'by': {k: m(x) for k, x in v.by.items()},
            'grid': [list(x) for x in v.grid.rows], 'opt': m(v.opt) if v.opt else None,
            'per': {m(k): x for k, x in v.per.items()}, 'pair': [v.pair[0].milli, 2]}


# ------------------------------------------------------------------ generation
ZONES = list(c09.ZONES) + ['Europe/Amsterdam', 'Australia/Lord_Howe', 'America/New_York']
HASHED = [['cls', 'Hashy'], ['cls', 'Keyed'], ['cls', 'Mixed'], ['dict', ['cls', 'Key'], ['cls', 'Pt']],
          ['dict', ['tuple', ['int'], ['int']], ['str']], ['dict', ['cls', 'Key'], ['dict', ['cls', 'Key'], ['int']]],
          ['set', ['cls', 'Key']], ['frozenset', ['word']], ['dict', ['cls', 'Key'], ['set', ['int']]],
          ['dict', ['str'], ['dict', ['cls', 'Key'], ['int']]], ['list', ['dict', ['cls', 'Key'], ['str']]],
          ['dict', ['tuple', ['int'], ['int']], ['opt', ['cls', 'Person']]], ['dict', ['uuid'], ['dt']],
          ['dict', ['cls', 'Key'], ['opt', ['int']]], ['dict', ['tuple', ['int'], ['int']], ['opt', ['cls', 'Pt']]]]
STRICT = [['cls', 'Pt'], ['cls', 'Person'], ['cls', 'Race'], ['list', ['cls', 'Lap']], ['cls', 'Derived'], ['cls', 'Node'],
          ['cls', 'Nest'], ['cls', 'Hashy'], ['cls', 'Leafs'], ['dict', ['str'], ['cls', 'Pt']], ['cls', 'Holder']]
CASED = [['cls', 'Race'], ['cls', 'Lap'], ['list', ['cls', 'Race']], ['opt', ['cls', 'Lap']]]


def gen_env(r):
    return {'node': r.choice([-1, 0, 1]), 'epoch': r.choice([0.5, 1_600_000_000, 1_720_000_000, 2 ** 31 + 5, 4e9]),
            'zone': r.choice(ZONES), 'hash': [r.choice(['spread', 'spread', 'few', 'one', 'plain']), r.randrange(1000)],
            'order': r.sample(range(6), 6), 'src': r.random() < 0.7, 'tasks': r.choice([1, 1, 1, 2, 3]),
            'history': [ops.gen_op(r) for _ in range(r.choice([0, 0, 1, 3]))]}


def gen_item(r):
    k = r.random()
    it = {'v': r.randrange(1 << 30), 'n': r.choice([1, 2, 2, 3]), 'k': r.choice(['dumps', 'dumps', 'dumpb', 'dump']),
          'o': {}, 'how': r.choice(['loads', 'load'])}
    if k < 0.12:
        it['s'] = r.choice([['invoice'], ['texts'], ['blend'], ['blend']])
    elif k < 0.4:
        it['s'] = r.choice(HASHED)
        if r.random() < 0.15:
            it['o'] = {'strip_nulls': True}     # nothing to restore, but the document is known
    elif k < 0.5:
        it['s'] = r.choice(STRICT)
        it['o'] = r.choice([{}, {'strict': True}])
        it['cls'] = bool(it['o'])
        it['strict'] = True
    elif k < 0.6:
        it['s'] = r.choice(CASED)
        it['o'] = {'key_transformer': r.choice(['camel', 'pascal', 'lisp'])}
        it['recase'] = True
    else:
        it['s'] = U.schema(r, 3 if r.random() < 0.4 else 2)
        it['cls'] = r.random() < 0.2
        if r.random() < 0.25:
            it['o'] = r.choice([{'strip_properties': True}, {'strict': True}, {'strict': True}])
    if it['o'].get('strict') and ('Att' in str(it['s']) or 'Box' in str(it['s'])):
        it['o'] = {}                    # a strict dump needs attributes with hints, named as in the constructor
    if r.random() < 0.12:
        it['o'] = dict(it['o'], fork_inst=r.choice(['D', 'E', 'J']))
    if r.random() < 0.3:
        it['jd'] = r.choice([{'ensure_ascii': False}, {'indent': 2}, {'separators': [',', ':']}])
    if it['k'] == 'dumpb' and r.random() < 0.3:
        it['enc'] = r.choice(['utf-16', 'utf-32', 'utf-8-sig', 'utf-16-le'] + ([] if it.get('jd') else ['ascii', 'latin-1', 'cp1252', 'utf-7']))
    if it['s'] == ['texts'] and it['k'] == 'dumpb':
        it['jd'] = None             # (a lone surrogate cannot be encoded)
    if it['k'] == 'dumpb' and it['how'] == 'load':
        it['how'] = 'loadb'
    return it


def generate(r, seed, tier):
    sc = {'items': [gen_item(r) for _ in range(r.choice([1, 2, 2, 4]))], 'w1': gen_env(r), 'w2': gen_env(r),
          'rd': gen_env(r)}
    for it in sc['items']:
        try:
            make(it)
        except U.Skip:
            it['s'] = ['cls', 'Hashy']
            it['o'] = {}
    sc['sched'] = {'mode': 'serial', 'gran': 'none'}
    return sc


def make(it):
    r = random.Random(it['v'])
    if it['s'] == ['invoice']:
        return gen_invoice(r)
    if it['s'] == ['texts']:
        return gen_texts(r)
    if it['s'] == ['blend']:
        keys = [U.Key(r.randrange(9), r.choice('ab')) for _ in range(r.choice([1, 2, 3]))] + \
            r.sample(['0', '1', '2', '3', '4', 'x', str(r.randrange(1000))], r.choice([1, 2, 4]))
        r.shuffle(keys)
        return {k: r.randrange(99) for k in keys}
    return U.gen(it['s'], r, it['n'])


def type_of(it):
    return {'invoice': Invoice, 'texts': Texts, 'blend': Dict[Union[U.Key, str], int]}.get(it['s'][0]) or U.hint(it['s'])


def ambiguous(it):
    t = str(it['s'])
    return "['union', ['word']" in t or "['union', ['cls', 'Base']" in t or "'StrInt'" in t


# ------------------------------------------------------------------ processes
def no_source(*a, **k):
    raise OSError('source code not available')


class Place:
    """A process of its own: clock, zone, hashes, registrations and history."""

    def __init__(self, env):
        import jsons
        engine.core_warnings()
        core.Clock().start(env['epoch'], 1000)
        c09.set_zone(env['zone'])
        U.set_hash(*env['hash'])
        if not env['src']:
            inspect.getsource = inspect.getsourcelines = inspect.findsource = no_source
        self.lib = jsons
        self.w = ops.World(jsons)
        self.w.forks['D'] = jsons.fork()
        register(jsons, env['order'], [{}] + [{'fork_inst': f} for f in self.w.forks.values()])
        self.w.forks['E'] = jsons.fork()
        for o in env['history']:
            self.w.build(o).outcome('history')

    def kwargs(self, it):
        return self.w.kwargs(dict(it['o']))


def on(run, env, fn, *args):
    """fn in a fresh process."""
    if env['node'] < 0 or env['node'] >= len(run.nodes):
        return engine.in_child(globals()[fn], env, *args)
    return run.nodes[env['node']].call(fn, env, *args)


def writer(env, items):
    """The stored documents (text or bytes), or errors."""
    def go():
        pl = Place(env)
        out = []
        for it in items:
            kw = pl.kwargs(it)
            v = make(it)
            if it.get('cls'):
                kw['cls'] = type_of(it)
            if isinstance(v, (tuple, set, frozenset)) and env['tasks'] > 1:
                kw['tasks'] = env['tasks']
            try:
                if it['k'] == 'dump':
                    t = json.dumps(pl.lib.dump(v, **kw), **jd(it))
                elif it['k'] == 'dumps':
                    t = pl.lib.dumps(v, jd(it) or None, **kw)
                else:
                    if it.get('enc'):
                        kw['encoding'] = it['enc']
                    t = pl.lib.dumpb(v, jdkwargs=jd(it) or None, **kw) if 'cls' not in kw else \
                        pl.lib.dumpb(v, kw.pop('encoding', 'utf-8'), jd(it) or None, **kw)
                out.append(('ok', t))
            except pl.lib.JsonsError as e:
                out.append(('err', engine.clean(repr(e))))
        return out
    return engine.serial(go, 'none')[0]


def jd(it):
    d = dict(it.get('jd') or {})
    if 'separators' in d:
        d['separators'] = tuple(d['separators'])
    return d


def reader(env, items, texts):
    """For every text: a description of the loaded value and how it differs from the original."""
    def go():
        pl = Place(env)
        out = []
        for it, t in zip(items, texts):
            kw = {k: v for k, v in pl.kwargs(it).items() if k == 'fork_inst'}
            if it.get('strict'):
                kw['strict'] = True
            if it.get('recase'):
                kw['key_transformer'] = pl.lib.KEY_TRANSFORMER_SNAKECASE
            cls = type_of(it)
            if it['s'][0] == 'list' and env['tasks'] > 1:
                kw['tasks'] = env['tasks']
            try:
                if it['how'] == 'load' or (it['how'] == 'loads' and isinstance(t, bytes)):
                    v = pl.lib.load(json.loads(t if isinstance(t, str) else t.decode(it.get('enc', 'utf-8'))), cls, **kw)
                elif isinstance(t, bytes):
                    v = pl.lib.loadb(t, cls, encoding=it.get('enc', 'utf-8'), **kw)
                else:
                    v = pl.lib.loads(t, cls, **kw)
            except pl.lib.JsonsError as e:
                out.append(('err', engine.clean(repr(e))))
                continue
            except core.HarnessError:
                raise
            except Exception as e:          # noqa
                out.append(('err', 'not of the library: ' + engine.clean(repr(e))))
                continue
            a, b = canon(make(it)), canon(v)
            out.append(('ok', diff(a, b)))
        return out
    return engine.serial(go, 'none')[0]


def norm(d):
    """A document up to the order of lists and the names of hashed keys."""
    if isinstance(d, list):
        return sorted((norm(x) for x in d), key=repr)
    if isinstance(d, dict):
        if isinstance(d.get('-keys'), dict):
            return ['hashed'] + sorted(([norm(d['-keys'].get(h, h)), norm(x)] for h, x in d.items() if h != '-keys'), key=repr)
        return sorted(([k, norm(v)] for k, v in d.items()), key=repr)
    return d


def text_of(t, it):
    return t if isinstance(t, str) else t.decode(it.get('enc', 'utf-8'))


def run(run):
    sc = run.sc
    items = sc['items']
    docs = {}
    for w in ('w1', 'w2'):
        docs[w] = on(run, sc[w], 'writer', items)
        run.mark(f'{w} {sc[w]["node"]} {sc[w]["zone"]} {sc[w]["hash"]}', 'restart in another environment')
    good, texts = [], []
    for i, it in enumerate(items):
        a, b = docs['w1'][i], docs['w2'][i]
        for w, x in (('w1', a), ('w2', b)):
            if x[0] != 'ok':
                raise engine.Violation('dump-fails', f'{it} cannot be dumped in {env_of(sc[w])}: {x[1]}')
        da, db = (json.loads(text_of(x[1], it)) for x in (a, b))
        run.note(f'item {i}', it['k'], it['s'], '->', text_of(a[1], it))
        run.mark(f'{it["s"]}')
        m = reference(it)
        for w, d in (('w1', da), ('w2', db)):
            x = U.match(m, d, True) if m is not None else ''
            if x:
                raise engine.Violation('document', f'{it["k"]} of {it["s"]} (options {it["o"]}) in {env_of(sc[w])} gives '
                                       f'{json.dumps(d)[:400]}: {x}')
        if m is None and norm(da) != norm(db):
            raise engine.Violation('environment', f'{it} gives {text_of(a[1], it)[:300]} in {env_of(sc["w1"])}, but '
                                   f'{text_of(b[1], it)[:300]} in {env_of(sc["w2"])}')
        if m is None:
            run.probe('compared with the other process only')
        if not ambiguous(it) and 'strip_nulls' not in it['o']:
            for x in (a, b):
                good.append(it)
                texts.append(x[1])
    got = on(run, sc['rd'], 'reader', good, texts)
    run.mark(f'rd {sc["rd"]["node"]} {sc["rd"]["zone"]}', 'restart in another environment')
    for it, t, g in zip(good, texts, got):
        if g[0] != 'ok' or g[1]:
            raise engine.Violation('restored', f'{str(t)[:500]!r} ({it}) loads in {env_of(sc["rd"])} as '
                                   f'{g[1]!r}: differs from what was dumped', it['s'][0])
        run.probe('restored')
    run.stats['nontrivial'] = True


def env_of(e):
    return {k: v for k, v in e.items() if k != 'history'} | {'history': len(e['history'])}


def reference(it):
    if it['s'] == ['invoice']:
        return ref_invoice(make(it)) if not it['o'].get('strict') else None
    if it['s'] == ['texts']:
        return ref_texts(make(it)) if not it['o'].get('strict') else None
    o = {k: v for k, v in it['o'].items() if k != 'fork_inst'}
    if it['s'] == ['blend'] or it.get('cls') or any(k not in ops.MODEL_OPTS for k in o) or 'fork_inst' in it['o']:
        return None
    try:
        return U.ref(it['s'], make(it), o)
    except U.Skip:
        return None


def simplify(sc):
    for x in engine.drop_each(sc['items']):
        if x:
            yield dict(sc, items=x)
    base = {'node': -1, 'epoch': 1_600_000_000, 'zone': 'utc', 'hash': ['plain', 0], 'order': list(range(6)), 'tasks': 1, 'src': True,
            'history': []}
    for w in ('w1', 'w2', 'rd'):
        for k, v in base.items():
            if sc[w][k] != v:
                yield dict(sc, **{w: dict(sc[w], **{k: v})})
    for i, it in enumerate(sc['items']):
        cand = [{'o': {}, 'recase': False, 'strict': False, 'cls': False}, {'jd': None}, {'n': 1}, {'k': 'dumps', 'enc': None}]
        cand += [{'s': x} for x in it['s'][1:] if isinstance(x, list)]
        if it['s'][0] == 'cls':
            cand += [{'s': x} for x in U.DECL.get(it['s'][1], {}).values()]
        for o in cand:
            o = {k: v for k, v in o.items() if it.get(k) != v and (it.get(k) or v)}
            if o:
                new = {k: v for k, v in dict(it, **o).items() if v is not None}
                yield dict(sc, items=sc['items'][:i] + [new] + sc['items'][i + 1:])
