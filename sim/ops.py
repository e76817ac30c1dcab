"""Operations of the workloads: every public way to load and dump, with values, documents,
options, forks, decorated functions and re-entrant callbacks.  An operation is described by
a JSON-able dict; World turns it into a callable and canonicalises its outcome."""
import datetime as dtm
import json
import random
import sys
from dataclasses import dataclass
from decimal import Decimal
from typing import Dict, List, Optional, Tuple

import core
import engine
import quirks
import twins
import universe as U
from canon import canon


class Custom(Exception):
    """An exception of the user."""


def ordinary():
    """Every kind of exception of Python that user code may well raise: {name: class}."""
    import builtins
    bad = (StopIteration, SyntaxError, BaseExceptionGroup, UnicodeDecodeError, UnicodeEncodeError, UnicodeTranslateError,
           ModuleNotFoundError)
    out = {}
    for name, c in sorted(vars(builtins).items()):
        if isinstance(c, type) and issubclass(c, Exception) and not issubclass(c, bad) and c.__name__ == name:
            out[name] = c
    return out


class UserInterrupt(BaseException):
    """An exception that arrives asynchronously (not an Exception)."""


@dataclass
class Touchy:
    """An attribute fails to dump; the other attributes are fine."""
    a: int
    bad: object
    z: str

    def __post_init__(self):
        U.hook('Touchy()')


class Unserializable:
    """A property of it raises."""

    def __init__(self, msg='cannot'):
        self.msg = msg

    def __repr__(self):
        return 'Unserializable()'

    @property
    def risky(self):
        U.hook('risky')
        raise Custom(self.msg)


@dataclass
class Fussy:
    """A constructor that rejects some values."""
    n: int
    tail: Optional[List['Fussy']] = None

    def __post_init__(self):
        U.hook('Fussy()')
        if self.n < 0:
            raise Custom(f'negative {self.n}')


class World:
    """What is registered before the run starts, and what operations need."""

    def __init__(self, lib):
        self.lib = lib
        U.LIB, U.HOOK = lib, self._hook
        self.nested = {}
        st = lib.JsonSerializable
        a = lib.fork(name='ForkA')
        b = lib.fork(fork_inst=a, name='ForkB')
        c = lib.fork(name='ForkC')
        lib.announce_class(quirks.Ref, 'alias.Ref')
        self.forks = {'A': a, 'B': b, 'C': c, 'J': st}
        hook = U.hook

        def pt_list(o, **kw):
            hook('ser Pt')
            return [lib.dump(o.x, **kw), o.y]

        def pt_unlist(o, cls, **kw):
            hook('des Pt')
            if isinstance(o, dict):
                o = [o['x'], o['y']]
            return U.Pt(int(o[0]), lib.load(o[1], int))

        def lap_nest(o, **kw):
            hook('ser Lap')
            inner = lib.loads('{"x": 1, "y": 2}', U.Pt)
            return {'lap_no': o.lap_no, 'split_ms': o.split_ms, 'in': lib.dump(inner)}

        def lap_unnest(o, cls, **kw):
            hook('des Lap')
            lib.dumps(U.Pt(1, 2))
            return U.Lap(o['lap_no'], o['split_ms'])
        lib.set_serializer(pt_list, U.Pt, fork_inst=a)
        lib.set_deserializer(pt_unlist, U.Pt, fork_inst=a)
        lib.set_serializer(lap_nest, U.Lap, fork_inst=b)
        lib.set_deserializer(lap_unnest, U.Lap, fork_inst=b)
        lib.set_serializer(lambda o, **kw: 'D:' + str(o), Decimal, fork_inst=a)
        lib.set_deserializer(lambda o, cls, **kw: Decimal(o[2:] if o[:2] == 'D:' else o), Decimal, fork_inst=a)

        def pt_ok(o):
            hook('val Pt')
            return o.x % 3 != 2

        def base_ok(o):
            hook('val Base')
            if o.ident.int % 2:
                raise Custom('odd')
            return True
        lib.set_validator(pt_ok, U.Pt, fork_inst=c)
        lib.set_validator(base_ok, U.Base, fork_inst=c)
        lib.set_validator(lambda o: o != 13, int, fork_inst=c)

        @dataclass
        class JsA(lib.JsonSerializable):
            num_ber: int
            when_at: dtm.datetime
            pts_of: List[U.Pt]
        jb = lib.JsonSerializable.fork('JsFork').with_dump(key_transformer=lib.KEY_TRANSFORMER_CAMELCASE) \
            .with_load(key_transformer=lib.KEY_TRANSFORMER_SNAKECASE)

        @dataclass
        class JsB(jb):
            first_name: str
            the_lap: U.Lap
        self.js = {'JsA': JsA, 'JsB': JsB}
        for k in self.js.values():
            k.__module__ = __name__
            k.__qualname__ = k.__name__
            setattr(sys.modules[__name__], k.__name__, k)
        self._decorate()

    def _hook(self, tag):
        """Every callback of the workload comes here: a yield point, and the place where
        an operation may call the library again."""
        core.pause(tag)
        s = core.sim
        n = self.nested.get(s.cur.op) if s is not None and s.cur is not None else None
        if n:
            n[0] -= 1
            if n[0] == 0:
                n[1]()

    def _decorate(self):
        import jsons.decorators as dec
        lib, hook = self.lib, U.hook

        @dec.loaded()
        def ld(a: U.Pt, b: List[U.Person], *, c: int = 3) -> U.Race:
            hook('body')
            return {'race_name': f'{type(a).__name__}{a.x}', 'all_laps': [], 'best_lap':
                    {'lap_no': len(b), 'split_ms': 1.5}, 'by_driver': {}, 'null_able': c}

        @dec.loaded(returnvalue=False, loader=lib.loads)
        def lds(a: Dict[str, U.Pt], b=None):
            hook('body')
            return (a, b)

        @dec.loaded(parameters=False, fork_inst=self.forks['A'])
        def ldr(a) -> List[U.Pt]:
            hook('body')
            return a

        @dec.dumped()
        def dp(a, b: dtm.datetime):
            hook('body')
            return (a, b, U.Pt(1, 2))

        @dec.dumped(parameters=False, dumper=lib.dumps, fork_inst=self.forks['B'])
        def dps(a):
            hook('body')
            return [a, U.Lap(3, 2.5)]

        @dec.loaded()
        def tiny(a: int, b: str, c: float) -> str:
            hook('body')
            return f'{a!r} {b!r} {c!r}'

        @dec.dumped(strip_nulls=True)
        def tinyd(a, b: dtm.date, c: U.Color):
            hook('body')
            return [a, b, c]

        class Svc:
            def __init__(self, base):
                self.base = base

            @dec.loaded()
            def move(self, a: U.Pt, by: List[int]) -> U.Pt:
                hook('body')
                return {'x': a.x + self.base, 'y': sum(by)}

            @dec.dumped(strip_nulls=True, key_transformer=lib.KEY_TRANSFORMER_CAMELCASE)
            def show(self, a: U.Race) -> U.Race:
                hook('body')
                return U.Race('a_b', U.Lap(1, 1.0), [], {}, None)
        self.deco = {'ld': ld, 'lds': lds, 'ldr': ldr, 'dp': dp, 'dps': dps, 'svc': Svc, 'tiny': tiny, 'tinyd': tinyd}

    # ------------------------------------------------------------ preparing an operation
    def kwargs(self, o, shared=None):
        """Keyword arguments from the options of an operation."""
        lib = self.lib
        kt = {'camel': lib.KEY_TRANSFORMER_CAMELCASE, 'snake': lib.KEY_TRANSFORMER_SNAKECASE,
              'pascal': lib.KEY_TRANSFORMER_PASCALCASE, 'lisp': lib.KEY_TRANSFORMER_LISPCASE,
              'hooked': hooked_key}
        out = {}
        for k, v in o.items():
            if k == 'key_transformer':
                out[k] = kt[v]
            elif k == 'fork_inst':
                out[k] = self.forks[v]
            elif k == 'task_type':
                import multiprocessing
                import threading
                out[k] = {'thread': threading.Thread, 'process': multiprocessing.Process}[v]
            elif k == 'strip_attr':
                out[k] = v if isinstance(v, str) else list(v) if v[0] == 'x' else tuple(v)
            elif k == 'verbose':
                out[k] = {'yes': True, 'cls': lib.Verbosity.WITH_CLASS_INFO,
                          'none': lib.Verbosity.WITH_NOTHING}[v]
            elif k == 'getters':
                out['attr_getters'] = {n: (lambda n=n: (U.hook('getter'), GETTER[n])[1]) for n in v}
            else:
                out[k] = v
        return out

    def build(self, op):
        """An Op: call() performs the operation; inputs are the objects it is given."""
        k = op['k']
        lib = self.lib
        kw = self.kwargs(op.get('o') or {})
        if k in ('dump', 'dumps', 'dumpb'):
            v = value(op)
            a = {'cls': U.hint(op['s'])} if op.get('cls') else {}
            if 'cls' in a and k != 'dump':
                return Op(op, lambda: getattr(lib, k)(v, None if k == 'dumps' else 'utf-8', **a, **kw), [v, kw])
            return Op(op, lambda: getattr(lib, k)(v, **a, **kw), [v, kw])
        if k in ('load', 'loads', 'loadb'):
            d = document(op)
            t = U.hint(op['s'])
            if op.get('rename'):
                d = recase(d, op['rename'])
            if k == 'load':
                return Op(op, lambda: lib.load(d, t, **kw), [d, kw])
            txt = json.dumps(d, ensure_ascii=op['v'] % 2 == 0)
            if op.get('cut') is not None:
                txt = txt[:int(len(txt) * op['cut'])]
            if k == 'loadb':
                txt = txt.encode()
            return Op(op, lambda: getattr(lib, k)(txt, t, **kw), [txt, kw])
        if k == 'transform':
            v = value(op)
            t = U.CLS[op['to']]
            dk = self.kwargs(op['dk']) if 'dk' in op else {'strip_privates': True}
            da = []
            dc = {'dump_cls': U.CLS[op['s'][1]]} if op.get('dump_cls') else {}
            if op.get('no_dk'):
                return Op(op, lambda: lib.transform(v, t, mapper=remap if op.get('mapper') else None, **dc, **kw), [v, kw])
            return Op(op, lambda: lib.transform(v, t, mapper=remap if op.get('mapper') else None,
                                                dump_args=da, dump_kwargs=dk, **dc, **kw), [v, kw, dk, da])
        if k == 'js':
            r = random.Random(op['v'])
            if op['c'] == 'JsA':
                o = self.js['JsA'](U.gen_int(r), U.gen_dt(r, 'u'), [U.gen(['cls', 'Pt'], r) for _ in range(r.randrange(3))])
                d = {'num_ber': o.num_ber, 'when_at': U.plain(U.ref_dt(o.when_at, {})),
                     'pts_of': [{'x': p.x, 'y': p.y} for p in o.pts_of]}
            else:
                o = self.js['JsB'](U.gen_str(r), U.gen(['cls', 'Lap'], r))
                d = {'firstName': o.first_name, 'theLap': {'lapNo': o.the_lap.lap_no, 'splitMs': o.the_lap.split_ms}}
            t = type(o)
            f = {'json': lambda: o.json, 'dump': lambda: o.dump(strip_nulls=True), 'dumps': lambda: o.dumps(),
                 'from_json': lambda: t.from_json(d), 'load': lambda: t.load(d),
                 'loads': lambda: t.loads(json.dumps(d))}[op['m']]
            return Op(op, f, [o, d])
        if k == 'deco':
            return self._deco_op(op)
        if k == 'quirk':
            fn, inputs = quirks.build(op, lib, self)
            return Op(op, fn, inputs)
        if k == 'twin':
            fn, inputs = twins.build(op, lib, random.Random(op['v']), kw)
            return Op(op, fn, inputs)
        if k == 'vload':
            d = json.loads(op['doc'])
            return Op(op, lambda: lib.load(d, **kw), [d, kw])
        if k == 'baddump':
            r = random.Random(op['v'])
            v = [Touchy(i, r.choice([Unserializable(f'no {i}'), U.Pt(1, 2), Unserializable(), 5]), 'z')
                 for i in range(1 + op['v'] % 3)]
            v = v if op['v'] % 4 else (U.Box(v, 2))
            return Op(op, lambda: lib.dump(v, **kw), [v, kw])
        if k == 'fussy':
            r = random.Random(op['v'])
            d = fussy_doc(r, 2)
            t = r.choice([Fussy, List[Fussy], Optional[Fussy], Dict[str, Fussy]])
            if t == List[Fussy]:
                d = [fussy_doc(r, 1) for _ in range(3)]
            elif t == Dict[str, Fussy]:
                d = {'k': d}
            return Op(op, lambda: lib.load(d, t, **kw), [d, kw])
        raise core.HarnessError(f'unknown operation {k}')

    def _deco_op(self, op):
        r = random.Random(op['v'])
        f = op['f']
        lib = self.lib
        bad = r.random() < 0.2
        if f == 'ld':
            p = [U.plain(U.ref(['cls', 'Person'], U.gen(['cls', 'Person'], r, 2))) for _ in range(r.randrange(3))]
            a = {'x': r.randrange(9), 'y': 1}
            if bad:
                a.pop('y')
            return Op(op, lambda: self.deco['ld'](a, p, c=4), [a, p])
        if f == 'lds':
            a = json.dumps({'k': {'x': r.randrange(9), 'y': 2}})[:-1 if bad else None]
            return Op(op, lambda: self.deco['lds'](a, '5'), [a])
        if f == 'ldr':
            a = [[r.randrange(9), 3], [4, r.randrange(9)], [None] if bad else [1, 2]]
            return Op(op, lambda: self.deco['ldr'](a), [a])
        if f == 'dp':
            a = [U.gen(['cls', 'Lap'], r), Unserializable() if bad else 1]
            b = U.gen_dt(r, 'uo')
            return Op(op, lambda: self.deco['dp'](a, b), [a, b])
        if f == 'dps':
            a = U.gen(['list', ['cls', 'Pt']], r)
            return Op(op, lambda: self.deco['dps'](a), [a])
        if f == 'tiny':
            a = [str(r.randrange(99)), r.randrange(99), str(r.random())]
            if bad:
                a[0] = 'x'
            return Op(op, lambda: self.deco['tiny'](*a), [a])
        if f == 'tinyd':
            a = [Decimal(r.randrange(99)), U.gen_dt(r, 'u').date(), r.choice(list(U.Color))]
            return Op(op, lambda: self.deco['tinyd'](*a), [a])
        s = self.deco['svc'](r.randrange(100))
        if f == 'move':
            a, by = {'x': 1, 'y': 2}, [r.randrange(5) for _ in range(r.randrange(4))]
            return Op(op, lambda: s.move(a, by), [a, by])
        a = U.gen(['cls', 'Race'], r, 2)
        return Op(op, lambda: s.show(a), [a])


def hooked_key(k):
    U.hook('key')
    return k


GETTER = {'x': 7, 'name': 'got', 'extra': [1], 'lap_no': 4, 'code': 9}


def remap(d):
    U.hook('mapper')
    return dict(d)


def recase(d, how):
    """A document with keys in another case."""
    kt = {'camel': U._camel, 'pascal': U._pascal, 'lisp': lambda s: s.replace('_', '-')}[how]
    if isinstance(d, dict):
        return {kt(k) if isinstance(k, str) else k: recase(v, how) for k, v in d.items()}
    if isinstance(d, list):
        return [recase(x, how) for x in d]
    return d


def fussy_doc(r, depth):
    d = {'n': r.choice([1, 2, 3, -1, 7]) if depth < 2 else 1}
    if depth:
        d['tail'] = r.choice([None, [fussy_doc(r, depth - 1) for _ in range(r.randrange(3))]])
    return d


def value(op):
    r = random.Random(op['v'])
    return U.gen(op['s'], r, op.get('n', 3), op.get('poly', False))


def document(op):
    """The document of an operation, possibly made invalid."""
    v = value(op)
    if op.get('meta'):                  # a list of objects that were dumped verbosely
        d = []
        for e in v:
            c = type(e).__name__
            d.append({'-meta': {'classes': {'/': f'{U.MODNAME}.{c}'}}, **U.plain(U.ref(['cls', c], e), random.Random(op['v'] + 1))})
    else:
        d = U.plain(U.ref(op['s'], v), random.Random(op['v'] + 1))
    d = json.loads(json.dumps(d))
    if op.get('bad') is not None:
        d = spoil(d, random.Random(op['bad']))
    return d


def spoil(d, r):
    """A document that differs from d at one random place."""
    paths = []

    def walk(x, p):
        paths.append(p)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], p + [k])
        elif isinstance(x, list):
            for i, e in enumerate(x):
                walk(e, p + [i])
    walk(d, [])
    p = r.choice(paths)
    new = r.choice([None, 'garbage', 42, -1.5, [], {}, True, ['x'], {'q': None}])
    if not p:
        return new
    d = json.loads(json.dumps(d))
    x = d
    for k in p[:-1]:
        x = x[k]
    if r.random() < 0.4 and isinstance(x, dict):
        del x[p[-1]]
        if r.random() < 0.3:
            x['unexpected'] = 1
    else:
        x[p[-1]] = new
    return d


class Op:
    def __init__(self, spec, fn, inputs):
        self.spec, self.fn, self.inputs = spec, fn, inputs
        self.result = None

    def outcome(self, key):
        """('ok', canonical result, warnings) or ('err', type, message, cause, warnings)."""
        s = core.sim
        before = None
        if s is not None and s.cur is not None:
            before = s.cur.op
            s.cur.op = key
        else:
            key = None
        engine.warned.pop(key, None)
        try:
            return self._outcome(key)
        finally:
            if key is not None:
                s.cur.op = before

    def _outcome(self, key):
        try:
            r = self.result = self.fn()
        except core.HarnessError:
            raise
        except BaseException as e:      # noqa
            return error(e) + (tuple(engine.warned.pop(key, ())),)
        return ('ok', canon(r, order=True, exact_dt=True), tuple(engine.warned.pop(key, ())))


def error(e):
    chain, c = [], e.__cause__
    while c is not None and len(chain) < 8:
        chain.append(type(c).__name__)
        c = c.__cause__
    return ('err', type(e).__name__, engine.clean(str(e))[:600], tuple(chain[-1:]))


# ------------------------------------------------------------------ random operations
DUMP_OPTS = [{}, {}, {}, {'strip_nulls': True}, {'strip_privates': True}, {'strip_properties': True},
             {'strip_class_variables': True}, {'key_transformer': 'camel'}, {'strip_microseconds': True},
             {'key_transformer': 'pascal', 'strip_nulls': True}, {'strip_attr': ['x', 'name']}, {'strip_attr': ['name', 'y']},
             {'strip_attr': 'y'}, {'strict': True}, {'key_transformer': 'hooked'}, {'fork_inst': 'A'}, {'fork_inst': 'B'}, {'fork_inst': 'J'},
             {'verbose': 'yes'}, {'verbose': 'cls'}, {'verbose': 'none'}]
LOAD_OPTS = [{}, {}, {}, {'key_transformer': 'hooked'}, {'strict': True}, {'fork_inst': 'A'}, {'fork_inst': 'B'}, {'fork_inst': 'C'},
             {'warn_on_fail': True}, {'getters': ['x', 'extra']}, {'getters': ['name', 'lap_no', 'code']},
             {'fork_inst': 'C', 'warn_on_fail': True}, {'fork_inst': 'J', 'strict': True}]
MODEL_OPTS = ('strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables', 'strip_attr',
              'key_transformer', 'strip_microseconds')
TRANSFORMS = [('Derived', 'Base'), ('Other', 'Base'), ('Pt', 'Pt'), ('Person', 'Person'), ('Race', 'Race'),
              ('Wide', 'Base'), ('Pt', 'Lap'), ('Acct', 'Acct')]


TRANSFORM_LOAD = [{}, {'fork_inst': 'A'}, {'fork_inst': 'B'}, {'fork_inst': 'C'}, {'strict': True},
                  {'key_transformer': 'hooked'}, {'getters': ['name', 'lap_no', 'code']}]
TRANSFORM_DUMP = [{}, {}, {'fork_inst': 'A'}, {'fork_inst': 'B'}, {'strip_nulls': True}, {'verbose': 'yes'},
                  {'strip_attr': ['x', 'name']}, {'key_transformer': 'hooked'}, {'strict': True}]
DECOS = ['ld', 'lds', 'ldr', 'dp', 'dps', 'move', 'show', 'tiny', 'tinyd']


def gen_op(r, tasks=True, depth=2):
    """A random operation."""
    v = r.randrange(1 << 30)
    c = r.random()
    n = r.choice([1, 2, 2, 3])
    if c < 0.28:
        s = U.schema(r, depth)
        op = {'k': r.choice(['dump', 'dump', 'dumps', 'dumpb']), 's': s, 'v': v, 'n': n,
              'o': dict(r.choice(DUMP_OPTS)), 'poly': r.random() < 0.3}
        if r.random() < 0.25 and op['k'] == 'dump':
            op['cls'] = True
    elif c < 0.56:
        s = U.schema(r, depth)
        op = {'k': r.choice(['load', 'load', 'loads', 'loadb']), 's': s, 'v': v, 'n': n,
              'o': dict(r.choice(LOAD_OPTS))}
        if r.random() < 0.3:
            op['bad'] = r.randrange(1 << 30)
        elif op['k'] != 'load' and r.random() < 0.1:
            op['cut'] = round(r.random(), 3)
    elif c < 0.62:
        op = {'k': 'load', 's': ['cls', 'Race'], 'v': v, 'n': 2, 'rename': r.choice(['camel', 'pascal', 'lisp']),
              'o': {'key_transformer': 'snake'}}
    elif c < 0.68:
        a, b = r.choice(TRANSFORMS)
        op = {'k': 'transform', 's': ['cls', a], 'to': b, 'v': v, 'n': 2, 'mapper': r.random() < 0.5}
        if r.random() < 0.6:
            op['o'] = dict(r.choice(TRANSFORM_LOAD))
            op['dk'] = dict(r.choice(TRANSFORM_DUMP))
            op['no_dk'], op['dump_cls'] = r.random() < 0.2, r.random() < 0.3
    elif c < 0.75:
        op = {'k': 'js', 'c': r.choice(['JsA', 'JsB']), 'v': v,
              'm': r.choice(['json', 'dump', 'dumps', 'from_json', 'load', 'loads'])}
    elif c < 0.8:
        op = {'k': 'quirk', 'v': v}
    elif c < 0.86:
        op = {'k': 'deco', 'f': r.choice(DECOS), 'v': v}
    elif c < 0.89:
        op = {'k': 'baddump', 'v': v, 'o': r.choice([{}, {}, {'strict': True}])}
    elif c < 0.94:
        op = {'k': 'fussy', 'v': v, 'o': r.choice([{}, {'warn_on_fail': True}, {'fork_inst': 'C'}])}
    elif c < 0.97:
        op = {'k': r.choice(['dump', 'dumps']), 's': ['cls', 'Echo'], 'v': v, 'n': 2, 'o': {}}
    else:
        op = {'k': 'load', 's': ['cls', 'Echo'], 'v': v, 'n': 2, 'o': {}}
    if op['k'] in ('load', 'loads', 'loadb', 'dump') and op.get('s'):
        fix(op)
    if tasks and op['k'] == 'load' and op['s'][0] == 'list' and r.random() < 0.5:
        op['o']['tasks'] = r.choice([2, 3])
        op['o']['task_type'] = 'thread'
    return op


def fix(op):
    """Make sure that the document exists."""
    try:
        if op['k'] != 'dump':
            document(op)
        else:
            value(op)
    except U.Skip:
        op['s'] = ['list', ['cls', 'Pt']]


def model(op):
    """What the operation must give according to the reference model:
    ('doc', reference document, is it text) / ('val', canonical value) / None."""
    if op['k'] in ('dump', 'dumps', 'dumpb') and not op.get('cls'):
        o = op.get('o') or {}
        if any(k not in MODEL_OPTS for k in o):
            return None
        try:
            return ('doc', U.ref(op['s'], value(op), o))
        except U.Skip:
            return None
    if op['k'] in ('load', 'loads', 'loadb') and op.get('bad') is None and op.get('cut') is None:
        o = op.get('o') or {}
        if any(k not in ('tasks', 'task_type', 'warn_on_fail') for k in o):
            return None
        if op.get('meta') and op.get('k') != 'load':
            return None
        if "['union', ['word']" in str(op['s']) or "['union', ['cls', 'Base']" in str(op['s']):
            return None                 # an earlier member of the union takes any of these
        return ('val', canon(value(op)))
    return None


def simpler(op):
    """Smaller operations of the same kind."""
    if op.get('n', 0) > 1:
        yield dict(op, n=op['n'] - 1)
    if op.get('o'):
        for k in op['o']:
            yield dict(op, o={a: b for a, b in op['o'].items() if a != k})
    if op.get('s'):
        for sub in op['s'][1:]:
            if isinstance(sub, list):
                yield dict(op, s=sub)
        if op['s'] != ['cls', 'Pt'] and op['k'] != 'transform':
            yield dict(op, s=['cls', 'Pt'])
            yield dict(op, s=['list', ['cls', 'Pt']])
