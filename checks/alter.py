"""Classes that change while a program runs (part of C06): a call that failed or was interrupted
must not make later calls see a class as it was before."""
import core
import engine
import ops
import universe as U
from canon import diff

HINTS = {'int': int, 'str': str, 'list': list}


class Base:
    pass


def classes():
    """Two fresh classes, a base and its subclass."""
    def init(self, a: int, b: str = 'q'):
        if a < 0:
            raise ops.Custom('negative')
        self.a, self.b = a, b
    top = type('Top', (), {'__annotations__': {'a': int, 'b': str}, '__init__': init, 'v0': 1, '__module__': __name__,
                           'p0': property(lambda self: (U.hook('p0'), self.a)[1])})
    sub = type('Sub', (top,), {'__annotations__': {}, '__module__': __name__})
    plain = type('Plain', (), {'__init__': init, '__module__': __name__})
    return {'Top': top, 'Sub': sub, 'Plain': plain}


def alter(cs, a):
    c, (what, name, val) = cs[a[0]], a[1:]
    if what == 'prop':
        setattr(c, name, property(lambda self: (U.hook(name), val)[1]))
    elif what == 'var':
        setattr(c, name, val)
    elif what == 'del':
        if name in c.__dict__:
            delattr(c, name)
    elif what == 'ann':
        if '__annotations__' in c.__dict__:
            c.__annotations__[name] = HINTS[val]
        else:
            c.__annotations__ = {'a': int, name: HINTS[val]}
        if not hasattr(c, name):
            setattr(c, name, {'int': 5, 'str': 'five', 'list': [5]}[val])
    elif what == 'inner':
        setattr(c, name, type(name, (), {}))
    else:
        if val == 0:
            def init(self, a: int, extra: str):
                self.a, self.extra = a, extra
        elif val == 1:
            def init(self, b: int = 3, a: str = 'a'):
                self.a, self.b = a, b
        else:
            def init(self):
                self.a = self.b = 'none'
        c.__init__ = init


def gen_alter(r):
    what = r.choice(['prop', 'prop', 'var', 'del', 'ann', 'ann', 'inner', 'init', 'init'])
    name = r.choice(['p0', 'p1', 'v0', 'v1', 'b'] if what in ('prop', 'del') else ['v0', 'v1', 'x'] if what == 'var' else ['x', 'y'])
    val = r.choice(list(HINTS)) if what == 'ann' else r.randrange(3)
    return [r.choice(['Top', 'Top', 'Sub', 'Plain']), what, 'In' if what == 'inner' else name, val]


OPTS = [{}, {}, {'strict': True}, {'strip_properties': True}, {'strip_class_variables': True}, {'strip_privates': True},
        {'strip_properties': True, 'strip_class_variables': True}]


def gen_call(r):
    c = r.choice(['Top', 'Sub', 'Sub', 'Plain'])
    if r.random() < 0.65:
        return {'k': 'dump', 'c': c, 'o': r.choice(OPTS), 'cls': r.choice([None, None, c, 'Top' if c == 'Sub' else c]),
                'bad': r.random() < 0.25, 'wrap': r.choice([None, None, 'list', 'dict'])}
    return {'k': 'load', 'c': c, 'o': r.choice([{}, {}, {'strict': True}]), 'doc': r.choice([
        {'a': 1, 'b': 'x'}, {'a': 1, 'b': 'x', 'y': 2}, {'a': 1}, {'a': -1}, {'b': 'x', 'extra': 'e'}, {}, {'a': 1, 'extra': 'z'}]),
        'wrap': r.choice([None, None, 'list'])}


def generate(r):
    steps, calls = [], [gen_call(r) for _ in range(r.choice([1, 2, 2]))]
    for _ in range(r.choice([3, 4, 5, 6, 8])):
        if steps and r.random() < 0.45:
            steps.append({'alter': gen_alter(r)})
        else:
            steps.append({'call': r.choice(calls) if r.random() < 0.8 else gen_call(r),
                          'hit': round(r.random(), 4) if r.random() < 0.5 else None})
    return {'kind': 'alter', 'steps': steps, 'exc': r.choice(['kbd', 'exit', 'user', 'mem', 'custom', 'cancel'])}


def build(lib, cs, spec):
    c = cs[spec['c']]
    if spec['k'] == 'dump':
        o = c.__new__(c)
        o.__dict__.update(a=1, b='w', _priv=2)
        if spec['bad']:
            o.__dict__['x'] = ops.Unserializable()
        v = {None: o, 'list': [o, o], 'dict': {'k': o}}[spec['wrap']]
        kw = dict(spec['o'])
        if spec['cls'] and not spec['wrap']:
            kw['cls'] = cs[spec['cls']]
        return ops.Op(spec, lambda: lib.dump(v, **kw), [])
    from typing import List
    doc, t = (dict(spec['doc']), c) if not spec['wrap'] else ([dict(spec['doc'])], List[c])
    return ops.Op(spec, lambda: lib.load(doc, t, **spec['o']), [])


def run(run, excs):
    import jsons
    sc = run.sc
    steps = sc['steps']
    expected, points = {}, {}
    for i, st in enumerate(steps):
        if 'call' in st:
            def fresh():
                cs = classes()
                for s in steps[:i]:
                    if 'alter' in s:
                        alter(cs, s['alter'])
                return build(jsons, cs, st['call']).outcome('solo')
            res = engine.solo(fresh, 'instr' if st['hit'] is not None else 'none')
            expected[i], points[i] = res[0], res[2]
    got = {}

    def main():
        t = core.sim.cur
        cs = classes()
        for i, st in enumerate(steps):
            if 'alter' in st:
                alter(cs, st['alter'])
                continue
            op = build(jsons, cs, st['call'])
            t.fired = False
            if st['hit'] is not None:
                t.intr_at = t.m + 1 + int(st['hit'] * points[i])
                t.intr_exc = excs[sc['exc']]('interrupt')
            try:
                res = op.outcome(f'call{i}')
            finally:
                t.intr_at = -1
            if not t.fired:
                got[i] = res
            else:
                run.probe('interrupted a call on a changing class')
    s = run.simulate([('t0', main)], gran='instr', serial=True, cap=4_000_000)
    for site in s.intr_sites:
        run.note('at', site)
    altered = False
    for i, st in enumerate(steps):
        run.note('step', i, st, str(got.get(i))[:200])
        altered = altered or 'alter' in st
        if i in got:
            if altered:
                run.probe('call after a class changed')
            if got[i] != expected[i]:
                raise engine.Violation('stale class', f'step {i} {st}: in a fresh process: {str(expected[i])[:400]}; after '
                                       f'{steps[:i]}: {str(got[i])[:400]} ({diff(expected[i], got[i])})')


def simplify(sc):
    for x in engine.drop_each(sc['steps']):
        yield dict(sc, steps=x)
    for i, st in enumerate(sc['steps']):
        if st.get('hit') is not None:
            yield dict(sc, steps=sc['steps'][:i] + [dict(st, hit=None)] + sc['steps'][i + 1:])
        if st.get('call', {}).get('wrap'):
            yield dict(sc, steps=sc['steps'][:i] + [dict(st, call=dict(st['call'], wrap=None))] + sc['steps'][i + 1:])
