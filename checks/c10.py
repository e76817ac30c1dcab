"""C10: decorated coroutines map their own arguments and result, exactly once."""
import asyncio
import contextvars
import json
import random

import engine
import ops
import universe as U
from canon import canon, diff

ID = 'C10'
LEVEL = 'exploration'
COUNTS = {'quick': 5000, 'thorough': 120000}
RULE = ('A run: 1-3 random coroutine functions or methods decorated with loaded/dumped (any mapper, options, forks, '
        'annotations, parameters/returnvalue on or off); 1-8 overlapping calls of them on 1-3 event loops in '
        'simulated time (one per thread, every line of the library a possible preemption) or resumed by hand in any '
        'order; bodies sleep, wait for futures and events, call each other and the library, raise, swallow or convert '
        'cancellations and clean up; calls are cancelled, time out, are shielded, thrown into, closed, or part of task '
        'groups; some arguments and results cannot be mapped. Every history is compared with the same run on a '
        'reference decorator that looks results of the mapper up in a table, made call by call in a fresh process.')
REAL = ['all of /repo/jsons', 'typish', 'asyncio tasks, futures, timeouts, task groups']
STUB = ['time and selector of the event loops (simulated)', 'thread scheduler', 'threading.Lock/RLock/Thread']
ASSUMPTIONS = ['simulated timers of a run are distinct']

TOKEN = contextvars.ContextVar('token')


class Boom(Exception):
    """Raised by the body of a decorated coroutine."""


class Stop(BaseException):
    """Not an Exception."""


KINDS = {'boom': Boom, 'os': OSError, 'timeout': TimeoutError, 'key': KeyError, 'type': TypeError, 'value': ValueError,
         'async': StopAsyncIteration, 'attr': AttributeError, 'runtime': RuntimeError, 'index': IndexError, 'eof': EOFError, **ops.ordinary()}


def exception(kind, *args):
    import jsons
    if kind == 'load':
        return jsons.DeserializationError(*map(str, args), None)
    return jsons.SerializationError(str(args)) if kind == 'dump' else KINDS[kind](*args)


class Loop(asyncio.BaseEventLoop):
    """An event loop in simulated time without any I/O."""

    def __init__(self):
        super().__init__()
        self.t = 0.0
        self.dead = False
        self._selector = self

    def time(self):
        return self.t

    def select(self, timeout):
        if timeout is None:
            self.dead = True
            self.stop()
        elif timeout > 0:
            self.t += timeout
        return ()

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass


class Later:
    """An awaitable that a function returns instead of awaiting it."""

    def __await__(self):
        return 'awaited'
        yield


class Point:
    """Suspends a coroutine that is driven by hand."""

    def __init__(self, tag):
        self.tag = tag

    def __await__(self):
        return (yield self.tag)


# ------------------------------------------------------------------ generation
LOADS = [{}, {}, {}, {'strict': True}, {'key_transformer': 'hooked'}, {'tasks': 2}]
DUMPS = [{}, {}, {}, {'strip_nulls': True}, {'key_transformer': 'camel'}, {'strip_microseconds': True}, {'strict': True},
         {'strip_privates': True}, {'verbose': 'cls'}]
TYPES = [['int'], ['cls', 'Pt'], ['cls', 'Lap'], ['list', ['cls', 'Pt']], ['dict', ['str'], ['int']], ['cls', 'Person'],
         ['opt', ['cls', 'Pt']], ['dt'], ['list', ['dt']], ['tuple', ['int'], ['str']], ['cls', 'Race'], ['str'],
         ['enum', 'Color'], ['cls', 'Derived'], ['set', ['int']], ['decimal'], ['uuid']]


def gen_fn(r):
    side = r.choice(['loaded', 'dumped'])
    m = {'loaded': ['load', 'load', 'load', 'loads', 'loadb'], 'dumped': ['dump', 'dump', 'dump', 'dumps', 'dumpb']}[side]
    kind = r.choice(['fn', 'fn', 'fn', 'method', 'method', 'clsm', 'static', 'rest', 'rest', 'selfarg'])
    args = [r.choice(TYPES) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    if kind == 'rest':
        args = args[:1] + args[1:2] * r.choice([1, 2, 3])
    return {'side': side, 'm': r.choice(m), 'params': r.random() < 0.8, 'ret': r.random() < 0.8,
            'o': r.choice(LOADS if side == 'loaded' else DUMPS), 'fork': r.choice([None, None, None, 'A', 'B', 'J']),
            'args': args, 'rt': r.choice(TYPES), 'ann': r.random() < 0.85, 'kind': kind,
            'name': r.choice(['items', 'upper', 'append', 'real', 'x', 'year', 'tz', 'name', 'value', 'decode'])
            if kind in ('fn', 'rest', 'static') and r.random() < 0.25 else None}


def when(r):
    return r.randrange(1, 20_000_000) / 1e6


def gen_call(r, nf, depth=0):
    c = {'f': r.randrange(nf), 'v': r.randrange(1 << 30), 'script': []}
    k = r.random()
    c['bad'] = 'arg' if k < 0.08 else 'ret' if k < 0.14 else ''
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.4:
            c['script'].append(['sleep', when(r)])
        elif k < 0.55:
            c['script'].append(['zero', r.choice([1, 1, 2, 4])])
        elif k < 0.72:
            c['script'].append(['fut', when(r), r.choice(['ok', 'ok', 'exc', 'cancel'])])
        elif k < 0.8:
            c['script'].append(['event', r.randrange(3)])
        elif k < 0.9 and depth < 2:
            c['script'].append(['call', gen_call(r, nf, depth + 1)])
        else:
            c['script'].append(['lib', r.randrange(1 << 30)])
    k = r.random()
    c['end'] = 'raise' if k < 0.15 else 'ret'
    c['exc'] = r.choice(['boom', 'boom', *KINDS, 'load', 'dump'])
    c['react'] = r.choice(['prop', 'prop', 'prop', 'swallow', 'convert', 'cleanup'])
    c['kw'] = r.random() < 0.3
    if depth == 0:
        c['at'] = when(r) if r.random() < 0.5 else 0
        c['how'] = r.choice(['await', 'await', 'wait_for', 'timeout', 'shield'])
        c['limit'] = when(r) if c['how'] in ('wait_for', 'timeout') else 0
        c['cancel'] = [when(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))]
    return c


def generate(r, seed, tier):
    nf = r.choice([1, 1, 2, 3])
    nt = r.choice([1, 1, 1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        threads.append({'mode': r.choice(['loop', 'loop', 'loop', 'group', 'hand', 'hand']),
                        'events': [when(r) for _ in range(3)], 'order': r.randrange(1 << 30),
                        'faults': r.choice([0, 0, 0.1, 0.3]),
                        'calls': [gen_call(r, nf) for _ in range(r.choice([1, 2, 3, 5, 8] if nt == 1 else [1, 2, 3]))]})
    sc = {'fns': [gen_fn(r) for _ in range(nf)], 'threads': threads}
    if nt == 1:
        sc['sched'] = {'mode': 'serial', 'gran': 'none'}
    return sc


# ------------------------------------------------------------------ a run
def flatten(c, key):
    """The calls of a call specification, with keys."""
    yield key, c
    for i, s in enumerate(c['script']):
        if s[0] == 'call':
            yield from flatten(s[1], f'{key}.{i}')


class World:
    def __init__(self, run, lib):
        self.run, self.lib, self.sc = run, lib, run.sc
        self.w = ops.World(lib)
        self.hist = None               # key -> events
        self.plan = {}
        for i, t in enumerate(self.sc['threads']):
            for j, c in enumerate(t['calls']):
                for key, x in flatten(c, f'{i}.{j}'):
                    self.plan[key] = self.data(x)
        self.made = {}
        self.fns = [self.decorate(f) for f in self.sc['fns']]

    # ---- what calls are made of
    def fn(self, call):
        return self.sc['fns'][call['f'] % len(self.sc['fns'])]

    def kwargs(self, f):
        kw = self.w.kwargs(dict(f['o']))
        if f['fork']:
            kw['fork_inst'] = self.w.forks[f['fork']]
        return kw

    def one(self, f, s, r, bad):
        """Something of type s to be mapped by f's mapper."""
        v = U.gen(s, r, 2)
        if f['side'] == 'dumped':
            return ops.Unserializable('no') if bad else v
        d = U.plain(U.ref(s, v))
        if bad:
            d = r.choice([{'a': {}}, [[]], {'x': 1}, 'zz', None])
        if f['m'] == 'load':
            return d
        t = json.dumps(d)
        if bad and r.random() < 0.5:
            t = t[:-1] + '{'
        return t if f['m'] == 'loads' else t.encode()

    def data(self, c):
        """Arguments, return value and exceptions of a call."""
        f = self.fn(c)
        r = random.Random(c['v'])
        args = [self.one(f, s, r, False) for s in f['args']]
        if c['bad'] == 'arg':
            i = r.randrange(len(args))
            args[i] = self.one(f, f['args'][i], r, True)
        ret = self.one(f, f['rt'], r, c['bad'] == 'ret')
        if not f['ret'] and c['v'] % 5 == 0:
            ret = Later()
        return {'args': args, 'ret': ret, 'exc': exception(c['exc'], c['v'], 'body'),
                'conv': exception(c['exc'], c['v'], 'converted'), 'fexc': exception(c['exc'], c['v'], 'future'),
                'f': f, 'c': c, 'kw': {'tag': c['v']} if c['kw'] else {}}

    # ---- the decorated functions
    def decorate(self, f):
        import jsons.decorators as dec
        kw = self.kwargs(f)
        if f['m'] not in ('load', 'dump'):
            kw['loader' if f['side'] == 'loaded' else 'dumper'] = getattr(self.lib, f['m'])
        if not f['params']:
            kw['parameters'] = False
        if not f['ret']:
            kw['returnvalue'] = False
        deco = getattr(dec, f['side'])(**kw)
        body = self.body
        n = len(f['args'])
        names = ['a', 'b', 'c'][:n]
        if f['kind'] == 'rest':
            async def func(a, *rest, tag=None):
                return await body((a, *rest), tag)
            names = ['a', 'rest']
        elif f['kind'] in ('fn', 'static'):
            if n == 1:
                async def func(a, *, tag=None):
                    return await body((a,), tag)
            elif n == 2:
                async def func(a, b, *, tag=None):
                    return await body((a, b), tag)
            else:
                async def func(a, b, c, *, tag=None):
                    return await body((a, b, c), tag)
        elif f['kind'] == 'selfarg':
            # Not a method, whatever the name of its parameter.
            async def func(self, b=None, c=None, *, tag=None):
                return await body((self, b, c)[:n], tag)
            names = ['self', 'b', 'c'][:n]
        elif f['kind'] == 'method':
            async def func(self, a, b=None, c=None, *, tag=None):
                return await body((a, b, c)[:n], tag, self)
        else:
            async def func(cls, a, b=None, c=None, *, tag=None):
                return await body((a, b, c)[:n], tag, cls)
        if f['ann']:
            func.__annotations__ = {**{x: U.hint(s) for x, s in zip(names, f['args'])}, 'return': U.hint(f['rt'])}
        else:
            func.__annotations__ = {}
        if f.get('name'):
            # Values may have an attribute with the name of the function.
            func.__name__ = f['name']
        wrapped = deco(func)
        if f['kind'] in ('fn', 'rest', 'selfarg'):
            return wrapped
        if f['kind'] == 'method':
            cls = type('Svc', (), {'func': wrapped})
            self.made[id(f)] = o = cls()
            return o.func
        cls = type('Svc', (), {'func': (classmethod if f['kind'] == 'clsm' else staticmethod)(wrapped)})
        self.made[id(f)] = cls
        return cls.func

    def ev(self, key, *what):
        self.hist.setdefault(key, []).append(what)

    async def body(self, args, tag, owner=None):
        """What every decorated function runs."""
        key = TOKEN.get()
        p = self.plan[key]
        f = p['f']
        self.ev(key, 'enter', canon(list(args), order=True, exact_dt=True),
                None if f['params'] else [a is b for a, b in zip(args, p['args'])], tag,
                owner is self.made.get(id(f)) or f['kind'] in ('static', 'rest', 'selfarg'))
        return await self.script(key)

    async def script(self, key):
        p = self.plan[key]
        c = p['c']
        try:
            for i, s in enumerate(c['script']):
                await self.action(key, i, s)
        except asyncio.CancelledError as e:
            self.ev(key, 'cancelled', [str(a) for a in e.args])
            if c['react'] == 'cleanup':
                await self.wait(key, 0.0000123, 'cleanup')
                self.ev(key, 'cleaned')
            if c['react'] == 'convert':
                raise p['conv'] from None
            if c['react'] != 'swallow':
                raise
        except GeneratorExit:
            self.ev(key, 'closed')
            raise
        except BaseException as e:          # noqa
            self.ev(key, 'raised', self.name(e), [str(a) for a in e.args])
            raise
        self.ev(key, 'leave')
        if c['end'] == 'raise':
            raise p['exc']
        return p['ret']

    async def wait(self, key, t, tag):
        loop = asyncio._get_running_loop()
        if loop is None:
            got = await Point((key, tag))
            self.ev(key, 'resumed', tag, got)
        else:
            await asyncio.sleep(t)
            self.ev(key, 'woke', tag)

    async def action(self, key, i, s):
        loop = asyncio._get_running_loop()
        if s[0] == 'call':
            TOKEN.set(f'{key}.{i}')
            try:
                await self.caller(f'{key}.{i}')
            except Exception as e:          # noqa
                self.ev(key, 'inner', self.name(e))
        elif s[0] == 'lib':
            r = random.Random(s[1])
            v = U.gen(['cls', 'Race'], r, 1)
            got = self.lib.load(self.lib.dump(v), U.CLS['Race'])
            self.ev(key, 'lib', canon(got) == canon(v))
        elif s[0] == 'zero' and loop is not None:
            for _ in range(s[1]):
                await asyncio.sleep(0)
        elif s[0] == 'fut' and loop is not None:
            f = loop.create_future()
            if s[2] == 'ok':
                loop.call_later(s[1], lambda: f.done() or f.set_result(s[1]))
            elif s[2] == 'exc':
                loop.call_later(s[1], lambda: f.done() or f.set_exception(self.plan[key]['fexc']))
            else:
                loop.call_later(s[1], lambda: f.done() or f.cancel('by the owner'))
            self.ev(key, 'got', await f)
        elif s[0] == 'event' and loop is not None:
            await loop.events[s[1]].wait()
            self.ev(key, 'event', s[1])
        else:
            await self.wait(key, s[1], f'{s[0]} {i}')

    # ---- the callers
    async def caller(self, key, how='await', limit=0):
        p = self.plan[key]
        TOKEN.set(key)
        try:
            if how == 'wait_for':
                r = await asyncio.wait_for(self.target(key), limit)
            elif how == 'timeout':
                async with asyncio.timeout(limit):
                    r = await self.target(key)
            elif how == 'shield':
                inner = asyncio.ensure_future(self.target(key))
                inner.add_done_callback(lambda t: t.cancelled() or t.exception())
                r = await asyncio.shield(inner)
            else:
                r = await self.target(key)
        except BaseException as e:          # noqa
            self.ev(key, 'outcome', *self.describe(key, e))
            raise
        self.ev(key, 'outcome', *self.result(key, r))
        return p['c']['v']

    def name(self, e):
        return 'mapping' if isinstance(e, (RefError, self.lib.JsonsError)) else type(e).__name__

    def describe(self, key, e):
        p = self.plan[key]
        for n in ('exc', 'conv', 'fexc'):
            if e is p[n]:
                return ('the exception', n, e.__cause__ is None, [str(a) for a in e.args])
        if getattr(e, 'mine', None):
            return ('the exception', e.mine, e.__cause__ is None)
        if isinstance(e, RefError):
            return e.args[0]
        if isinstance(e, self.lib.JsonsError):
            return ops.error(e)
        return ('exception', type(e).__name__, [str(a) for a in e.args])

    def result(self, key, r):
        if isinstance(r, RefResult):
            return r.out
        p = self.plan[key]
        return ('ok', canon(r, order=True, exact_dt=True), None if p['f']['ret'] else r is p['ret'])


class RefError(Exception):
    pass


class RefResult:
    def __init__(self, out):
        self.out = out


class Real(World):
    def target(self, key):
        p = self.plan[key]
        return self.fns[p['c']['f'] % len(self.fns)](*p['args'], **p['kw'])


class Reference(World):
    """The decorators as they should behave: mapped values come from a table."""
    table = None

    def target(self, key):
        return self.refer(key)

    async def refer(self, key):
        p = self.plan[key]
        f, t = p['f'], self.table[key]
        if f['params'] and t['err']:
            raise RefError(t['err'])
        self.ev(key, 'enter', t['args'] if f['params'] else canon(list(p['args']), order=True, exact_dt=True),
                None if f['params'] else [True] * len(p['args']), p['kw'].get('tag'), True)
        r = await self.script(key)
        if not f['ret']:
            return r
        r = t['ret'] if r is p['ret'] else None
        if r[0] != 'ok':
            raise RefError(r)
        return RefResult(r)


def make_table(world):
    """What the mapper makes of every argument and return value."""
    out = {}
    for key, p in world.plan.items():
        f = p['f']
        m = getattr(world.lib, f['m'])
        kw = {'fork_inst': world.lib.JsonSerializable, **world.kwargs(f)}

        def mapped(x, s):
            try:
                return m(x, cls=U.hint(s) if f['ann'] else None, **kw), None
            except world.lib.JsonsError as e:
                return None, ops.error(e)
        t = out[key] = {'args': [], 'err': None}
        if f['params']:
            vals = []
            for a, s in zip(p['args'], f['args']):
                v, t['err'] = mapped(a, s)
                if t['err']:
                    break
                vals.append(v)
            t['args'] = canon(vals, order=True, exact_dt=True)
        if f['ret']:
            v, err = mapped(p['ret'], f['rt'])
            t['ret'] = err or ('ok', canon(v, order=True, exact_dt=True), None)
        if f['side'] == 'loaded' and f['m'] == 'load' and f['ann'] and not p['c']['bad'] and not f['fork'] \
                and not f['o'].get('strict') and f['ret'] and t['ret'][0] != 'ok':
            raise engine.Violation('model', f'the result {p["ret"]!r} cannot be loaded: {t["ret"]}')
    return out


def play(world, i):
    """The calls of thread i: per call the history of events; also what is left over."""
    th = world.sc['threads'][i]
    left = hand(world, i, th) if th['mode'] == 'hand' else on_loop(world, i, th)
    return left


def on_loop(world, i, th):
    loop = Loop()
    loop.slow_callback_duration = 1e9
    problems = []
    loop.set_exception_handler(lambda lp, ctx: problems.append(str(ctx.get('message'))[:60]))

    async def main():
        loop.events = [asyncio.Event() for _ in th['events']]
        for e, t in zip(loop.events, th['events']):
            loop.call_later(t, e.set)

        async def start(j, c):
            if c['at']:
                await asyncio.sleep(c['at'])
            return await world.caller(f'{i}.{j}', c['how'], c['limit'])
        tasks = []

        def launch(create):
            for j, c in enumerate(th['calls']):
                t = create(start(j, c))
                tasks.append(t)
                for n, at in enumerate(c['cancel']):
                    loop.call_later(at, t.cancel, f'why {n}')
        if th['mode'] == 'group':
            try:
                async with asyncio.TaskGroup() as g:
                    launch(g.create_task)
            except BaseExceptionGroup as e:
                return sorted(world.name(x) for x in e.exceptions)
            return []
        launch(loop.create_task)
        out = await asyncio.gather(*tasks, return_exceptions=True)
        return [x if isinstance(x, int) else world.name(x) for x in out]
    task = loop.create_task(main())
    task.add_done_callback(lambda t: loop.stop())
    loop.run_forever()
    if loop.dead or not task.done():
        for t in asyncio.all_tasks(loop):
            t.cancel()
        return ['dead']
    # What goes on afterwards (shielded calls).
    left = [t for t in asyncio.all_tasks(loop) if not t.done()]
    n = len(left)
    if left:
        g = loop.create_task(asyncio.wait(left))
        g.add_done_callback(lambda t: loop.stop())
        loop.run_forever()
    res = [task.result() if not task.cancelled() and task.exception() is None else str(task.exception()), n,
           'dead' if loop.dead else '', len([t for t in asyncio.all_tasks(loop) if not t.done()]), problems,
           round(loop.t, 3)]
    world.run.stats['simtime'] += loop.t
    loop.close()
    return res


def hand(world, i, th):
    """Coroutines resumed by hand, in a random order."""
    r = random.Random(th['order'])
    ctxs, coros, log = {}, {}, []
    for j in range(len(th['calls'])):
        key = f'{i}.{j}'
        ctxs[key] = contextvars.copy_context()
        coros[key] = world.caller(key)
    started = set()
    n = 0
    while coros:
        key = r.choice(sorted(coros))
        co = coros[key]
        n += 1
        k = r.random() < th['faults'] and key in started
        kind = r.choice(['throw', 'cancel', 'close', 'stop']) if k else 'send'
        try:
            if kind == 'send':
                tag = ctxs[key].run(co.send, None if key not in started else n)
            elif kind == 'close':
                ctxs[key].run(co.close)
                del coros[key]
                log.append((key, 'closed'))
                continue
            else:
                e = {'throw': KINDS[r.choice(['boom', *KINDS])], 'cancel': asyncio.CancelledError, 'stop': Stop}[kind](f'thrown {n}')
                e.mine = f'thrown {n}' if kind != 'cancel' else ''
                tag = ctxs[key].run(co.throw, e)
            log.append((key, kind, tag))
        except StopIteration as e:
            log.append((key, 'returned', e.value))
            del coros[key]
        except RuntimeError as e:
            log.append((key, 'runtime error', str(e)[:60]))
            del coros[key]
        except BaseException as e:          # noqa
            log.append((key, kind, world.name(e)))
            del coros[key]
        started.add(key)
        if kind != 'send':
            log.append((key, kind))
    return log


def run(run):
    import jsons
    sc = run.sc

    def reference():
        world = Reference(run, jsons)
        world.hist = {}
        Reference.table = make_table(world)
        left = [play(world, i) for i in range(len(sc['threads']))]
        return world.hist, left
    expected, left0 = engine.solo(reference, 'none')[0]
    world = Real(run, jsons)
    world.hist = {}
    left = [None] * len(sc['threads'])

    def worker(i):
        def main():
            left[i] = play(world, i)
        return main
    run.simulate([(f't{i}', worker(i)) for i in range(len(sc['threads']))])
    for key in world.plan:
        exp, got = expected.get(key, []), world.hist.get(key, [])
        for e in got:
            if e[0] == 'cancelled':
                run.mark('cancelled', 'cancellation delivered')
            elif e[0] == 'outcome' and e[1:3] == ('exception', 'TimeoutError'):
                run.mark('timeout', 'timeout')
            elif e[0] in ('raised',):
                run.mark('raised', 'exception in a suspended coroutine')
            elif e[0] == 'closed':
                run.mark('closed', 'coroutine closed')
        run.note(f'call {key}', [x[:2] if x[0] != 'enter' else 'enter' for x in got])
        run.mark(str(got)[:300])
        if exp != got:
            for n in range(max(len(exp), len(got))):
                a = exp[n] if n < len(exp) else ('nothing',)
                b = got[n] if n < len(got) else ('nothing',)
                if a != b:
                    break
            c = world.plan[key]['c']
            raise engine.Violation('differs', f'call {key} of {world.fn(c)}: event {n} should be {str(a)[:500]} but is '
                                   f'{str(b)[:500]} ({diff(a, b)}), after {[x[0] for x in got[:n]]}', (a[0], b[0]))
    if left != left0:
        raise engine.Violation('leftover', f'the callers should see {left0} but see {left}')
    run.stats['nontrivial'] = len(world.hist) > 1 or run.stats['nontrivial']


def simplify(sc):
    ts = sc['threads']
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        if len(t['calls']) > 1:
            for u in engine.drop_each(t['calls']):
                yield dict(sc, threads=ts[:i] + [dict(t, calls=u)] + ts[i + 1:])
        for j, c in enumerate(t['calls']):
            for o in [{'cancel': []}, {'how': 'await'}, {'react': 'prop'}, {'end': 'ret'}, {'bad': ''}, {'kw': False},
                      {'at': 0}] + [{'script': x} for x in engine.drop_each(c['script'])]:
                if any(c.get(k) != v for k, v in o.items()):
                    calls = t['calls'][:j] + [dict(c, **o)] + t['calls'][j + 1:]
                    yield dict(sc, threads=ts[:i] + [dict(t, calls=calls)] + ts[i + 1:])
    for i, f in enumerate(sc['fns']):
        for o in ({'o': {}}, {'fork': None}, {'kind': 'fn'}, {'args': f['args'][:1]}, {'args': [['int']]}, {'rt': ['int']}):
            if any(f.get(k) != v for k, v in o.items()):
                yield dict(sc, fns=sc['fns'][:i] + [dict(f, **o)] + sc['fns'][i + 1:])
