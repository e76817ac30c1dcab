"""C09: timestamps keep their instant, whatever the clock and the local time zone."""
import datetime as dtm
import json
import os
import re
import time
import zoneinfo
from dataclasses import dataclass
from typing import Dict, List, Optional, Tuple, Union

import engine
from canon import instant

ID = 'C09'
LEVEL = 'exploration'
COUNTS = {'quick': 5000, 'thorough': 150000}
RULE = ('A run: 1-3 threads dump containers and objects with naive and aware datetimes (all years, DST folds, fixed '
        'offsets, time zone data, own tzinfo classes) to text and load stored texts again, later, elsewhere and in '
        'restarted processes, while the simulator sets the system clock, lets it tick and jump (also between two '
        'readings inside of a call) and changes the local time zone between and during calls. Every dumped text is '
        'parsed by the harness and compared with its own arithmetic, local offsets with its own evaluation of the '
        'DST rule (or with the time zone data); dump times with the history of the clock.')
REAL = ['all of /repo/jsons', 'typish', 'datetime, zoneinfo, the C library\'s time zone conversion']
STUB = ['system clock (clock_gettime/gettimeofday/time of the C library)', 'local time zone (TZ, tzset)',
        'thread scheduler']
ASSUMPTIONS = ['offsets of whole minutes; local times that exist (not skipped by a DST change)']


# ------------------------------------------------------------------ time zones with own rules
# name: (TZ, standard offset in minutes, DST offset or None, (m, w, d, minute) start, end)
ZONES = {
    'utc': ('UTC0', 0, None, None, None),
    'cet': ('CET-1CEST,M3.5.0,M10.5.0/3', 60, 120, (3, 5, 0, 120), (10, 5, 0, 180)),
    'est': ('EST5EDT,M3.2.0,M11.1.0', -300, -240, (3, 2, 0, 120), (11, 1, 0, 120)),
    'nz': ('NZST-12NZDT,M9.5.0,M4.1.0/3', 720, 780, (9, 5, 0, 120), (4, 1, 0, 180)),
    'nepal': ('NPT-5:45', 345, None, None, None),
    'nfl': ('NST3:30NDT,M3.2.0,M11.1.0', -210, -150, (3, 2, 0, 120), (11, 1, 0, 120)),
    'lord': ('LHST-10:30LHDT-11,M10.1.0,M4.1.0', 630, 660, (10, 1, 0, 120), (4, 1, 0, 120)),
    'west': ('ABC12', -720, None, None, None),
    'east': ('XYZ-14', 840, None, None, None),
    'gmt': ('GMT0BST,M3.5.0/1,M10.5.0', 0, 60, (3, 5, 0, 60), (10, 5, 0, 120)),
}
REAL_ZONES = ['Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Europe/Dublin',
              'Asia/Kathmandu', 'Pacific/Apia', 'America/Sao_Paulo', 'Africa/Casablanca', 'Asia/Tokyo', 'Etc/GMT+5',
              'UTC', 'Pacific/Chatham', 'Europe/London', 'Africa/Monrovia']
MIN = dtm.timedelta(minutes=1)


def rule_day(year, rule):
    """The local (wall) time of a rule Mm.w.d/t."""
    m, w, d, minute = rule
    first = dtm.datetime(year, m, 1)
    day = first + dtm.timedelta((d - (first.weekday() + 1)) % 7)
    day += dtm.timedelta(7 * (w - 1))
    while day.month != m:
        day -= dtm.timedelta(7)
    return day + minute * MIN


def dst_at(utc, std, dst, start, end):
    """Is DST in force at this instant (naive, in UTC)?"""
    y = (utc + std * MIN).year
    a, b = rule_day(y, start) - std * MIN, rule_day(y, end) - dst * MIN
    return a <= utc < b if a < b else not b <= utc < a


def local_offsets(zone, naive):
    """The offsets (minutes) a naive local time may mean in a zone; None: the time does not exist."""
    if zone in ZONES:
        _, std, dst, start, end = ZONES[zone]
        if dst is None:
            return std
        offs = [o for o, want in ((std, False), (dst, True))
                if dst_at(naive - o * MIN, std, dst, start, end) is want]
        if len(offs) == 2:
            return (max if naive.fold == 0 else min)(offs)
        return offs[0] if offs else None
    z = zoneinfo.ZoneInfo(zone)
    off = naive.replace(tzinfo=z).utcoffset()
    other = naive.replace(tzinfo=z, fold=1 - naive.fold).utcoffset()
    if off != other:
        # Skipped or repeated?
        back = (naive.replace(tzinfo=dtm.timezone.utc, fold=0) - off).astimezone(z).replace(tzinfo=None)
        if back.replace(fold=0) != naive.replace(fold=0):
            return None
    if off.seconds % 60:
        return None
    return off // MIN


def wall_instant(naive, off_minutes):
    delta = naive.replace(fold=0) - dtm.datetime(1970, 1, 1)
    return (delta.days * 86400 + delta.seconds - off_minutes * 60) * 1_000_000 + delta.microseconds


TEXT = re.compile(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?(?:Z|([+-])(\d\d):(\d\d))$')


def text_instant(t):
    m = TEXT.match(t) if isinstance(t, str) else None
    if not m:
        raise engine.Violation('format', f'{t!r} is not an RFC3339 timestamp', t)
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    off = 0
    if m[8]:
        off = (int(m[9]) * 60 + int(m[10])) * (1 if m[8] == '+' else -1)
    return wall_instant(dtm.datetime(y, mo, d, h, mi, s, int(m[7] or 0)), off)


def set_zone(zone):
    os.environ['TZ'] = ZONES[zone][0] if zone in ZONES else zone
    time.tzset()


# ------------------------------------------------------------------ values
class Eu(dtm.tzinfo):
    """A time zone class of the user, with a DST rule."""

    def _dst(self, d):
        n = d.replace(tzinfo=None, fold=0)
        return rule_day(n.year, (3, 5, 0, 120)) <= n < rule_day(n.year, (10, 5, 0, 120))

    def utcoffset(self, d):
        return None if d is None else dtm.timedelta(hours=2 if self._dst(d) else 1)

    def dst(self, d):
        return None if d is None else dtm.timedelta(hours=1 if self._dst(d) else 0)

    def tzname(self, d):
        return None if d is None else 'EU'


class Us(dtm.tzinfo):
    """Like the example in the documentation of Python: it has a standard offset for no date as well."""
    ZERO, HOUR, STD = dtm.timedelta(0), dtm.timedelta(hours=1), dtm.timedelta(hours=-5)

    def tzname(self, d):
        return 'EDT' if self.dst(d) else 'EST'

    def utcoffset(self, d):
        return self.STD + self.dst(d)

    def dst(self, d):
        if d is None or d.tzinfo is None:
            return self.ZERO
        n = d.replace(tzinfo=None, fold=0)
        in_dst = rule_day(n.year, (3, 2, 0, 120)) <= n < rule_day(n.year, (11, 1, 0, 120))
        return self.HOUR if in_dst else self.ZERO


class Sub(dtm.datetime):
    pass


@dataclass
class Stamp:
    at: dtm.datetime
    until: Optional[dtm.datetime]
    day: dtm.date


@dataclass
class Log:
    first: Stamp
    times: List[dtm.datetime]
    by: Dict[str, dtm.datetime]
    pair: Tuple[dtm.datetime, Optional[dtm.datetime]]


class Plain:
    def __init__(self, when: dtm.datetime, inner: Optional['Plain'] = None):
        self.when = when
        self.inner = inner


TYPES = {'one': dtm.datetime, 'opt': Optional[dtm.datetime], 'list': List[dtm.datetime],
         'vtuple': Tuple[dtm.datetime, ...], 'dict': Dict[str, dtm.datetime], 'stamp': Stamp,
         'stamps': List[Stamp], 'log': Log, 'plain': Plain, 'untyped': None, 'udict': None,
         'union': Union[dtm.datetime, str], 'optlist': List[Optional[dtm.datetime]],
         'logs': Dict[str, Log], 'plains': List[Plain]}


def gen_dt(r):
    k = r.random()
    if k < 0.5:
        tz = None
    elif k < 0.6:
        tz = ['utc']
    elif k < 0.8:
        tz = ['fix', r.choice([60, -60, 330, -210, 1, -1, 59, -59, 840, -720, 1439, -1439, 0, r.randrange(-1439, 1440)])]
        if r.random() < 0.3:
            tz.append(r.choice(['CET', 'x', 'Z', 'UTC', 'UTC', 'UTC+00:00']))
    elif k < 0.93:
        tz = ['zi', r.choice(REAL_ZONES)]
    else:
        tz = [r.choice(['eu', 'us'])]
    us = r.choice([0, 0, 1, 10, 999999, 123456, 500000, r.randrange(1000000)])
    k = r.random()
    if k < 0.4:
        # Around a DST change.
        y = r.choice([1999, 2023, 2024, 2037, 2038, 2050, 2107])
        z = r.choice([z for z in ZONES.values() if z[2] is not None])
        base = rule_day(y, r.choice(z[3:])) + r.choice([0, -1, 1, 29, 30, 31, 59, 60, 61, -30, -59, -60, -61, 120, 1440]) * MIN
        base = base.replace(second=r.choice([0, 0, 59, 30]), microsecond=us)
    else:
        if k < 0.85:
            y = r.choice([1972, 1980, 1999, 2000, 2021, 2023, 2024, 2037, 2038, 2039, 2100])
        elif tz is None or tz[0] in ('zi', 'eu', 'us'):
            y = r.choice([1972, 1990, 2106, 2200, 3000])
        else:
            y = r.choice([2, 33, 999, 1000, 1582, 1900, 1969, 9998, 9999])
        base = dtm.datetime(y, r.randrange(1, 13), r.randrange(1, 29), r.choice([0, 1, 2, 3, 12, 23, r.randrange(24)]),
                            r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]), us)
        if r.random() < 0.03 and tz and tz[0] in ('utc', 'fix'):
            base = r.choice([dtm.datetime.min, dtm.datetime.max])
    v = [base.year, base.month, base.day, base.hour, base.minute, base.second, base.microsecond, r.choice([0, 0, 1])]
    return [v, tz, r.random() < 0.04]


def make_dt(spec):
    v, tz, sub = spec
    tzinfo = None
    if tz:
        tzinfo = {'utc': lambda: dtm.timezone.utc, 'fix': lambda: dtm.timezone(tz[1] * MIN, *tz[2:]),
                  'zi': lambda: zoneinfo.ZoneInfo(tz[1]), 'eu': Eu, 'us': Us}[tz[0]]()
    return (Sub if sub else dtm.datetime)(*v[:7], tzinfo=tzinfo, fold=v[7])


def gen_leaves(r, shape):
    n = {'one': 1, 'opt': 1, 'union': 1, 'stamp': 2, 'stamps': 4, 'log': 7, 'plain': 2, 'logs': 7,
         'plains': 4}.get(shape) or r.choice([1, 2, 3, 5])
    out = [gen_dt(r) for _ in range(n)]
    if shape in ('one', 'union', 'list', 'untyped'):
        return out
    for d in out:
        if shape not in ('plain', 'plains'):
            d[2] = False
    return out


def make(shape, leaves):
    """(value, list of (path, datetime))."""
    ds = [make_dt(x) for x in leaves]
    if shape in ('one', 'opt', 'union'):
        return ds[0], [((), ds[0])]
    if shape in ('list', 'untyped', 'optlist'):
        return list(ds), [((i,), d) for i, d in enumerate(ds)]
    if shape == 'vtuple':
        return tuple(ds), [((i,), d) for i, d in enumerate(ds)]
    if shape in ('dict', 'udict'):
        return {f'k{i}': d for i, d in enumerate(ds)}, [((f'k{i}',), d) for i, d in enumerate(ds)]

    def stamp(a, b):
        return Stamp(a, b, dtm.date(a.year, a.month, a.day))
    if shape == 'stamp':
        return stamp(*ds[:2]), [(('at',), ds[0]), (('until',), ds[1])]
    if shape == 'stamps':
        return ([stamp(*ds[:2]), stamp(*ds[2:4])],
                [((i // 2, 'until' if i % 2 else 'at'), ds[i]) for i in range(4)])
    if shape in ('log', 'logs'):
        v = Log(stamp(*ds[:2]), ds[2:4], {'a': ds[4]}, (ds[5], ds[6]))
        p = [(('first', 'at'), ds[0]), (('first', 'until'), ds[1]), (('times', 0), ds[2]), (('times', 1), ds[3]),
             (('by', 'a'), ds[4]), (('pair', 0), ds[5]), (('pair', 1), ds[6])]
        if shape == 'logs':
            return {'x': v}, [(('x',) + q, d) for q, d in p]
        return v, p
    if shape == 'plain':
        return Plain(ds[0], Plain(ds[1])), [(('when',), ds[0]), (('inner', 'when'), ds[1])]
    if shape == 'plains':
        return ([Plain(ds[0], Plain(ds[1])), Plain(ds[2], Plain(ds[3]))],
                [((0, 'when'), ds[0]), ((0, 'inner', 'when'), ds[1]), ((1, 'when'), ds[2]),
                 ((1, 'inner', 'when'), ds[3])])
    raise KeyError(shape)


def at(o, path):
    for p in path:
        o = o[p] if isinstance(o, (dict, list, tuple)) else getattr(o, p)
    return o


DUMPS = ['dump', 'dump', 'dumps', 'dumpb']


def gen_step(r, shapes):
    k = r.random()
    if k < 0.52:
        shape = r.choice(shapes)
        st = {'k': 'dump', 'shape': shape, 'v': gen_leaves(r, shape), 'w': r.choice(DUMPS),
              'strip': r.random() < 0.25, 'cls': r.random() < 0.35, 'o': {}}
        if shape in ('stamp', 'stamps', 'log', 'plain', 'plains'):
            st['o'] = r.choice([{}, {}, {'verbose': 30}, {'verbose': 30}, {'verbose': 20}, {'verbose': 10},
                                {'strict': True}, {'strict': True, 'verbose': 30}])
            if st['o'].get('strict'):
                st['cls'] = True
        if shape in ('vtuple',) and r.random() < 0.5:
            st['o'] = {'tasks': r.choice([2, 3])}
        if r.random() < 0.1:
            st['fork'] = True
        return st
    if k < 0.85:
        return {'k': 'load', 'i': r.randrange(6), 'restart': r.random() < 0.15, 'tasks': r.choice([1, 1, 2, 3]),
                'strict': r.random() < 0.3, 'nocls': r.random() < 0.3}
    if k < 0.93:
        return {'k': 'zone', 'z': r.choice(list(ZONES) + REAL_ZONES)}
    return gen_clock(r)


def gen_clock(r):
    return {'k': 'clock', 'd': r.choice([0.1, 1, -1, 3600, -3600, 86400 * 183, -86400 * 200, 0.9, -0.5, 1e9, -1e9])}


def generate(r, seed, tier):
    shapes = r.sample(list(TYPES), r.choice([2, 3, 6, len(TYPES)]))
    nt = r.choice([1, 1, 1, 2, 2, 3])
    sc = {'threads': [[gen_step(r, shapes) for _ in range(r.choice([2, 3, 5, 8]))] for _ in range(nt)],
          'zone': r.choice(list(ZONES) * 2 + REAL_ZONES), 'fault': [],
          'epoch': r.choice([1_700_000_000.0, 1_720_000_000.25, 0.999999, 2 ** 31 - 0.5, 951_782_399.75, 4102444799.9,
                             r.randrange(10 ** 9, 2 * 10 ** 9) + r.random()]),
          'tick': r.choice([0, 0, 1000, 400_000_000, 999_999_000, 1_000_000_000])}
    if r.random() < 0.5:
        # Few timestamps, which come back under other clocks and zones.
        pool = [gen_dt(r)[:2] for _ in range(r.choice([1, 2, 3]))]
        for t in sc['threads']:
            for st in t:
                if st['k'] == 'dump':
                    st['v'] = [[*r.choice(pool), d[2]] if r.random() < 0.7 else d for d in st['v']]
        for t in sc['threads']:
            for _ in range(r.choice([0, 1, 2])):
                t.insert(r.randrange(len(t) + 1), {'k': 'zone', 'z': r.choice(list(ZONES) + REAL_ZONES)})
    if r.random() < 0.5:
        sc['jump'] = [r.choice([1, 1, 2, 3, 4, 6]), r.choice([1, -1, 0.6, -0.6, 3600, -86400 * 180, 86400 * 190])]
    if r.random() < 0.45:
        # A thread that changes the zone and the clock during the calls.
        sc['fault'] = [({'k': 'zone', 'z': r.choice(list(ZONES) + REAL_ZONES)} if r.random() < 0.65 else gen_clock(r))
                       for _ in range(r.choice([1, 1, 2, 4]))]
    if nt == 1 and not sc['fault']:
        sc['sched'] = {'mode': 'serial', 'gran': 'none'}
    return sc


# ------------------------------------------------------------------ a run
class Env:
    """The time zone and the clock, with their history."""

    def __init__(self, run, sc):
        self.run, self.clock = run, run.clock
        self.zones = []
        self.segs = []                 # closed segments of the clock [a, b] in ns
        self.clock.start(sc['epoch'], sc['tick'])
        self.open = self.clock.ns.value
        self.jumps = []
        self.zone(sc['zone'])
        if sc.get('jump'):
            self.clock.jump_at.value = sc['jump'][0]
            self.clock.jump.value = int(sc['jump'][1] * 1e9)

    def zone(self, z):
        if self.zones:
            self.run.mark(f'zone {z}', 'change of the time zone')
        self.zones.append(z)
        set_zone(z)

    def advance(self, d):
        self.close()
        self.clock.advance(d)
        self.open = self.clock.ns.value
        self.run.mark(f'clock {d}', 'clock jump')

    def close(self):
        self.segs += self.segments(self.open)

    def segments(self, a):
        """The times the clock showed since it was set to a."""
        b = self.clock.ns.value
        sc = self.run.sc
        if sc.get('jump') and not self.jumps and self.clock.jump_at.value <= 0:
            self.jumps.append(1)
            self.run.mark('jump', 'clock jump between two readings')
            j = int(sc['jump'][1] * 1e9)
            n = (b - a - j)               # what the ticks amount to
            self.open = b - n             # at least this since
            return [[a, a + n], [b - n, b]]
        return [[a, b]]

    def start(self):
        """The beginning of a call."""
        self.close()
        self.open = self.clock.ns.value
        return len(self.zones) - 1, len(self.segs)

    def end(self, start):
        """(zones, clock segments) during the call."""
        self.close()
        self.open = self.clock.ns.value
        return self.zones[start[0]:], self.segs[start[1]:]


def run(run):
    import jsons
    sc = run.sc
    env = Env(run, sc)
    store = []
    fork = jsons.fork()

    def dump(st, name):
        value, leaves = make(st['shape'], st['v'])
        kw = dict(st['o'])
        if 'verbose' in kw:
            kw['verbose'] = {10: jsons.Verbosity.WITH_CLASS_INFO, 20: jsons.Verbosity.WITH_DUMP_TIME,
                             30: jsons.Verbosity.WITH_EVERYTHING}[kw['verbose']]
        if st['strip']:
            kw['strip_microseconds'] = True
        if st['cls'] and TYPES[st['shape']] is not None and st['shape'] != 'union':
            kw['cls'] = TYPES[st['shape']]
        if st.get('fork'):
            kw['fork_inst'] = fork
        s = env.start()
        try:
            out = getattr(jsons, st['w'])(value, **kw)
        except jsons.JsonsError as e:
            raise engine.Violation('fails', f'the dump {st} fails: {e!r}') from None
        zones, segs = env.end(s)
        text = out if st['w'] != 'dump' else json.dumps(out)
        doc = json.loads(text)
        run.note(name, st['w'], st['shape'], 'in', zones, '->', text)
        insts = []
        for path, d in leaves:
            t = at(doc, path)
            i = text_instant(t)
            ok = expected(d, zones, st['strip'])
            if ok is None:
                insts.append(None)      # not decided, or more than one possibility
            elif i not in ok:
                raise engine.Violation('instant', f'{st["w"]} of {d!r} ({st["shape"]} {path}, zone {zones}) gives {t}: '
                                       f'instant {i}, expected {sorted(ok)}')
            insts.append(i) if ok is not None else None
            if st['strip'] and '.' in t:
                raise engine.Violation('strip', f'{t} has microseconds although stripped')
        days(doc, value, st)
        metas(doc, st, segs)
        store.append((st['shape'], text, insts, [p for p, _ in leaves]))

    def days(doc, value, st):
        for i, v in enumerate(value if st['shape'] == 'stamps' else [value]):
            if isinstance(v, Stamp):
                t = (doc[i] if st['shape'] == 'stamps' else doc)['day']
                if t != f'{v.day.year:04d}-{v.day.month:02d}-{v.day.day:02d}':
                    raise engine.Violation('date', f'date {v.day} is dumped as {t}')

    def metas(doc, st, segs):
        n = find_meta(doc)
        if st['o'].get('verbose') in (20, 30) and not n:
            raise engine.Violation('no-dump-time', f'{st} records no dump time')
        for t in n:
            i = text_instant(t)
            if 'Z' not in t and not t.endswith(('+00:00', '-00:00')):
                raise engine.Violation('dump-time', f'dump time {t} is not in UTC')
            if '.' in t:
                raise engine.Violation('dump-time', f'dump time {t} is not to the second')
            if not any(a // 10 ** 9 <= i // 10 ** 6 <= b // 10 ** 9 for a, b in segs):
                raise engine.Violation('dump-time', f'dump time {t} ({i // 10 ** 6}) is not within the call: the clock '
                                       f'showed {[[a / 1e9, b / 1e9] for a, b in segs]}')
            run.probe('dump time checked')

    def load(st, name):
        if not store:
            return
        shape, text, insts, paths = store[st['i'] % len(store)]

        def it():
            kw = {}
            cls = TYPES[shape]
            if shape in ('one', 'list', 'vtuple', 'dict') and st['nocls']:
                cls = None
            if cls in (List[dtm.datetime], List[Stamp], List[Plain]) and st['tasks'] > 1:
                kw['tasks'] = st['tasks']
            if cls is not None:
                kw['cls'] = cls
                if st['strict']:
                    kw['strict'] = True
            if st['strict'] and shape in ('untyped', 'udict', 'union'):
                kw.pop('strict', None)
            how = 'load' if st['i'] % 2 else 'loads' if isinstance(text, str) else 'loadb'
            try:
                v = getattr(jsons, how)(json.loads(text) if how == 'load' else text, **kw)
            except jsons.JsonsError as e:
                raise engine.Violation('fails', f'the {how} of {text!r} ({shape}, {kw}) fails: {e!r}') from None
            for p, i in zip(paths, insts):
                if i is None:
                    continue
                d = at(v, p)
                if not isinstance(d, dtm.datetime) or d.utcoffset() is None or instant(d) != i:
                    raise engine.Violation('loaded', f'{how} of {text!r} ({shape}, {kw}, zone {env.zones[-1]}): {p} is '
                                           f'{d!r}, expected instant {i}')
            return 'ok'
        if st['restart'] and len(sc['threads']) == 1 and not sc['fault']:
            run.mark('restart', 'restart of the process')
            engine.in_child(it)
        else:
            it()
        run.note(name, 'load', shape, text)

    def expected(d, zones, strip):
        """The possible instants of a dumped datetime."""
        w = d.replace(microsecond=0) if strip else d
        if d.tzinfo is not None:
            off = d.utcoffset()
            if off.seconds % 60:
                return None
            if isinstance(d.tzinfo, zoneinfo.ZoneInfo):
                run.probe('aware, time zone data')
            return {instant(w)}
        out = set()
        for z in zones:
            o = local_offsets(z, d.replace(tzinfo=None))
            if o is None:
                return None
            out.add(wall_instant(dtm.datetime(*w.timetuple()[:6], w.microsecond), o))
        run.probe('naive, one zone' if len(out) == 1 else 'naive, several possible')
        return out

    def step(st, name):
        if st['k'] == 'dump':
            dump(st, name)
        elif st['k'] == 'load':
            load(st, name)
        elif st['k'] == 'zone':
            env.zone(st['z'])
        else:
            env.advance(st['d'])

    def worker(i):
        return lambda: [step(st, f't{i}.{j}') for j, st in enumerate(sc['threads'][i])]
    fns = [(f't{i}', worker(i)) for i in range(len(sc['threads']))]
    if sc['fault']:
        fns.append(('env', lambda: [step(st, 'env') for st in sc['fault']]))
    # What was dumped is loaded once more, at the end and elsewhere.
    run.simulate(fns)
    for i in range(len(store)):
        env.zone(list(ZONES)[(i + sc['seed']) % len(ZONES)])
        load({'i': i, 'tasks': 1, 'strict': False, 'nocls': False, 'restart': False}, 'later')
    run.stats['simtime'] += sum(abs(s['d']) for t in sc['threads'] + [sc['fault']] for s in t if s['k'] == 'clock')
    run.stats['nontrivial'] = run.stats['nontrivial'] or len(store) > 1


def find_meta(doc):
    if isinstance(doc, list):
        return [t for x in doc for t in find_meta(x)]
    if isinstance(doc, dict):
        out = []
        for k, v in doc.items():
            if k == '-meta':
                if 'dump_time' in v:
                    out.append(v['dump_time'])
            else:
                out += find_meta(v)
        return out
    return []


def simplify(sc):
    ts = sc['threads']
    for k in ('jump',):
        if sc.get(k):
            yield {a: b for a, b in sc.items() if a != k}
    for f in engine.drop_each(sc['fault']):
        yield dict(sc, fault=f)
    if len(ts) > 1:
        for t in engine.drop_each(ts):
            yield dict(sc, threads=t)
    for i, t in enumerate(ts):
        if len(t) > 1:
            for u in engine.drop_each(t):
                yield dict(sc, threads=ts[:i] + [u] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j, st in enumerate(t):
            if st['k'] == 'dump':
                for o in ({'o': {}}, {'strip': False}, {'cls': False}, {'fork': False},
                          *({'shape': 'one', 'v': [x]} for x in st['v'] if st['shape'] != 'one')):
                    if any(st.get(a) != b and (st.get(a) or b) for a, b in o.items()):
                        yield dict(sc, threads=ts[:i] + [t[:j] + [dict(st, **o)] + t[j + 1:]] + ts[i + 1:])
