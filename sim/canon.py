"""Canonical, comparable and picklable descriptions of values (strict: types count)."""
import collections
import datetime as dtm
import decimal
import enum
import inspect
import pathlib
import types
import uuid
import zoneinfo

_EPOCH = dtm.datetime(1970, 1, 1, tzinfo=dtm.timezone.utc)


def qual(cls):
    return f'{getattr(cls, "__module__", "?")}.{getattr(cls, "__qualname__", repr(cls))}'


def instant(d):
    """Microseconds since the epoch of an aware datetime, by own arithmetic."""
    off = d.utcoffset()
    delta = d.replace(tzinfo=None) - dtm.datetime(1970, 1, 1)
    us = (delta.days * 86400 + delta.seconds) * 1_000_000 + delta.microseconds
    return us - (off.days * 86400 + off.seconds) * 1_000_000 - off.microseconds


def canon(o, order=False, exact_dt=False, depth=0):
    """order: dict order counts; exact_dt: the offset of a datetime counts, not only its instant."""
    if depth > 60:
        return ('deep',)
    if o is None or o is True or o is False:
        return ('c', repr(o))
    t = type(o)
    if t is int or t is str:
        return (t.__name__, o)
    if t is float:
        return ('float', repr(o))
    d = depth + 1

    def sub(x):
        return canon(x, order, exact_dt, d)
    if t is list or t is tuple:
        return (t.__name__, tuple([sub(x) for x in o]))
    if isinstance(o, dict):
        items = [(sub(k), sub(v)) for k, v in o.items()]
        if not order:
            items.sort(key=repr)
        return ('dict', t.__name__, tuple(items))
    if isinstance(o, enum.Enum):
        return ('enum', qual(t), o.name)
    if isinstance(o, dtm.datetime):
        if o.tzinfo is None:
            return ('dt', 'naive', o.isoformat(), o.fold)
        if exact_dt:
            return ('dt', instant(o), o.utcoffset().total_seconds())
        return ('dt', instant(o))
    if isinstance(o, (dtm.date, dtm.time)):
        return (t.__name__, o.isoformat())
    if isinstance(o, dtm.timedelta):
        return ('timedelta', o.days, o.seconds, o.microseconds)
    if isinstance(o, dtm.timezone):
        return ('timezone', o.utcoffset(None).total_seconds(), o.tzname(None))
    if isinstance(o, zoneinfo.ZoneInfo):
        return ('zone', o.key)
    if isinstance(o, decimal.Decimal):
        return ('decimal', o.as_tuple())
    if isinstance(o, uuid.UUID):
        return ('uuid', o.int)
    if isinstance(o, pathlib.PurePath):
        return ('path', t.__name__, str(o))
    if t is complex:
        return ('complex', repr(o))
    if isinstance(o, (set, frozenset)):
        return (t.__name__, tuple(sorted((sub(x) for x in o), key=repr)))
    if isinstance(o, collections.deque):
        return ('deque', tuple([sub(x) for x in o]))
    if isinstance(o, tuple):
        return ('nt', qual(t), tuple([sub(x) for x in o]))
    if isinstance(o, list):
        return ('list', qual(t), tuple([sub(x) for x in o]))
    if isinstance(o, (bytes, bytearray)):
        return (t.__name__, bytes(o))
    if isinstance(o, BaseException):
        return ('exc', qual(t), str(o))
    if isinstance(o, type):
        return ('type', qual(o))
    if isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        return ('fn', qual(o))
    if isinstance(o, (int, str, float)):
        return ('sub', qual(t), repr(o))
    attrs = {}
    for c in t.__mro__:
        for s in ([c.__dict__['__slots__']] if isinstance(c.__dict__.get('__slots__'), str)
                  else c.__dict__.get('__slots__', ())):
            if s not in ('__dict__', '__weakref__') and hasattr(o, s):
                attrs[s] = getattr(o, s)
    attrs.update(getattr(o, '__dict__', {}))
    for k in list(attrs):
        # What reads the same with and without the entry makes no difference.
        c = inspect.getattr_static(t, k, attrs)
        if c is not attrs and type(c) is type(attrs[k]) and not hasattr(c, '__get__') \
                and sub(c) == sub(attrs[k]):
            del attrs[k]
    return ('obj', qual(t), tuple(sorted((k, sub(v)) for k, v in attrs.items())))


def canon_json(o, depth=0):
    """Strict description of a JSON document; None if it is not one."""
    if depth > 80:
        return None
    t = type(o)
    if o is None or t is bool or t is int or t is str:
        return (t.__name__, o)
    if t is float:
        return ('float', repr(o))
    if t is list:
        items = [canon_json(x, depth + 1) for x in o]
        return None if any(x is None for x in items) else ('list', tuple(items))
    if t is dict:
        items = [(canon_json(k, depth + 1), canon_json(v, depth + 1)) for k, v in o.items()]
        if any(k is None or v is None for k, v in items):
            return None
        return ('dict', tuple(sorted(items, key=repr)))
    return None


def diff(a, b, path=''):
    """A short description of the first difference of two canonical values."""
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}/{i}')
    return f'{path}: {str(a)[:160]} != {str(b)[:160]}'
