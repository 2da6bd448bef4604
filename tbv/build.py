"""Builds real objects of the package under test from specs."""
import collections
import datetime
import decimal
import enum
import fractions
import warnings

import numpy as np
import pandas as pd

warnings.simplefilter('ignore')

import timeboard as tb                                    # noqa: E402
from timeboard.exceptions import (                        # noqa: E402,F401
    OutOfBoundsError, PartialOutOfBoundsError, VoidIntervalError,
    UnacceptablePeriodError)
from . import ptime                                       # noqa: E402
from .model import selector_fn                            # noqa: E402


class HasToTimestamp(object):
    """A user object which is Timestamp-like through `to_timestamp()`."""

    def __init__(self, t):
        self._t = t

    def to_timestamp(self):
        return pd.Timestamp(self._t)

    def __repr__(self):
        return 'HasToTimestamp({})'.format(self._t)

    def __hash__(self):
        return hash(('HasToTimestamp', self._t))

    def __eq__(self, other):
        return isinstance(other, HasToTimestamp) and other._t == self._t


def point(p):
    """Point spec -> Timestamp-like object."""
    t, f = p['t'], p['f']
    ts = pd.Timestamp(t)
    if f == 'ts':
        return ts
    if f == 'dt':
        return ts.to_pydatetime(warn=False)
    if f == 'str':
        return str(ts)
    if f == 'iso':
        return ts.isoformat()
    if f == 'dmy':
        return ts.strftime('%d %b %Y')
    if f == 'mdy':
        return ts.strftime('%m/%d/%Y' if ts == ts.normalize()
                           else '%m/%d/%Y %H:%M:%S.%f')
    if f == 'compact':
        return ts.strftime('%Y%m%d')
    if f == 'long':
        return ts.strftime('%A, %B %d, %Y')
    if f == 'date':
        return datetime.date(ts.year, ts.month, ts.day)
    if f == 'np':
        return np.datetime64(t, 'ns')
    if f == 'obj':
        return HasToTimestamp(t)
    if f.startswith('per:'):
        return pd.Period(ts, freq=f[4:])
    raise ValueError(f)


def selector(sel):
    return selector_fn(sel)


class Pat(object):
    """An iterable of the user: neither length nor indexing."""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        return iter(self.v)


def objects(v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


def keys_or_list(v):
    """View of the keys of a dictionary, if they can be such."""
    try:
        k = dict.fromkeys(v)
    except TypeError:
        return list(v)
    return k.keys() if len(k) == len(v) else list(v)


SEQUENCES = {
    'list': list, 'tuple': tuple, 'seq:array': objects,
    'seq:deque': collections.deque, 'seq:iterable': lambda v: Pat(list(v)),
    'seq:series': lambda v: pd.Series(list(v), dtype=object),
    'seq:keys': keys_or_list,
    'seq:index': lambda v: pd.DatetimeIndex(
        [x.to_timestamp() if hasattr(x, 'to_timestamp') else pd.Timestamp(x)
         for x in v])}


def sequence(v, form):
    return SEQUENCES[form or 'list'](v)


class Items(object):
    """Dictionary-like: all it has is items()."""

    def __init__(self, d):
        self.d = d

    def items(self):
        return self.d.items()

    def clear(self):
        self.d.clear()


# ------------------------------------------------- labels other than numbers
class Thing(object):
    def __repr__(self):
        return 'Thing()'


class Falsy(Thing):
    def __bool__(self):
        return False


class Colour(enum.Enum):
    RED = 1


EXOTIC = {
    '~thing': Thing(), '~falsy': Falsy(), '~enum': Colour.RED,
    '~decimal': decimal.Decimal('7.5'), '~decimal0': decimal.Decimal(0),
    '~fraction': fractions.Fraction(1, 3), '~date': datetime.date(2017, 5, 1),
    '~int64': np.int64(3), '~bool_': np.bool_(False), '~complex': 1 + 2j,
    '~big': 10 ** 30, '~inf': float('inf'), '~func': len, '~type': int,
    '~float32': np.float32(0.5)}
ITERABLE = {
    '~tuple': ('A', 1), '~tuple1': (0,), '~tuple0': (), '~dict': {'a': 1},
    '~set': frozenset([1, 2]), '~set0': frozenset(), '~bytes': b'x',
    '~list': [8, 4], '~list1': ['n']}
ALL_EXOTIC = dict(EXOTIC, **ITERABLE)


def respelled(x, n):
    """Frequencies of the timeboard and its markers by other names."""
    if isinstance(x, dict):
        return {k: ptime.spell(v, n + i) if k in ('freq', 'each') and
                isinstance(v, str) else
                respelled(v, n + 1) if k != 'ops' else v
                for i, (k, v) in enumerate(sorted(x.items()))
                if k != 'alias'}
    if isinstance(x, (list, tuple)):
        return [respelled(v, n + i) for i, v in enumerate(x)]
    return x


def decode(case, plain=False):
    """Case with the names of labels replaced by the labels.

    `plain`: everything stays of types whose representation is code.
    """
    if isinstance(case, dict):
        if case.get('alias'):
            case = respelled(case, case['alias'])
        return {k: decode(v, plain) for k, v in case.items()}
    if isinstance(case, (list, tuple)):
        return [decode(v, plain) for v in case]
    if isinstance(case, str):
        if plain:
            return 'list' if case.startswith('seq:') else case
        return ALL_EXOTIC.get(case, case)
    return case


def custom_how(name):
    """User-defined `how` functions (see model.custom_points)."""
    def how(periods, normalize_by, **kw):
        out = []
        for p in periods:
            t = p.start_time + pd.Timedelta(hours=kw.get('h', 0))
            if kw.get('backward'):
                t = p.end_time - pd.Timedelta(hours=kw.get('h', 0))
            if p.start_time <= t <= p.end_time:
                if not kw.get('raw'):
                    t = pd.Period(t, freq=normalize_by).start_time
                out.append(t)
        if kw.get('rev'):
            out.reverse()
        how.calls.append((periods, normalize_by, dict(kw)))
        return pd.DatetimeIndex(out)
    how.calls = []
    return how


AMENDMENTS = {'dict': dict, 'ordered': collections.OrderedDict,
              'items': Items}


class Builder(object):
    """Keeps shared objects (remembering patterns) of a spec."""

    def __init__(self, spec):
        self.spec = spec
        forms = spec.get('rpf') or {}
        self.rps = {k: tb.RememberingPattern(sequence(v, forms.get(k)))
                    for k, v in (spec.get('rps') or {}).items()}
        self.hows = []
        self.same = {}      # equal descriptions are the same object

    def memo(self, kind, e, make):
        if self.spec.get('distinct'):
            return make(e)
        key = kind + repr(e)
        if key not in self.same:
            self.same[key] = make(e)
        return self.same[key]

    def marker(self, m):
        if (m.get('how') or '').startswith('custom:'):
            return self.make_marker(m)
        return self.memo('marker', m, self.make_marker)

    def make_marker(self, m):
        if m.get('f') == 'str' and not m.get('at'):
            return m['each']
        how = m.get('how') or 'from_start_of_each'
        kw = {}
        if m.get('at') is not None:
            kw['at'] = sequence([dict(a) for a in m['at']], m.get('atf'))
        if how.startswith('custom:'):
            fn = custom_how(how)
            self.hows.append(fn)
            kw['how'] = fn
        elif how != 'from_start_of_each' or m.get('explicit_how'):
            kw['how'] = how
        return tb.Marker(each=m['each'], **kw)

    def element(self, e):
        k = e['k']
        if k == 'lab':
            return e['v']
        if k == 'rp':
            return self.rps[str(e['id'])]
        if k == 'pat':
            return sequence(e['v'], e.get('f'))
        if k == 'org':
            return self.memo('org', e, self.organizer)
        raise ValueError(k)

    def organizer(self, o):
        st = o['structure']
        if isinstance(st, dict):
            structure = self.rps[str(st['id'])]
        else:
            structure = sequence([self.element(e) for e in st],
                                 o.get('sform'))
        if o.get('marker') is not None:
            return tb.Organizer(marker=self.marker(o['marker']),
                                structure=structure)
        marks = [point(p) for p in o['marks']]
        if o.get('scalar_marks'):
            marks = marks[0]
        elif o.get('mform'):
            marks = sequence(marks, o['mform'])
        return tb.Organizer(marks=marks, structure=structure)

    def layout(self, lay):
        if lay['k'] == 'org':
            return self.organizer(lay)
        return self.element(lay)

    def amendments(self):
        return {point(p): v for p, v in self.spec.get('amend') or []}

    def kwargs(self):
        s = self.spec
        kw = {}
        if s.get('amend'):
            kw['amendments'] = AMENDMENTS[s.get('amf') or 'dict'](
                self.amendments())
        if s.get('selector') is not None:
            kw['default_selector'] = selector(s['selector'])
        if s.get('ref') is not None:
            kw['workshift_ref'] = s['ref']
        if s.get('default_label') is not None:
            kw['default_label'] = s['default_label']
        if s.get('worktime') is not None:
            kw['worktime_source'] = s['worktime']
        if s.get('name') is not None:
            kw['default_name'] = s['name']
        return kw

    def timeboard(self, layout=None):
        s = self.spec
        if layout is None:
            layout = self.layout(s['layout'])
        return tb.Timeboard(s['freq'], point(s['start']), point(s['end']),
                            layout, **self.kwargs())
