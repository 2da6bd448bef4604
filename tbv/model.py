"""Reference model of timeboard semantics over plain data.

Written from the documentation; shares no code with the package under test and
uses neither pandas nor numpy.  A timeboard spec is JSON-able data (see gen.py).
Times are integer nanoseconds.
"""
import bisect

from . import ptime
from .ptime import (parse_freq, unit_ordinal, unit_start, frame_starts,
                    add_offset, period_bounds)


class Expect(Exception):
    """The model says: this call raises (one of `kinds`)."""

    def __init__(self, *kinds):
        Exception.__init__(self, *kinds)
        self.kinds = kinds


class Ambiguous(Exception):
    """The documentation does not determine the answer; nothing is asserted."""


OOB = 'OutOfBoundsError'
POOB = 'PartialOutOfBoundsError'
VOID = 'VoidIntervalError'
UNACC = 'UnacceptablePeriodError'


# ----------------------------------------------------------------- selectors
TRUE_FALSE = [(256, 0), (0.5, 0.0), (-1, 0), (1 << 40, 0), ('no', ''),
              (True, None), (0.25, 0), (-0.75, False), ('x', 0),
              (65536, -0.0), (7, '')]


def among(label, vs):
    """label in vs, for labels of any types."""
    for v in vs:
        try:
            if v is label or bool(v == label):
                return True
        except (ValueError, TypeError):     # numpy against others
            pass
    return False


def selector_fn(sel):
    """Selector spec -> python predicate (used by both model and builder)."""
    k = sel['k']
    if k == 'default':
        return lambda label: bool(label)
    if k == 'in':
        vs = list(sel['v'])
        return lambda label: among(label, vs)
    if k == 'notin':
        vs = list(sel['v'])
        return lambda label: not among(label, vs)
    if k == 'gt':
        v = sel['v']
        return lambda label: (not isinstance(label, str) and
                              label is not None and label > v)
    if k == 'all':
        return lambda label: True
    if k == 'none':
        return lambda label: False
    if k == 'type':     # tells apart labels which compare equal
        return lambda label: type(label).__name__ in sel['v']
    if k == 'truth':    # other ways of saying yes and no
        vs = list(sel['v'])
        yes, no = TRUE_FALSE[sel['a']]
        return lambda label: yes if among(label, vs) else no
    if k == 'int':      # truthy / falsy numbers instead of booleans
        vs = list(sel['v'])
        return lambda label: 3 if among(label, vs) else 0
    raise ValueError(k)


# ------------------------------------------------------------------- markers
def marker_points(marker, u, o, k=1):
    """Valid marks of one `each` period of `k` units u beginning with the unit
    number `o`, unsnapped."""
    p0, p1 = unit_start(u, o), unit_start(u, o + k) - 1
    how = marker.get('how', 'from_start_of_each')
    out = []
    for at in marker['at']:
        cand = []
        if how == 'from_start_of_each':
            cand = [add_offset(p0, at)]
        elif how == 'nth_weekday_of_month':
            m = ptime.month_no(p0) + at['month'] - 1
            d = ptime.nth_weekday(m // 12, m % 12 + 1, at['week'],
                                  at['weekday'])
            if d is not None:
                cand = [ptime.date_ns(d) + at.get('shift', 0) * ptime.DAY]
        elif how in ('from_easter_western', 'from_easter_orthodox'):
            fn = (ptime.easter_western if how.endswith('western')
                  else ptime.easter_orthodox)
            for y in range(ptime.to_date(p0).year, ptime.to_date(p1).year + 1):
                e = ptime.date_ns(fn(y))
                if p0 <= e <= p1:
                    cand.append(add_offset(e, at) +
                                at.get('shift', 0) * ptime.DAY)
        else:
            raise ValueError(how)
        out.extend(c for c in cand if p0 <= c <= p1)
    return out


# acceptance of (base unit, each) pairs; True / False / None (not asserted)
_ORDER = ['S', 'T', 'H', 'D']


def _unit_nests(ub, ue):
    """Do periods of kind `ue` always consist of whole units `ub`?"""
    if ub == ue:
        return True
    if ub in _ORDER:
        if ue in _ORDER:
            return _ORDER.index(ub) <= _ORDER.index(ue)
        return True
    if ub.startswith('W-') or ue.startswith('W-') or ue in _ORDER:
        return False
    fb = ub[0]
    fe = ue[0]
    rank = {'M': 0, 'Q': 1, 'A': 2}
    if rank[fb] > rank[fe]:
        return False
    if fb == 'M':
        return True
    mb = ptime.MONTHS.index(ub[2:])
    me = ptime.MONTHS.index(ue[2:])
    return (mb - me) % (3 if fb == 'Q' else 12) == 0


def marker_acceptable(base, each):
    kb, ub = parse_freq(base)
    ke, ue = parse_freq(each)
    if kb == 1:
        if not _unit_nests(ub, ue):
            return False
        if ub != ue and ub[0] == 'Q' and ue[0] == 'Q':
            return None
        return True
    # multiplied base units start wherever the frame starts
    if ub == ue:
        return ke % kb == 0
    # aligned only for lucky starts, or when whole multiples always line up
    fixed = ptime.FIXED
    if ub in fixed and ue in fixed and (fixed[ue] * ke) % (fixed[ub] * kb) == 0:
        return None
    if _unit_nests(ub, ue):
        if ub == 'M' and ue[0] == 'Q' and (3 * ke) % kb == 0:
            return None
        if ub == 'M' and ue[0] == 'A' and (12 * ke) % kb == 0:
            return None
        if ub[0] == 'Q' and ue[0] == 'A' and (4 * ke) % kb == 0:
            return None
        if ub == 'D' and ue.startswith('W-') and (7 * ke) % kb == 0:
            return None
        if ub in ('H', 'T', 'S') and ptime.DAY % (fixed[ub] * kb) == 0:
            return None
        if ub in fixed and ue.startswith('W-') and \
                (7 * ptime.DAY * ke) % (fixed[ub] * kb) == 0:
            return None
    return False


class RP(object):
    def __init__(self, labels):
        self.labels = labels
        self.i = 0

    def next(self):
        v = self.labels[self.i % len(self.labels)]
        self.i += 1
        return v


# ------------------------------------------------------------------ timeline
class Timeline(object):
    """Workshifts of a timeboard: lists of first units, durations, labels."""

    def __init__(self, spec, rps=None):
        self.spec = spec
        self.freq = spec['freq']
        self.us = frame_starts(self.freq, spec['start']['t'], spec['end']['t'])
        if not self.us:
            raise Expect(VOID)
        n = len(self.us) - 1
        self.n_units = n
        self.start = self.us[0]
        self.end = self.us[-1] - 1
        self.kb, self.ub = parse_freq(self.freq)
        # `rps` may be shared between timeboards (the same objects in use)
        self.rps = rps if rps is not None else make_rps(spec)
        self._labels = [spec.get('default_label')] * n
        self._mask = [True] * n
        self.stats = {'spans': 0, 'dangles': 0, 'compound': 0, 'depth': 0,
                      'skip_undefined': 0, 'rp_used': 0}
        lay = spec['layout']
        if lay['k'] == 'org':
            self._organize(lay, 0, n - 1, 1)
        elif lay['k'] == 'pat':
            self._pattern(lay, 0, n - 1, 0)
        elif lay['k'] == 'rp':
            self._pattern(lay, 0, n - 1, 0)
        else:
            raise ValueError(lay['k'])
        self.first = [i for i in range(n) if self._mask[i]]
        self.labels = [self._labels[i] for i in self.first]
        nxt = self.first[1:] + [n]
        self.dur = [b - a for a, b in zip(self.first, nxt)]
        self.starts = [self.us[i] for i in self.first]
        self.ends = [self.us[j] - 1 for j in nxt]
        self.refs = self.ends if spec.get('ref') == 'end' else self.starts
        self.N = len(self.first)
        self._amend(spec.get('amend') or [])
        del self._labels, self._mask

    # -- units
    def unit_at(self, t):
        if t < self.start or t > self.end:
            return None
        return bisect.bisect_right(self.us, t) - 1

    # -- layout
    def _pattern(self, elem, first, last, skip):
        if skip is None:
            raise Expect(OOB)
        if skip == 'ambiguous':
            raise Ambiguous()
        if elem['k'] == 'rp':
            rp = self.rps[str(elem['id'])]
            if not rp.labels:
                return
            self.stats['rp_used'] += 1
            for _ in range(skip):
                rp.next()
            for i in range(first, last + 1):
                self._labels[i] = rp.next()
        else:
            v = elem['v']
            if not v:
                return
            for i in range(first, last + 1):
                self._labels[i] = v[(skip + i - first) % len(v)]

    def _organize(self, org, first, last, depth):
        self.stats['depth'] = max(self.stats['depth'], depth)
        if org.get('marker') is not None:
            spans = self.partition_marker(org['marker'], first, last)
        else:
            spans = self.partition_marks([p['t'] for p in org['marks']],
                                         first, last)
        st = org['structure']
        if isinstance(st, dict):                # a RememberingPattern
            rp = self.rps[str(st['id'])]
            if not rp.labels:
                return
            for (a, b, skip) in spans:
                self.stats['rp_used'] += 1
                self._element({'k': 'lab', 'v': rp.next()}, a, b, skip, depth)
            return
        if not st:
            return
        for i, (a, b, skip) in enumerate(spans):
            self._element(st[i % len(st)], a, b, skip, depth)

    def _element(self, elem, a, b, skip, depth):
        self.stats['spans'] += 1
        k = elem['k']
        if k == 'org':
            self._organize(elem, a, b, depth + 1)
        elif k in ('pat', 'rp'):
            if skip not in (None, 0):
                self.stats['dangles'] += 1
            if skip is None:
                self.stats['skip_undefined'] += 1
            self._pattern(elem, a, b, skip)
        elif k == 'lab':
            self._labels[a] = elem['v']
            if b > a:
                self.stats['compound'] += 1
            for i in range(a + 1, b + 1):
                self._mask[i] = False
        else:
            raise ValueError(k)

    @staticmethod
    def _split(locs, first, last):
        cuts = sorted({x for x in locs if x is not None and first < x <= last})
        starts = [first] + cuts
        ends = [c - 1 for c in cuts] + [last]
        return list(zip(starts, ends))

    def partition_marks(self, points, first, last):
        locs = [self.unit_at(t) for t in points]
        return [(a, b, 0) for a, b in self._split(locs, first, last)]

    def partition_marker(self, marker, first, last):
        acc = marker_acceptable(self.freq, marker['each'])
        if acc is False:
            raise Expect(UNACC)
        if acc is None:
            raise Ambiguous()
        S, E = self.us[first], self.us[last + 1] - 1
        ke, ue = parse_freq(marker['each'])
        at = marker.get('at')
        if not at:
            o = unit_ordinal(ue, S)
            left = unit_start(ue, o)
            locs = []
            j = 0
            while True:
                t = unit_start(ue, o + j * ke)
                if t > E:
                    break
                locs.append(self.unit_at(t))
                j += 1
            skip = 0
            if left < S:
                # whole base units from the start of the period
                skip = -((unit_ordinal(self.ub, left) -
                          unit_ordinal(self.ub, S)) // self.kb)
            spans = self._split(locs, first, last)
            return [(a, b, skip if i == 0 else 0)
                    for i, (a, b) in enumerate(spans)]
        oS, oE = unit_ordinal(ue, S), unit_ordinal(ue, E)
        if marker.get('how', '').startswith('custom:'):
            if ke != 1 or self.kb != 1:
                raise Ambiguous()
            points = custom_points(marker, ue, oS, oE)
        else:
            points = []
            # multiplied periods begin with the span
            if ke > 1 and ue[0] in 'AQM':
                reach = 3 * ke // {'A': 1, 'Q': 4, 'M': 12}[ue[0]] + 3
                if ptime.to_date(S).year - reach < 1680 or \
                        ptime.to_date(E).year + reach > 2260:
                    raise Ambiguous()   # at the limits of Timestamp
            for o in range(oS - ke, oE + 1, ke):
                points.extend(marker_points(marker, ue, o, ke))
        snapped = sorted(unit_start(self.ub, unit_ordinal(self.ub, t))
                         for t in points)
        spans = self._split([self.unit_at(t) for t in snapped], first, last)
        before = [t for t in snapped if t <= S]
        if any(a.get('raw') for a in at):
            # the function ignores `normalize_by`
            skip = 'ambiguous'
        elif before:
            # whole base units from the one containing the mark
            skip = -((unit_ordinal(self.ub, before[-1]) -
                      unit_ordinal(self.ub, S)) // self.kb)
        elif marker.get('how', '').startswith('custom:'):
            skip = 'ambiguous'
        elif marker_points(marker, ue, oS - 2 * ke, ke):
            skip = 'ambiguous'
        else:
            skip = None
        return [(a, b, skip if i == 0 else 0)
                for i, (a, b) in enumerate(spans)]

    # -- amendments
    def _amend(self, amend):
        located = {}
        dup = False
        for p, label in amend:
            i = self.ws_at(p['t'])
            if i is None:
                continue
            if i in located:
                dup = True
            located[i] = label
        if dup:
            raise Expect('KeyError')
        self.amended = sorted(located)
        for i, label in located.items():
            self.labels[i] = label

    # -- queries
    def ws_at(self, t):
        """Index of the workshift which contains t; None outside."""
        if t < self.start or t > self.end:
            return None
        return bisect.bisect_right(self.starts, t) - 1

    def duty(self, sel):
        """List of booleans: on duty under a selector spec."""
        f = selector_fn(sel)
        return [bool(f(x)) for x in self.labels]

    def period_members(self, p0, p1):
        """(first, last) workshifts with reference time in [p0, p1];
        None if there are none."""
        a = bisect.bisect_left(self.refs, p0)
        b = bisect.bisect_right(self.refs, p1) - 1
        return (a, b) if a <= b else None


def custom_points(marker, ue, oS, oE):
    """Marks of the user-defined `how` functions used by the checks:
    'custom:firsts' puts a mark `hours` after the start of every period of
    the index it receives."""
    out = []
    for o in range(oS - 1, oE + 1):
        for at in marker['at']:
            p0, p1 = unit_start(ue, o), unit_start(ue, o + 1) - 1
            t = p0 + at.get('h', 0) * ptime.HOUR
            if at.get('backward'):
                t = p1 - at.get('h', 0) * ptime.HOUR
            if p0 <= t <= p1:
                out.append(t)
    return out


def make_rps(spec):
    return {k: RP(v) for k, v in (spec.get('rps') or {}).items()}


def duty_indexes(on, duty):
    """Ascending positions of the workshifts with the given duty."""
    if duty == 'on':
        return [i for i, d in enumerate(on) if d]
    if duty == 'off':
        return [i for i, d in enumerate(on) if not d]
    if duty == 'any':
        return list(range(len(on)))
    raise ValueError(duty)


def resolve_duty(on, i, duty):
    if duty == 'same':
        return 'on' if on[i] else 'off'
    if duty == 'alt':
        return 'off' if on[i] else 'on'
    return duty


def roll(on, i, steps, duty, forward):
    """rollforward / rollback; None = outside the timeboard."""
    d = resolve_duty(on, i, duty)
    ok = (lambda j: True) if d == 'any' else \
        ((lambda j: on[j]) if d == 'on' else (lambda j: not on[j]))
    n = len(on)
    step = 1 if forward else -1
    j = i
    while 0 <= j < n and not ok(j):
        j += step
    if not 0 <= j < n:
        return None
    direction = step if steps > 0 else -step
    for _ in range(abs(steps)):
        j += direction
        while 0 <= j < n and not ok(j):
            j += direction
        if not 0 <= j < n:
            return None
    return j


class IvlModel(object):
    """Interval (a, b) of a timeline; a > b means void."""

    def __init__(self, tl, a, b):
        self.tl, self.a, self.b = tl, a, b

    @property
    def void(self):
        return self.a > self.b

    def idx(self, on, duty):
        return [i for i in range(self.a, self.b + 1)
                if duty == 'any' or on[i] == (duty == 'on')]


def period_interval(tl, p0, p1, clip, closed):
    """get_interval by calendar period. Returns (a, b) or raises."""
    inside_left, inside_right = p0 >= tl.start, p1 <= tl.end
    if p1 < tl.start or p0 > tl.end:
        raise Expect(OOB)
    if not clip and not (inside_left and inside_right):
        raise Expect(OOB, POOB)
    m = tl.period_members(p0, p1)
    if m is None:
        if inside_left and inside_right:
            raise Expect(VOID)
        raise Expect(VOID, OOB, POOB)
    a, b = m
    if closed[0] == '0' and inside_left:
        a += 1
    if closed[1] == '0' and inside_right:
        b -= 1
    if a > b:
        raise Expect(VOID)
    return a, b


def count_periods(tl, a, b, on, duty, freq):
    """Returns (numerator/denominator pairs list) or raises Expect."""
    idx = [i for i in range(a, b + 1) if duty == 'any' or on[i] == (duty == 'on')]
    if not idx:
        # zero is returned whatever the periods
        return []
    s, e = tl.starts[a], tl.ends[b]
    k, u = parse_freq(freq)
    o0, o1 = unit_ordinal(u, s), unit_ordinal(u, e)
    for o in range(o0, o1 + 1):
        p0, p1 = unit_start(u, o), unit_start(u, o + 1) - 1
        if p0 >= tl.start and p1 <= tl.end and \
                tl.period_members(p0, p1) is None:
            raise Expect(UNACC)
    out = []
    of = [unit_ordinal(u, tl.refs[i]) for i in idx]
    for o in sorted(set(of)):
        p0, p1 = unit_start(u, o), unit_start(u, o + 1) - 1
        if p0 < tl.start or p1 > tl.end:
            raise Expect(OOB, POOB)
        m = tl.period_members(p0, p1)
        tot = sum(1 for i in range(m[0], m[1] + 1)
                  if duty == 'any' or on[i] == (duty == 'on'))
        out.append((of.count(o), tot))
    return out
