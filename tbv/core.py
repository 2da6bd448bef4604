"""Common machinery: outcomes, violations, comparison helpers."""
import numpy as np
import pandas as pd

from . import build, model
from .build import tb
from .model import Expect, Ambiguous, OOB, POOB, VOID, UNACC  # noqa: F401


class Violation(AssertionError):
    pass


class Rec(object):
    """Per-case recorder: tags for the distribution and non-triviality."""

    def __init__(self):
        self.tags = set()
        self.nontrivial = False
        self.known = []

    def tag(self, *names):
        self.tags.update(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


def fail(fmt, *args):
    raise Violation(fmt.format(*args))


def expect(cond, fmt, *args):
    if not cond:
        raise Violation(fmt.format(*args))


def attempt(fn):
    """('ok', value) or ('exc', class name, exception)."""
    try:
        return ('ok', fn())
    except Exception as e:          # noqa
        return ('exc', type(e).__name__, e)


def show(out):
    return repr(out[1]) if out[0] == 'ok' else 'raised {}: {}'.format(
        out[1], str(out[2])[:160])


def expect_raises(fn, kinds, what):
    out = attempt(fn)
    if out[0] == 'ok':
        fail('{}: expected one of {}, got {!r}', what, kinds, out[1])
    if out[1] not in kinds and not (    # (numpy has TypeErrors of its own)
            'TypeError' in kinds and isinstance(out[2], TypeError)):
        fail('{}: expected one of {}, {}', what, kinds, show(out))
    return out


def expect_ok(fn, what):
    out = attempt(fn)
    if out[0] != 'ok':
        fail('{}: {}', what, show(out))
    return out[1]


def ns(ts):
    """Timestamp -> integer ns; None for NaT."""
    if ts is pd.NaT:
        return None
    expect(isinstance(ts, pd.Timestamp), 'expected a Timestamp, got {!r}', ts)
    return ts.value


def same_label(a, b):
    if a is None or b is None:
        # an unset label is null
        return (a is None or a != a) and (b is None or b != b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    try:
        return a is b or bool(a == b)
    except (TypeError, ValueError):     # numpy against others
        return False


def fmt_t(t):
    return str(pd.Timestamp(t))


def construct(spec, rec=None, builder=None):
    """Build the real timeboard and the model of a spec.

    Returns (timeboard, timeline) or (None, None) if construction is expected
    to be rejected (and it was) or the answer is not determined."""
    b = builder or build.Builder(spec)
    try:
        tl = model.Timeline(spec, getattr(b, 'model_rps', None))
    except Expect as e:
        expect_raises(b.timeboard, e.kinds, 'Timeboard()')
        if rec:
            rec.tag('rejected:' + e.kinds[0])
        return None, None
    except Ambiguous:
        if rec:
            rec.tag('ambiguous')
        return None, None
    t = expect_ok(b.timeboard, 'Timeboard()')
    return t, tl


def check_timeline(tbd, tl, deep=()):
    """The timeboard consists of exactly the workshifts of the model."""
    df = expect_ok(tbd.to_dataframe, 'to_dataframe()')
    expect(len(df) == tl.N, 'number of workshifts: {} expected {}',
           len(df), tl.N)
    starts = [int(x) for x in df['start'].values.astype('int64')]
    if starts != tl.starts:
        i = next(i for i in range(tl.N) if starts[i] != tl.starts[i])
        fail('workshift {} starts at {}, expected {}', i, fmt_t(starts[i]),
             fmt_t(tl.starts[i]))
    ends = [int(x) for x in df['end'].values.astype('int64')]
    if ends != tl.ends:
        i = next(i for i in range(tl.N) if ends[i] != tl.ends[i])
        fail('workshift {} ends at {}, expected {}', i, fmt_t(ends[i]),
             fmt_t(tl.ends[i]))
    durs = [int(x) for x in df['duration'].values]
    expect(durs == tl.dur, 'durations {} expected {}', durs, tl.dur)
    labels = list(df['label'].values)
    check_labels(labels, tl)
    expect(ns(tbd.start_time) == tl.start, 'timeboard start_time {} expected '
           '{}', tbd.start_time, fmt_t(tl.start))
    expect(ns(tbd.end_time) == tl.end, 'timeboard end_time {} expected {}',
           tbd.end_time, fmt_t(tl.end))
    for i in deep:
        check_ws_at(tbd, tl, i)


def check_labels(labels, tl):
    for i in range(tl.N):
        if not same_label(labels[i], tl.labels[i]):
            fail('label of workshift {} ({}) is {!r}, expected {!r}', i,
                 fmt_t(tl.starts[i]), labels[i], tl.labels[i])


def check_ws_at(tbd, tl, i):
    """Workshift i as found by constructor and by its own start time."""
    i = i % tl.N
    ws = expect_ok(lambda: tb.Workshift(tbd, i), 'Workshift({})'.format(i))
    check_ws(ws, tl, i, 'Workshift({})'.format(i))
    w2 = expect_ok(lambda: tbd.get_workshift(pd.Timestamp(tl.starts[i])),
                   'get_workshift')
    check_ws(w2, tl, i, 'get_workshift({})'.format(fmt_t(tl.starts[i])))


def check_ws(ws, tl, i, what):
    """`ws` is the i-th workshift of the model."""
    expect(isinstance(ws, tb.Workshift), '{}: not a workshift: {!r}', what, ws)
    s = ns(ws.start_time)
    expect(s == tl.starts[i], '{}: starts at {}, expected #{} at {}', what,
           ws.start_time, i, fmt_t(tl.starts[i]))
    expect(ns(ws.end_time) == tl.ends[i], '{}: ends at {}, expected {}', what,
           ws.end_time, fmt_t(tl.ends[i]))
    expect(same_label(ws.label, tl.labels[i]), '{}: label {!r}, expected {!r}',
           what, ws.label, tl.labels[i])
    expect(ws.duration == tl.dur[i], '{}: duration {}, expected {}', what,
           ws.duration, tl.dur[i])
    expect(ns(ws.to_timestamp()) == tl.refs[i], '{}: reference time {}, '
           'expected {}', what, ws.to_timestamp(), fmt_t(tl.refs[i]))


def same_ws(ws, tl, i, what):
    """Cheaper identity check: by start time and label."""
    expect(isinstance(ws, tb.Workshift), '{}: not a workshift: {!r}', what, ws)
    s = ns(ws.start_time)
    expect(s == tl.starts[i], '{}: workshift starting at {}, expected #{} '
           'starting at {}', what, ws.start_time, i, fmt_t(tl.starts[i]))
    expect(same_label(ws.label, tl.labels[i]), '{}: label {!r}, expected {!r}',
           what, ws.label, tl.labels[i])


def check_ivl(ivl, tl, a, b, what):
    """`ivl` consists of workshifts a..b of the model."""
    expect(isinstance(ivl, tb.Interval), '{}: not an interval: {!r}', what,
           ivl)
    got = (ns(ivl.start_time), ns(ivl.end_time), ivl.length, len(ivl))
    want = (tl.starts[a], tl.ends[b], b - a + 1, b - a + 1)
    expect(got == want, '{}: (start, end, length, len) = {} expected {} '
           '(workshifts {}..{}: {} .. {})', what, got, want, a, b,
           fmt_t(tl.starts[a]), fmt_t(tl.ends[b]))


def close(a, b):
    """Equal numbers, up to float rounding of sums."""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a == b or (a != a and b != b):       # infinities and NaNs
        return True
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_period_of(freq):
    return pd.tseries.frequencies.to_offset(freq)


def is_int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)
