"""Operations of query sessions: each one asks the real timeboard a question
and compares the answer with the reference model.

An operation is plain data; positions are abstract integers taken modulo the
number of workshifts, so that any operation makes sense on any timeboard.
"""
import decimal
import fractions
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import build, core, gen, model, ptime
from .build import tb
from .core import (attempt, expect, expect_ok, expect_raises, fail, fmt_t, ns,
                   same_ws, check_ws, check_ivl, close, same_label, show)
from .gen import weighted, sampled
from .model import Expect, Ambiguous, OOB, POOB, VOID, UNACC, IvlModel
from .ptime import DAY, HOUR

OUT = (OOB, POOB)       # an interval which extends over the bounds
OOB1 = (OOB,)           # a workshift which does not exist
ivl_duties = sampled(['on', 'off', 'any', 'on', 'off'])
ws_duties = sampled(['on', 'off', 'same', 'alt', 'any', 'on', 'off'])
positions = weighted((12, st.integers(0, 500)), (8, st.integers(-4, 4)),
                     (4, st.integers(0, 10 ** 6)), (5, sampled(['f0', 'f1'])))
FORMS = ['ts', 'ts', 'str', 'dt', 'np', 'obj', 'iso', 'dmy', 'date', 'per:D',
         'per:H', 'per:M', 'per:S', 'mdy', 'compact', 'long']


# ---------------------------------------------------------------- generators
def pts():
    """An abstract point in time."""
    return st.fixed_dictionaries({
        'i': positions,
        'w': sampled(['start', 'start', 'end', 'mid', 'mid', 'rand', 'start+1',
                      'end-1', 'rand', 'unit', 'ref', 'unit-1', 'day', 'month',
                      'before', 'after', 'before1', 'after1']),
        'r': st.integers(0, 1000),
        'f': sampled(FORMS)})


def inner_pts():
    return st.fixed_dictionaries({
        'i': positions,
        'w': sampled(['start', 'start', 'end', 'mid', 'rand', 'start+1',
                      'end-1', 'rand', 'unit', 'ref']),
        'r': st.integers(0, 1000),
        'f': sampled(FORMS)})


scheds = weighted((4, st.just(-1)), (5, st.integers(0, 3)))


def d(**kw):
    return st.fixed_dictionaries(kw)


def plain_spans():
    """An interval as two abstract positions."""
    return d(a=positions, b=positions, via=sampled(['ctor', 'ctor', 'ws',
                                                    'pts', 'len', 'pts']),
             att=scheds)


def spans():
    """An interval, sometimes one of the favourites of the session."""
    return weighted((3, plain_spans()), (2, d(fav=st.integers(0, 1))))


def favourites(draw):
    """Objects which a session asks again and again."""
    return {'favs': [draw(plain_spans()), draw(plain_spans())],
            'favp': [draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 60))]}


closed = sampled(['11', '11', '01', '10', '00'])
PERIODS = ['D', 'W', 'W-WED', 'W-SAT', 'M', 'Q', 'Q-FEB', 'A', 'A-APR', 'H',
           '2W', '3M', '2D', '2A', '12H', 'T', '5D', '2Q', 'Y',
           '1M', 'd', 'min', 'h', 'W-SUN', '1Y']
COUNTED = ['S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y']


def steps():
    return weighted((6, st.integers(-5, 5)), (2, st.integers(-60, 60)),
                    (1, st.integers(-500, 500)), (2, st.just(0)))


def null():
    return st.sampled_from(['None', 'NaT', 'nan'])


OPS = {
    'ws': lambda: d(op=st.just('ws'), p=pts(), att=scheds, call=st.booleans()),
    'attr': lambda: d(op=st.just('attr'), i=positions, att=scheds),
    'ctor_oob': lambda: d(op=st.just('ctor_oob'), k=st.integers(0, 5)),
    'duty': lambda: d(op=st.just('duty'), i=positions, att=scheds, sch=scheds),
    'roll': lambda: d(op=st.just('roll'), i=positions, att=scheds, sch=scheds,
                      how=sampled(['rollforward', 'rollback', 'rollforward',
                                   'rollback', '+', '-', 'chain']),
                      steps=steps(), duty=ws_duties, kw=st.booleans()),
    'wswt': lambda: d(op=st.just('wswt'), i=positions, att=scheds, sch=scheds,
                      duty=ivl_duties),
    'ivl2': lambda: d(op=st.just('ivl2'), p=weighted((6, pts()), (1, null())),
                      q=weighted((6, pts()), (1, null())), closed=closed,
                      att=scheds, call=st.booleans(),
                      box=st.just('tuple')),
    'ivlen': lambda: d(op=st.just('ivlen'), p=pts(), n=weighted(
        (6, st.integers(-6, 6)), (3, st.integers(-120, 120)),
        (2, sampled(['to_end', 'to_start', 'over_end', 'over_start']))),
        closed=closed, att=scheds, call=st.booleans()),
    'ivper': lambda: d(op=st.just('ivper'), p=pts(), freq=sampled(PERIODS),
                       clip=sampled([True, True, False, None]), closed=closed,
                       att=scheds, via=sampled(['kw', 'kw', 'period', 'call'])),
    'whole': lambda: d(op=st.just('whole'), closed=closed, att=scheds,
                       form=sampled(['get', 'call', 'None', 'nulls'])),
    'ivctor': lambda: d(op=st.just('ivctor'), a=positions, b=positions,
                        form=sampled(['int', 'int', 'ws', 'mix']),
                        box=sampled(['tuple', 'list']), att=scheds, bs=scheds,
                        out=sampled([None, None, None, 'neg', 'over', 'both',
                                     'over0'])),
    'nth': lambda: d(op=st.just('nth'), ivl=spans(), n=weighted(
        (5, st.integers(-4, 4)), (2, st.integers(-60, 60)),
        (1, sampled(['count', '-count', '-count-1', 'count-1']))),
        duty=ivl_duties, sch=scheds),
    'firstlast': lambda: d(op=st.just('firstlast'), ivl=spans(),
                           duty=ivl_duties, sch=scheds,
                           which=sampled(['first', 'last'])),
    'count': lambda: d(op=st.just('count'), ivl=spans(), duty=ivl_duties,
                       sch=scheds),
    'workshifts': lambda: d(op=st.just('workshifts'), ivl=spans(),
                            duty=ivl_duties, sch=scheds),
    'iter': lambda: d(op=st.just('iter'), ivl=spans(), brk=st.integers(0, 9)),
    'overlap': lambda: d(op=st.just('overlap'), x=spans(), y=spans(),
                         sch=scheds, star=st.booleans(), duty=ivl_duties,
                         sch2=scheds),
    'portion': lambda: d(op=st.just('portion'), x=spans(), y=spans(),
                         sch=scheds, slash=st.booleans(), duty=ivl_duties),
    'cper': lambda: d(op=st.just('cper'), ivl=spans(), freq=weighted(
        (8, st.just('auto')), (4, sampled(COUNTED)),
        (1, sampled(['W-WED', '2M', 'BM', 'A-MAR', 'X']))),
        k=st.integers(0, 3), duty=ivl_duties, sch=scheds),
    'dur': lambda: d(op=st.just('dur'), ivl=spans(), duty=ivl_duties,
                     sch=scheds),
    'wt': lambda: d(op=st.just('wt'), ivl=spans(), duty=ivl_duties,
                    sch=scheds),
    'resch': lambda: resch([(x, 1) for x in (
        'duty', 'roll', 'count', 'workshifts', 'nth', 'firstlast', 'wt',
        'wswt', 'dur', 'portion', 'cper', 'df', 'overlap', 'iter')]),
    'chat': lambda: chat([
        ('duty', 3), ('roll', 3), ('count', 1), ('workshifts', 1), ('nth', 1),
        ('firstlast', 1), ('wt', 1), ('wswt', 2), ('dur', 1), ('portion', 1),
        ('cper', 1), ('overlap', 1), ('attr', 1), ('iter', 1)]),
    'df': lambda: d(op=st.just('df'), a=positions, b=positions,
                    form=sampled(['whole', 'part', 'ivl', 'first', 'last'])),
    'addsch': lambda: d(op=st.just('addsch'), k=st.integers(0, 3),
                        pick=st.integers(0, 50)),
    'dupsch': lambda: d(op=st.just('dupsch'), k=st.integers(0, 4)),
    'dropsch': lambda: d(op=st.just('dropsch'), k=st.integers(0, 3)),
    'dropdef': lambda: d(op=st.just('dropdef'), pick=st.integers(0, 50),
                         take=sampled([True, True, False]),
                         i=positions, ivl=plain_spans()),
    'void': lambda: d(op=st.just('void'), a=positions, b=positions,
                      att=scheds, sch=scheds, duty=ivl_duties, freq=sampled(
                          COUNTED)),
    'scribble': lambda: d(op=st.just('scribble'), a=positions, b=positions,
                          what=st.integers(0, 4), v=st.integers(-3, 3),
                          ivl=spans()),
    'print': lambda: d(op=st.just('print'), i=positions, ivl=spans(),
                       what=st.integers(0, 4)),
    'bad': lambda: d(op=st.just('bad'), i=positions, p=inner_pts(),
                     ivl=spans(), kind=sampled([
                         'duty', 'duty', 'duty', 'closed', 'length', 'combo',
                         'ref', 'point', 'bounds', 'schedule', 'selector',
                         'drop', 'location', 'reversed', 'zero', 'freq']),
                     k=st.integers(0, 10 ** 6)),
}


def resch(kinds):
    return d(op=st.just('resch'), k=st.integers(0, 3),
             pick=st.integers(0, 50), pick2=st.integers(0, 50),
             i=positions, ivl=plain_spans(),
             ask=st.lists(weighted(*[(n, OPS[x]()) for x, n in kinds]),
                          min_size=1, max_size=3))


def chat(kinds):
    return d(op=st.just('chat'), i=positions, att=scheds, ivl=spans(),
             ask=st.lists(weighted(*[(n, OPS[x]()) for x, n in kinds]),
                          min_size=3, max_size=9))


def named_op(name):
    """'count'; 'chat.count.nth': a chat about those only."""
    if '.' in name:
        kind, asked = name.split('.', 1)
        make = {'chat': chat, 'resch': resch}[kind]
        return make([(x, 1) for x in asked.split('.')])
    return OPS[name]()


def op_list(weights, lo=4, hi=14):
    """List of operations; `weights`: {name: weight}."""
    return st.lists(weighted(*[(w, named_op(k)) for k, w in weights.items()]),
                    min_size=lo, max_size=hi)


@st.composite
def sessions(draw, weights, lo=4, hi=14, tbs=None, extra=None):
    spec = draw(tbs if tbs is not None else gen.timeboards(
        size=gen.small_sizes))
    pool = gen.num_labels if spec['worktime'] == 'labels' else gen.any_labels
    case = {'tb': spec,
            'sels': draw(st.lists(gen.selectors(pool), min_size=3,
                                  max_size=5)),
            'nsch': draw(st.integers(0, 3)),
            'ops': draw(op_list(weights, lo, hi))}
    case.update(favourites(draw))
    if extra:
        case.update(draw(extra))
    return case


# --------------------------------------------------------------------- context
class Sched(object):
    def __init__(self, obj, on, name):
        self.obj, self.on, self.name = obj, on, name


class Ctx(object):
    def __init__(self, case, rec, builder=None):
        self.case, self.rec = case, rec
        self.spec = case['tb']
        self.tbd, self.tl = core.construct(self.spec, rec, builder)
        self.ok = self.tbd is not None
        if not self.ok:
            return
        self.actual = None
        if any(x is None for x in self.tl.labels):
            self.actual = list(self.tbd.to_dataframe()['label'])
        name = self.spec.get('name')
        name = 'on_duty' if name is None else str(name)
        sel = self.spec.get('selector') or {'k': 'default'}
        self.default = Sched(self.tbd.default_schedule, self.duty(sel), name)
        self.slots = [None] * 4            # user schedules in slots 0..3
        self.ghost = None                  # slot 9: a schedule dropped before
        self.dropped = []
        self.namesake = None               # bears the name of the default
        for k in range(case['nsch']):
            self.add(k, k)
        self.cache = {}

    def duty(self, sel):
        f = model.selector_fn(sel)
        return [bool(f(self.actual[i] if x is None else x))
                for i, x in enumerate(self.tl.labels)]

    def listed(self):
        """Schedules which the timeboard has."""
        return [self.namesake if self.namesake is not None else self.default
                ][:self.namesake is not False] + [s for s in self.slots if s]

    def names(self):
        return {s.name for s in self.listed()}

    def add(self, k, pick):
        sel = self.case['sels'][pick % len(self.case['sels'])]
        name = 'sch{}'.format(k)
        obj = expect_ok(lambda: self.tbd.add_schedule(
            name, build.selector(sel)), 'add_schedule({!r})'.format(name))
        self.slots[k] = Sched(obj, self.duty(sel), name)

    def sched(self, k):
        """Slot -> Sched or None (None = the parameter is omitted)."""
        if k is None or k < 0:
            return None
        if k == 9:
            return self.ghost
        s = self.slots[k % 4]
        if s is None:
            # fall back to the default schedule given explicitly
            return self.default if k % 2 else None
        return s

    def eff(self, att, sch):
        """Schedule in effect: explicit, else attached, else default."""
        e = self.sched(sch)
        if e is not None:
            return e
        return self.sched(att) or self.default

    def pos(self, i):
        if isinstance(i, str):
            i = self.case['favp'][int(i[1:])]
        return i % self.tl.N

    def span(self, spec):
        return self.case['favs'][spec['fav']] if 'fav' in spec else spec

    def ws(self, i, att):
        """Workshift number i (reused within the session)."""
        key = ('ws', i, att)
        s = self.sched(att)
        if key not in self.cache or self.cache[key][1] is not s:
            if i % 3 == 0:
                f = lambda: tb.Workshift(self.tbd, i, *([s.obj] if s else []))
            else:
                kw = {'schedule': s.obj} if s else {}
                t = self.tl.starts[i]
                f = lambda: self.tbd.get_workshift(pd.Timestamp(t), **kw)
            w = expect_ok(f, 'workshift #{}'.format(i))
            same_ws(w, self.tl, i, 'workshift #{}'.format(i))
            self.cache[key] = (w, s)
        return self.cache[key][0]

    def ivl(self, spec):
        """(interval, a, b) for an abstract span (reused within a session)."""
        tl = self.tl
        spec = self.span(spec)
        a, b = sorted((self.pos(spec['a']), self.pos(spec['b'])))
        att, via = spec['att'], spec['via']
        s = self.sched(att)
        key = ('ivl', a, b, via, att)
        if key in self.cache and self.cache[key][1] is s:
            return self.cache[key][0], a, b
        so = s.obj if s else None
        kw = {'schedule': so} if s else {}
        if via == 'ctor':
            f = lambda: tb.Interval(self.tbd, (a, b), so)
        elif via == 'ws':
            # whatever the schedules of the bounds
            f = lambda: tb.Interval(self.tbd, (
                self.ws(a, (a + b) % 4 - 1), self.ws(b, (a + b) % 3 - 1)),
                **kw)
        elif via == 'pts':
            f = lambda: self.tbd.get_interval(
                (pd.Timestamp(tl.starts[a]), pd.Timestamp(tl.ends[b])), **kw)
        else:
            f = lambda: self.tbd.get_interval(
                pd.Timestamp(tl.starts[a]), length=b - a + 1, **kw)
        what = 'interval ({}, {}) via {}'.format(a, b, via)
        v = expect_ok(f, what)
        check_ivl(v, tl, a, b, what)
        has_sched(s or self.default, v, what)
        self.cache[key] = (v, s)
        return v, a, b

    def time(self, p):
        """Abstract point -> (time, Timestamp-like object)."""
        tl = self.tl
        i = self.pos(p['i'])
        s, e = tl.starts[i], tl.ends[i]
        w, r = p['w'], p['r']
        u = tl.us[tl.first[i]:tl.first[i] + tl.dur[i]]
        if w == 'start':
            t = s
        elif w == 'end':
            t = e
        elif w == 'start+1':
            t = s + 1
        elif w == 'end-1':
            t = e - 1
        elif w == 'mid':
            t = (s + (e - s) // 2) // 1000 * 1000
        elif w == 'unit':
            t = u[r % len(u)]
        elif w == 'unit-1':
            t = u[r % len(u)] - 1
        elif w == 'ref':
            t = tl.refs[i]
        elif w == 'rand':
            t = s + (e - s) * r // 1000
            t = t // 1000000000 * 1000000000
        elif w == 'day':
            t = s // DAY * DAY
        elif w == 'month':
            t = ptime.month_start(ptime.month_no(s))
        elif w == 'before1':
            t = tl.start - 1
        elif w == 'after1':
            t = tl.end + 1
        elif w == 'before':
            t = tl.start - (1 + r) * HOUR * 7
        else:
            t = tl.end + 1 + r * HOUR * 7
        f = p['f']
        return t, build.point({'t': t, 'f': usable_form(t, f)})


def usable_form(t, f):
    if f in ('dt', 'mdy') and t % 1000:
        return 'ts'
    if f in ('dmy', 'date', 'per:D', 'compact', 'long') and t % DAY:
        return 'ts'
    if f == 'per:H' and t % HOUR or f == 'per:S' and t % ptime.SEC:
        return 'ts'
    if f == 'per:M' and (t % DAY or ptime.to_date(t).day != 1):
        return 'ts'
    return f


# ------------------------------------------------------------------- executors
def run(ctx, op):
    ctx.rec.tag('op:' + op['op'])
    EXEC[op['op']](ctx, op)


def _kw(ctx, sch):
    s = ctx.sched(sch)
    return {'schedule': s.obj} if s else {}


def check_sched(ctx, obj, att, what):
    has_sched(ctx.sched(att) or ctx.default, obj, what)


def has_sched(s, obj, what):
    expect(obj.schedule.name == s.name, '{}: attached schedule {!r}, expected '
           '{!r}', what, obj.schedule.name, s.name)
    expect(obj.schedule is s.obj, '{}: attached schedule {!r} is not the one '
           'which bears this name', what, s.name)


def x_ws(ctx, op):
    t, p = ctx.time(op['p'])
    i = ctx.tl.ws_at(t)
    kw = _kw(ctx, op['att'])
    call = op['call'] and not kw
    f = (lambda: ctx.tbd(p)) if call else \
        (lambda: ctx.tbd.get_workshift(p, **kw))
    what = '{}({!r})'.format('timeboard' if call else 'get_workshift', p)
    if i is None:
        expect_raises(f, OOB1, what)
        ctx.rec.tag('out of bounds')
        return
    w = expect_ok(f, what)
    check_ws(w, ctx.tl, i, what)
    expect(ns(w.start_time) <= t <= ns(w.end_time), '{}: {} .. {} does not '
           'contain it', what, w.start_time, w.end_time)
    check_sched(ctx, w, op['att'] if not call else -1, what)
    on = (ctx.sched(op['att']) or ctx.default).on[i]
    expect(bool(w.is_on_duty()) == on, '{}: is_on_duty {}', what,
           w.is_on_duty())
    ctx.rec.nt(ctx.tl.N > 1)


def x_attr(ctx, op):
    i = ctx.pos(op['i'])
    w = ctx.ws(i, op['att'])
    check_ws(w, ctx.tl, i, 'workshift #{}'.format(i))
    check_sched(ctx, w, op['att'], 'workshift #{}'.format(i))
    ctx.rec.nt(ctx.tl.dur[i] > 1 or ctx.spec.get('ref') == 'end')


def x_ctor_oob(ctx, op):
    expect_raises(lambda: tb.Workshift(ctx.tbd, ctx.tl.N + op['k']), OOB1,
                  'Workshift(clnd, {}) of {}'.format(ctx.tl.N + op['k'],
                                                     ctx.tl.N))


def x_duty(ctx, op):
    i = ctx.pos(op['i'])
    w = ctx.ws(i, op['att'])
    kw = _kw(ctx, op['sch'])
    want = ctx.eff(op['att'], op['sch']).on[i]
    what = 'workshift #{} label {!r} attached {} explicit {}'.format(
        i, w.label, op['att'], op['sch'])
    got = expect_ok(lambda: w.is_on_duty(**kw), what)
    off = expect_ok(lambda: w.is_off_duty(**kw), what)
    expect(bool(got) == want, '{}: is_on_duty()={!r} expected {}', what, got,
           want)
    expect(bool(off) == (not want), '{}: is_off_duty()={!r} expected {}', what,
           off, not want)
    ctx.rec.nt(any(s and s.on[i] != ctx.default.on[i] for s in ctx.slots))


def x_roll(ctx, op):
    i = ctx.pos(op['i'])
    w = ctx.ws(i, op['att'])
    how, n, duty = op['how'], op['steps'], op['duty']
    s = ctx.eff(op['att'], op['sch'])
    if how in ('+', '-', 'chain'):
        s = ctx.eff(op['att'], -1)
    if how == '+':
        f, want = (lambda: w + n), model.roll(s.on, i, n, 'on', True)
    elif how == '-':
        f, want = (lambda: w - n), model.roll(s.on, i, n, 'on', False)
    elif how == 'chain':
        # results can be rolled further under the same schedule
        def f():
            x = w.rollforward(duty=duty)
            check_sched(ctx, x, op['att'], 'rollforward()')
            return x.rollback(n, duty=duty)
        mid = model.roll(s.on, i, 0, duty, True)
        want = None if mid is None else model.roll(s.on, mid, n, duty, False)
    else:
        kw = _kw(ctx, op['sch'])
        forward = how == 'rollforward'
        if op['kw']:
            f = lambda: getattr(w, how)(steps=n, duty=duty, **kw)
        elif duty == 'on' and n == 0 and not kw:
            f = lambda: getattr(w, how)()
        else:
            f = lambda: getattr(w, how)(n, duty, *kw.values())
        want = model.roll(s.on, i, n, duty, forward)
    what = 'ws#{} {} steps={} duty={} under {}'.format(i, how, n, duty, s.name)
    if want is None:
        expect_raises(f, OOB1, what)
        ctx.rec.tag('rolled out of bounds')
        return
    got = expect_ok(f, what)
    same_ws(got, ctx.tl, want, what)
    has_sched(s, got, what)
    ctx.rec.nt(want != i)
    ctx.rec.tag('rolled')


def relevant(on, a, b, duty):
    return [i for i in range(a, b + 1)
            if duty == 'any' or on[i] == (duty == 'on')]


def expected_worktime(ctx, idx):
    """Sum of work times; Expect TypeError; Ambiguous."""
    tl = ctx.tl
    if ctx.spec.get('worktime') != 'labels':
        return sum(tl.dur[i] for i in idx)
    labels = [tl.labels[i] for i in idx]
    if not labels:
        return 0
    if any(x is None for x in labels):
        raise Ambiguous()
    if any(isinstance(x, (decimal.Decimal, fractions.Fraction, complex))
           for x in labels):
        raise Ambiguous()           # numbers not all of which can be added
    if not all(isinstance(x, (int, float, np.number, np.bool_))
               for x in labels):
        raise Expect('TypeError')
    return sum(labels)


def _compare_number(f, want_fn, ctx, what):
    try:
        want = want_fn()
    except Ambiguous:
        return None
    except Expect as e:
        expect_raises(f, e.kinds, what)
        ctx.rec.tag('labels are not numbers')
        return None
    got = expect_ok(f, what)
    expect(close(got, want), '{}: {!r} expected {!r}', what, got, want)
    return want


def x_wswt(ctx, op):
    i = ctx.pos(op['i'])
    w = ctx.ws(i, op['att'])
    s = ctx.eff(op['att'], op['sch'])
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    idx = relevant(s.on, i, i, duty)
    f = (lambda: w.worktime(**kw)) if duty == 'on' and i % 2 else \
        (lambda: w.worktime(duty=duty, **kw))
    v = _compare_number(f, lambda: expected_worktime(ctx, idx), ctx,
                        'ws#{}.worktime(duty={}) under {}'.format(
                            i, duty, s.name))
    ctx.rec.nt(bool(v))


def x_ivl2(ctx, op):
    tl = ctx.tl
    nulls = {'None': None, 'NaT': pd.NaT, 'nan': float('nan')}

    def side(p):
        if isinstance(p, str):
            return None, nulls[p]
        return ctx.time(p)
    (t0, p), (t1, q) = side(op['p']), side(op['q'])
    cl = op['closed']
    ref = (p, q) if op['box'] == 'tuple' else [p, q]
    kw = _kw(ctx, op['att'])
    if cl != '11':
        kw['closed'] = cl
    call = op['call'] and op['box'] == 'tuple'
    f = (lambda: ctx.tbd(ref, **kw)) if call else \
        (lambda: ctx.tbd.get_interval(ref, **kw))
    what = '{}(({!r}, {!r}), closed={})'.format(
        'timeboard' if call else 'get_interval', p, q, cl)
    a = 0 if t0 is None else tl.ws_at(t0)
    b = tl.N - 1 if t1 is None else tl.ws_at(t1)
    lo = tl.start if t0 is None else t0
    hi = tl.end if t1 is None else t1
    if a is None or b is None:
        expect_raises(f, OUT if lo <= hi else OUT + (VOID,), what)
        ctx.rec.tag('out of bounds')
        return
    a2, b2 = a + (cl[0] == '0'), b - (cl[1] == '0')
    if a2 > b2:
        expect_raises(f, (VOID,), what)
        ctx.rec.tag('void')
        return
    if lo > hi:         # same workshift, times reversed
        out = attempt(f)
        if out[0] == 'exc':
            expect(out[1] == VOID, '{}: {}', what, show(out))
            return
        v = out[1]
    else:
        v = expect_ok(f, what)
    check_ivl(v, tl, a2, b2, what)
    check_sched(ctx, v, op['att'], what)
    ctx.rec.nt(b2 > a2)


def x_ivlen(ctx, op):
    tl = ctx.tl
    t, p = ctx.time(op['p'])
    n, cl = op['n'], op['closed']
    a = tl.ws_at(t)
    if isinstance(n, str):
        k = a or 0
        n = {'to_end': tl.N - k, 'over_end': tl.N - k + 1,
             'to_start': -(k + 1), 'over_start': -(k + 2)}[n]
    kw = _kw(ctx, op['att'])
    if cl != '11':
        kw['closed'] = cl
    f = (lambda: ctx.tbd(p, length=n, **kw)) if op['call'] else \
        (lambda: ctx.tbd.get_interval(p, length=n, **kw))
    what = 'get_interval({!r}, length={}, closed={})'.format(p, n, cl)
    if n == 0:
        expect_raises(f, (VOID,) if a is not None else OUT + (VOID,), what)
        ctx.rec.tag('void')
        return
    drop = cl.count('0')
    if a is None:
        expect_raises(f, OUT + ((VOID,) if abs(n) <= drop else ()), what)
        ctx.rec.tag('out of bounds')
        return
    lo, hi = (a, a + n - 1) if n > 0 else (a + n + 1, a)
    a2, b2 = lo + (cl[0] == '0'), hi - (cl[1] == '0')
    if lo < 0 or hi >= tl.N:
        ctx.rec.tag('out of bounds')
        expect_raises(f, OUT, what)
        return
    if a2 > b2:
        expect_raises(f, (VOID,), what)
        ctx.rec.tag('void')
        return
    v = expect_ok(f, what)
    check_ivl(v, tl, a2, b2, what)
    check_sched(ctx, v, op['att'], what)
    ctx.rec.nt(abs(n) > 1)


def x_ivper(ctx, op):
    tl = ctx.tl
    t, p = ctx.time(op['p'])
    freq, cl, clip = op['freq'], op['closed'], op['clip']
    k, u = ptime.parse_freq(freq)
    if tl.n_units and u in ('T', 'H') and tl.us[1] - tl.us[0] > 40 * DAY:
        freq = 'M'
    p0, p1 = ptime.period_bounds(freq, t)
    kw = _kw(ctx, op['att'])
    if clip is not None:
        kw['clip_period'] = clip
    if cl != '11':
        kw['closed'] = cl
    via = op['via']
    if via == 'period':
        per = pd.Period(pd.Timestamp(t), freq=freq)
        f = lambda: ctx.tbd.get_interval(per, **kw)
    elif via == 'call':
        f = lambda: ctx.tbd(p, period=freq, **kw)
    else:
        f = lambda: ctx.tbd.get_interval(p, period=freq, **kw)
    if isinstance(p, pd.Period) and via != 'period':
        # a Period is its own period whatever `period`: use the plain moment
        p = pd.Timestamp(t)
    what = 'get_interval({!r}, period={!r} [{} .. {}], clip={}, closed={}, ' \
        'via={})'.format(p, freq, fmt_t(p0), fmt_t(p1), clip, cl, via)
    clipped = clip is not False
    if not (p0 >= tl.start and p1 <= tl.end):
        ctx.rec.tag('period crosses the bounds' if not (
            p1 < tl.start or p0 > tl.end) else 'period outside')
    try:
        a, b = model.period_interval(tl, p0, p1, clipped, cl)
    except Expect as e:
        ctx.rec.tag(e.kinds[0])
        expect_raises(f, e.kinds, what)
        return
    v = expect_ok(f, what)
    check_ivl(v, tl, a, b, what)
    check_sched(ctx, v, op['att'], what)
    if cl == '11':
        for ws in (v if b - a < 500 else
                   [tb.Workshift(ctx.tbd, j) for j in (a, a + 1, b - 1, b)]):
            r = ns(ws.to_timestamp())
            expect(p0 <= r <= p1, '{}: contains a workshift with reference '
                   'time {}', what, ws.to_timestamp())
    ctx.rec.nt(True)


def x_whole(ctx, op):
    tl, cl = ctx.tl, op['closed']
    kw = _kw(ctx, op['att'])
    if cl != '11':
        kw['closed'] = cl
    form = op['form']
    if form == 'get':
        f = lambda: ctx.tbd.get_interval(**kw)
    elif form == 'call':
        f = lambda: ctx.tbd(**kw)
    elif form == 'None':
        f = lambda: ctx.tbd.get_interval(None, **kw)
    else:
        f = lambda: ctx.tbd.get_interval((None, pd.NaT), **kw)
    a, b = int(cl[0] == '0'), tl.N - 1 - (cl[1] == '0')
    what = 'whole timeboard ({}), closed={}'.format(form, cl)
    if a > b:
        expect_raises(f, (VOID,), what)
        return
    v = expect_ok(f, what)
    check_ivl(v, tl, a, b, what)
    check_sched(ctx, v, op['att'], what)
    if cl == '11':
        expect((v.start_time, v.end_time) == (ctx.tbd.start_time,
                                              ctx.tbd.end_time),
               '{}: {} .. {}', what, v.start_time, v.end_time)


def x_ivctor(ctx, op):
    tl = ctx.tl
    a, b = ctx.pos(op['a']), ctx.pos(op['b'])
    out = op['out']
    ra, rb = a, b
    if out == 'neg':
        ra = -1 - a
    elif out == 'over':
        rb = tl.N + b
    elif out == 'over0':
        ra = tl.N + a
    elif out == 'both':
        ra, rb = -1 - a, tl.N + b
    wa, wb = ra, rb
    if out is None and op['form'] in ('ws', 'mix'):
        wa = ctx.ws(a, op.get('bs', op['att']))
    if out is None and op['form'] == 'ws':
        wb = ctx.ws(b, -1)
    box = tuple if op['box'] == 'tuple' else list
    s = ctx.sched(op['att'])
    f = lambda: tb.Interval(ctx.tbd, box((wa, wb)), *([s.obj] if s else []))
    what = 'Interval(clnd, ({!r}, {!r})) of {}'.format(wa, wb, tl.N)
    if out is not None:
        expect_raises(f, OOB1 + ((VOID,) if ra > rb else ()), what)
        ctx.rec.tag('out of bounds')
        return
    if a > b:
        expect_raises(f, (VOID,), what)
        ctx.rec.tag('void')
        return
    v = expect_ok(f, what)
    check_ivl(v, tl, a, b, what)
    check_sched(ctx, v, op['att'], what)
    ctx.rec.nt(b > a)


def ivl_idx(ctx, op, key='ivl'):
    v, a, b = ctx.ivl(op[key])
    s = ctx.eff(ctx.span(op[key])['att'], op['sch'])
    return v, a, b, s, relevant(s.on, a, b, op['duty'])


def x_nth(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    n = op['n']
    if isinstance(n, str):
        n = {'count': len(idx), '-count': -len(idx),
             '-count-1': -len(idx) - 1, 'count-1': len(idx) - 1}[n]
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    f = (lambda: v.nth(n, **kw)) if duty == 'on' and a % 2 else \
        (lambda: v.nth(n, duty, *kw.values()))
    what = '({}, {}).nth({}, {}) under {}'.format(a, b, n, duty, s.name)
    if -len(idx) <= n < len(idx):
        w = expect_ok(f, what)
        same_ws(w, ctx.tl, idx[n], what)
        has_sched(s, w, what)
        ctx.rec.nt(idx[n] != a)
    else:
        expect_raises(f, OOB1, what)
        ctx.rec.tag('nth out of bounds')


def x_firstlast(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    m = getattr(v, op['which'])
    f = (lambda: m(**kw)) if duty == 'on' and a % 2 else \
        (lambda: m(duty=duty, **kw))
    what = '({}, {}).{}({}) under {}'.format(a, b, op['which'], duty, s.name)
    if idx:
        w = expect_ok(f, what)
        same_ws(w, ctx.tl, idx[0 if op['which'] == 'first' else -1], what)
        has_sched(s, w, what)
        ctx.rec.nt(len(idx) > 1)
    else:
        expect_raises(f, OOB1, what)
        ctx.rec.tag('nth out of bounds')


def x_count(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    f = (lambda: v.count(**kw)) if duty == 'on' and a % 2 else \
        (lambda: v.count(duty=duty, **kw))
    what = '({}, {}).count({}) under {}'.format(a, b, duty, s.name)
    got = expect_ok(f, what)
    expect(got == len(idx), '{}: {!r} expected {}', what, got, len(idx))
    tot = v.count('on', **kw) + v.count('off', **kw)
    expect(tot == v.count('any', **kw) == len(v) == v.length,
           '{}: on + off = {}, any = {}, len = {}', what, tot,
           v.count('any', **kw), len(v))
    ctx.rec.nt(0 < len(idx) < b - a + 1)


def x_workshifts(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    f = (lambda: take(v.workshifts(**kw))) if duty == 'on' and a % 2 else \
        (lambda: take(v.workshifts(duty, **kw)))
    what = '({}, {}).workshifts({}) under {}'.format(a, b, duty, s.name)
    got = expect_ok(f, what)
    idx = idx[:MANY]
    expect(len(got) == len(idx), '{}: yielded {} expected {}', what, len(got),
           len(idx))
    for w, i in zip(got, idx):
        same_ws(w, ctx.tl, i, what)
        has_sched(s, w, what)
    ctx.rec.nt(0 < len(idx) < b - a + 1)


MANY = 1500


def take(iterable):
    """The list of workshifts, of first ones in very long intervals."""
    return list(itertools.islice(iterable, MANY))


def x_iter(ctx, op):
    v, a, b = ctx.ivl(op['ivl'])
    what = 'iteration over ({}, {})'.format(a, b)
    if op['brk'] < 3:           # an abandoned iteration leaves no trace
        for n, w in enumerate(v):
            if n >= op['brk']:
                break
    n = min(b - a + 1, MANY)
    if 6 < op['brk']:           # one iteration within another
        n_outer = 0
        for w in v:
            same_ws(w, ctx.tl, a + n_outer, what + ', the outer one')
            n_outer += 1
            expect(n_outer <= n, '{}, the outer one: does not end', what)
            if n_outer > 12:
                break
            inner = [x for x, _ in zip(v, range(op['brk'] - 6))]
            expect(len(inner) == min(n, op['brk'] - 6), '{}: {} within '
                   'another', what, len(inner))
            same_ws(inner[0], ctx.tl, a, what + ', the inner one')
        expect(n_outer == min(n, 13), '{}, the outer one: {} workshifts', what,
               n_outer)
        for n_pair, (x, y) in enumerate(zip(v, v)):
            same_ws(x, ctx.tl, a + n_pair, what + ', one of two')
            same_ws(y, ctx.tl, a + n_pair, what + ', another of two')
            if n_pair > 12:
                break
    got = expect_ok(lambda: take(v), what)
    expect(len(got) == n, '{}: yielded {} workshifts', what, len(got))
    for w, i in zip(got, range(a, b + 1)):
        same_ws(w, ctx.tl, i, what)
        check_sched(ctx, w, ctx.span(op['ivl'])['att'], what)
    ctx.rec.nt(b > a)


def x_overlap(ctx, op):
    x, a, b = ctx.ivl(op['x'])
    y, c, e = ctx.ivl(op['y'])
    if op['star']:
        z = expect_ok(lambda: x * y, 'x * y')
        s = ctx.eff(ctx.span(op['x'])['att'], -1)
    else:
        kw = _kw(ctx, op['sch'])
        z = expect_ok(lambda: x.overlap(y, **kw), 'overlap')
        s = ctx.eff(ctx.span(op['x'])['att'], op['sch'])
    lo, hi = max(a, c), min(b, e)
    what = 'overlap of ({}, {}) and ({}, {})'.format(a, b, c, e)
    has_sched(s, z, what)
    s2 = ctx.sched(op['sch2']) or s
    kw2 = _kw(ctx, op['sch2'])
    duty = op['duty']
    if lo > hi:
        ctx.rec.tag('void overlap')
        check_void(ctx, z, y, c, e, op, what)
        return
    check_ivl(z, ctx.tl, lo, hi, what)
    idx = relevant(s2.on, lo, hi, duty)
    n = z.count(duty, **kw2)
    expect(n == len(idx), '{}: count {} expected {}', what, n, len(idx))
    back = y.overlap(x)
    check_ivl(back, ctx.tl, lo, hi, 'reverse ' + what)
    ctx.rec.nt((lo, hi) not in ((a, b), (c, e)))


def check_void(ctx, z, y, c, e, op, what):
    """A void interval answers like an interval without workshifts."""
    duty, kw2 = op['duty'], _kw(ctx, op['sch2'] if 'sch2' in op else -1)
    expect(isinstance(z, tb.Interval), '{}: {!r} is not an interval', what, z)
    expect(len(z) == 0 and z.length == 0, '{}: void, length {}', what, len(z))
    expect(z.start_time is pd.NaT and z.end_time is pd.NaT, '{}: void, {} .. '
           '{}', what, z.start_time, z.end_time)
    expect(list(z) == [] and list(z.workshifts(duty, **kw2)) == [],
           '{}: void interval yields workshifts', what)
    expect_raises(lambda: z.first(duty, **kw2), OOB1, what + '.first')
    expect_raises(lambda: z.last(duty, **kw2), OOB1, what + '.last')
    expect_raises(lambda: z.nth(-1, duty, **kw2), OOB1, what + '.nth')
    zeros = [('count', lambda: z.count(duty, **kw2)),
             ('total_duration', lambda: z.total_duration(duty, **kw2)),
             ('worktime', lambda: z.worktime(duty, **kw2)),
             ('count_periods', lambda: z.count_periods('M', duty, **kw2)),
             ('what_portion_of', lambda: z.what_portion_of(y, duty, **kw2)),
             ('/', lambda: z / y),
             ('reverse portion', lambda: y.what_portion_of(z, duty, **kw2))]
    for name, f in zeros:
        got = expect_ok(f, '{} (void).{}'.format(what, name))
        expect(close(got, 0), '{} (void): {} = {!r}', what, name, got)
    for o in (z.overlap(y), y.overlap(z), z * y):
        expect(len(o) == 0, '{} (void): overlap has length {}', what, len(o))


def x_portion(ctx, op):
    x, a, b = ctx.ivl(op['x'])
    y, c, e = ctx.ivl(op['y'])
    lo, hi = max(a, c), min(b, e)
    duty = op['duty']
    if op['slash']:
        duty, s = 'on', ctx.eff(ctx.span(op['x'])['att'], -1)
        f = lambda: x / y
    else:
        s = ctx.eff(ctx.span(op['x'])['att'], op['sch'])
        kw = _kw(ctx, op['sch'])
        f = (lambda: x.what_portion_of(y, **kw)) if duty == 'on' and a % 2 \
            else (lambda: x.what_portion_of(y, duty=duty, **kw))
    num = len(relevant(s.on, lo, hi, duty)) if lo <= hi else 0
    den = len(relevant(s.on, c, e, duty))
    want = num / den if num else 0.0
    what = 'portion of ({}, {}) taken by ({}, {}) duty={} under {}'.format(
        c, e, a, b, duty, s.name)
    got = expect_ok(f, what)
    expect(close(got, want), '{}: {!r} expected {!r}', what, got, want)
    ctx.rec.nt(0 < num < den)


def auto_freq(ctx, k):
    """A period comparable with the timeboard."""
    ub = ctx.tl.ub
    order = ['S', 'T', 'H', 'D', 'W', 'M', 'Q', 'A']
    i = order.index(ub[0] if ub[0] in 'WQA' else ub)
    return order[min(i + 1 + k % 3, 7)]


def x_cper(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty, freq = op['duty'], op['freq']
    if freq == 'auto':
        freq = auto_freq(ctx, op['k'])
    if freq not in COUNTED:
        expect_raises(lambda: v.count_periods(freq, duty, **kw), (UNACC,),
                      'count_periods({!r})'.format(freq))
        ctx.rec.tag('unsupported period')
        return
    # keep the number of slices within reason
    tl = ctx.tl
    span = tl.ends[b] - tl.starts[a]
    fixed = {'S': ptime.SEC, 'T': ptime.MIN, 'min': ptime.MIN, 'H': HOUR,
             'D': DAY}
    if freq in fixed and span // fixed[freq] > 600:
        freq = auto_freq(ctx, op['k'])
    if tl.N > 3000:
        size = {'S': ptime.SEC, 'T': ptime.MIN, 'H': HOUR, 'D': DAY,
                'W': 7 * DAY, 'M': 30 * DAY, 'Q': 91 * DAY}
        u = ptime.parse_freq(freq)[1][0]
        while u in size and span // size[u] > 100:
            u = freq = 'STHDWMQA'['STHDWMQA'.index(u) + 1]
    f = (lambda: v.count_periods(freq, **kw)) if duty == 'on' and a % 2 else \
        (lambda: v.count_periods(freq, duty=duty, **kw))
    what = '({}, {}).count_periods({!r}, {}) under {}'.format(a, b, freq, duty,
                                                              s.name)
    try:
        parts = model.count_periods(tl, a, b, s.on, duty, freq)
    except Expect as x:
        kinds = x.kinds
        if kinds == (UNACC,) and touches_outside(tl, idx, freq):
            kinds = kinds + OUT
        expect_raises(f, kinds, what)
        ctx.rec.tag('count_periods:' + x.kinds[0])
        return
    want = sum(n / m for n, m in parts)
    got = expect_ok(f, what)
    expect(close(got, want), '{}: {!r} expected {!r} = {}', what, got, want,
           parts)
    if parts:
        ctx.rec.tag('counted')
    ctx.rec.nt(len(parts) > 1 or any(0 < n < m for n, m in parts))


def touches_outside(tl, idx, freq):
    u = ptime.parse_freq(freq)[1]
    for i in (idx[0], idx[-1]):
        p0, p1 = ptime.period_bounds(u, tl.refs[i])
        if p0 < tl.start or p1 > tl.end:
            return True
    return False


def x_dur(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    want = sum(ctx.tl.dur[i] for i in idx)
    f = (lambda: v.total_duration(**kw)) if duty == 'on' and a % 2 else \
        (lambda: v.total_duration(duty, **kw))
    what = '({}, {}).total_duration({}) under {}'.format(a, b, duty, s.name)
    got = expect_ok(f, what)
    expect(got == want, '{}: {!r} expected {}', what, got, want)
    ctx.rec.nt(want != len(idx) or 0 < len(idx) < b - a + 1)


def x_wt(ctx, op):
    v, a, b, s, idx = ivl_idx(ctx, op)
    kw = _kw(ctx, op['sch'])
    duty = op['duty']
    f = (lambda: v.worktime(**kw)) if duty == 'on' and a % 2 else \
        (lambda: v.worktime(duty=duty, **kw))
    got = _compare_number(f, lambda: expected_worktime(ctx, idx), ctx,
                          '({}, {}).worktime({}) under {}'.format(
                              a, b, duty, s.name))
    ctx.rec.nt(got not in (None, 0) and got != len(idx))


def x_df(ctx, op):
    tl = ctx.tl
    a, b = sorted((ctx.pos(op['a']), ctx.pos(op['b'])))
    form = op['form']
    if form == 'whole':
        a, b = 0, tl.N - 1
        f = lambda: ctx.tbd.to_dataframe()
    elif form == 'part':
        f = lambda: ctx.tbd.to_dataframe(a, b)
    elif form == 'first':
        b = tl.N - 1
        f = lambda: ctx.tbd.to_dataframe(first_ws=a)
    elif form == 'last':
        a = 0
        f = lambda: ctx.tbd.to_dataframe(last_ws=b)
    else:
        f = lambda: tb.Interval(ctx.tbd, (a, b)).to_dataframe()
    what = 'to_dataframe {} ({}, {})'.format(form, a, b)
    df = expect_ok(f, what)
    expect(list(df.index) == list(range(a, b + 1)), '{}: index {}', what,
           list(df.index)[:5])
    cols = [str(c) for c in df.columns]
    names = ctx.names()
    ref = [c for c in ('workshift', 'ws_ref') if c in cols]
    expect(len(ref) == 1, '{}: columns {}', what, cols)
    want_cols = {ref[0], 'start', 'end', 'duration', 'label'} | names
    expect(set(cols) == want_cols, '{}: columns {} expected {}', what, cols,
           sorted(want_cols))
    num = lambda c: [int(x) for x in df[c].values.astype('int64')]
    for col, vals in (('start', tl.starts), ('end', tl.ends),
                      ('duration', tl.dur), (ref[0], tl.refs)):
        got = num(col)
        expect(got == vals[a:b + 1], '{}: column {!r} = {}, expected {}',
               what, col, got[:6], vals[a:b + 1][:6])
    for x, y in zip(df['label'].values, tl.labels[a:b + 1]):
        expect(same_label(x, y), '{}: label {!r} expected {!r}', what, x, y)
    for s in ctx.listed():
        got = [bool(x) for x in df[s.name].values]
        expect(got == s.on[a:b + 1], '{}: duty under {}: {} expected {}', what,
               s.name, got[:12], s.on[a:b + 1][:12])
    ctx.rec.nt(b > a)


def x_addsch(ctx, op):
    k = op['k'] % 4
    if ctx.slots[k] is None:
        ctx.add(k, op['pick'])
        s = ctx.slots[k]
        expect(ctx.tbd.schedules.get(s.name) is not None, 'schedule {!r} is '
               'not listed', s.name)
        ctx.rec.tag('schedule added')


def x_dupsch(ctx, op):
    k = op['k']
    s = ctx.default if k == 4 else ctx.slots[k]
    if s is None or s.name not in ctx.names():
        return
    before = set(ctx.tbd.schedules)
    expect_raises(lambda: ctx.tbd.add_schedule(s.name, lambda x: True),
                  ('KeyError',), 'add_schedule with the name taken')
    expect(set(ctx.tbd.schedules) == before, 'schedules {} after a refused '
           'addition', sorted(ctx.tbd.schedules))
    ctx.rec.tag('duplicate name')


def x_dropsch(ctx, op):
    k = op['k'] % 4
    s = ctx.slots[k]
    if s is None:
        return
    expect_ok(lambda: ctx.tbd.drop_schedule(s.obj), 'drop_schedule')
    if op.get('twice', True):
        expect_raises(lambda: ctx.tbd.drop_schedule(s.obj), ('KeyError',),
                      'drop_schedule of a schedule already dropped')
    ctx.slots[k] = None
    ctx.dropped.append(s)
    names = ctx.names()
    expect(set(ctx.tbd.schedules) == names, 'schedules {} expected {}',
           sorted(ctx.tbd.schedules), sorted(names))
    ctx.rec.tag('schedule dropped')


def x_resch(ctx, op):
    """Ask, give the name of a schedule to another one, ask again."""
    k = op['k'] % 4

    def ask():
        for q in op['ask']:
            q = dict(q)
            if 'sch' in q:
                q['sch'] = k
            if q.get('att') is not None and q['att'] % 4 == k:
                q['att'] = -1
            run(ctx, q)
    if ctx.slots[k] is None:
        ctx.add(k, op['pick'])
    old = ctx.slots[k]
    ask()
    i = ctx.pos(op['i'])
    held = dict(op['ivl'], att=k)
    v, a, b = ctx.ivl(held)
    w = ctx.ws(i, k)
    x_dropsch(ctx, {'k': k})

    def keep(when):
        # objects in hand keep the schedule attached to them
        n = v.count()
        expect(n == sum(old.on[a:b + 1]), '({}, {}).count() under a schedule '
               '{}: {} expected {}', a, b, when, n, sum(old.on[a:b + 1]))
        expect(bool(w.is_on_duty()) == old.on[i], 'ws#{}.is_on_duty() under a '
               'schedule {}: {}', i, when, w.is_on_duty())
        has_sched(old, v, 'interval with a schedule ' + when)
        has_sched(old, w, 'workshift with a schedule ' + when)
    keep('dropped')
    ctx.add(k, op['pick2'])
    new = ctx.slots[k]
    expect_raises(lambda: ctx.tbd.drop_schedule(old.obj), ('KeyError',),
                  'drop_schedule of a schedule dropped before, its name taken')
    expect(ctx.tbd.schedules.get(new.name) is new.obj, 'schedule {!r} is gone '
           'after a refused drop of its namesake', new.name)
    keep('whose name is taken by another one')
    n = v.count(schedule=new.obj)
    expect(n == sum(new.on[a:b + 1]), '({}, {}).count(schedule={}): {} '
           'expected {}', a, b, new.name, n, sum(new.on[a:b + 1]))
    ask()
    # objects of the schedule dropped, asked about the new one and vice versa
    ctx.ghost = old
    for q in op['ask']:
        for att, sch in ((9, k), (k, 9), (9, -1)):
            q = dict(q)
            if 'att' in q:
                q['att'] = att
            for x in ('ivl', 'x'):
                if x in q:
                    q[x] = dict(ctx.span(q[x]), att=att)
            if 'sch' in q:
                q['sch'] = sch
            run(ctx, q)
    ctx.rec.nt(old.on != new.on)
    ctx.rec.tag('schedule redefined' if old.on != new.on else
                'schedule renewed')


def x_chat(ctx, op):
    """Ask the same workshift and interval about this and that in turn."""
    for q in op['ask']:
        q = dict(q)
        if 'i' in q:
            q['i'] = op['i']
        if 'att' in q:
            q['att'] = op['att']
        for x in ('ivl', 'x'):
            if x in q:
                q[x] = op['ivl']
        run(ctx, q)
    ctx.rec.tag('chat')


def x_dropdef(ctx, op):
    """Drop the default schedule: it stays in effect all the same."""
    dft = ctx.default
    i, q = ctx.pos(op['i']), op['ivl']

    def ask(when):
        w = expect_ok(lambda: tb.Workshift(ctx.tbd, i), 'Workshift ' + when)
        has_sched(dft, w, 'workshift #{} {}'.format(i, when))
        expect(bool(w.is_on_duty()) == dft.on[i], 'is_on_duty() of workshift '
               '#{} {}: {}', i, when, w.is_on_duty())
        v, a, b = ctx.ivl(dict(q, att=-1))
        has_sched(dft, v, 'interval ' + when)
        n, want = v.count(), sum(dft.on[a:b + 1])
        expect(n == want, '({}, {}).count() {}: {} expected {}', a, b, when, n,
               want)
        x_df(ctx, {'a': a, 'b': b, 'form': 'part'})
        got = set(ctx.tbd.schedules)
        expect(got == ctx.names(), 'schedules {} {}, expected {}', sorted(got),
               when, sorted(ctx.names()))
    if ctx.namesake is None:
        expect_ok(lambda: ctx.tbd.drop_schedule(dft.obj), 'drop_schedule of '
                  'the default schedule')
        ctx.namesake = False
        ask('after the default schedule has been dropped')
    elif ctx.namesake:
        expect_ok(lambda: ctx.tbd.drop_schedule(ctx.namesake.obj),
                  'drop_schedule of a namesake of the default')
        ctx.namesake = False
        ask('after a namesake of the default has been dropped')
    expect_raises(lambda: ctx.tbd.drop_schedule(dft.obj), ('KeyError',),
                  'drop_schedule of the default dropped before')
    if op['take']:
        sel = ctx.case['sels'][op['pick'] % len(ctx.case['sels'])]
        obj = expect_ok(lambda: ctx.tbd.add_schedule(
            dft.name, build.selector(sel)), 'add_schedule with the name of '
            'the default schedule dropped before')
        ctx.namesake = Sched(obj, ctx.duty(sel), dft.name)
        ask('after its name has been given to another one')
        expect_raises(lambda: ctx.tbd.drop_schedule(dft.obj), ('KeyError',),
                      'drop_schedule of the default, its name taken')
        v, a, b = ctx.ivl(dict(q, att=-1))
        n, want = v.count(schedule=obj), sum(ctx.namesake.on[a:b + 1])
        expect(n == want, '({}, {}).count() under a namesake of the default: '
               '{} expected {}', a, b, n, want)
        ctx.rec.nt(ctx.namesake.on != dft.on)
    ctx.rec.tag('default schedule dropped')


def x_void(ctx, op):
    a, b = sorted((ctx.pos(op['a']), ctx.pos(op['b'])))
    if a == b:
        return
    s = ctx.sched(op['att'])
    kw = {'schedule': s.obj} if s else {}
    x = tb.Interval(ctx.tbd, (0, a), **kw)
    y = tb.Interval(ctx.tbd, (b, ctx.tl.N - 1))
    z = expect_ok(lambda: x.overlap(y, **_kw(ctx, op['sch'])), 'overlap')
    check_void(ctx, z, y, b, ctx.tl.N - 1, dict(op, sch2=op['sch']),
               'overlap of (0, {}) and ({}, ...)'.format(a, b))
    got = expect_ok(lambda: z.count_periods(op['freq'], op['duty']), 'void')
    expect(close(got, 0), 'void.count_periods = {!r}', got)
    ctx.rec.nt(True)


def x_scribble(ctx, op):
    """What the user does to an object returned is nobody else's business."""
    a, b = sorted((ctx.pos(op['a']), ctx.pos(op['b'])))
    k, v = op['what'], op['v']
    if k < 3:
        df = ctx.tbd.to_dataframe(a, b) if k else ctx.tbd.to_dataframe()
        for c in list(df.columns):
            if c in ('duration', 'label') or k == 2:
                df[c].values[:] = df[c].values[::-1].copy()
                values = df[c].values
                for n in range(1, len(values)):
                    values[n] = values[0]
                if c == 'duration':
                    df.loc[:, c] = df[c].iloc[0]
        df.drop(df.index[:1], inplace=True)
    elif k == 3:
        ivl, _, _ = ctx.ivl(op['ivl'])
        out = ivl.workshifts(duty='any')
        if isinstance(out, list):
            out.reverse()
            del out[:1]
    else:
        ivl, _, _ = ctx.ivl(op['ivl'])
        next(iter(ivl), None)


def x_print(ctx, op):
    i = ctx.pos(op['i'])
    k = op['what']
    if k == 0:
        text = expect_ok(lambda: repr(ctx.ws(i, -1)), 'repr of a workshift')
        expect('({})'.format(i) in text, 'workshift #{} is shown as {!r}', i,
               text)
    elif k == 1:
        expect_ok(lambda: str(ctx.ws(i, -1)), 'str of a workshift')
    elif k == 2:
        ivl, a, b = ctx.ivl(op['ivl'])
        text = expect_ok(lambda: repr(ivl), 'repr of an interval')
        expect('({}, {})'.format(a, b) in text, 'interval ({}, {}) is shown '
               'as {!r}', a, b, text)
    elif k == 3:
        ivl, a, b = ctx.ivl(op['ivl'])
        expect_ok(lambda: str(ivl), 'str of an interval')
    else:
        expect_ok(lambda: (repr(ctx.tbd), str(ctx.tbd)), 'repr of a timeboard')


BAD_DUTY = ['bad', 'On', '', None, 5, 'onoff', 'OFF', ' on', 'all']
ANY_EXC = None


def bad_call(ctx, op):
    """(description, callable, exception names or ANY_EXC)"""
    k, kind = op['k'], op['kind']
    c, tl = ctx.tbd, ctx.tl

    def pick(seq):
        return seq[k % len(seq)]
    _, p = ctx.time(op['p'])
    ws = ctx.ws(ctx.pos(op['i']), -1)
    ivl, a, b = ctx.ivl(op['ivl'])
    k2 = k // 97
    if kind == 'duty':
        if k2 % 3 == 0:
            m = ['rollforward', 'rollback', 'worktime'][k2 // 3 % 3]
            duty = pick(BAD_DUTY + (['same', 'alt'] if m == 'worktime' else []))
            return ('workshift.{}(duty={!r})'.format(m, duty),
                    lambda: getattr(ws, m)(duty=duty), ('ValueError',))
        duty = pick(BAD_DUTY + ['same', 'alt'])
        m = ['first', 'last', 'count', 'total_duration', 'worktime', 'nth',
             'workshifts', 'count_periods', 'what_portion_of'][k2 // 3 % 9]
        args = {'nth': (0,), 'count_periods': (['W', 'M', 'A'][k2 % 3],),
                'what_portion_of': (ivl,)}.get(m, ())
        return ('interval.{}(duty={!r})'.format(m, duty),
                lambda: list_if(getattr(ivl, m)(*args, duty=duty)),
                ('ValueError', UNACC) if m == 'count_periods' else
                ('ValueError',))
    if kind == 'closed':
        v = pick(['2', '111', '', None, 11, '1', '21', '1 1', 'both', (1, 1)])
        kw = [{}, {'length': 1}, {'period': 'M'}][k2 % 3]
        arg = p if kw else (p, p)
        return ('get_interval({}, closed={!r})'.format(kw, v),
                lambda: c.get_interval(arg, closed=v, **kw), ('ValueError',))
    if kind == 'length':
        v = pick([2.0, '3', 1.5, (1, 2), '2017-10-01', float('nan'), [1]])
        return ('get_interval(p, length={!r})'.format(v),
                lambda: (c if k2 % 2 else c.get_interval)(p, length=v),
                ('TypeError',))
    if kind == 'combo':
        n = pick([1, 2, -1, 3])
        f = ['D', 'W', 'M', 'A'][k2 % 4]
        return ('get_interval(p, length={}, period={!r})'.format(n, f),
                lambda: (c if k2 % 2 else c.get_interval)(
                    p, length=n, period=f), ('TypeError',))
    if kind == 'ref':
        v = pick(['2017-10-01', 5, object(), ('2017-10-01',), {}, []])
        if k2 % 3 == 0 and not isinstance(p, pd.Period):
            v = p
        return ('get_interval({!r})'.format(v), lambda: c.get_interval(v),
                ('TypeError',))
    if kind == 'point':
        v = pick(['not a date', object(), {}, '2017-99-99', 'x'])
        f = [lambda: c.get_workshift(v), lambda: c(v),
             lambda: c.get_interval((p, v)), lambda: c.get_interval((v, p)),
             lambda: c.get_interval(v, length=2),
             lambda: c.get_interval(v, period='M')][k2 % 6]
        return 'a point {!r}'.format(v), f, ANY_EXC
    if kind == 'bounds':
        v, exc = pick([(5, 'TypeError'), ((1,), 'IndexError'),
                       ((), 'IndexError'), ((0.0, 0), 'TypeError'),
                       (('a', 0), 'TypeError'), ((None, 0), 'TypeError'),
                       ((0, None), 'TypeError'), ((0, '0'), 'TypeError'),
                       (None, 'TypeError'), ([0], 'IndexError')])
        return 'Interval(clnd, {!r})'.format(v), lambda: tb.Interval(c, v), (
            exc,)
    if kind == 'schedule':
        v = pick(['x', 5, len, 'on_duty', {'on_duty': 1}])
        j = ctx.pos(op['i'])
        f, exc = [
            (lambda: tb.Workshift(c, j, v), ('TypeError',)),
            (lambda: tb.Interval(c, (a, b), v), ('TypeError',)),
            (lambda: c.get_workshift(p, schedule=v), ('TypeError',)),
            (lambda: c.get_interval((p, p), schedule=v), ('TypeError',)),
            (lambda: c.get_interval(schedule=v), ('TypeError',)),
            (lambda: c(p, length=1, schedule=v), ('TypeError',)),
            (lambda: ws.is_on_duty(v), ANY_EXC),
            (lambda: ws.rollforward(schedule=v), ANY_EXC),
            (lambda: ivl.count(schedule=v), ANY_EXC),
            (lambda: ivl.worktime(schedule=v), ANY_EXC)][k2 % 10]
        return 'schedule={!r} ({})'.format(v, k2 % 10), f, exc
    if kind == 'selector':
        def raising(x):
            raise ZeroDivisionError('selector')
        v = pick([5, 'x', raising, raising, (1, 2)])
        return ('add_schedule with selector {!r}'.format(v),
                lambda: c.add_schedule('unborn', v), ANY_EXC)
    if kind == 'drop':
        v = pick(['x', 5, None, 'on_duty', 'sch0', 'gone', 'gone', 'foreign',
                  'namesake'])
        if v in ('gone', 'foreign', 'namesake'):
            t = c if v == 'gone' else tb.Timeboard(
                'D', '01 Jan 2017', '03 Jan 2017', layout=[1],
                default_name=ctx.default.name)
            gone = t.default_schedule if v == 'namesake' else \
                t.add_schedule('gone', bool)
            if t is c:
                c.drop_schedule(gone)
            return 'drop_schedule of a schedule {}'.format(
                'already dropped' if t is c else 'of another timeboard'), \
                lambda: c.drop_schedule(gone), ('KeyError',)
        return 'drop_schedule({!r})'.format(v), lambda: c.drop_schedule(
            v), ANY_EXC
    if kind == 'location':
        v, exc = pick([('a', 'TypeError'), (1.5, 'TypeError'),
                       (None, 'TypeError'), (0.0, 'TypeError'),
                       (tl.N, OOB), (tl.N + 7, OOB), (10 ** 9, OOB)])
        return 'Workshift(clnd, {!r})'.format(v), lambda: tb.Workshift(
            c, v), (exc,)
    if kind == 'reversed':
        if tl.N < 2:
            return None, None, None
        i = 1 + k % (tl.N - 1)
        j = k2 % i
        x, y = pd.Timestamp(tl.starts[i]), pd.Timestamp(tl.ends[j])
        f = [lambda: tb.Interval(c, (i, j)), lambda: c.get_interval((x, y)),
             lambda: c((x, y)), lambda: tb.Interval(
                 c, (ctx.ws(i, -1), ctx.ws(j, -1)))][k2 % 4]
        return 'reversed interval {}..{}'.format(i, j), f, (VOID,)
    if kind == 'zero':
        return 'interval of length 0', lambda: (
            c if k % 2 else c.get_interval)(p, length=0), (VOID,)
    v = pick(['X', 'XYZ', '2M', 'W-WED', 'BM', '', 'day', 'Q-FEB', 'N'])
    return 'count_periods({!r})'.format(v), lambda: ivl.count_periods(v), (
        UNACC,)


def list_if(x):
    return list(x) if hasattr(x, '__next__') else x


def x_bad(ctx, op):
    before = {k: id(v) for k, v in ctx.tbd.schedules.items()}
    what, f, kinds = bad_call(ctx, op)
    if f is None:
        return
    if kinds is None:
        out = attempt(f)
        expect(out[0] == 'exc', '{}: was accepted: {}', what, show(out))
    else:
        expect_raises(f, kinds, what)
    after = {k: id(v) for k, v in ctx.tbd.schedules.items()}
    expect(before == after, '{}: schedules changed from {} to {}', what,
           sorted(before), sorted(after))
    ctx.rec.tag('bad ' + op['kind'])
    ctx.rec.nt()


EXEC = {name: globals()['x_' + name] for name in OPS}
