"""C33: printed forms of objects and of layouts."""
import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import build, core, gen, model, ops
from ..build import tb
from ..core import expect, expect_ok
from ..gen import sampled, weighted
from ..harness import Prop

PROPS = []


def unit_name(ctx, t):
    """A base unit is shown as the calendar period starting then."""
    return str(pd.Period(pd.Timestamp(t), freq=ctx.spec['freq']))


def ws_text(ctx, i):
    d = ctx.tl.dur[i]
    return "{}'{}' at {}".format('' if d == 1 else '{}x'.format(d),
                                 ctx.spec['freq'],
                                 unit_name(ctx, ctx.tl.starts[i]))


def suffix(ctx, s):
    return '' if s.name == ctx.default.name else ', ' + s.name


def same_text(got, want, what):
    expect(got == want, '{} is {!r}, expected {!r}', what, got, want)


def show_ws(ctx, w, i, s, what):
    ctx.rec.tag('shown:workshift')
    same_text(expect_ok(lambda: w.compact_str, what), ws_text(ctx, i),
              what + '.compact_str')
    full = 'Workshift({}{}) of {}'.format(i, suffix(ctx, s), ws_text(ctx, i))
    same_text(expect_ok(lambda: repr(w), what), full, 'repr of ' + what)
    table = expect_ok(lambda: ctx.tbd.to_dataframe(i, i), 'to_dataframe')
    same_text(expect_ok(lambda: str(w), what), full + '\n\n' + str(table),
              'str of ' + what)


def show_ivl(ctx, v, a, b, s, what):
    ctx.rec.tag('shown:interval')
    full = 'Interval(({}, {}){}): {} -> {} [{}]'.format(
        a, b, suffix(ctx, s), ws_text(ctx, a), ws_text(ctx, b), b - a + 1)
    same_text(expect_ok(lambda: v.compact_str, what), full,
              what + '.compact_str')
    same_text(expect_ok(lambda: repr(v), what), full, 'repr of ' + what)
    table = expect_ok(lambda: ctx.tbd.to_dataframe(a, b), 'to_dataframe')
    same_text(expect_ok(lambda: str(v), what), full + '\n\n' + str(table),
              'str of ' + what)


def x_show_ws(ctx, op):
    i = ctx.pos(op['i'])
    show_ws(ctx, ctx.ws(i, op['att']), i, ctx.sched(op['att']) or ctx.default,
            'ws#{}'.format(i))


def x_show_ivl(ctx, op):
    v, a, b = ctx.ivl(op['ivl'])
    s = ctx.sched(ctx.span(op['ivl'])['att']) or ctx.default
    if ctx.rec.tags & {'compound'} or s is not ctx.default:
        ctx.rec.nt()
    show_ivl(ctx, v, a, b, s, 'interval ({}, {})'.format(a, b))


def x_show_overlap(ctx, op):
    x, a, b = ctx.ivl(op['x'])
    y, c, e = ctx.ivl(op['y'])
    s = ctx.eff(ctx.span(op['x'])['att'], op['sch'])
    z = expect_ok(lambda: x.overlap(y, **ops._kw(ctx, op['sch'])), 'overlap')
    lo, hi = max(a, c), min(b, e)
    what = 'overlap of ({}, {}) and ({}, {})'.format(a, b, c, e)
    if lo <= hi:
        show_ivl(ctx, z, lo, hi, s, what)
        return
    ctx.rec.tag('shown:void')
    for text in (repr(z), str(z), z.compact_str):
        expect(text.endswith('): void [0]') and text.startswith('Interval') and
               (suffix(ctx, s) + ')') in text, '{} is shown as {!r}', what,
               text)


def x_show_tb(ctx, op):
    ctx.rec.tag('shown:timeboard')
    us = ctx.tl.us
    full = "Timeboard of '{}': {} -> {}".format(
        ctx.spec['freq'], unit_name(ctx, us[0]),
        unit_name(ctx, us[ctx.tl.n_units - 1]))
    same_text(expect_ok(lambda: ctx.tbd.compact_str, 'compact_str'), full,
              'compact_str of the timeboard')
    same_text(expect_ok(lambda: str(ctx.tbd), 'str'),
              full + '\n\n' + str(ctx.tbd.to_dataframe()),
              'str of the timeboard')


def execute(text, names):
    lines = text.strip().split('\n')
    env = dict(names)
    exec('\n'.join(lines[:-1]), env)
    return eval(lines[-1], env)


NAMES = {'Timeboard': tb.Timeboard, 'Organizer': tb.Organizer,
         'Marker': tb.Marker, 'RememberingPattern': tb.RememberingPattern,
         'Timestamp': pd.Timestamp, 'Period': pd.Period, 'nan': float('nan'),
         'NaT': pd.NaT,
         'HasToTimestamp': build.HasToTimestamp, 'datetime': datetime, 'numpy': np}


def x_reprint(ctx, op):
    """The representation is code which makes such a timeboard."""
    ctx.rec.tag('shown:code')
    text = expect_ok(lambda: repr(ctx.tbd), 'repr of the timeboard')
    spec = {k: ctx.spec[k] for k in ('freq', 'start', 'end', 'layout', 'rps')}
    spec.update(amend=[], selector=None, ref=None, default_label=None,
                worktime=None)
    try:
        tl = model.Timeline(spec)
    except (model.Expect, model.Ambiguous):
        return
    if ctx.spec['layout']['k'] == 'rp':
        return          # not shown as code
    t2 = expect_ok(lambda: execute(text, NAMES), 'code ' + text)
    core.check_timeline(t2, tl)
    if ctx.spec['layout']['k'] == 'org':
        ctx.rec.nt()


EXEC = {'show_ws': x_show_ws, 'show_ivl': x_show_ivl, 'show_tb': x_show_tb,
        'show_overlap': x_show_overlap, 'reprint': x_reprint}

d = st.fixed_dictionaries
SHOW = weighted(
    (5, d({'op': st.just('show_ws'), 'i': ops.positions, 'att': ops.scheds})),
    (5, d({'op': st.just('show_ivl'), 'ivl': ops.spans()})),
    (3, d({'op': st.just('show_overlap'), 'x': ops.spans(), 'y': ops.spans(),
           'sch': ops.scheds})),
    (1, d({'op': st.just('show_tb')})),
    (2, d({'op': st.just('reprint')})),
    (1, ops.OPS['addsch']()), (1, ops.OPS['dropsch']()),
    (1, ops.OPS['resch']()))


@st.composite
def twins(draw):
    """An organizer of two remembering patterns with the same labels."""
    spec = draw(gen.timeboards(size=gen.small_sizes, layouts='org',
                               max_depth=2))
    v = draw(st.lists(gen.num_labels, min_size=2, max_size=5))
    spec['rps'] = {'0': list(v), '1': list(v)}
    lay = spec['layout']
    if isinstance(lay['structure'], list):
        lay['structure'] = list(lay['structure'])
        for i in draw(st.permutations([0, 1])):
            lay['structure'].insert(
                draw(st.integers(0, len(lay['structure']))),
                {'k': 'rp', 'id': i})
    spec['amend'] = []
    return spec


def boards():
    return weighted((12, gen.timeboards(size=gen.small_sizes)),
                    (8, gen.timeboards(size=gen.small_sizes,
                                       layouts='compound')),
                    (8, gen.timeboards(size=gen.small_sizes, layouts='org',
                                       max_depth=3)),
                    (6, twins()),
                    (2, gen.coarse_boards()))


@st.composite
def cases(draw):
    case = draw(ops.sessions({'addsch': 1}, 1, 1, tbs=boards()))
    case['ops'] = draw(st.lists(SHOW, min_size=4, max_size=12))
    return case


def check(case, rec):
    ctx = ops.Ctx(case, rec)
    if not ctx.ok:
        return
    if ctx.tl.N < ctx.tl.n_units:
        rec.tag('compound')
    for op in case['ops']:
        if op['op'] in EXEC:
            EXEC[op['op']](ctx, op)
        else:
            ops.run(ctx, op)


PROPS.append(Prop(
    'C33', cases, check, 1500,
    'repr, str and compact forms of workshifts, intervals, void intervals '
    'and timeboards with schedules added and dropped; code printed for '
    'layouts executed; non-trivial: an interval with compound workshifts or '
    'another schedule is shown, or code of an organizer is executed',
    plain=True))
