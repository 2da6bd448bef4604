"""Properties of histories: purity of queries and rejection of bad calls."""
import pandas as pd
from hypothesis import strategies as st

from .. import build, core, gen, model, ops
from ..build import tb
from ..core import attempt, expect, expect_ok, expect_raises, show
from ..gen import sampled, weighted
from ..harness import Prop

PROPS = []

ANYTHING = {'ws': 2, 'attr': 1, 'duty': 2, 'roll': 3, 'wswt': 1, 'ivl2': 2,
            'ivlen': 1, 'ivper': 2, 'whole': 1, 'nth': 2, 'firstlast': 1,
            'count': 2, 'workshifts': 2, 'iter': 2, 'overlap': 2, 'portion': 2,
            'cper': 2, 'dur': 1, 'wt': 2, 'df': 2, 'addsch': 2, 'dropsch': 2,
            'resch': 2, 'dropdef': 1, 'chat': 4}


# -------------------------------------------------- C26 independence, purity
def mixed_boards():
    return weighted((4, gen.timeboards(size=gen.small_sizes, max_depth=2)),
                    (2, gen.timeboards(size=gen.small_sizes, layouts='rp')),
                    (3, gen.timeboards(size=gen.small_sizes,
                                       layouts='compound')),
                    (1, gen.coarse_boards()))


@st.composite
def c26_cases(draw):
    first = draw(mixed_boards())
    pool = gen.num_labels if first['worktime'] == 'labels' else gen.any_labels
    boards = [first]
    for _ in range(draw(sampled([0, 1, 1, 2]))):
        fr = draw(gen.frames(freq=first['freq'], size=gen.small_sizes))
        spec = dict(first)
        if draw(st.booleans()):
            spec.update(fr)
        spec.update({
            'amend': draw(gen.amendments(spec, pool)),
            'selector': draw(weighted((1, st.none()),
                                      (3, gen.selectors(pool)))),
            'ref': draw(sampled([None, 'start', 'end'])),
            'default_label': 0 if first['worktime'] == 'labels' else draw(
                weighted((1, st.none()), (1, pool)))})
        spec['amend'] = gen.dedupe_amend(spec)
        boards.append(spec)
    weights = dict(ANYTHING, scribble=3, **{'print': 3, 'bad': 1})
    one = st.tuples(st.integers(0, 2), weighted(
        *[(w, ops.OPS[k]()) for k, w in weights.items()])).map(list)
    return {**ops.favourites(draw), 'boards': boards,
            'sels': draw(st.lists(gen.selectors(pool), min_size=3,
                                  max_size=5)),
            'nsch': draw(st.integers(0, 3)),
            'ops': draw(st.lists(one, min_size=4, max_size=18)),
            'print_first': draw(st.booleans())}


class Shared(object):
    """A board made from objects which other boards are made from as well."""

    def __init__(self, spec, first, layout, rps):
        self.b = build.Builder(spec)
        self.b.rps = first.rps
        self.layout = layout
        self.model_rps = rps
        self.amend = None
        self.inputs = []

    def timeboard(self):
        s = self.b.spec
        kw = self.b.kwargs()
        self.amend = kw.get('amendments')
        self.before = list((self.amend or {}).items())
        return tb.Timeboard(s['freq'], build.point(s['start']),
                            build.point(s['end']), self.layout, **kw)


def snapshot(obj, depth=0):
    """Everything the user has put into a layout, as plain data."""
    if isinstance(obj, tb.Organizer):
        m = obj.marker
        return ('org', None if m is None else snapshot(m, depth + 1),
                repr(obj.marks), snapshot(obj.structure, depth + 1))
    if isinstance(obj, tb.Marker):
        return ('marker', obj.each, repr(obj.at), str(obj.how))
    if isinstance(obj, tb.RememberingPattern):
        return ('rp', obj.length)
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [snapshot(x, depth + 1) for x in obj])
    return ('value', repr(obj))


def ruin(obj):
    """The user goes on to modify own lists after the board is built."""
    if isinstance(obj, tb.Organizer):
        ruin(obj.structure)
    elif isinstance(obj, list):
        for x in obj:
            ruin(x)
        obj.reverse()
        obj.append('later')


def c26_check(case, rec):
    first = build.Builder(case['boards'][0])
    rps = model.make_rps(case['boards'][0])
    layout = first.layout(case['boards'][0]['layout'])
    snap = snapshot(layout)
    if case['print_first']:
        expect_ok(lambda: (repr(layout), str(layout)), 'repr of a layout')
    ctxs, makers = [], []
    for spec in case['boards']:
        m = Shared(spec, first, layout, rps)
        ctx = ops.Ctx(dict(case, tb=spec), rec, m)
        if not ctx.ok:
            return
        ctxs.append(ctx)
        makers.append(m)
    rec.tag('boards:{}'.format(len(ctxs)))
    for ctx in ctxs:
        core.check_timeline(ctx.tbd, ctx.tl)
    for which, op in case['ops']:
        ops.run(ctxs[which % len(ctxs)], op)
    for m in makers:
        expect(list((m.amend or {}).items()) == m.before, 'the amendments '
               'given have been changed: {} -> {}', m.before, m.amend)
    expect(snapshot(layout) == snap, 'the layout given has been changed: {} '
           '-> {}', snap, snapshot(layout))
    ruin(layout)
    for m in makers:
        if m.amend:
            m.amend.clear()
    for ctx in ctxs:
        core.check_timeline(ctx.tbd, ctx.tl, deep=(0, -1))
        ops.x_df(ctx, {'a': 0, 'b': 0, 'form': 'whole'})
    # the same definition makes the same timeboard again
    spec = case['boards'][0]
    again, tl = core.construct(spec)
    if again is not None:
        core.check_timeline(again, tl)
    rec.nt(len(case['ops']) > 4)
    if len(ctxs) > 1:
        rec.tag('shared layout')
    if any(m.model_rps for m in makers):
        rec.tag('shared remembering patterns')


PROPS.append(Prop(
    'C26', c26_cases, c26_check, 900,
    'histories of 4..18 operations over 1..3 timeboards made from the same '
    'layout objects: all queries, schedules added and dropped, printing, '
    'refused calls, modification of returned tables and lists, then of the '
    'arguments; every answer is compared with the model, the whole boards '
    'again at the end; non-trivial: more than four operations'))


# ------------------------------------------------------ C32 refused calls
CONSTRUCT = [
    ('worktime_source', ['bad', None, 5, 'label', ''], ('ValueError',)),
    ('layout', [5, None, 'ab', 1.5, True], ('TypeError',)),
    ('amendments', [[1], 5, 'x', (1, 2)], ('TypeError',)),
    ('base_unit_freq', ['XYZ', 'BM', None, '0D', '', 'monthly'], None),
    ('start', ['nodate', None, '2017-99-01', {}], None),
    ('end', ['nodate', None, '2017-99-01', {}], None),
    ('default_selector', [5, 'x', 'raise'], None)]
ORGANIZERS = [
    ('neither marker nor marks', lambda m, s, p: tb.Organizer(structure=s),
     ('ValueError',)),
    ('both marker and marks', lambda m, s, p: tb.Organizer(
        marker=m, marks=p, structure=s), ('ValueError',)),
    ('structure=5', lambda m, s, p: tb.Organizer(marker=m, structure=5),
     ('TypeError',)),
    ("structure='ab'", lambda m, s, p: tb.Organizer(marks=p, structure='ab'),
     ('TypeError',)),
    ('structure=None', lambda m, s, p: tb.Organizer(marker=m, structure=None),
     ('TypeError',))]
MARKERS = [
    dict(each='each', how='bad', at=[{'days': 1}]), dict(each='XYZ'),
    dict(each=None), dict(each='each', at=[{'foo': 1}]),
    dict(each='each', at=5), dict(each='each', at=[5]),
    dict(each='each', how='nth_weekday_of_month',
         at=[{'month': 1, 'week': 0, 'weekday': 1}]),
    dict(each='each', how='nth_weekday_of_month',
         at=[{'month': 13, 'week': 1, 'weekday': 1}]),
    dict(each='each', how='nth_weekday_of_month',
         at=[{'month': 1, 'week': 1, 'weekday': 8}]),
    dict(each='each', how='nth_weekday_of_month',
         at=[{'month': 1, 'week': 6, 'weekday': 1}]),
    dict(each='each', how='from_easter_western', at=[{'foo': 1}])]


@st.composite
def c32_cases(draw):
    size = weighted((1, st.integers(1, 3)), (4, st.integers(3, 40)))
    case = draw(ops.sessions(
        dict(ANYTHING, bad=90, dupsch=6, dropdef=1), lo=5, hi=16, tbs=weighted(
            (3, gen.timeboards(size=size)),
            (2, gen.timeboards(size=size, layouts='compound')))))
    case['ctor'] = draw(st.lists(st.integers(0, 10 ** 5), max_size=4))
    return case


def bad_construction(case, k, rec):
    """A timeboard with one argument spoilt is refused."""
    spec = case['tb']
    b = build.Builder(spec)
    kw = dict(base_unit_freq=spec['freq'], start=build.point(spec['start']),
              end=build.point(spec['end']), layout=b.layout(spec['layout']),
              **b.kwargs())
    which, k = k % 3, k // 3
    if which == 0:
        name, vals, kinds = CONSTRUCT[k % len(CONSTRUCT)]
        v = vals[k // len(CONSTRUCT) % len(vals)]
        if v == 'raise':
            def v(x):
                raise ZeroDivisionError
        kw[name] = v
        what = 'Timeboard({}={!r})'.format(name, v)
        f = lambda: tb.Timeboard(**kw)
        rec.tag('bad Timeboard ' + name)
    elif which == 1:
        what, make, kinds = ORGANIZERS[k % len(ORGANIZERS)]
        what = 'Organizer with ' + what
        f = lambda: make(tb.Marker('A'), [1, [2, 3]], ['2017-10-01'])
        rec.tag('bad Organizer')
    else:
        m = dict(MARKERS[k % len(MARKERS)])
        if m['each'] == 'each':
            m['each'] = 'A'
        kinds = None
        what = 'Marker({})'.format(m)
        f = lambda: tb.Timeboard('D', '2016-11-01', '2018-02-03',
                                 layout=tb.Organizer(marker=tb.Marker(**m),
                                                     structure=[1, 2]))
        rec.tag('bad Marker')
    if kinds is None:
        out = attempt(f)
        expect(out[0] == 'exc', '{}: was accepted: {}', what, show(out)[:300])
    else:
        expect_raises(f, kinds, what)
    rec.nt()


def c32_check(case, rec):
    ctx = ops.Ctx(case, rec)
    if not ctx.ok:
        return
    for k in case['ctor']:
        bad_construction(case, k, rec)
    for op in case['ops']:
        ops.run(ctx, op)
    core.check_timeline(ctx.tbd, ctx.tl, deep=(0, -1))
    ops.x_df(ctx, {'a': 0, 'b': 0, 'form': 'whole'})


PROPS.append(Prop(
    'C32', c32_cases, c32_check, 1500,
    'sessions in which calls with one argument spoilt (duty, closed, length, '
    'combination of parameters, reference, point, bounds, schedule, selector, '
    'location, order, frequency; constructor arguments) are mixed with normal '
    'queries; non-trivial: at least one call had to be refused'))


# ------------------------------------------------------- C34 attributes
@st.composite
def c34_cases(draw):
    spec = draw(weighted(
        (4, gen.timeboards(size=gen.small_sizes, max_depth=2)),
        (2, gen.timeboards(size=gen.small_sizes, layouts='compound')),
        (1, gen.timeboards(size=gen.small_sizes, layouts='rp')),
        (1, gen.long_boards())))
    return draw(ops.sessions(ANYTHING, 1, 5, st.just(spec)))


def told(obj, names, what):
    return [expect_ok(lambda: getattr(obj, n), '{}.{}'.format(what, n))
            for n in names]


def same_seq(got, want):
    return len(got) == len(want) and all(x is y or core.same_label(x, y)
                                         for x, y in zip(got, want))


def check_layout(lay, obj, b, seen):
    """Organizers, markers and patterns tell what they were made from."""
    if lay['k'] == 'rp':
        want = b.spec['rps'][str(lay['id'])]
        expect(obj.length == len(want), '{!r}: length {!r}', obj, obj.length)
    if lay['k'] != 'org':
        return
    seen.append(obj)
    marker, marks, structure = told(obj, ('marker', 'marks', 'structure'),
                                    'organizer')
    m = lay.get('marker')
    if m is not None:
        expect(isinstance(marker, tb.Marker), 'marker of {!r} is {!r}', obj,
               marker)
        each, at, how = told(marker, ('each', 'at', 'how'), 'marker')
        expect(each == m['each'], 'each = {!r}, expected {!r}', each,
               m['each'])
        expect([dict(x) for x in at or []] == (m.get('at') or []),
               'at = {!r}, expected {!r}', at, m.get('at'))
        expect(callable(how), 'how = {!r}', how)
        if (m.get('how') or '').startswith('custom:'):
            expect(how in b.hows, 'how is not the function given')
        expect(marks is None, 'marks of {!r} is {!r}', obj, marks)
    else:
        want = [build.point(p) for p in lay['marks']]
        if lay.get('scalar_marks'):
            want = want[:1]
        # (an index of points of time is an index of timestamps)
        want = list(build.sequence(want, lay.get('mform')))
        expect(marker is None and list(marks) == want, 'marker = {!r}, marks '
               '= {!r}, expected None and {!r}', marker, marks, want)
    if isinstance(lay['structure'], dict):
        expect(structure is b.rps[str(lay['structure']['id'])], 'structure is '
               'not the remembering pattern given')
        return
    structure = list(structure)
    expect(len(structure) == len(lay['structure']), 'structure {!r}',
           structure)
    for e, x in zip(lay['structure'], structure):
        if e['k'] == 'lab':
            expect(core.same_label(x, e['v']), 'label {!r} in the structure, '
                   'expected {!r}', x, e['v'])
        elif e['k'] == 'pat':
            expect(same_seq(list(x), list(e['v'])), 'pattern {!r} in the '
                   'structure, expected {!r}', x, e['v'])
        elif e['k'] == 'rp':
            expect(x is b.rps[str(e['id'])], 'another remembering pattern in '
                   'the structure')
            check_layout(e, x, b, seen)
        else:
            expect(isinstance(x, tb.Organizer), '{!r} in the structure', x)
            check_layout(e, x, b, seen)


def check_attributes(ctx, when):
    t, tl, spec = ctx.tbd, ctx.tl, ctx.spec
    freq, start, end, source, select, default, schedules = told(t, (
        'base_unit_freq', 'start_time', 'end_time', 'worktime_source',
        'default_selector', 'default_schedule', 'schedules'), 'timeboard')
    expect(freq == spec['freq'], 'base_unit_freq {!r} {}', freq, when)
    expect((core.ns(start), core.ns(end)) == (tl.start, tl.end), 'start_time '
           '{}, end_time {} {}, expected {}, {}', start, end, when,
           core.fmt_t(tl.start), core.fmt_t(tl.end))
    expect(source == (spec.get('worktime') or 'duration'), 'worktime_source '
           '{!r} {}', source, when)
    mine = ctx.listed()
    for i in sorted({0, tl.N - 1, tl.N // 2}):
        x = tl.labels[i] if ctx.actual is None else ctx.actual[i]
        expect(bool(select(x)) == ctx.default.on[i], 'default_selector({!r}) '
               'is {!r} {}', x, select(x), when)
    expect(default is ctx.default.obj, 'default_schedule is another one {}',
           when)
    expect(sorted(schedules) == sorted(s.name for s in mine), 'schedules {} '
           '{}, expected {}', sorted(schedules), when,
           sorted(s.name for s in mine))
    for s in mine:
        expect(schedules[s.name] is s.obj, 'schedules[{!r}] is another one {}',
               s.name, when)
    for s in mine + ctx.dropped + [ctx.default]:
        name, every, on, off = told(s.obj, (
            'name', 'index', 'on_duty_index', 'off_duty_index'), 'schedule')
        expect(name == s.name, 'schedule {!r} is named {!r} {}', s.name, name,
               when)
        for what, got, want in (
                ('index', every, range(tl.N)),
                ('on_duty_index', on, [i for i in range(tl.N) if s.on[i]]),
                ('off_duty_index', off,
                 [i for i in range(tl.N) if not s.on[i]])):
            expect([int(i) for i in got] == list(want), '{} of {!r} {}: {}, '
                   'expected {}', what, name, when, list(got)[:12],
                   list(want)[:12])


def c34_check(case, rec):
    b = build.Builder(case['tb'])
    seen, made = [], []

    class Kept(object):
        hows = b.hows

        def timeboard(self):
            made.append(b.layout(b.spec['layout']))
            return b.timeboard(made[0])

    ctx = ops.Ctx(case, rec, Kept())
    if made:        # an organizer tells the same when it could not be used
        check_layout(b.spec['layout'], made[0], b, seen)
    if not ctx.ok:
        return
    check_attributes(ctx, 'at first')
    for op in case['ops']:
        ops.run(ctx, op)
    check_attributes(ctx, 'after {} operations'.format(len(case['ops'])))
    check_layout(b.spec['layout'], made[0], b, seen)
    rec.nt(ctx.tl.N > 1 and (len(seen) > 1 or any(ctx.slots)))
    if len(seen) > 3:
        rec.tag('nested organizers')


PROPS.append(Prop(
    'C34', c34_cases, c34_check, 1500,
    'timeboards of random layouts with up to 4 schedules and 1..5 random '
    'operations in between; every readable attribute of the timeboard, its '
    'schedules, organizers, markers and patterns is compared; non-trivial: '
    'several workshifts and either an organizer or a schedule of the user'))
