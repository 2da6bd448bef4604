"""Properties of how a timeboard is laid out into labelled workshifts."""
import itertools

import pandas as pd
from hypothesis import strategies as st

from .. import build, core, gen, model, ptime
from ..build import tb
from ..core import (expect, expect_ok, expect_raises, ns, construct,
                    check_timeline, fmt_t, fail)
from ..gen import weighted, sampled
from ..harness import Prop
from ..model import Expect, Ambiguous
from ..ptime import parse_freq, unit_ordinal, unit_start, SEC

PROPS = []


def prop(*a, **kw):
    p = Prop(*a, **kw)
    PROPS.append(p)
    return p


def tag_common(rec, tl, spec):
    k, u = parse_freq(spec['freq'])
    rec.tag('base:' + (('k' if k > 1 else '') + u.split('-')[0]))
    s = tl.stats
    if tl.N < tl.n_units:
        rec.tag('compound')
    if s['dangles']:
        rec.tag('dangling first span')
    if s['depth'] > 1:
        rec.tag('nested')
    if s['rp_used']:
        rec.tag('remembering')
    if s['spans'] > 1:
        rec.tag('several spans')
    if tl.amended:
        rec.tag('amended')


def layout_case(spec, rec, deep=(0, -1, 7)):
    t, tl = construct(spec, rec)
    if t is None:
        return None, None
    tag_common(rec, tl, spec)
    check_timeline(t, tl, deep=deep)
    return t, tl


def plain(fr, layout, rps=None, **kw):
    spec = dict(fr)
    spec.update({'layout': layout, 'rps': rps or {}, 'amend': [],
                 'selector': None, 'ref': None, 'default_label': None,
                 'worktime': None})
    spec.update(kw)
    return spec


# --------------------------------------------------------------- C01 tiling
@st.composite
def c01_cases(draw):
    spec = draw(weighted((40, gen.timeboards(max_depth=3)),
                         (3, gen.coarse_boards()), (1, gen.long_boards())))
    if draw(st.integers(0, 11)) == 0:
        spec['start'], spec['end'] = spec['end'], spec['start']
        spec['amend'] = []
    return spec


def c01_check(spec, rec):
    t, tl = construct(spec, rec)
    if t is None:
        rec.nt('rejected:VoidIntervalError' in rec.tags)
        return
    tag_common(rec, tl, spec)
    check_timeline(t, tl, deep=(0, -1))
    if tl.N > 3000:
        long_board(t, tl, spec, rec)
        return
    # the workshifts themselves, one after another
    prev_end, total, n = None, 0, 0
    for ws in t():
        s, e = ns(ws.start_time), ns(ws.end_time)
        if prev_end is None:
            expect(s == ns(t.start_time), 'the first workshift starts at {} '
                   'but the timeboard at {}', ws.start_time, t.start_time)
        else:
            expect(s == prev_end + 1, 'workshift starting at {} does not '
                   'follow the previous one ending at {}', ws.start_time,
                   fmt_t(prev_end))
        expect(s <= e, 'workshift starts at {} after its end {}',
               ws.start_time, ws.end_time)
        i = tl.unit_at(s)
        expect(tl.us[i] == s, 'workshift start {} is not the start of a base '
               'unit', ws.start_time)
        d = ws.duration
        expect(core.is_int(d) and d >= 1, 'duration {!r}', d)
        expect(tl.us[i + d] == e + 1, 'workshift from {} to {} does not '
               'consist of {} base units', ws.start_time, ws.end_time, d)
        prev_end, total, n = e, total + d, n + 1
    expect(prev_end == ns(t.end_time), 'the last workshift ends at {} but the '
           'timeboard at {}', prev_end and fmt_t(prev_end), t.end_time)
    expect(total == tl.n_units, 'workshifts total {} base units of {}', total,
           tl.n_units)
    expect(n == len(t()) == tl.N, 'number of workshifts {} / {} / {}', n,
           len(t()), tl.N)
    if tl.kb == 1:
        p = pd.period_range(start=pd.Timestamp(tl.start),
                            end=pd.Timestamp(tl.end), freq=spec['freq'])
        expect(len(p) == tl.n_units, 'pandas counts {} base units, {} here',
               len(p), tl.n_units)
    rec.nt(tl.n_units > 1)
    off_start = spec['start']['t'] != tl.start
    if off_start:
        rec.tag('start inside its unit')
    if spec['end']['t'] == unit_start(tl.ub, unit_ordinal(
            tl.ub, spec['end']['t'])):
        rec.tag('end at the start of its unit')


def long_board(t, tl, spec, rec):
    """Samples of a timeboard with thousands of workshifts."""
    rec.tag('long timeboard')
    rec.nt()
    expect(len(t()) == tl.N, 'number of workshifts {}, expected {}', len(t()),
           tl.N)
    step = max(1, tl.N // 60)
    for i in sorted(set(range(0, tl.N, step)) | {tl.N - 1, tl.N - 2, 1}):
        core.check_ws_at(t, tl, i)


prop('C01', c01_cases, c01_check, 2600,
     'random frames (12 kinds of base units, multiplied units, bounds placed '
     'anywhere in the first/last unit) under random layouts; non-trivial: more '
     'than one base unit, or a reversed frame that must be refused')


# -------------------------------------------------------- C02 plain patterns
@st.composite
def c02_cases(draw):
    if draw(st.integers(0, 90)) == 60:
        fr = draw(gen.big_frames())
        v = draw(gen.many_labels())
        if draw(st.booleans()):
            return plain(fr, {'k': 'rp', 'id': 0}, {'0': v})
        return plain(fr, {'k': 'pat', 'v': v, 'f': draw(
            sampled(['list', 'tuple', 'seq:iterable']))})
    fr = draw(weighted((80, gen.frames()), (1, gen.long_frames())))
    rps = {}
    if draw(st.integers(0, 4)) == 0:
        rps = {'0': draw(st.lists(gen.any_labels, min_size=1, max_size=9))}
        lay = {'k': 'rp', 'id': 0}
    else:
        size = draw(sampled([1, 3, 7, 12, 40]))
        lay = draw(gen.pattern_elem(gen.any_labels, max_size=size))
    return plain(fr, lay, rps, rpf=draw(gen.rp_forms(rps)),
                 default_label=draw(weighted(
                     (1, st.none()), (1, gen.wide_labels))))


def c02_check(spec, rec):
    t, tl = layout_case(spec, rec)
    if t is None:
        return
    expect(tl.dur == [1] * tl.N, 'model: durations')
    lay = spec['layout']
    v = lay['v'] if lay['k'] == 'pat' else spec['rps']['0']
    if not v:
        rec.tag('empty pattern')
        rec.nt(spec['default_label'] is not None)
    else:
        rec.nt(len(set(map(repr, v))) > 1 and tl.N > 1)
        rec.tag('cycles' if tl.N > len(v) else
                'truncated' if tl.N < len(v) else 'exact')


prop('C02', c02_cases, c02_check, 3500,
     'random frames with a random plain pattern (list, tuple or a remembering '
     'pattern, lengths 0..40, labels of mixed types); non-trivial: more than '
     'one workshift and more than one distinct label, or an empty pattern '
     'with a default label')


# ---------------------------------------------------------- C03 explicit marks
@st.composite
def c03_cases(draw):
    if draw(st.integers(0, 110)) == 60:
        fr = draw(gen.big_frames())
        marks = draw(gen.regular_points(fr))
    else:
        fr = draw(gen.frames())
        marks = draw(gen.marks_in(fr, max_size=draw(sampled([1, 3, 9]))))
    org = {'k': 'org', 'marker': None, 'marks': marks}
    if len(marks) == 1 and draw(st.booleans()):
        org['scalar_marks'] = True
    else:
        org['mform'] = draw(gen.mark_forms)
    elem = weighted((3, gen.pattern_elem(gen.any_labels)),
                    (3, gen.any_labels.map(lambda v: {'k': 'lab', 'v': v})))
    org['structure'] = draw(st.lists(elem, min_size=1, max_size=4))
    org['sform'] = draw(sampled(['list', 'tuple', 'seq:iterable']))
    return plain(fr, org, default_label=draw(weighted(
        (1, st.none()), (1, gen.wide_labels))))


def c03_check(spec, rec):
    t, tl = layout_case(spec, rec)
    if t is None:
        return
    locs = {tl.unit_at(p['t']) for p in spec['layout']['marks']}
    if None in locs:
        rec.tag('mark outside the frame')
    if 0 in locs:
        rec.tag('mark in the first unit')
    if tl.n_units - 1 in locs:
        rec.tag('mark in the last unit')
    rec.nt(tl.stats['spans'] > 1)


prop('C03', c03_cases, c03_check, 3000,
     'random frames partitioned at random points in time (unsorted, repeated, '
     'inside units, inside the last unit, outside the frame; eight ways of '
     'writing a moment) with a random structure of labels and patterns; '
     'non-trivial: at least two spans')


# ------------------------------------------------------- C04..C07 markers
@st.composite
def marker_cases(draw, how, freqs=None, size=None, mult=True):
    fr = draw(gen.frames(freq=freqs and draw(freqs), size=size or gen.sizes))
    k, u = parse_freq(fr['freq'])
    if how is None:
        m = draw(gen.markers(fr['freq'], allow_at=False, allow_mult=mult))
    else:
        m = draw(gen.markers(fr['freq'], how=how))
    depth = draw(sampled([1, 1, 2]))
    ctx = {'n_rp': 0, 'how': None if how is None else how, 'max_depth': depth,
           'at': how is not None}
    org = draw(gen.organizers(fr, gen.any_labels, depth, ctx, marker=m))
    return plain(fr, org, default_label=draw(weighted(
        (1, st.none()), (1, gen.wide_labels))))


def marker_check(spec, rec):
    t, tl = layout_case(spec, rec)
    if t is None:
        return
    rec.tag('each:' + parse_freq(spec['layout']['marker']['each'])[1][0])
    rec.nt(tl.stats['spans'] > 1)


no_mult = weighted((6, st.just('D')), (3, st.just('H')), (1, st.just('T')),
                   (1, st.just('S')), (2, st.just('M')),
                   (1, sampled(gen.QUARTERS)), (1, sampled(gen.WEEKS)),
                   (1, sampled(gen.YEARS)),
                   (3, sampled(['2H', '8H', '2D', '3D', '15T', '2M', '3M',
                                '2W', '2Q', '2A', '7D'])))
dated = weighted((7, st.just('D')), (2, st.just('M')), (1, st.just('H')))

year_sizes = weighted((1, st.integers(2, 60)), (4, st.integers(100, 600)),
                      (4, st.integers(400, 1200)))

@st.composite
def c04_cases(draw):
    if draw(st.integers(0, 110)) == 60:     # thousands of periods
        freq, each = draw(sampled([
            ('H', 'H'), ('D', '2D'), ('T', '2T'), ('2H', '2H'), ('15T', '30T'),
            ('S', '3S'), ('D', 'D')]))
        fr = draw(gen.big_frames((freq,)))
        org = draw(gen.organizers(
            fr, gen.any_labels, 1, {'n_rp': 0, 'max_depth': 1, 'at': False},
            marker={'each': each, 'at': None, 'how': None, 'f': 'Marker'}))
        return plain(fr, org)
    if draw(st.integers(0, 11)) != 7:
        return draw(marker_cases(None))
    # periods of tens of thousands of base units, most of them missing
    freq, each = draw(sampled([
        ('T', 'M'), ('T', 'Q'), ('T', 'A'), ('T', 'A-JUN'), ('S', 'D'),
        ('S', 'W'), ('S', 'D'), ('H', 'A'), ('H', '5A'), ('T', 'M')]))
    fr = draw(gen.frames(freq=freq, size=gen.small_sizes))
    org = draw(gen.organizers(
        fr, gen.any_labels, 1, {'n_rp': 0, 'max_depth': 1, 'at': False},
        marker={'each': each, 'at': None, 'how': None, 'f': 'Marker'}))
    org['structure'] = [draw(gen.pattern_elem(gen.any_labels, 7))
                        for _ in range(draw(st.integers(1, 3)))]
    return plain(fr, org)


prop('C04', c04_cases, marker_check, 2800,
     'random frames partitioned by a calendar period (incl. anchored weeks, '
     'quarters and years, and multiplied periods), frames starting and ending '
     'anywhere in a period; non-trivial: at least two spans')

@st.composite
def c05_cases(draw):
    if draw(st.integers(0, 70)) != 40:
        return draw(marker_cases('from_start_of_each', freqs=no_mult))
    # many offsets and periods
    freq, each, kw, top = draw(sampled([
        ('T', 'H', 'minutes', 60), ('H', 'D', 'hours', 24),
        ('H', 'W', 'hours', 170), ('D', 'M', 'days', 32),
        ('D', 'A', 'days', 100), ('D', 'A', 'weeks', 53),
        ('M', '10A', 'months', 120), ('S', 'T', 'seconds', 60)]))
    fr = draw(gen.frames(freq=freq, size=st.integers(500, 3000)))
    first, step = draw(st.integers(0, 5)), draw(sampled([1, 1, 2, 3]))
    at = [{kw: i} for i in range(first, top, step)]
    if draw(st.booleans()):
        at = at[::-1]
    org = draw(gen.organizers(
        fr, gen.any_labels, 1, {'n_rp': 0, 'max_depth': 1},
        marker={'each': each, 'at': at, 'how': 'from_start_of_each',
                'f': 'Marker', 'explicit_how': False, 'atf': 'list'}))
    return plain(fr, org)


prop('C05', c05_cases,
     marker_check, 2200,
     'random frames partitioned by 1..4 offsets from the start of each period '
     '(offsets inside, at the end of and beyond the period; all units from '
     'seconds to years); non-trivial: at least two spans')

prop('C06', lambda: marker_cases('nth_weekday_of_month', freqs=dated,
                                 size=year_sizes), marker_check, 1300,
     'random frames partitioned at n-th weekdays of months (week -5..5, any '
     'weekday, day shifts -35..35, month/quarter/year periods, anchored '
     'years); non-trivial: at least two spans')

@st.composite
def easter_cases(draw):
    how = 'from_easter_' + draw(sampled(['western', 'orthodox']))
    return draw(marker_cases(how, freqs=dated, size=year_sizes))


prop('C07', easter_cases, marker_check, 1300,
     'random frames in the years 1700..2240 partitioned at offsets from '
     'Western/Orthodox Easter, sought in months, quarters, calendar and '
     'anchored years; oracle: two independent computus algorithms; '
     'non-trivial: at least two spans')


# ------------------------------------------------------- C08 nested structure
@st.composite
def c08_cases(draw):
    fr = draw(gen.frames())
    if draw(st.integers(0, 60)) == 40:      # a deep chain of organizers
        ctx = {'n_rp': 0, 'max_depth': 1}
        org = draw(gen.organizers(fr, gen.any_labels, 1, ctx))
        for _ in range(draw(st.integers(4, 11))):
            outer = draw(gen.organizers(fr, gen.any_labels, 1, ctx))
            outer['structure'] = list(outer['structure'])[:1]
            outer['structure'].insert(draw(st.integers(0, len(
                outer['structure']))), org)
            org = outer
        return plain(fr, org)
    depth = draw(sampled([2, 3, 3, 4]))
    rps = draw(gen.rp_pools(gen.any_labels, 0, 1))
    org = draw(gen.organizers(fr, gen.any_labels, depth,
                              {'n_rp': len(rps), 'max_depth': depth}))
    st_ = org['structure']
    if isinstance(st_, list) and not any(e['k'] == 'org' for e in st_) and \
            draw(st.integers(0, 3)):
        inner = draw(gen.organizers(fr, gen.any_labels, depth - 1,
                                    {'n_rp': len(rps), 'max_depth': depth}))
        st_.insert(draw(st.integers(0, len(st_))), inner)
    return plain(fr, org, rps, default_label=draw(weighted(
        (1, st.none()), (1, gen.wide_labels))))


def c08_check(spec, rec):
    t, tl = layout_case(spec, rec)
    if t is None:
        return
    rec.nt(tl.stats['depth'] > 1 and tl.stats['spans'] > 2)


prop('C08', c08_cases, c08_check, 2200,
     'random organizers nested 1..4 deep (markers, marks, labels, patterns, '
     'remembering patterns, empty structures) over random frames; '
     'non-trivial: nesting deeper than one and more than two spans')


# --------------------------------------------- C09 remembering pattern history
@st.composite
def c09_cases(draw):
    n = draw(st.integers(1, 2))
    rps = {str(i): draw(st.lists(gen.any_labels, min_size=2, max_size=7))
           for i in range(n)}
    rpf = draw(gen.rp_forms(rps))
    boards = []
    for _ in range(draw(st.integers(1, 4))):
        if boards and draw(st.integers(0, 4)) == 0:
            boards.append(dict(boards[draw(st.integers(0, len(boards) - 1))]))
            continue
        fr = draw(gen.frames(size=gen.small_sizes))
        which = draw(sampled(['rp', 'org', 'org', 'org', 'org', 'shared']))
        if which == 'rp':
            lay = {'k': 'rp', 'id': draw(st.integers(0, n - 1))}
        else:
            depth = draw(st.integers(1, 3))
            lay = draw(gen.organizers(fr, gen.any_labels, depth,
                                      {'n_rp': n, 'max_depth': depth}))
            if isinstance(lay['structure'], list) and \
                    not any(e['k'] == 'rp' for e in lay['structure']):
                lay['structure'].insert(
                    draw(st.integers(0, len(lay['structure']))),
                    {'k': 'rp', 'id': draw(st.integers(0, n - 1))})
        boards.append(plain(fr, lay, rps, rpf=rpf))
    takes = [draw(st.integers(0, 3)) for _ in boards]
    return {'rps': rps, 'boards': boards, 'takes': takes}


def take_by_hand(rp, n, form):
    if form % 3 == 0:
        return [next(rp) for _ in range(n)]
    if form % 3 == 1:
        return [rp.next() for _ in range(n)]
    return list(itertools.islice(iter(rp), n))


def c09_check(case, rec):
    b = build.Builder({'rps': case['rps'],
                       'rpf': case['boards'][0].get('rpf')})
    rps = model.make_rps(case)
    used = 0
    for i, spec in enumerate(case['boards']):
        # the user may draw labels from the pattern between timeboards
        for k in sorted(rps):
            for got in take_by_hand(b.rps[k], case['takes'][i], i):
                want = rps[k].next()
                expect(core.same_label(got, want), 'next() of a remembering '
                       'pattern returned {!r}, expected {!r}', got, want)
        b.spec = spec
        before = {k: r.i for k, r in rps.items()}
        try:
            tl = model.Timeline(spec, rps=rps)
        except Ambiguous:
            rec.tag('ambiguous')
            return
        except Expect as e:
            expect_raises(b.timeboard, e.kinds, 'Timeboard()')
            rec.tag('rejected:' + e.kinds[0])
            return      # how far the pattern advanced is not specified
        t = expect_ok(b.timeboard, 'Timeboard #{}'.format(i))
        check_timeline(t, tl)
        tag_common(rec, tl, spec)
        for k in rps:       # the pattern itself stays what it was
            r, labels = b.rps[k], case['rps'][k]
            expect(r.length == len(labels) and bool(r) is True and
                   all(core.same_label(r[n], x) for n, x in enumerate(labels)),
                   'remembering pattern {!r} has length {!r} and labels {!r}, '
                   'expected {!r}', r, r.length,
                   [r[n] for n in range(r.length)], labels)
        if any(rps[k].i > before[k] for k in rps):
            used += 1
            rec.nt(tl.stats['rp_used'] > 1 or used > 1)
    if used > 1:
        rec.tag('several timeboards')


prop('C09', c09_cases, c09_check, 1500,
     'histories of 1..4 timeboards built in sequence from shared remembering '
     'patterns (as layout, structure, element of nested organizers), with '
     'labels drawn by hand in between; non-trivial: a pattern used by at '
     'least two spans or two timeboards')


# --------------------------------------------------- C10 ambiguous partitions
all_units = ['S', 'T', 'H', 'D', 'W', 'W-WED', 'W-SAT', 'W-MON', 'M', 'Q',
             'Q-JAN', 'Q-FEB', 'Q-MAR', 'Q-NOV', 'A', 'A-MAR', 'A-APR',
             'A-NOV', 'A-JUL']


def approx_s(freq):
    n, u = parse_freq(freq)[:2]
    return n * {'S': 1, 'T': 60, 'H': 3600, 'D': 86400, 'W': 604800,
                'M': 2629800, 'Q': 7889400, 'A': 31557600}[u[0]]


@st.composite
def c10_cases(draw):
    mult = lambda: draw(weighted(
        (4, st.just('')), (4, sampled(['2', '3', '4', '5', '6', '12', '24'])),
        (3, st.integers(2, 60).map(str))))
    base = mult() + draw(sampled(all_units))
    fr = draw(gen.frames(freq=base, size=st.integers(1, 60)))
    each = mult() + draw(sampled(all_units))
    # the library lays out whole periods in base units: keep that affordable
    while approx_s(each) / approx_s(base) > 3e6:
        each = draw(sampled(all_units))
    if draw(st.integers(0, 3)) == 0:
        each = draw(gen.each_for(base))
    if approx_s(each) > approx_s('60A'):
        each = base     # periods beyond the years which pandas represents
    m = {'each': each, 'at': None, 'how': None,
         'f': draw(sampled(['str', 'Marker']))}
    if draw(st.integers(0, 2)) == 0:
        m.update(at=draw(st.lists(gen.at_offsets(each), min_size=1,
                                  max_size=2)),
                 how='from_start_of_each', f='Marker')
    elem = weighted((2, gen.pattern_elem(gen.any_labels)),
                    (2, gen.any_labels.map(lambda v: {'k': 'lab', 'v': v})))
    org = {'k': 'org', 'marker': m, 'marks': None,
           'structure': draw(st.lists(elem, min_size=1, max_size=3)),
           'sform': 'list'}
    if draw(st.integers(0, 3)) == 0:    # the marker sits in a nested organizer
        org = {'k': 'org', 'marker': None, 'marks': draw(gen.marks_in(
            fr, max_size=3)), 'structure': draw(sampled([
                [org], [{'k': 'lab', 'v': 'x'}, org],
                [{'k': 'pat', 'v': [1, 0], 'f': 'list'}, org]])),
            'sform': 'list'}
    return plain(fr, org)


def c10_check(spec, rec):
    lay = spec['layout']
    m = lay['marker'] or lay['structure'][-1]['marker']
    acc = model.marker_acceptable(spec['freq'], m['each'])
    rec.tag('acceptable' if acc else 'undetermined' if acc is None
            else 'ambiguous partition')
    layout_case(spec, rec)
    rec.nt(acc is not None)


prop('C10', c10_cases, c10_check, 3000,
     'random pairs (base unit, partitioning period) over 19 kinds of units '
     'with multipliers 1..60, directly or in a nested organizer; non-trivial: '
     'the documentation determines whether the pair must be accepted')


# ------------------------------------------------------ C11 user-defined how
@st.composite
def c11_cases(draw):
    freq = draw(sampled(['D', 'D', 'H', 'M', 'T']))
    fr = draw(gen.frames(freq=freq, size=st.integers(2, 200)))
    each = draw(gen.each_for(freq, multiplied=False))
    u = parse_freq(each)[1]
    top = {'S': 1, 'T': 1, 'H': 1, 'D': 25, 'W': 170}.get(u[0], 400)
    at = draw(st.lists(st.fixed_dictionaries(
        {'h': st.integers(0, top)},
        optional={'backward': st.booleans(), 'rev': st.booleans(),
                  'raw': st.just(True),
                  'junk': sampled(['x', 3])}), min_size=1, max_size=3))
    m = {'each': each, 'at': at, 'how': 'custom:firsts', 'f': 'Marker'}
    elem = weighted((3, gen.pattern_elem(gen.any_labels)),
                    (2, gen.any_labels.map(lambda v: {'k': 'lab', 'v': v})))
    org = {'k': 'org', 'marker': m, 'marks': None,
           'structure': draw(st.lists(elem, min_size=1, max_size=3)),
           'sform': 'list'}
    if draw(st.integers(0, 2)) == 0:
        org = {'k': 'org', 'marker': None, 'marks': draw(gen.marks_in(
            fr, max_size=3)), 'structure': [org, {'k': 'lab', 'v': 'z'}][
                :draw(st.integers(1, 2))],
            'sform': 'list'}
    return plain(fr, org)


def c11_check(spec, rec):
    b = build.Builder(spec)
    t, tl = construct(spec, rec, b)
    if tl is None:
        return
    check_timeline(t, tl)
    tag_common(rec, tl, spec)
    lay = spec['layout']
    m = lay['marker'] or lay['structure'][0]['marker']
    if lay['marker'] is not None:
        spans = [(0, tl.n_units - 1)]
    else:
        ab = [(a, z) for a, z, _ in tl.partition_marks(
            [p['t'] for p in lay['marks']], 0, tl.n_units - 1)]
        spans = ab[::len(lay['structure'])]
    calls = b.hows[0].calls
    want = [(s, a) for s in spans for a in m['at']]
    expect(len(calls) == len(want), 'the function has been called {} times '
           'for {} elements of `at` in {} span(s)', len(calls), len(m['at']),
           len(spans))
    u = parse_freq(m['each'])[1]
    for (periods, norm, kw), ((a, z), at) in zip(calls, want):
        expect(norm == spec['freq'], 'normalize_by={!r}', norm)
        expect(kw == at, 'received keywords {} expected {}', kw, at)
        expect(isinstance(periods, pd.PeriodIndex), 'periods: {!r}',
               type(periods))
        s0, s1 = tl.us[a], tl.us[z + 1] - 1
        expect(ns(periods[0].start_time) <= s0 and
               ns(periods[-1].end_time) >= s1, 'received periods {} .. {} do '
               'not cover the span {} .. {}', periods[0], periods[-1],
               fmt_t(s0), fmt_t(s1))
        for p in (periods[0], periods[-1]):
            p0, p1 = ptime.period_bounds(m['each'], ns(p.start_time))
            expect((ns(p.start_time), p.end_time.value) == (p0, p1),
                   'received period {} is not a period {!r}', p, m['each'])
        o = [x.ordinal for x in periods]
        expect(o == list(range(o[0], o[0] + len(o))), 'periods are not '
               'consecutive')
    rec.nt(tl.stats['spans'] > 1)


prop('C11', c11_cases, c11_check, 1200,
     'user-defined functions marking random hours after/before the bounds of '
     'the periods they receive (returning the marks in either order), 1..3 '
     '`at` elements, over random frames, also in nested organizers; '
     'non-trivial: at least two spans')


# --------------------------------------------------------------- C12 amendments
@st.composite
def c12_cases(draw):
    if draw(st.integers(0, 110)) == 60:
        fr = draw(gen.big_frames())
        pts = draw(gen.regular_points(fr))
        n = draw(st.integers(2, 9))
        return plain(fr, {'k': 'pat', 'v': [0, 1], 'f': 'list'},
                     amend=[[p, i % n] for i, p in enumerate(pts)])
    spec = draw(weighted((50, gen.timeboards(amend=False, n_rp=1)),
                         (4, gen.coarse_boards(amend=False)),
                         (1, gen.long_boards(amend=False))))
    kind = 'num' if spec['worktime'] == 'labels' else 'any'
    pool = gen.label_pool(kind)
    spec['amend'] = draw(gen.amendments(spec, pool, max_size=draw(
        sampled([1, 3, 8]))))
    if spec['amend'] and draw(st.integers(0, 2)) == 0:
        spec['amend'] = gen.dedupe_amend(spec)
    # keys which compare equal would be one dictionary key
    seen, out = [], []
    for p, v in spec['amend']:
        if p['t'] in seen:
            continue
        seen.append(p['t'])
        out.append([p, v])
    spec['amend'] = out
    return spec


def c12_check(spec, rec):
    base = dict(spec)
    base['amend'] = []
    t, tl = construct(spec, rec)
    if t is None:
        rec.nt('rejected:KeyError' in rec.tags)
        return
    tag_common(rec, tl, spec)
    check_timeline(t, tl, deep=tl.amended[:3])
    t0, tl0 = construct(base, rec)
    check_timeline(t0, tl0)
    on = duty_of(t, tl, spec)
    for i in tl.amended[:4]:
        ws = tb.Workshift(t, i)
        expect(bool(ws.is_on_duty()) == on[i], 'amended workshift {} with '
               'label {!r}: on duty {}', i, ws.label, ws.is_on_duty())
    outside = [p for p, _ in spec['amend'] if tl.ws_at(p['t']) is None]
    if outside:
        rec.tag('key outside the timeboard')
    if any(tl.dur[i] > 1 for i in tl.amended):
        rec.tag('compound amended')
    rec.nt(bool(tl.amended))


def duty_of(t, tl, spec, sel=None):
    """Expected duty by the labels; where the label is unset, by the very
    null the timeboard holds."""
    sel = sel or spec.get('selector') or {'k': 'default'}
    f = model.selector_fn(sel)
    if any(x is None for x in tl.labels):
        actual = list(t.to_dataframe()['label'])
        return [bool(f(actual[i] if x is None else x))
                for i, x in enumerate(tl.labels)]
    return [bool(f(x)) for x in tl.labels]


prop('C12', c12_cases, c12_check, 2000,
     'random timeboards with 0..8 amendments at points anywhere in workshifts, '
     'in the last base unit, outside the timeboard, repeated in the same '
     'workshift; non-trivial: at least one amendment takes effect or the '
     'repetition must be refused')
