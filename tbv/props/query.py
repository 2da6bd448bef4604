"""Properties of queries over timeboards."""
from hypothesis import strategies as st

from .. import build, core, gen, model, ops
from ..core import expect, expect_ok
from ..gen import sampled, weighted
from ..harness import Prop

PROPS = []


def session_check(case, rec):
    ctx = ops.Ctx(case, rec)
    if not ctx.ok:
        return
    if ctx.tl.N < ctx.tl.n_units:
        rec.tag('compound')
    if ctx.tl.n_units > 32767:
        rec.tag('long timeboard')
    if max(ctx.tl.dur) > 30:
        rec.tag('long workshift')
    for op in case['ops']:
        ops.run(ctx, op)


def prop(id, weights, quick, rule, check=session_check, **kw):
    strat = lambda: ops.sessions(weights, **kw)
    p = Prop(id, strat, check, quick,
             'sessions of random queries on a random timeboard with 1..4 '
             'schedules; ' + rule)
    PROPS.append(p)
    return p


HIST = {'addsch': 1, 'dropsch': 1}
compound = gen.timeboards(size=gen.small_sizes, layouts='compound')


def mixed(**kw):
    return weighted((36, gen.timeboards(size=gen.small_sizes, **kw)),
                    (24, gen.timeboards(size=gen.small_sizes,
                                        layouts='compound', **kw)),
                    (4, gen.coarse_boards(**kw)),
                    (1, gen.long_boards(**kw)), (1, gen.many_boards(**kw)))


prop('C13', {'chat': 3, 'duty': 10, 'resch': 3, 'addsch': 3, 'dropsch': 3, 'dupsch': 1, 'dropdef': 1, 'count': 3,
             'firstlast': 1, 'roll': 2, 'ws': 1, 'iter': 1, 'df': 1}, 1500,
     'selectors returning booleans or numbers; explicit, attached and default '
     'schedules; schedules dropped and re-added under the same name; '
     'non-trivial: two schedules disagree on a workshift asked about',
     lo=6, hi=18, tbs=mixed())

prop('C14', {'ws': 1}, 1800,
     'points at and 1 ns around workshift and base unit bounds, inside, '
     'before and after the timeboard, in 11 Timestamp-like forms, by method '
     'and by call; non-trivial: more than one workshift',
     lo=6, hi=20, tbs=mixed())

prop('C15', {'attr': 8, 'ctor_oob': 1, 'ws': 2, 'ivper': 1, 'df': 1}, 1500,
     'all attributes of workshifts incl. the reference time; non-trivial: a '
     'compound workshift or reference by end', lo=5, hi=16, tbs=mixed())

prop('C16', {'chat': 2, 'chat.roll': 1, 'resch.roll': 1, 'roll': 12, 'resch': 1, 'addsch': 1, 'dropsch': 1}, 1800,
     'rollforward/rollback/+/-/chains with steps -500..500, all five duties, '
     'from workshifts reused within the session; non-trivial: the roll ends '
     'on another workshift', lo=8, hi=24, tbs=mixed())

prop('C17', {'chat': 1, 'chat.dur.wt.wswt': 1,
             'resch.dur.wt.wswt': 1, 'dur': 4, 'wt': 4, 'wswt': 4, 'void': 1, 'resch': 1}, 1700,
     'durations and work times of workshifts and intervals, source durations '
     'or labels (numeric, fractional, textual); non-trivial: the sum differs '
     'from the mere count', lo=5, hi=16,
     tbs=weighted((12, gen.timeboards(size=gen.small_sizes)),
                  (10, compound), (4, gen.coarse_boards()),
                  (1, gen.long_boards()), (1, gen.many_boards()),
                  (12, gen.timeboards(size=gen.small_sizes,
                                      worktime='labels')),
                  (6, gen.timeboards(size=gen.small_sizes, kind='any',
                                     worktime='labels'))))

prop('C18', {'ivl2': 8, 'whole': 1}, 1700,
     'pairs of points in any order and place (incl. nulls, ten forms), '
     'closed 11/01/10/00; non-trivial: the interval has several workshifts',
     lo=6, hi=18, tbs=mixed())

prop('C19', {'ivlen': 1}, 1700,
     'lengths of both signs incl. exactly to and one beyond the bounds of the '
     'timeboard, closed 11/01/10/00; non-trivial: several workshifts',
     lo=6, hi=18, tbs=mixed())

prop('C20', {'ivper': 1}, 1500,
     'calendar periods of 19 kinds (anchored, multiplied, shorter and longer '
     'than workshifts; inside, across and outside the bounds), by point and '
     'by Period, clip on/off, closed 11/01/10/00, reference start/end; '
     'non-trivial: an interval is found', lo=6, hi=18, tbs=mixed())

prop('C21', {'ivctor': 8, 'whole': 1}, 1500,
     'Interval() with integer and Workshift bounds, valid, reversed, negative '
     'and too large; non-trivial: several workshifts', lo=6, hi=18,
     tbs=mixed())

prop('C22', {'chat.nth.firstlast.count.workshifts.iter': 1,
             'resch.nth.firstlast.count.workshifts.iter': 1, 'chat': 2, 'resch': 2, 'nth': 5, 'firstlast': 3, 'count': 3, 'workshifts': 3,
             'iter': 2, 'addsch': 1, 'dropsch': 1, 'void': 1}, 1500,
     'nth/first/last/count/workshifts/iteration of intervals made in four '
     'ways; non-trivial: the duty selects some but not all workshifts',
     lo=6, hi=20, tbs=mixed())

prop('C23', {'chat': 1, 'chat.overlap.portion': 1,
             'resch.overlap.portion': 1, 'overlap': 8, 'portion': 8, 'void': 4, 'resch': 1}, 1600,
     'pairs of intervals, disjoint, nested and crossing, with different '
     'attached schedules; non-trivial: a proper overlap or a portion strictly '
     'between 0 and 1', lo=5, hi=16, tbs=mixed())

long_sizes = weighted((2, st.integers(2, 60)), (4, st.integers(40, 150)),
                      (2, st.integers(150, 500)))
prop('C24', {'chat': 1, 'chat.cper': 1, 'resch.cper': 2, 'cper': 14, 'resch': 1}, 1300,
     'calendar periods of all ten supported kinds counted in intervals of '
     'any position and duty; oracle: sum of exact per-period fractions; '
     'non-trivial: a partial period or several periods', lo=5, hi=14,
     tbs=weighted((30, gen.timeboards(size=long_sizes)),
                  (20, gen.timeboards(size=long_sizes, layouts='compound')),
                  (4, gen.coarse_boards()), (1, gen.long_boards()),
                  (1, gen.many_boards())))

prop('C25', {'df': 6, 'addsch': 1, 'dropsch': 1, 'resch': 1, 'resch.df': 1,
             'dropdef': 1}, 1300,
     'tables of the whole timeboard, of a part and of an interval, with '
     'schedules added and dropped in between; non-trivial: several rows',
     lo=3, hi=9, tbs=mixed())
