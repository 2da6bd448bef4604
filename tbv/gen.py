"""Hypothesis strategies producing plain-data (JSON-able) specs."""
from hypothesis import strategies as st

from . import ptime
from .build import EXOTIC, ITERABLE
from .model import TRUE_FALSE
from .ptime import (SEC, MIN, HOUR, DAY, parse_freq, unit_ordinal, unit_start,
                    WEEKDAYS, MONTHS)

WEEKS = ['W'] + ['W-' + w for w in WEEKDAYS]
QUARTERS = ['Q'] + ['Q-' + m for m in MONTHS]
YEARS = ['A'] + ['A-' + m for m in MONTHS]

sampled = st.sampled_from


def weighted(*pairs):
    """One of the strategies, picked with integer weights."""
    pool = []
    for w, s in pairs:
        pool.extend([s] * w)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


base_freqs = weighted(
    (10, st.just('D')),
    (5, st.just('H')),
    (2, sampled(['2H', '3H', '8H', '12H'])),
    (2, sampled(['T', '15T', '90T', 'T'])),
    (1, sampled(['S', '30S'])),
    (2, sampled(WEEKS)),
    (2, sampled(['M', '2M', '3M'])),
    (1, sampled(QUARTERS)),
    (1, sampled(YEARS)),
    (2, sampled(['2D', '5D', '7D', '2W', '2A'])),
)

# plain labels
num_labels = sampled([0, 1, 2, 8, 7, 4.5, 0.5, 12, 0, 1, -1])
frac_labels = sampled([7.35, 0.2, 0.1, 8.25, 6.7, 0.0, 1 / 3, 16777217.0, 0.7])
int_labels = sampled([0, 1, 2, 3, 7, 8])
str_labels = sampled(['A', 'B', 'C', 'x', '', 'night', 'day', '8', '1', '0'])
any_labels = weighted((6, int_labels), (4, str_labels),
                      (1, sampled([True, False])),
                      (1, sampled([0.5, 2.5, 1.0, 0.0])), (1, st.none()),
                      (1, sampled(sorted(EXOTIC))))
# labels which a structure of an organizer would take for patterns
wide_labels = weighted((16, any_labels), (1, sampled(sorted(ITERABLE))))


def wide(pool):
    return wide_labels if pool is any_labels else pool


def label_pool(kind):
    return {'num': num_labels, 'any': any_labels, 'frac': frac_labels}[kind]


years = weighted((8, st.integers(2000, 2030)), (2, st.integers(1960, 2060)),
                 (1, st.integers(1700, 2200)))


@st.composite
def moments(draw, resolution=SEC):
    """A moment anywhere in a calendar year, in whole `resolution`s."""
    y = draw(years)
    day = draw(st.integers(0, 364))
    tod = draw(weighted((4, st.just(0)), (3, st.integers(0, DAY // MIN - 1).map(
        lambda m: m * MIN)), (1, st.integers(0, DAY // resolution - 1).map(
            lambda m: m * resolution))))
    return ptime.ymd(y) + day * DAY + tod


def frame_point(t):
    """Forms in which frame bounds are written (second resolution)."""
    forms = ['ts', 'ts', 'str', 'str', 'np', 'iso']
    if t % 1000 == 0:
        forms += ['dt', 'mdy']
    if t % DAY == 0:
        forms += ['dmy', 'str', 'dmy', 'date', 'compact', 'long']
    return sampled(forms).map(lambda f: {'t': t, 'f': f})


sizes = weighted((2, st.integers(1, 4)), (5, st.integers(3, 40)),
                 (5, st.integers(20, 120)), (2, st.integers(100, 450)))
small_sizes = weighted((2, st.integers(1, 4)), (6, st.integers(2, 40)),
                       (1, st.integers(40, 90)))


@st.composite
def frames(draw, freq=None, size=sizes, max_years=40, start=None):
    if freq is None:
        freq = draw(base_freqs)
    k, u = parse_freq(freq)
    start = draw(start if start is not None else moments())
    n = draw(size)
    years_each = k * {'A': 1.0, 'Q': .25, 'M': 1 / 12., 'W': 1 / 52.}.get(
        u[0], 1 / 365.)
    n = max(1, min(n, int(max_years / years_each)))
    o0 = unit_ordinal(u, start)
    # the end is anywhere within the last base unit
    oe = o0 + (n - 1) * k + draw(st.integers(0, k - 1))
    a, b = unit_start(u, oe), unit_start(u, oe + 1)
    a = max(a, start)
    where = draw(sampled(['start', 'mid', 'end', 'mid']))
    if where == 'start':
        end = a
    elif where == 'end':
        end = b - SEC
    else:
        end = a + (b - SEC - a) * draw(st.integers(0, 8)) // 8
        end = end // SEC * SEC
    end = max(end, start)
    tick = draw(sampled([0] * 9 + [1, 10 ** 6, 10 ** 8]))
    if tick:        # bounds within the last second of their base units
        if draw(st.booleans()):
            end = b - tick
        else:
            start = min(unit_start(u, o0 + 1) - tick, end)
    out = {'freq': freq, 'start': draw(frame_point(start)),
           'end': draw(frame_point(end))}
    alias = draw(sampled([0] * 13 + [1, 2, 5, 11]))
    if alias:       # the same units and periods by their other names
        out['alias'] = alias
    return out


def conforming(us, anchor):
    """Quarter / year freqs of list `us` nested with anchor month index."""
    return us


@st.composite
def each_for(draw, base, multiplied=True):
    """A period which every marker accepts for this base unit."""
    k, u = parse_freq(base)
    if k != 1:
        m = draw(st.integers(1, 5))
        name = ''.join(c for c in base if not c.isdigit())
        return '{}{}'.format(k * m, name)
    name = base
    opts = []
    if u == 'S':
        opts = ['T', 'T', 'H', 'D'] + (['30S', '7S', '5T', '100S'] if multiplied else [])
        if draw(st.integers(0, 9)) == 5:
            opts = ['W']
    elif u == 'T':
        opts = ['H', 'H', 'D', 'T'] + (['90T', '7T', '2H', '1000T'] if multiplied else [])
        if draw(st.integers(0, 7)) == 5:
            opts = [draw(sampled(WEEKS)), 'M', 'Q', 'A', draw(sampled(YEARS))]
    elif u == 'H':
        opts = ['D', 'D', 'W', 'M', draw(sampled(WEEKS))] + \
            (['5H', '8H', '2D', 'H', '100H'] if multiplied else [])
        if draw(st.integers(0, 7)) == 5:
            opts = ['Q', draw(sampled(QUARTERS)), 'A', draw(sampled(YEARS))] \
                + (['2A', '5A', '20A'] if multiplied else [])
    elif u == 'D':
        opts = ['W', 'M', draw(sampled(WEEKS)), draw(sampled(QUARTERS)),
                draw(sampled(YEARS)), draw(sampled(WEEKS)), 'M']
        if multiplied:
            opts += ['D', '10D', '3D', '2W', '6M', '2M', '2Q', '2A', '100D',
                     draw(sampled(['18M', '10A', '5Q', '1000D', '10W'])),
                     draw(sampled(WEEKS)).replace('W', '2W', 1)]
    elif u.startswith('W-'):
        opts = ([name] if not multiplied else
                [name, '2' + name, '3' + name, '5' + name])
    elif u == 'M':
        opts = [draw(sampled(QUARTERS)), draw(sampled(YEARS)), 'A', 'Q']
        if multiplied:
            opts += ['M', '2M', '5M', '6M', '3M', '2Q', '2A', '30M',
                     '10A', draw(sampled(['20A', '5' + draw(sampled(YEARS)),
                                          '7Q']))]
    elif u.startswith('Q-'):
        mq = MONTHS.index(u[2:])
        ys = ['A-' + MONTHS[(mq + 3 * i) % 12] for i in range(4)]
        opts = [draw(sampled(ys))]
        if multiplied:
            opts += [name, '2' + name, '3' + name, '10' + name,
                     '10' + draw(sampled(ys))]
    elif u.startswith('A-'):
        opts = ['2' + name, '3' + name, '10' + name] + (
            [name] if multiplied else [])
    return draw(sampled(opts))


def at_offsets(each):
    """Offsets for how='from_start_of_each': mostly inside the period."""
    k, u = parse_freq(each)
    ints = st.integers

    def d(**kw):
        return st.fixed_dictionaries(kw)
    if k > 1:       # anywhere in the whole of a multiplied period
        name, n = {'S': ('seconds', 1), 'T': ('minutes', 1),
                   'H': ('hours', 1), 'D': ('days', 1), 'W': ('weeks', 1),
                   'M': ('months', 1), 'Q': ('months', 3),
                   'A': ('years', 1)}[u[0]]
        far = d(**{name: ints(0, k * n)})
        if u[0] == 'A':
            far = weighted((1, far), (1, d(years=ints(0, k - 1),
                                           months=ints(0, 11))))
        elif u[0] in 'MQ':
            far = weighted((1, far), (1, d(months=ints(0, k * n - 1),
                                           days=ints(0, 27))))
        return weighted((2, far), (1, at_offsets(u)))
    if u == 'S':
        return d(seconds=ints(0, 1))
    if u == 'T':
        return weighted((4, d(seconds=ints(0, 70))), (1, d(minutes=ints(0, 1))))
    if u == 'H':
        return weighted((4, d(minutes=ints(0, 65))),
                        (1, d(minutes=ints(0, 50), seconds=ints(0, 59))))
    if u == 'D':
        return weighted((5, d(hours=ints(0, 25))),
                        (2, d(hours=ints(0, 20), minutes=ints(0, 300))),
                        (1, d(days=ints(0, 1), hours=ints(-3, 3))))
    if u.startswith('W-'):
        return weighted((5, d(days=ints(0, 8))),
                        (2, d(days=ints(0, 6), hours=ints(0, 23))),
                        (1, d(hours=ints(0, 170))),
                        (1, d(weeks=ints(0, 1))))
    if u == 'M':
        return weighted((5, d(days=ints(0, 32))),
                        (1, d(weeks=ints(0, 5))),
                        (2, d(months=st.just(1), days=ints(-31, 2))),
                        (1, d(days=ints(0, 20), hours=ints(0, 48))))
    if u.startswith('Q-'):
        return weighted((3, d(months=ints(0, 3))),
                        (4, d(months=ints(0, 2), days=ints(0, 40))),
                        (1, d(weeks=ints(0, 14))),
                        (1, d(months=ints(1, 3), days=ints(-20, -1))))
    return weighted((3, d(months=ints(0, 12))),
                    (4, d(months=ints(0, 11), days=ints(0, 40))),
                    (1, d(weeks=ints(0, 53))),
                    (1, d(years=ints(0, 1), days=ints(0, 3))),
                    (1, d(months=ints(1, 12), days=ints(-28, -1))))


def at_nth(each):
    u = parse_freq(each)[1]
    top = {'M': 1, 'Q': 3, 'A': 12}.get(u[0], 1)
    month = weighted((9, st.integers(1, top)), (1, st.integers(1, min(12, top + 1))))
    week = weighted((4, sampled([1, 2, 3, 4, -1, -2, -3, -4])),
                    (2, sampled([5, -5])))
    base = {'month': month, 'week': week, 'weekday': st.integers(1, 7)}
    return weighted(
        (3, st.fixed_dictionaries(base)),
        (2, st.fixed_dictionaries(dict(
            base, shift=weighted((3, st.integers(-4, 4)),
                                 (2, st.integers(-35, 35)))))))


def at_easter(each):
    ints = st.integers
    return weighted(
        (4, st.fixed_dictionaries({'days': ints(-50, 60)})),
        (1, st.fixed_dictionaries({'weeks': ints(-6, 8)})),
        (1, st.fixed_dictionaries({'days': ints(-10, 10),
                                   'hours': ints(-12, 12)})),
        (1, st.fixed_dictionaries({'months': ints(-2, 3)})),
        (1, st.fixed_dictionaries({'shift': ints(-50, 60)})),
        (1, st.fixed_dictionaries(
            {'shift': ints(-3, 3), 'hours': ints(-30, 30),
             'minutes': sampled([0, 0, 45, -1])})),
        (1, st.fixed_dictionaries({'days': sampled([-90, -120, 100, 200, 260,
                                                    300])})))


@st.composite
def markers(draw, base, how=None, allow_at=True, allow_mult=True, max_at=4):
    k, u = parse_freq(base)
    if not allow_at:
        with_at = False
    elif how is not None:
        with_at = True
    else:
        with_at = draw(weighted((1, st.just(True)), (1, st.just(False))))
    if not with_at:
        return {'each': draw(each_for(base, multiplied=allow_mult)),
                'at': draw(sampled([None, None, []])), 'how': None,
                'f': draw(sampled(['str', 'Marker']))}
    if how is None:
        how = 'from_start_of_each'
        if k == 1 and u in ('D', 'H', 'M') and draw(st.integers(0, 3)) == 2:
            how = draw(sampled(['nth_weekday_of_month', 'from_easter_western',
                                'from_easter_orthodox']))
    if how == 'from_start_of_each':
        each = draw(each_for(base, multiplied=allow_mult and
                             draw(st.integers(0, 2)) == 0))
        at = at_offsets(each)
    elif how == 'nth_weekday_of_month':
        each = draw(sampled(['M', draw(sampled(QUARTERS)),
                             draw(sampled(YEARS)), 'A', 'A', 'M', 'Q',
                             draw(sampled(WEEKS + ['D']))]
                            if u != 'M' else
                            ['A', draw(sampled(QUARTERS)),
                             draw(sampled(YEARS))]))
        at = at_nth(each)
    else:
        each = draw(sampled(['A', 'A', draw(sampled(YEARS)), 'Q', 'M',
                             draw(sampled(QUARTERS)),
                             draw(sampled(WEEKS + ['D']))]
                            if u != 'M' else
                            ['A', 'A', draw(sampled(YEARS)), 'Q']))
        at = at_easter(each)
    ats = draw(st.lists(at, min_size=1, max_size=max_at))
    return {'each': each, 'at': ats, 'how': how, 'f': 'Marker',
            'explicit_how': draw(st.booleans()),
            'atf': draw(sampled(['list', 'list', 'list', 'tuple']))}


def patterns(labels, max_size=9):
    return weighted(
        (12, st.lists(labels, min_size=1, max_size=max_size)),
        (1, st.just([])))


@st.composite
def pattern_elem(draw, labels, max_size=9):
    return {'k': 'pat', 'v': draw(patterns(wide(labels), max_size)),
            'f': draw(sampled(['list'] * 6 + ['tuple'] * 4 + [
                'seq:array', 'seq:deque', 'seq:iterable', 'seq:series',
                'seq:keys']))}


def marks_in(frame, max_size=8):
    """Points in time inside and around the frame."""
    t0, t1 = frame['start']['t'], frame['end']['t']
    k, u = parse_freq(frame['freq'])
    t1 = unit_start(u, unit_ordinal(u, t1) + k) - 1
    span = max(t1 - t0, 1)

    @st.composite
    def one(draw):
        kind = draw(sampled(['any', 'any', 'any', 'unit', 'unit', 'last',
                             'out', 'first']))
        if kind == 'any':
            t = t0 + span * draw(st.integers(0, 1000)) // 1000
        elif kind == 'unit':
            t = t0 + span * draw(st.integers(0, 1000)) // 1000
            t = unit_start(u, unit_ordinal(u, t))
        elif kind == 'last':
            t = t1 - draw(sampled([0, 1, SEC, 2 * SEC, MIN, HOUR]))
        elif kind == 'first':
            t = t0 + draw(sampled([0, 1, SEC]))
        else:
            t = draw(sampled([t1 + 1, t1 + DAY, t0 - 2 * DAY,
                              t1 + 400 * DAY, t0 - 1]))
        t = max(t, ptime.ymd(1690))
        return draw(points(t))
    return st.lists(one(), max_size=max_size)


def points(t):
    """A moment in one of the accepted forms that denote it exactly."""
    forms = ['ts', 'ts', 'str', 'obj', 'np']
    if t % 1000 == 0:
        forms += ['dt', 'dt', 'mdy']
    if t % DAY == 0:
        forms += ['dmy', 'date', 'per:D', 'iso', 'dmy', 'mdy', 'compact',
                  'long']
    if t % HOUR == 0:
        forms += ['per:H']
    if t % DAY == 0 and ptime.to_date(t).day == 1:
        forms += ['per:M']
    return sampled(forms).map(lambda f: {'t': t, 'f': f})


mark_forms = sampled(['list'] * 5 + ['tuple', 'seq:iterable', 'seq:deque',
                                     'seq:index', 'seq:keys'])


@st.composite
def organizers(draw, frame, labels, depth, ctx, marker=None):
    """An organizer spec.  ctx: {'n_rp': int, 'how': ..., 'marks': bool,...}"""
    base = frame['freq']
    use_marks = marker is None and ctx.get('marks', True) and \
        draw(st.integers(0, 3 if depth == ctx.get('max_depth', 3) else 5)) == 0
    org = {'k': 'org', 'marker': None, 'marks': None}
    if use_marks:
        org['marks'] = draw(marks_in(frame))
        if len(org['marks']) == 1 and draw(st.booleans()):
            org['scalar_marks'] = True
        else:
            org['mform'] = draw(mark_forms)
    else:
        org['marker'] = marker if marker is not None else draw(
            markers(base, how=ctx.get('how'),
                    allow_at=ctx.get('at', True),
                    allow_mult=ctx.get('mult', True)))
    nrp = ctx.get('n_rp', 0)
    if nrp and draw(st.integers(0, 7)) == 0:
        org['structure'] = {'k': 'rp', 'id': draw(st.integers(0, nrp - 1))}
        return org
    elem_opts = [(4, pattern_elem(labels)),
                 (3, labels.map(lambda v: {'k': 'lab', 'v': v}))]
    if nrp:
        elem_opts.append((3, st.integers(0, nrp - 1).map(
            lambda i: {'k': 'rp', 'id': i})))
    if depth > 1:
        elem_opts.append((4, organizers(frame, labels, depth - 1, ctx)))
    elem = weighted(*elem_opts)
    org['structure'] = draw(st.lists(elem, min_size=1, max_size=4)
                            if draw(st.integers(0, 24)) != 11 else st.just([]))
    if org['structure'] and draw(st.integers(0, 5)) == 3:
        # the same objects once more
        org['structure'].append(draw(sampled(org['structure'])))
    if org['marker'] is not None and depth > 1 and \
            draw(st.integers(0, 3)) == 2:
        # one marker at several levels
        inner = [e for e in org['structure'] if e['k'] == 'org'] + [
            f for e in org['structure'] if e['k'] == 'org'
            for f in e['structure'] if isinstance(f, dict) and f['k'] == 'org']
        for e in inner[-1:]:
            if e['marker'] is not None:
                e['marker'] = org['marker']
    org['sform'] = draw(sampled(['list'] * 5 + ['tuple'] * 3 + [
        'seq:deque', 'seq:iterable', 'seq:array']))
    return org


@st.composite
def rp_pools(draw, labels, lo=0, hi=2):
    n = draw(st.integers(lo, hi))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        # distinct patterns of the same labels
        v = draw(st.lists(labels, min_size=1, max_size=7))
        return {str(i): list(v) for i in range(n)}
    return {str(i): draw(weighted(
        (14, st.lists(labels, min_size=1, max_size=7)), (1, st.just([]))))
        for i in range(n)}


def rp_forms(rps):
    return st.fixed_dictionaries({k: sampled(
        ['list', 'list', 'tuple', 'seq:deque', 'seq:array']) for k in rps})


@st.composite
def amendments(draw, frame, labels, max_size=5):
    pts = draw(marks_in(frame, max_size=max_size))
    return [[p, draw(wide(labels))] for p in pts]


@st.composite
def selectors(draw, pool):
    k = draw(sampled(['default', 'in', 'in', 'notin', 'all', 'none', 'int',
                      'in', 'default', 'type', 'truth']))
    if k == 'truth':
        return {'k': k, 'v': draw(st.lists(pool, min_size=1, max_size=4)),
                'a': draw(st.integers(0, len(TRUE_FALSE) - 1))}
    if k == 'type':
        return {'k': k, 'v': draw(st.lists(sampled(
            ['int', 'bool', 'float', 'str', 'tuple', 'Decimal']), min_size=1, max_size=3))}
    if k in ('in', 'notin', 'int'):
        return {'k': k, 'v': draw(st.lists(pool, min_size=1, max_size=4))}
    return {'k': k}


@st.composite
def timeboards(draw, size=sizes, kind=None, layouts=None, freq=None,
               max_depth=2, dup_amend=False, n_rp=2, how=None, worktime=None,
               amend=True, frame=None):
    """A complete timeboard spec for the query properties."""
    fr = draw(frame if frame is not None else frames(freq=freq, size=size))
    wt = worktime or draw(sampled(['duration', 'duration', 'labels']))
    kind = kind or draw(sampled(['num', 'num', 'num', 'frac']
                                if wt == 'labels' else ['num', 'any']))
    pool = label_pool(kind)
    rps = draw(rp_pools(pool, 0, n_rp))
    which = layouts or draw(sampled(['pat', 'org', 'org', 'org', 'rp',
                                     'compound', 'compound']))
    if which == 'rp' and not rps:
        which = 'pat'
    if which == 'pat':
        lay = draw(pattern_elem(pool))
    elif which == 'rp':
        lay = {'k': 'rp', 'id': 0}
    elif which == 'big':
        lay = draw(big_layouts(fr, pool))
    elif which == 'many':
        lay = draw(many_layouts(fr, pool))
    elif which == 'coarse':
        lay = draw(coarse_layouts(fr, pool))
    elif which == 'compound':
        # every span is one workshift
        lay = draw(organizers(fr, pool, 1, {'max_depth': 1}))
        lay['structure'] = [{'k': 'lab', 'v': v} for v in
                            draw(st.lists(pool, min_size=1, max_size=4))]
        lay['sform'] = 'list'
    else:
        lay = draw(organizers(fr, pool, draw(st.integers(1, max_depth)),
                              {'n_rp': len(rps), 'max_depth': max_depth}))
    spec = dict(fr)
    spec.update({
        'layout': lay, 'rps': rps,
        'amend': draw(amendments(fr, pool)) if amend and draw(st.booleans())
        else [],
        'selector': draw(weighted((2, st.none()), (3, selectors(pool)))),
        'ref': draw(sampled([None, 'start', 'end', 'end'])),
        'default_label': draw(weighted((2, st.none()), (1, wide(pool)))),
        'amf': draw(sampled(['dict', 'dict', 'dict', 'ordered', 'items'])),
        'rpf': draw(rp_forms(rps)),
        'worktime': wt,
        'name': draw(sampled([None, None, None, 'on_duty', 'main', 'x y',
                              '', 7])),
    })
    if wt == 'labels' and spec['default_label'] is None:
        spec['default_label'] = 0
    if not dup_amend:
        spec['amend'] = dedupe_amend(spec)
    return spec


@st.composite
def big_layouts(draw, fr, pool):
    """Layouts of boards with tens of thousands of base units."""
    k, u = parse_freq(fr['freq'])
    which = draw(sampled(['pat', 'marks', 'each', 'each', 'mixed']))
    if k != 1 and which == 'each':
        which = 'marks'
    if which == 'pat':
        return draw(pattern_elem(pool, 15))
    elem = pattern_elem(pool, 15)
    if which == 'mixed':
        elem = weighted((1, elem), (1, pool.map(lambda v: {'k': 'lab',
                                                           'v': v})))
    elif draw(st.booleans()):
        elem = weighted((9, elem), (1, pool.map(lambda v: {'k': 'lab',
                                                           'v': v})))
    org = {'k': 'org', 'marker': None, 'marks': None, 'sform': 'list',
           'structure': draw(st.lists(elem, min_size=1, max_size=4))}
    if which == 'each':
        opts = {'S': ['H', 'T', 'D'], 'T': ['D', 'H', 'W'],
                'H': ['D', 'W', 'M', 'A'], 'D': ['M', 'W', 'A', 'Q']}[u]
        org['marker'] = {'each': draw(sampled(opts)), 'at': None, 'how': None,
                         'f': 'str'}
    else:
        org['marks'] = draw(marks_in(fr))
    return org


def long_frames():
    """Frames of 30..70 thousand base units."""
    return sampled(['H', 'T', 'S', 'D', 'H', '2H', '15T']).flatmap(
        lambda f: frames(freq=f, max_years=200, size=weighted(
            (3, st.integers(32700, 36000)), (2, st.integers(33000, 70000))),
            start=st.integers(0, 130 * 365).map(
                lambda n: ptime.ymd(1900) + n * DAY)))


def long_boards(**kw):
    return timeboards(frame=long_frames(), layouts='big', **kw)


@st.composite
def coarse_layouts(draw, fr, pool):
    """Few spans, most of them single workshifts of many base units."""
    k, u = parse_freq(fr['freq'])
    elem = weighted((4, pool.map(lambda v: {'k': 'lab', 'v': v})),
                    (1, pattern_elem(pool)))
    org = {'k': 'org', 'marker': None, 'marks': None, 'sform': 'list',
           'structure': draw(st.lists(elem, min_size=1, max_size=4))}
    if k == 1 and draw(st.booleans()):
        opts = {'M': ['A', '2A', '5A', '10A', 'A-MAR', '3A'],
                'D': ['A', '2A', '10A', 'Q', '5M'],
                'W': ['30' + fr['freq'], '9' + fr['freq']],
                'Q': ['8' + fr['freq']], 'A': ['4' + fr['freq']]}[u[0]]
        org['marker'] = {'each': draw(sampled(opts)), 'at': None, 'how': None,
                         'f': 'str'}
    else:
        org['marks'] = draw(marks_in(fr, max_size=draw(sampled([2, 8, 20]))))
    return org


def coarse_boards(**kw):
    """Timeboards with workshifts of tens and hundreds of base units."""
    frame = sampled(['M', 'M', 'D', 'D', 'W', 'Q', 'A', '2M']).flatmap(
        lambda f: frames(freq=f, max_years=200, size=weighted(
            (3, st.integers(60, 450)), (1, st.integers(400, 1500))),
            start=st.integers(0, 130 * 365).map(
                lambda n: ptime.ymd(1900) + n * DAY)))
    return timeboards(frame=frame, layouts='coarse', **kw)


def dedupe_amend(spec):
    """Drop amendments which refer to a workshift already amended."""
    from . import model
    s = dict(spec)
    s['amend'] = []
    try:
        tl = model.Timeline(s)
    except (model.Expect, model.Ambiguous):
        return spec['amend'][:1]
    seen, out = set(), []
    for p, label in spec['amend']:
        i = tl.ws_at(p['t'])
        if i is not None:
            if i in seen:
                continue
            seen.add(i)
        out.append([p, label])
    return out


# ------------------------------------------------- great numbers of anything
@st.composite
def big_frames(draw, freqs=('H', 'T', 'S', 'D', '2H', '15T')):
    return draw(frames(freq=draw(sampled(freqs)),
                           size=st.integers(1000, 4000)))


@st.composite
def regular_points(draw, frame, limit=3000):
    """A point in each n-th base unit of the frame."""
    k, u = parse_freq(frame['freq'])
    o0 = unit_ordinal(u, frame['start']['t'])
    o1 = unit_ordinal(u, frame['end']['t'])
    step = draw(sampled([1, 1, 2, 3]))
    first = draw(st.integers(0, 3))
    inside = draw(sampled([0, 0, 1, 500 * 10 ** 6, 10 ** 9 - 1]))
    out = [{'f': 'ts', 't': unit_start(u, o) + inside}
           for o in range(o0 + first * k, o1 + 1, step * k)][:limit]
    if draw(st.booleans()):
        out.reverse()
    return out


@st.composite
def many_labels(draw):
    """A thousand of labels or more, all of them different or not."""
    n = draw(st.integers(900, 3500))
    kind = draw(sampled(['n', 'n%', 's', 'mix']))
    return [i if kind == 'n' else i % 997 % 7 if kind == 'n%' else str(i)
            if kind == 's' else (i if i % 3 else 'x%d' % i) for i in range(n)]


@st.composite
def many_layouts(draw, fr, pool):
    """Thousands of different labels, or of workshifts by marks."""
    which = draw(sampled(['pat', 'pat', 'marks']))
    v = [x if not isinstance(x, str) else len(x) for x in draw(many_labels())]
    if which == 'pat':
        return {'k': 'pat', 'v': v, 'f': 'list'}
    return {'k': 'org', 'marker': None, 'marks': draw(regular_points(fr)),
            'mform': 'list', 'sform': 'list',
            'structure': [{'k': 'lab', 'v': x} for x in
                          v[:draw(st.integers(1, 900))]]}


def many_boards(**kw):
    """Timeboards with thousands of workshifts."""
    return timeboards(frame=big_frames(), layouts='many', **kw)
