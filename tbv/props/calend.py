"""Properties of the preset calendars and of the tools to build calendars."""
import datetime as _dt

import pandas as pd
from hypothesis import strategies as st

from .. import build, core, gen, holidays, model, ops, ptime
from ..core import expect, expect_ok, expect_raises, fail, fmt_t
from ..gen import weighted, sampled
from ..harness import Prop
from ..model import OOB
from ..ptime import DAY, MIN, SEC

PROPS = []
ASK = {'ws': 3, 'duty': 3, 'roll': 3, 'wt': 3, 'count': 3, 'ivl2': 1,
       'ivper': 1, 'wswt': 1, 'nth': 1}


def prop(*a, **kw):
    p = Prop(*a, **kw)
    PROPS.append(p)
    return p


# ----------------------------------------------------- the three presets
def day_ns(d):
    return ptime.date_ns(d)


class Preset(object):
    def __init__(self, name, y0, y1, flags, rules):
        self.name, self.y0, self.y1 = name, y0, y1
        self.flags, self.rules = flags, rules
        self.lo = ptime.ymd(y0)
        self.hi = ptime.ymd(y1 + 1) - SEC
        self._memo = {}

    def holidays(self, flags):
        key = repr(sorted(flags.items()))
        if key not in self._memo:
            self._memo[key] = {day_ns(d): v for d, v in
                               self.rules(flags).items()}
        return self._memo[key]

    def cls(self):
        import timeboard.calendars.RU as RU
        import timeboard.calendars.UK as UK
        import timeboard.calendars.US as US
        return {'US': US, 'UK': UK, 'RU': RU}[self.name].Weekly8x5


US_NAMES = ['new_year', 'mlk', 'presidents', 'memorial', 'independence',
            'labor', 'columbus', 'veterans', 'thanksgiving', 'black_friday',
            'christmas', 'xmas_additional_day', 'one_off']
UK_NAMES = ['new_year', 'new_year2', 'st_patricks', 'good_friday',
            'easter_monday', 'early_may', 'spring', 'orangemens', 'st_andrews',
            'christmas', 'boxing', 'royal', 'summer']


def observe(names):
    return weighted((2, st.none()), (1, st.just([])),
                    (4, st.lists(sampled(names), min_size=1, max_size=4,
                                 unique=True)))


PRESETS = {
    'US': Preset('US', 2000, 2020, {'do_not_observe': observe(US_NAMES),
                                    'long_weekends': st.booleans()},
                 lambda f: holidays.us(f.get('do_not_observe'),
                                       f.get('long_weekends', True))),
    'UK': Preset('UK', 2000, 2020, {
        'do_not_observe': observe(UK_NAMES), 'long_weekends': st.booleans(),
        'country': sampled(['england', 'scotland', 'northern_ireland'])},
        lambda f: holidays.uk(f.get('country', 'england'),
                              f.get('do_not_observe'),
                              f.get('long_weekends', True))),
    'RU': Preset('RU', 2005, 2021, {'work_on_dec31': st.booleans(),
                                    'short_eves': st.booleans()},
                 lambda f: holidays.ru(f.get('work_on_dec31', True),
                                       f.get('short_eves', True)))}

hours = sampled([0, 8, 8, 0, 7, 4, 6.5, 12, 24])


@st.composite
def preset_config(draw, name):
    """Arguments of one calendar."""
    p = PRESETS[name]
    flags = {}
    for k, s in p.flags.items():
        v = draw(weighted((2, s.map(lambda x: [x])), (1, st.just([]))))
        if v:
            flags[k] = v[0]
    days = (p.hi + SEC - p.lo) // DAY

    def at(lo, hi):
        """A moment of a day number lo..hi; turns of years are preferred."""
        dn = draw(st.integers(lo, hi))
        turn = draw(st.integers(0, 6))
        if turn < 2:
            y = ptime.to_date(p.lo + dn * DAY).year
            if turn == 1:
                # years with holidays of their own
                y = draw(sampled([2000, 2002, 2011, 2012, 2014, 2018, 2020]))
            dn = (ptime.ymd(y) - p.lo) // DAY + draw(st.integers(-8, 8))
            if not lo <= dn <= hi:
                dn = draw(st.integers(lo, hi))
        tod = draw(weighted((4, st.just(0)), (1, st.integers(0, 1439).map(
            lambda m: m * MIN)), (1, st.just(DAY - SEC))))
        return dn, p.lo + dn * DAY + tod

    kind = draw(sampled(['full', 'start', 'end', 'both', 'both', 'both',
                         'both', 'both', 'year', 'year', 'oob']))
    s = e = None
    dn = 0
    if kind in ('start', 'both', 'oob'):
        lo = 0 if kind == 'both' else days - 1200
        dn, s = at(lo, days - 1)
    if kind == 'year':
        y = draw(weighted((2, st.integers(p.y0, p.y1)), (1, sampled(
            [y for y in (2002, 2011, 2012, 2014, 2018, 2020)
             if y >= p.y0]))))
        s, e = ptime.ymd(y), ptime.ymd(y + 1) - draw(sampled([DAY, SEC]))
    if kind in ('end', 'both'):
        lo, hi = (0, 1200) if kind == 'end' else (dn, min(days - 1, dn + 800))
        _, e = at(lo, hi)
    if kind == 'oob':
        if draw(st.booleans()):
            e = draw(sampled([p.hi + SEC, p.hi + 90 * DAY, p.lo - DAY,
                              p.hi + SEC]))
        else:
            s = draw(sampled([p.lo - 1, p.lo - SEC, p.lo - DAY, p.hi + SEC,
                              p.lo - 500 * DAY]))
    form = lambda t: t if t is None else draw(gen.points(t))
    lo = s if s is not None and p.lo <= s else p.lo
    hi = e if e is not None and e <= p.hi else p.hi
    custom = []
    if draw(st.booleans()):
        seen = set()
        for _ in range(draw(st.integers(1, 6))):
            span = max(1, (hi - lo) // DAY)
            t = (lo // DAY + draw(st.integers(-2, min(span + 2, 1000)))) * DAY
            if draw(st.integers(0, 2)) == 0:
                # a day which is a holiday in the calendar anyway
                hs = [h for h in sorted(p.holidays(flags)) if lo <= h <= hi]
                if hs:
                    t = hs[draw(st.integers(0, 10 ** 4)) % len(hs)]
            if t in seen:
                continue
            seen.add(t)
            tod = draw(sampled([0, 0, 0, 9 * ptime.HOUR, DAY - 1, 1]))
            custom.append([draw(gen.points(t + tod)), draw(hours)])
    return {'cal': name, 'start': form(s), 'end': form(e), 'flags': flags,
            'dno_form': draw(sampled(['set', 'list', 'set', 'frozenset'])),
            'custom': custom if custom or draw(st.booleans()) else None,
            'none': draw(sampled([False, False, False, False, True])),
            'only': draw(sampled([False, False, False, False, True]))}


class CalBuilder(object):
    """Makes the timeboard of a configuration of a preset."""

    def __init__(self, c):
        self.c = c

    def timeboard(self):
        c = self.c
        kw = {k: v for k, v in c['flags'].items()}
        dno = kw.get('do_not_observe')
        if dno is not None:
            dno = {'set': set, 'list': list,
                   'frozenset': frozenset}[c['dno_form']](dno)
            kw['do_not_observe'] = dno
        if c['start']:
            kw['custom_start'] = build.point(c['start'])
        if c['end']:
            kw['custom_end'] = build.point(c['end'])
        cust = None
        if c['custom'] is not None:
            cust = kw['custom_amendments'] = {build.point(p): v
                                              for p, v in c['custom']}
        if c['none']:
            kw['do_not_amend'] = True
        if c['only']:
            kw['only_custom_amendments'] = True
        before = (list((cust or {}).items()), dno and sorted(dno))
        try:
            return PRESETS[c['cal']].cls()(**kw)
        finally:
            expect(before == (list((cust or {}).items()),
                              dno and sorted(dno)),
                   'the arguments given have been changed to {}', kw)


def preset_spec(c):
    """Timeboard spec of the reference model."""
    p = PRESETS[c['cal']]
    amend = {}
    if not c['none'] and not c['only']:
        amend = dict(p.holidays(c['flags']))
    if not c['none'] and c['custom']:
        for q, v in c['custom']:
            amend[q['t'] // DAY * DAY] = v
    org = {'k': 'org', 'marks': None, 'marker': {'each': 'W', 'at': None,
                                                 'how': None, 'f': 'str'},
           'structure': [{'k': 'pat', 'v': [8, 8, 8, 8, 8, 0, 0], 'f': 'list'}],
           'sform': 'list'}
    return {'freq': 'D', 'start': c['start'] or {'t': p.lo, 'f': 'ts'},
            'end': c['end'] or {'t': p.hi, 'f': 'ts'}, 'layout': org,
            'rps': {}, 'amend': [[{'t': t, 'f': 'ts'}, v]
                                 for t, v in sorted(amend.items())],
            'selector': None, 'ref': None, 'default_label': None,
            'worktime': 'labels'}


class CalCtx(ops.Ctx):
    """Positions are spread over the whole of a long calendar."""

    def pos(self, i):
        n = self.tl.N
        if isinstance(i, str):
            i = self.case['favp'][int(i[1:])]
        return (i * 37 if n > 800 and i > 0 else i) % n


def preset_check(case, rec):
    made = []
    for c in case['cals']:
        p = PRESETS[c['cal']]
        spec = preset_spec(c)
        b = CalBuilder(c)
        s, e = spec['start']['t'], spec['end']['t']
        if not (p.lo <= s <= p.hi and p.lo <= e <= p.hi):
            expect_raises(b.timeboard, (OOB,), 'calendar with custom bounds '
                          'out of its range')
            rec.tag('bounds out of range')
            continue
        ctx = CalCtx({**case, 'tb': spec}, rec, b)
        if ctx.ok:
            made.append((c, ctx))
    for c, ctx in made:
        core.check_timeline(ctx.tbd, ctx.tl, deep=(0, -1))
        if c['custom']:
            rec.tag('custom amendments')
        rec.tag(*['flag:' + k for k in c['flags']])
        if c['none']:
            rec.tag('do_not_amend')
        if c['only']:
            rec.tag('only_custom_amendments')
        plain = [0 if (ptime.to_date(t).weekday() >= 5) else 8
                 for t in ctx.tl.starts]
        rec.nt(plain != ctx.tl.labels)
    for c, ctx in made:
        for op in case['ops']:
            ops.run(ctx, op)


def preset_cases(name):
    @st.composite
    def cases(draw):
        return {**ops.favourites(draw),
                'cals': draw(st.lists(preset_config(name), min_size=1,
                                      max_size=3)),
                'sels': draw(st.lists(gen.selectors(hours), min_size=2,
                                      max_size=3)),
                'nsch': draw(st.integers(0, 2)),
                'ops': draw(ops.op_list(ASK, 2, 8))}
    return cases


RULE = ('1..3 calendars of one country made in one process, random custom '
        'bounds, flags, exclusions and custom amendments (on and off '
        'holidays, with a time of day, in 8 forms), then a session of '
        'queries; oracle: holidays computed from plain dates; non-trivial: '
        'some label differs from the week pattern')
prop('C27', preset_cases('US'), preset_check, 1200, RULE)
prop('C28', preset_cases('UK'), preset_check, 1200, RULE)
prop('C29', preset_cases('RU'), preset_check, 1200, RULE)


# -------------------------------------------------------- C30 own calendars
@st.composite
def c30_cases(draw):
    base = draw(st.integers(0, 9)) == 0
    if base:
        a = ptime.ymd(2001) + draw(st.integers(0, 10000)) * DAY
        n = draw(st.integers(0, 900))
        tb = {'freq': 'D', 'start': {'t': ptime.ymd(2001), 'f': 'ts'},
              'end': {'t': ptime.ymd(2030, 12, 31), 'f': 'ts'},
              'layout': {'k': 'pat', 'v': [1], 'f': 'list'}, 'rps': {},
              'amend': [], 'selector': None, 'ref': None,
              'default_label': None, 'worktime': None}
        cs, ce = a, min(a + n * DAY, tb['end']['t'])
    else:
        tb = draw(gen.timeboards(size=gen.small_sizes))
        cs = ce = None
    s, e = tb['start']['t'], tb['end']['t']
    if s <= e and not base:
        n = 1000
        if draw(st.booleans()):
            cs = s + (e - s) * draw(st.integers(0, n)) // n // SEC * SEC
            cs = max(cs, s)
        if draw(st.booleans()):
            lo = s if cs is None else cs
            ce = lo + (e - lo) * draw(st.integers(0, n)) // n // SEC * SEC
            ce = max(min(ce, e), lo)
    oob = draw(st.integers(0, 11))
    if oob == 5:
        cs = draw(sampled([s - 1, s - DAY, e + 1, e + 400 * DAY]))
    elif oob == 6:
        ce = draw(sampled([s - 1, s - DAY, e + 1, e + 400 * DAY]))
    pool = gen.num_labels if tb['worktime'] == 'labels' else gen.any_labels
    custom = draw(weighted((1, st.none()),
                           (3, gen.amendments(tb, pool, max_size=4))))
    bounds = {'start': {'t': s if cs is None or not s <= cs <= e else cs},
              'end': {'t': e if ce is None or not s <= ce <= e else ce}}
    if custom:
        custom = gen.dedupe_amend(dict(tb, amend=custom, **bounds))
    if not base:
        # no two amendments of one workshift
        both = gen.dedupe_amend(dict(tb, amend=(custom or []) + tb['amend'],
                                     **bounds))
        tb['amend'] = both[len(custom or []):]
    form = lambda t: t if t is None else draw(
        sampled(['ts', 'str', 'np', 'obj']).map(lambda f: {'t': t, 'f': f}))
    before = []
    if not tb['rps'] and s <= e:
        for _ in range(draw(sampled([0, 0, 1, 2]))):
            x = s + (e - s) * draw(st.integers(0, 9)) // 9 // SEC * SEC
            y = draw(sampled([None, e, max(x, s)]))
            before.append({'cs': form(draw(sampled([None, max(x, s)]))),
                           'ce': form(y), 'none': draw(sampled([None, True])),
                           'only': draw(sampled([None, True]))})
    return {**ops.favourites(draw), 'tb': tb, 'base': base,
            'cs': form(cs), 'ce': form(ce), 'before': before,
            'raw': draw(st.booleans()), 'shared': draw(st.booleans()),
            'custom': custom,
            'mode': draw(sampled(['override', 'ignore', 'override'])),
            'kw': draw(st.dictionaries(sampled(['alpha', 'beta', 'label']),
                                       st.integers(0, 9), max_size=2)),
            'none': draw(sampled([None, None, None, False, True])),
            'only': draw(sampled([None, None, False, True])),
            'sels': draw(st.lists(gen.selectors(pool), min_size=2,
                                  max_size=3)),
            'nsch': draw(st.integers(0, 2)),
            'ops': draw(ops.op_list(ASK, 1, 6))}


class OwnCalendar(object):
    """The user's subclass of the template."""

    def __init__(self, case):
        from timeboard.calendars.calendarbase import CalendarBase
        self.case = case
        self.calls = calls = []
        spec = case['tb']
        if case['base']:
            self.cls = CalendarBase
            return
        b = build.Builder(spec)
        own = {build.point(p): v for p, v in spec['amend']}

        class Own(CalendarBase):
            made = None

            @classmethod
            def parameters(cls):
                if case['shared'] and cls.made is not None:
                    return cls.made
                kw = b.kwargs()
                kw.pop('amendments', None)
                kw.update(base_unit_freq=spec['freq'],
                          start=pd.Timestamp(spec['start']['t']),
                          end=pd.Timestamp(spec['end']['t']),
                          layout=b.layout(spec['layout']))
                if case['raw']:
                    kw.update(start=build.point(spec['start']),
                              end=build.point(spec['end']))
                cls.made = kw
                return kw

            @classmethod
            def amendments(cls, custom_start=None, custom_end=None,
                           custom_amendments=None, **kw):
                calls.append((custom_start, custom_end, custom_amendments, kw))
                out = dict(own)
                if case['mode'] == 'override':
                    out.update(custom_amendments or {})
                return out
        self.cls = Own

    def timeboard(self):
        for c in self.case['before']:       # other calendars of the class
            core.attempt(lambda: self.make(dict(self.case, **c)))
        del self.calls[:]
        return self.make(self.case)

    def make(self, c):
        kw = {}
        if not c['base']:
            kw.update(c['kw'])
        if c['cs']:
            kw['custom_start'] = build.point(c['cs'])
        if c['ce']:
            kw['custom_end'] = build.point(c['ce'])
        self.custom = None
        if c['custom'] is not None:
            self.custom = {build.point(p): v for p, v in c['custom']}
            kw['custom_amendments'] = self.custom
        if c['none'] is not None:
            kw['do_not_amend'] = c['none']
        if c['only'] is not None:
            kw['only_custom_amendments'] = c['only']
        return self.cls(**kw)


def c30_check(case, rec):
    spec = dict(case['tb'])
    lo, hi = spec['start']['t'], spec['end']['t']
    custom = case['custom'] or []
    if case['none']:
        spec['amend'] = []
    elif case['only'] or case['base']:
        spec['amend'] = custom
    elif case['mode'] == 'override':
        spec['amend'] = case['tb']['amend'] + custom
    for key, c in (('start', case['cs']), ('end', case['ce'])):
        if c:
            spec[key] = c
    own = OwnCalendar(case)
    out = [c for c in (case['cs'], case['ce']) if c and not lo <= c['t'] <= hi]
    if out:
        expect_raises(own.timeboard, (OOB,), 'custom bound out of the range of '
                      'the calendar')
        rec.tag('bounds out of range')
        rec.nt()
        return
    ctx = CalCtx(dict(case, tb=spec), rec, own)
    if own.calls or (not case['none'] and not case['only']
                     and not case['base'] and ctx.ok):
        expect(own.calls, 'amendments() of the calendar was not called')
        cs, ce, cust, kw = own.calls[-1]
        expect(pd.Timestamp(cs).value == spec['start']['t'] and
               pd.Timestamp(ce).value == spec['end']['t'],
               'amendments() received bounds {}..{}, expected {}..{}', cs, ce,
               fmt_t(spec['start']['t']), fmt_t(spec['end']['t']))
        expect(cust == own.custom, 'amendments() received custom_amendments '
               '{}, expected {}', cust, own.custom)
        expect(kw == case['kw'], 'amendments() received {}, expected {}', kw,
               case['kw'])
    if not ctx.ok:
        return
    rec.nt(bool(custom or case['cs'] or case['ce'] or case['tb']['amend']))
    rec.tag('none:{}'.format(case['none']), 'only:{}'.format(case['only']),
            'base class' if case['base'] else 'subclass')
    core.check_timeline(ctx.tbd, ctx.tl, deep=(0, -1))
    for op in case['ops']:
        ops.run(ctx, op)


prop('C30', c30_cases, c30_check, 2000,
     'subclasses of the calendar template with random parameters (any base '
     'unit, layout, schedule settings), own and custom amendments, custom '
     'bounds, the two flags, extra arguments, and the template itself; '
     'non-trivial: bounds or amendments are involved')


# ---------------------------------------------------------------- C31 tools
years = weighted((5, st.integers(1990, 2040)), (2, st.integers(1700, 2250)))
tool_labels = weighted((2, st.just(0)), (1, gen.any_labels))


@st.composite
def c31_cases(draw):
    kind = draw(sampled(['nth', 'extend', 'extend', 'easter']))
    if kind == 'nth':
        return {'k': 'nth', 'year': draw(years), 'seek': draw(st.lists(
            st.tuples(st.integers(1, 12), st.integers(1, 7),
                      sampled([1, 2, 3, 4, 5, -1, -2, -3, -4, -5, 5, -5]),
                      weighted((2, st.none()), (1, st.integers(-40, 40)))
                      ).map(list), max_size=5)),
                'label': draw(weighted((1, st.none()), (1, tool_labels))),
                'errors': draw(sampled([None, 'ignore', 'raise', 'raise']))}
    if kind == 'easter':
        return {'k': 'easter', 'year': draw(years), 'shifts': draw(st.lists(
            st.integers(-80, 80), max_size=4)),
            'type': draw(sampled([None, 'western', 'orthodox'])),
            'label': draw(weighted((1, st.none()), (1, tool_labels)))}
    y = draw(years)
    d0 = ptime.ymd(y) + draw(st.integers(0, 360)) * DAY
    days = draw(st.lists(st.integers(0, draw(sampled([8, 12, 30]))),
                         min_size=0, max_size=12, unique=True))
    first, n = draw(st.integers(0, 6)), draw(st.integers(1, 4))
    return {'k': 'extend',
            'days': [[draw(gen.points(d0 + i * DAY)), draw(tool_labels)]
                     for i in days],
            'how': draw(sampled([None, 'nearest', 'previous', 'next'])),
            'label': draw(weighted((2, st.none()), (1, tool_labels))),
            'weekend': draw(weighted((2, st.none()), (3, st.just(
                [(first + i) % 7 for i in range(n)]))))}


def c31_check(case, rec):
    from timeboard.calendars.calendarbase import (
        nth_weekday_of_month, extend_weekends, from_easter)
    rec.tag('tool:' + case['k'])
    kw = {}
    label = case['label']
    if label is not None:
        kw['label'] = label
    else:
        label = 0
    if case['k'] == 'nth':
        want, missing = {}, False
        for m, wd, n, shift in case['seek']:
            d = ptime.nth_weekday(case['year'], m, n, wd)
            if d is None:
                missing = True
            else:
                want[d + _dt.timedelta(days=shift or 0)] = label
        seek = [tuple(x[:3] if x[3] is None else x) for x in case['seek']]
        if case['errors']:
            kw['errors'] = case['errors']
        f = lambda: nth_weekday_of_month(case['year'], seek, **kw)
        if missing and case['errors'] == 'raise':
            expect_raises(f, (OOB,), 'nth_weekday_of_month')
            rec.nt()
            return
        rec.nt(bool(want))
    elif case['k'] == 'easter':
        e = (ptime.easter_orthodox if case['type'] == 'orthodox' else
             ptime.easter_western)(case['year'])
        want = {e + _dt.timedelta(days=s): label for s in case['shifts']}
        if case['type']:
            kw['easter_type'] = case['type']
        f = lambda: from_easter(case['year'], list(case['shifts']), **kw)
        rec.nt(bool(want))
    else:
        days = {ptime.to_date(p['t']): v for p, v in case['days']}
        how = case['how'] or 'nearest'
        want = holidays.extended(days, how, case['weekend'] or (5, 6))
        if case['label'] is not None:
            for d in want:
                if d not in days:
                    want[d] = case['label']
        if case['how']:
            kw['how'] = case['how']
        if case['weekend']:
            kw['weekend'] = list(case['weekend'])
        given = {build.point(p): v for p, v in case['days']}
        copy = dict(given)

        def f():
            out = extend_weekends(given, **kw)
            expect(given == copy, 'the given amendments have been changed')
            return out
        rec.nt(len(want) > len(days))
    got = expect_ok(f, case['k'])
    expect(isinstance(got, dict), 'result is {!r}', got)
    res = {}
    for k, v in got.items():
        t = core.ns(k)
        expect(t % DAY == 0, 'key {!r} is not a day', k)
        res[ptime.to_date(t)] = v
    if res != want or len(res) != len(got):
        fail('{}: got {}, expected {}', case['k'],
             sorted((str(k), v) for k, v in res.items()),
             sorted((str(k), v) for k, v in want.items()))


prop('C31', c31_cases, c31_check, 12000,
     'years 1700-2250; any months, weekdays, ordinals 1..5/-1..-5, shifts; '
     'both Easters; holiday clusters up to 12 days with weekends of 1..4 days '
     'anywhere in the week; non-trivial: something is found or extended')
