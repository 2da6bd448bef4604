"""Reference rules of the preset calendars, written from their documentation.

Everything here is about plain dates (`datetime.date`); nothing is imported
from the package under test.
"""
import datetime as _dt

from . import ptime

ONE = _dt.timedelta(days=1)


def extended(days, how, weekend=(5, 6)):
    """Days off earned by holidays falling on weekend.  `days`: {date: label}

    Holidays are considered in the order of dates; a substitute day is the
    first day in the direction which is neither weekend nor taken."""
    out = dict(days)
    weekend = list(weekend)
    n = len(weekend)
    for h in sorted(days):
        if h.weekday() not in weekend:
            continue
        i = weekend.index(h.weekday())
        before, after = i + 1, n - i          # distances to the nearest weekday
        if how == 'previous' or how == 'nearest' and before < after:
            step = -1
        else:
            step = 1
        d = h + step * ONE
        while d.weekday() in weekend or d in out:
            d += step * ONE
        out[d] = days[h]
    return out


def us(do_not_observe, long_weekends, y0=2000, y1=2020):
    off = set()
    skip = set(do_not_observe or ())
    fixed = [('new_year', 1, 1), ('independence', 7, 4), ('veterans', 11, 11),
             ('christmas', 12, 25)]
    floating = [('mlk', 1, 3, 1), ('presidents', 2, 3, 1),
                ('memorial', 5, -1, 1), ('labor', 9, 1, 1),
                ('columbus', 10, 2, 1), ('thanksgiving', 11, 4, 4)]
    for y in range(y0 - 1, y1 + 2):
        for name, m, d in fixed:
            if name in skip:
                continue
            day = _dt.date(y, m, d)
            off.add(day)
            if long_weekends:
                if day.weekday() == 5:
                    off.add(day - ONE)
                elif day.weekday() == 6:
                    off.add(day + ONE)
        for name, m, n, wd in floating:
            if name not in skip:
                off.add(ptime.nth_weekday(y, m, n, wd))
        if 'black_friday' not in skip:
            off.add(ptime.nth_weekday(y, 11, 4, 4) + ONE)
    if 'xmas_additional_day' not in skip:
        off |= {_dt.date(2014, 12, 26), _dt.date(2018, 12, 24),
                _dt.date(2018, 12, 26)}
    if 'one_off' not in skip:
        off.add(_dt.date(2018, 12, 5))
    return {d: 0 for d in off}


UK_FIXED = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17),
            'orangemens': (7, 12), 'st_andrews': (11, 30),
            'christmas': (12, 25), 'boxing': (12, 26)}
UK_WHO = {
    'england': {'new_year', 'good_friday', 'easter_monday', 'early_may',
                'spring', 'summer', 'christmas', 'boxing', 'royal'},
    'scotland': {'new_year', 'new_year2', 'good_friday', 'early_may',
                 'spring', 'summer', 'st_andrews', 'christmas', 'boxing',
                 'royal'},
    'northern_ireland': {'new_year', 'st_patricks', 'good_friday',
                         'easter_monday', 'early_may', 'spring', 'orangemens',
                         'summer', 'christmas', 'boxing', 'royal'}}


def uk(country, do_not_observe, long_weekends, y0=2000, y1=2020):
    who = UK_WHO[country] - set(do_not_observe or ())
    fixed = {}
    for y in range(y0, y1 + 1):
        for name, (m, d) in UK_FIXED.items():
            if name in who:
                fixed[_dt.date(y, m, d)] = 0
    off = set(extended(fixed, 'next')) if long_weekends else set(fixed)
    for y in range(y0, y1 + 1):
        if 'early_may' in who:
            off.add(_dt.date(2020, 5, 8) if y == 2020 else
                    ptime.nth_weekday(y, 5, 1, 1))
        if 'spring' in who and y not in (2002, 2012):
            off.add(ptime.nth_weekday(y, 5, -1, 1))
        if 'summer' in who:
            off.add(ptime.nth_weekday(y, 8, 1 if country == 'scotland' else -1,
                                      1))
        e = ptime.easter_western(y)
        if 'good_friday' in who:
            off.add(e - 2 * ONE)
        if 'easter_monday' in who:
            off.add(e + ONE)
    if 'royal' in who:
        off |= {_dt.date(*x) for x in [(2002, 6, 3), (2002, 6, 4),
                                       (2011, 4, 29), (2012, 6, 4),
                                       (2012, 6, 5)]}
    return {d: 0 for d in off}


# Working days which are weekend by the week pattern, days off which are not,
# and short days (x) of the Russian official calendar, as published.
RU_OFF = """
2005 0110 0307 0502 0510 0613
2006 0109 0224 0508 1106
2007 0108 0430 0611 1105 1231
2008 0108 0225 0310 0502 0613 1103
2009 0108 0109 0309 0511
2010 0108 0222 0503 0510 0614 1105
2011 0110 0307 0502 0613
2012 0109 0309 0430 0507 0508 0611 1105 1231
2013 0108 0502 0503 0510
2014 0108 0310 0502 0613 1103
2015 0108 0109 0309 0504 0511
2016 0108 0222 0307 0502 0503 0613
2017 0224 0508 1106
2018 0108 0309 0430 0502 0611 1105 1231
2019 0108 0502 0503 0510
2020 0108 0224 0309 0504 0505 0511
2021 0108 0222 0503 0510 0614 1105 1231
"""
RU_FULL = """
2005 0514
2006 0226
2008 0504 0607
2009 0111
2010 1113
2012 0311 0505
"""
RU_SHORT = """
2005 0222 0305 1103
2006 0222 0307 0506 1103
2007 0222 0307 0428 0508 0609 1229
2008 0222 0307 0430 0508 0611 1101 1231
2009 0430 0508 0611 1103 1231
2010 0227 0430 0611 1103 1231
2011 0222 0305 1103
2012 0222 0307 0428 0512 0609 1229
2013 0222 0307 0430 0508 0611 1231
2014 0224 0307 0430 0508 0611 1231
2015 0430 0508 0611 1103 1231
2016 0220 1103
2017 0222 0307 1103
2018 0222 0307 0428 0508 0609 1229
2019 0222 0307 0430 0508 0611 1231
2020 0430 0508 0611 1103 1231
2021 0220 0430 0611 1103
"""
RU_FIXED = [(1, d) for d in range(1, 8)] + [(2, 23), (3, 8), (5, 1), (5, 9),
                                            (6, 12), (11, 4)]


def _table(text):
    for line in text.split('\n'):
        w = line.split()
        for md in w[1:]:
            yield _dt.date(int(w[0]), int(md[:2]), int(md[2:]))


def ru(work_on_dec31, short_eves, y0=2005, y1=2021):
    out = {d: 0 for d in _table(RU_OFF)}
    out.update({d: 8 for d in _table(RU_FULL)})
    out.update({d: 7 if short_eves else 8 for d in _table(RU_SHORT)})
    for y in range(y0, y1 + 1):
        for m, d in RU_FIXED:
            out[_dt.date(y, m, d)] = 0
        if not work_on_dec31:
            out[_dt.date(y, 12, 31)] = 0
    return out
