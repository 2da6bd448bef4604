"""Independent calendar arithmetic (pure Python integers, no pandas).

Times are integer nanoseconds since 1970-01-01T00:00.  A calendar frequency is
a pair (k, unit): k consecutive units, `unit` being one of
S T H D, W-MON..W-SUN (named by the last day of the week), M,
Q-JAN..Q-DEC and A-JAN..A-DEC (named by the last month).
"""
import calendar
import datetime as _dt
import re

NS = 1
US = 1000
MS = 1000 * US
SEC = 1000 * MS
MIN = 60 * SEC
HOUR = 60 * MIN
DAY = 24 * HOUR

EPOCH = _dt.date(1970, 1, 1).toordinal()
MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN',
          'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC']
WEEKDAYS = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']
FIXED = {'S': SEC, 'T': MIN, 'min': MIN, 'H': HOUR, 'D': DAY}


def parse_freq(freq):
    m = re.match(r'^(\d*)(.+)$', freq)
    k = int(m.group(1) or 1)
    u = m.group(2)
    if u == 'W':
        u = 'W-SUN'
    elif u == 'Q':
        u = 'Q-DEC'
    elif u in ('A', 'Y'):
        u = 'A-DEC'
    elif u == 'min':
        u = 'T'
    elif u in ('s', 'h', 'd'):
        u = u.upper()
    return k, u


def spell(freq, n):
    """The same frequency written in another way (0: as it is)."""
    if not n:
        return freq
    k, u = parse_freq(freq)
    names = {'S': ['s'], 'T': ['min', 'T'], 'H': ['h'], 'D': ['d', 'D'],
             'W-SUN': ['W', 'W-SUN'], 'Q-DEC': ['Q', 'Q-DEC'],
             'A-DEC': ['Y', 'A', 'A-DEC']}.get(u, [u])
    ways = ['{}{}'.format(x, y) for x in ([k] if k > 1 else ['', 1])
            for y in names]
    return ways[n % len(ways)]


def date_ns(d):
    return (d.toordinal() - EPOCH) * DAY


def ymd(y, m=1, d=1):
    return date_ns(_dt.date(y, m, d))


def to_date(t):
    return _dt.date.fromordinal(t // DAY + EPOCH)


def month_no(t):
    d = to_date(t)
    return d.year * 12 + d.month - 1


def month_start(n):
    return ymd(n // 12, n % 12 + 1, 1)


def unit_ordinal(u, t):
    """Sequence number of the unit of kind `u` which contains time t."""
    if u in FIXED:
        return t // FIXED[u]
    if u.startswith('W-'):
        last = WEEKDAYS.index(u[2:])           # 0 = Monday
        day = t // DAY                          # 1970-01-01 is a Thursday (3)
        # number of the first day of a week is congruent to last+1
        return (day + 3 - (last + 1)) // 7
    if u == 'M':
        return month_no(t)
    if u.startswith('Q-'):
        first = (MONTHS.index(u[2:]) + 1) % 3
        return (month_no(t) - first) // 3
    if u.startswith('A-'):
        first = (MONTHS.index(u[2:]) + 1) % 12
        return (month_no(t) - first) // 12
    raise ValueError(u)


def unit_start(u, o):
    if u in FIXED:
        return o * FIXED[u]
    if u.startswith('W-'):
        last = WEEKDAYS.index(u[2:])
        return (o * 7 - 3 + last + 1) * DAY
    if u == 'M':
        return month_start(o)
    if u.startswith('Q-'):
        return month_start(o * 3 + (MONTHS.index(u[2:]) + 1) % 3)
    if u.startswith('A-'):
        return month_start(o * 12 + (MONTHS.index(u[2:]) + 1) % 12)
    raise ValueError(u)


def frame_starts(freq, start, end):
    """Start times of all base units of a frame, plus the closing bound.

    The first unit is the unit containing `start`, the last one contains
    `end`; multiplied units follow one another from the first.
    Returns [] when the frame would be empty.
    """
    k, u = parse_freq(freq)
    o0, o1 = unit_ordinal(u, start), unit_ordinal(u, end)
    if o1 < o0:
        return []
    os = list(range(o0, o1 + 1, k))
    os.append(os[-1] + k)
    if u in FIXED:
        f = FIXED[u]
        return [o * f for o in os]
    return [unit_start(u, o) for o in os]


def period_bounds(freq, t):
    """[start, end] of the period of `freq` identified by a moment t."""
    k, u = parse_freq(freq)
    o = unit_ordinal(u, t)
    return unit_start(u, o), unit_start(u, o + k) - 1


def add_months(t, n):
    d = to_date(t)
    tod = t % DAY
    m = d.year * 12 + d.month - 1 + n
    y, mo = m // 12, m % 12 + 1
    day = min(d.day, calendar.monthrange(y, mo)[1])
    return ymd(y, mo, day) + tod


def add_offset(t, off):
    """t + calendar offset {'years','months','weeks','days','hours',
    'minutes','seconds'}"""
    n = off.get('years', 0) * 12 + off.get('months', 0)
    if n:
        t = add_months(t, n)
    return (t + off.get('weeks', 0) * 7 * DAY + off.get('days', 0) * DAY +
            off.get('hours', 0) * HOUR + off.get('minutes', 0) * MIN +
            off.get('seconds', 0) * SEC)


def nth_weekday(y, m, week, weekday):
    """Date of the n-th `weekday` (1=Mon) of the month, None if absent."""
    last = calendar.monthrange(y, m)[1]
    days = [d for d in range(1, last + 1)
            if _dt.date(y, m, d).isoweekday() == weekday]
    try:
        return _dt.date(y, m, days[week - 1 if week > 0 else week])
    except IndexError:
        return None


def easter_western(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    month, day = divmod(h + l - 7 * m + 114, 31)
    return _dt.date(y, month, day + 1)


def easter_orthodox(y):
    """Julian computus (Meeus), expressed in the Gregorian calendar."""
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    month, day = divmod(d + e + 114, 31)
    # Julian -> Gregorian through the Julian day number
    aa = (14 - month) // 12
    yy = y + 4800 - aa
    mm = month + 12 * aa - 3
    jdn = day + 1 + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083
    return _dt.date.fromordinal(jdn - 1721425)
