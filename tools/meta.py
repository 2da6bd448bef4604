"""Writes properties.jsonl and MANIFEST.json from the table below.

    python3 tools/meta.py            (run in /verif)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'timeboard/'
CORE, TBD, WS, IVL, WHEN = (T + x + '.py' for x in (
    'core', 'timeboard', 'workshift', 'interval', 'when'))
CAL = T + 'calendars/'

P = []


def p(id, title, statement, over, text, why, files, mech, observe, assume=''):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, observe=observe,
                  assume=assume))


# ---------------------------------------------------------------- layout
p('C01', 'Workshifts tile the time frame without gaps or overlaps',
  'A timeboard consists of the base units of its frequency from the one '
  'containing the given start to the one containing the given end, grouped '
  'into workshifts: the first workshift starts when the timeboard starts, each '
  'next one starts where the previous one ended, the last one ends when the '
  'timeboard ends, and the durations count the base units in them. Whatever '
  'the layout, the number of workshifts, their bounds, durations and labels '
  'are the same however they are enumerated (by the whole interval, by number, '
  'by point in time, as a table). A start in a base unit later than that of '
  'the end is refused with VoidIntervalError.',
  ['configurations', 'inputs'],
  'Any base unit frequency (seconds to anchored years, multiplied units), any '
  'placement of start and end inside their units, any layout.',
  'Tests build a few dozen fixed day-based boards; frames which start or end '
  'inside a unit, multiplied and anchored units under arbitrary layouts are '
  'not reached.',
  [CORE, TBD], [('frame of base units', CORE + ' _Frame.__new__'),
                ('grouping of base units into workshifts',
                 CORE + ' _Timeline.__init__')],
  ['Timeboard()', 'iteration over clnd()', 'to_dataframe()',
   'start_time/end_time/duration of workshifts'])
p('C02', 'A plain pattern labels base units cyclically from the start',
  'With a plain pattern as the layout every base unit is a workshift, and the '
  'n-th workshift carries the label number n modulo the length of the pattern, '
  'for lists, tuples, other iterables and remembering patterns alike, labels '
  'of any type being kept as they are. An empty pattern leaves all workshifts '
  'with the default label.',
  ['inputs', 'configurations'],
  'Any frame, any pattern length from 0 to longer than the frame, labels of '
  'any type.',
  'Tests use two- to four-element patterns over a dozen of days.',
  [CORE, TBD], [('cycling of patterns', CORE + ' _Timeline.__apply_pattern')],
  ['label of workshifts', 'to_dataframe()'])
p('C03', 'Explicit marks partition the frame at the units containing them',
  'Marks given as points in time split the frame into spans beginning at the '
  'base units which contain the marks, whatever their order, repetition, '
  'position inside a unit or way of writing; marks outside of the frame and '
  'in its first unit create no additional span. The elements of the structure '
  'are applied to the spans in cyclic order, a label making the whole span one '
  'workshift and a pattern starting anew in each span.',
  ['inputs', 'configurations'],
  'Any frame, 0..9 marks anywhere in and around it, any structure of labels '
  'and patterns.',
  'Tests place a few marks at midnight of inner days; marks inside units, in '
  'the last unit, duplicates, and units other than days are not tried.',
  [CORE], [('subspans from points in time', CORE + ' _Frame._create_subspans'),
           ('location of marks', CORE + ' _Frame.get_loc_vectorized')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C04', 'A calendar period as marker partitions the frame by whole periods',
  'A marker naming a calendar period splits the frame at the starts of the '
  'periods, and the frame may begin and end anywhere inside a period. A '
  'pattern laid on the first, incomplete span is continued as if the whole '
  'period had been in the frame: the labels of the base units missing from '
  'the left are skipped.',
  ['inputs', 'configurations'],
  'Any frame and any period composed of its base units, incl. anchored weeks, '
  'quarters and years and multiplied periods.',
  'Tests use weeks and months over days; the phase of the first span is '
  'checked in a handful of placements only.',
  [CORE], [('partition by marker', CORE + ' _Frame.partition_with_marker'),
           ('skipped part of the first span', CORE + ' _Span')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C05', 'Offsets from the start of each period mark exactly those moments',
  'A marker with offsets (months, weeks, days, hours, ... alone or combined) '
  'from the start of each period splits the frame at the base units containing '
  'those moments, for every period touching the frame, while moments which '
  'leave their own period are ignored. Periods with a multiplier begin where '
  'the span divided by the marker does. The pattern on the first, incomplete '
  'span continues from the last such moment preceding the frame.',
  ['inputs', 'configurations'],
  'Any frame, 1..4 offsets of both signs inside, at the very end of and '
  'beyond the period, base units from seconds to years.',
  'Tests use one or two fixed offsets in months and days; offsets reaching '
  'the last unit or leaving the period are hardly tried.',
  [CORE, WHEN], [('points at offsets', WHEN + ' from_start_of_each'),
                 ('partition by marker',
                  CORE + ' _Frame.partition_with_marker')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C06', 'Markers on the n-th weekday of a month hit exactly that day',
  'A marker defined by month, weekday and ordinal (1..5 from the beginning or '
  '-1..-5 from the end of the month, with an optional shift in days) splits '
  'the frame exactly at those dates of every period, skipping the months where '
  'there is no such weekday and the dates shifted out of their period. The '
  'marker never fails because such a date does not exist.',
  ['inputs', 'configurations'],
  'Any frame of days, hours or months; all months, weekdays, ordinals, shifts '
  'up to 35 days; month, quarter and (anchored) year periods.',
  'Tests pick a few holidays in two or three years.',
  [CORE, WHEN], [('n-th weekday', WHEN + ' nth_weekday_of_month')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C07', 'Markers relative to Easter follow the Western or Orthodox Easter',
  'A marker defined by distance in days from Western or Orthodox Easter splits '
  'the frame exactly at those dates for each Easter of the years concerned, '
  'also when the periods in which the Easter is sought are months, quarters '
  'or years not starting in January.',
  ['inputs', 'configurations'],
  'Frames in the years 1700..2240 of days, hours or months; any shift; '
  'month, quarter, calendar year and anchored year periods.',
  'Tests check Easter of two or three modern years in calendar years only.',
  [CORE, WHEN], [('Easter marks', WHEN + ' from_easter_western, '
                  'from_easter_orthodox')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C08', 'Nested organizers subdivide exactly the span they are applied to',
  'An organizer used as an element of a structure partitions, by its own '
  'marker or marks and with its own structure started anew, precisely the span '
  'to which it is applied, to any depth; it never affects units outside of '
  'the span. An empty structure or an empty pattern leaves the base units of '
  'the span as workshifts with the default label.',
  ['inputs', 'configurations'],
  'Organizers nested up to four levels mixing markers, marks, labels, patterns '
  'and remembering patterns over any frame.',
  'Tests have a few two-level organizers over days.',
  [CORE], [('recursive organizing', CORE + ' _Timeline.__organize')],
  ['workshift bounds and labels', 'to_dataframe()'])
p('C09', 'A remembering pattern resumes where it was left, everywhere',
  'A remembering pattern hands out its labels in cyclic order, continuing from '
  'where its last use stopped: between spans of one timeboard, between levels '
  'of organizers, between timeboards built one after another, and when labels '
  'are taken from it by hand. Each base unit labelled by it consumes one '
  'label, as does each span when it serves as the structure of an organizer; '
  'units missing from an incomplete first span consume theirs too. Its length '
  'and its labels by index stay as given.',
  ['histories', 'configurations'],
  'Histories of 1..4 timeboards sharing 1..2 remembering patterns.',
  'Tests build single boards with one remembering pattern; order of '
  'consumption over nested levels and several boards is not checked.',
  [CORE], [('remembering pattern', CORE + ' RememberingPattern'),
           ('order of application', CORE + ' _Timeline.__organize')],
  ['labels of workshifts', 'next(pattern)'])
p('C10', 'Ambiguous partitioning is refused, unambiguous is accepted',
  'A marker whose period would split a base unit between two spans (weeks into '
  'months, 2-hour units into 3-hour periods, a period shorter than the base '
  'unit, quarters and years with clashing anchors) is refused with '
  'UnacceptablePeriodError, at any level of nesting. A marker whose period '
  'consists of whole base units is accepted and gives the right partition, '
  'by whichever of its names the period is given (M or 1M, A or Y or A-DEC).',
  ['configurations'],
  'All pairs of 19 kinds of units with multipliers 1..24.',
  'Tests try about a dozen of pairs.',
  [CORE], [('check of frequencies', CORE + ' _check_groupby_freq')],
  ['Timeboard()'],
  'Pairs for which the documentation does not determine the answer (such as '
  'equal anchored periods) are not judged.')
p('C11', 'User-defined marker functions get whole periods and are obeyed',
  'A user-defined marking function is called once for each element of `at` '
  'in each span, with consecutive whole periods of the marker covering the '
  'span, the base unit frequency and the keywords of that element. The frame '
  'is split exactly at the moments the function returned, in any order.',
  ['programs', 'inputs'],
  'Functions marking moments after or before the bounds of the periods, '
  'returning them in either order; 1..3 elements of `at`; any frame, nested.',
  'Tests have one such function on one frame.',
  [CORE], [('partition by marker', CORE + ' _Frame.partition_with_marker')],
  ['workshift bounds and labels', 'arguments received by the function'])
p('C12', 'Amendments change the label of exactly the workshifts they name',
  'Each amendment replaces the label of the workshift containing its point in '
  'time, wherever in the workshift that point is and however it is written, '
  'before schedules are computed; nothing else changes. Points outside of the '
  'timeboard are ignored, and two amendments of one workshift are refused '
  'with KeyError.',
  ['inputs', 'configurations'],
  'Any timeboard, 0..8 amendments anywhere in and around it.',
  'Tests amend a few days; points inside compound workshifts, in the last '
  'unit or duplicated inside a long workshift are rarely tried.',
  [CORE, TBD], [('amendments', CORE + ' _Timeline.amend')],
  ['labels and duty of workshifts', 'Timeboard()'])
# ---------------------------------------------------------------- queries
p('C13', 'Duty is decided by the selector of the schedule in effect',
  'A workshift is on duty under a schedule exactly when the selector of the '
  'schedule is true of its label (for the default schedule: the default '
  'selector, or the truth of the label), and off duty otherwise. The schedule '
  'in effect is the one given to the call, else the one attached to the '
  'object, else the default of the timeboard; objects obtained under a '
  'schedule carry it, also after it has been dropped or its name has been '
  'given to another one. Schedules can be dropped and names reused; a name '
  'already taken, and dropping an unknown schedule, are refused with '
  'KeyError.',
  ['inputs', 'histories'],
  'Any timeboard with up to four schedules, selectors returning booleans or '
  'numbers, sessions adding and dropping schedules.',
  'Tests use one or two schedules on a fixed board and never reuse names.',
  [CORE, TBD, WS, IVL], [('schedule', CORE + ' _Schedule'),
                         ('choice of schedule', IVL + ' _get_duty_idx')],
  ['is_on_duty/is_off_duty', 'count', 'first/last', 'rollforward/rollback',
   'to_dataframe()'])
p('C14', 'The workshift found for a point in time contains that point',
  'For any point in time within the timeboard, written in any Timestamp-like '
  'form, the timeboard returns the workshift whose bounds enclose the point, '
  'both when called directly and through the explicit method. For a point '
  'outside the timeboard OutOfBoundsError is raised, and a null point never '
  'yields a workshift.',
  ['inputs'],
  'Points at and one nanosecond around bounds of workshifts, units and the '
  'timeboard, inside and outside; eleven forms; any layout.',
  'Tests query several midnights.',
  [CORE, TBD], [('position of a point', CORE + ' _Timeline.get_ws_position'),
                ('dispatch of calls', TBD + ' Timeboard.__call__')],
  ['get_workshift()', 'clnd(point)'])
p('C15', 'Workshift attributes and reference time agree with the layout',
  'Start, end, duration in base units, label and attached schedule of a '
  'workshift are those of its place in the timeboard however the workshift has '
  'been obtained, and its timestamp is its start, or its end if the timeboard '
  'is set to refer to workshifts by end. Workshift numbers past the last one '
  'are refused with OutOfBoundsError.',
  ['inputs', 'configurations'],
  'Any timeboard with compound and simple workshifts, reference by start or '
  'end.',
  'Tests check several workshifts of fixed boards, mostly referenced by start.',
  [CORE, WS], [('attributes', CORE + ' _Timeline.get_ws_*'),
               ('reference time', CORE + ' get_ws_ref_time')],
  ['start_time', 'end_time', 'duration', 'label', 'to_timestamp()'])
p('C16', 'Rolling lands on the workshift counted by duty, or out of bounds',
  'Rolling forward by n steps gives the n-th next workshift of the wanted '
  'duty counted from the nearest such workshift at or after the present one; '
  'rolling back mirrors it; negative steps go the other way from that same '
  'zero step; `same` and `alt` duty refer to the duty of the present '
  'workshift, and adding or subtracting an integer equals rolling forward or '
  'back. The workshift found carries the schedule it was sought under. If there '
  'is no such workshift in the timeboard, OutOfBoundsError is raised.',
  ['inputs', 'histories'],
  'Any timeboard and schedules, steps -500..500, five duties, chains of '
  'rolls.',
  'Tests roll over three fixed boards by a few steps.',
  [WS], [('roll', WS + ' rollforward, rollback'),
         ('duty index', WS + ' _get_duty_index')],
  ['rollforward()', 'rollback()', 'ws + n', 'ws - n'])
p('C17', 'Durations and work times add up over workshifts of the duty',
  'The total duration of an interval under a duty is the sum of the durations '
  'of its workshifts with that duty under the schedule in effect, and its work '
  'time is the same sum or, when the labels are the source of work time, the '
  'sum of their labels; the work time of a single workshift counts if its duty '
  'agrees with the one asked for and is zero otherwise. Non-numeric labels as '
  'the source of work time are refused with TypeError rather than counted.',
  ['inputs', 'configurations'],
  'Any timeboard, intervals, duties and schedules; numeric, fractional and '
  'textual labels.',
  'Tests sum a handful of intervals.',
  [IVL, WS], [('sums', IVL + ' total_duration, worktime'),
              ('work time of a workshift', WS + ' worktime')],
  ['total_duration()', 'worktime()'])
p('C18', 'An interval between two points spans their workshifts',
  'The interval between two points in time runs from the workshift containing '
  'the first point to the one containing the second, a null point meaning the '
  'respective bound of the timeboard, and a closedness of 01, 10 or 00 strips '
  'the first, the last or both of these workshifts. The interval carries the '
  'schedule given or the default one. Workshifts in reverse order or stripped '
  'to nothing raise VoidIntervalError, points outside the timeboard an '
  'out-of-bounds error.',
  ['inputs'],
  'Any pairs of points in any place and form, nulls, four kinds of closedness, '
  'any layout and schedule.',
  'Tests use several pairs of days, closedness on a single board.',
  [TBD], [('bounds by reference', TBD + ' _get_interval_locs_from_reference'),
          ('closedness', TBD + ' _strip_interval_locs')],
  ['get_interval((p, q))', 'clnd((p, q))', 'get_interval()'])
p('C19', 'An interval by length has exactly that many workshifts',
  'The interval from a point by length n has |n| workshifts beginning with (n '
  'positive) or ending with (n negative) the workshift containing the point, '
  'before the closedness strips its ends. A zero length or an interval '
  'stripped to nothing raises VoidIntervalError, and one extending over the '
  'bounds of the timeboard an out-of-bounds error.',
  ['inputs'],
  'Any point and any length incl. exactly reaching and just exceeding the '
  'bounds; four kinds of closedness.',
  'Tests use a few lengths on one board.',
  [TBD], [('bounds by length', TBD + ' _get_interval_locs_by_length')],
  ['get_interval(p, length=n)', 'clnd(p, length=n)'])
p('C20', 'An interval by calendar period holds the workshifts referred to it',
  'The interval for a calendar period consists of exactly the workshifts whose '
  'reference time falls into the period; a period crossing a bound of the '
  'timeboard is clipped to it (closedness then does not strip the clipped end) '
  'or, with clipping off, is refused with an out-of-bounds error. A period '
  'entirely outside raises an out-of-bounds error, and one without a '
  'workshift referred to it VoidIntervalError.',
  ['inputs', 'configurations'],
  '19 kinds of periods, shorter and longer than workshifts, inside, across '
  'and outside of the bounds; clipping on/off; four kinds of closedness; '
  'reference by start and by end.',
  'Tests use months and weeks on a few boards.',
  [TBD, CORE], [('bounds by period', TBD + ' _get_interval_locs_by_period'),
                ('search by reference time',
                 CORE + ' get_ws_pos_by_ref_after/before')],
  ['get_interval(p, period=f)', 'get_interval(Period)', 'clnd(p, period=f)'])
p('C21', 'Interval bounds by number or workshift are taken exactly',
  'An interval created directly from two workshifts or their numbers has '
  'these as its first and last workshift, with the start, end, length and '
  'attached schedule following from them, and iterating over it or listing it '
  'yields them all in order. Reversed bounds raise VoidIntervalError, numbers '
  'outside the timeboard OutOfBoundsError.',
  ['inputs'],
  'Any pair of numbers or workshifts, valid and invalid, list or tuple.',
  'Tests use several valid pairs on one board.',
  [IVL], [('validation of bounds', IVL + ' _BaseInterval.__init__')],
  ['Interval()', 'length', 'len()', 'start_time', 'end_time'])
p('C22', 'Counting and picking workshifts in an interval agree with the list',
  'For any duty and schedule the workshifts listed are exactly the members of '
  'the interval with that duty, in order; the count is their number, the n-th '
  '(from either end) and the first and the last are those of the list, and '
  'positions beyond it raise OutOfBoundsError. The workshifts picked, listed '
  'or iterated carry the schedule in effect. Iteration goes over all '
  'workshifts each time anew, also after an iteration left halfway or '
  'within another iteration over the same interval.',
  ['inputs', 'histories'],
  'Any interval made in any way, duties on/off/any, positions of both signs, '
  'schedules added and dropped in between.',
  'Tests check a few positions of three fixed intervals.',
  [IVL], [('selection by duty', IVL + ' _get_duty_idx, nth, workshifts')],
  ['workshifts()', 'count()', 'nth()', 'first()', 'last()', 'iteration'])
p('C23', 'Overlap is the common part; portion is the ratio of counts',
  'The overlap of two intervals consists of exactly the workshifts common to '
  'both, with the schedule given or else that of the first interval, and is '
  'an empty interval answering zero to all counts, sums and portions if there '
  'are none. The portion one interval is of another is the number of '
  'workshifts of the duty in their overlap divided by that number in the '
  'other, zero if that is zero.',
  ['inputs'],
  'Any pairs of intervals, disjoint, nested, crossing, with different '
  'schedules; methods and operators.',
  'Tests cover several pairs on one board.',
  [IVL], [('overlap', IVL + ' overlap, what_portion_of'),
          ('empty interval', IVL + ' _VoidInterval')],
  ['overlap()', 'a * b', 'what_portion_of()', 'a / b'])
p('C24', 'Periods counted in an interval equal the sum of exact fractions',
  'The number of calendar periods in an interval under a duty is the sum over '
  'the periods of the fraction which the workshifts of the interval with that '
  'duty make of all workshifts of the timeboard with that duty referred to the '
  'period, periods without such workshifts counting zero. Unsupported period '
  'kinds are refused with UnacceptablePeriodError, and a partial period '
  'reaching out of the timeboard raises an out-of-bounds error unless '
  'nothing of the duty depends on it.',
  ['inputs', 'configurations'],
  'Any interval, duty and schedule; ten kinds of periods; simple and compound '
  'workshifts; reference by start and end.',
  'Tests compare several months and years on one board.',
  [IVL], [('count of periods', IVL + ' count_periods')],
  ['count_periods()'])
p('C25', 'Tables show every workshift and the duty under every schedule',
  'The table of a timeboard, of a part of it or of an interval has one row per '
  'workshift, numbered as in the timeboard, with its reference time, start, '
  'end, duration and label, and one column per existing schedule telling '
  'whether the workshift is on duty under it.',
  ['inputs', 'histories'],
  'Any timeboard, any part, schedules added and dropped in between.',
  'Tests compare the shape of a few tables.',
  [CORE, TBD, IVL], [('tables', TBD + ' to_dataframe; ' + CORE +
                      ' _Timeline.to_dataframe')],
  ['to_dataframe()'])
p('C26', 'Queries have no side effects and timeboards are independent',
  'Answers depend only on the definition of the timeboard and on the schedules '
  'existing at the moment, never on the queries made, errors raised, objects '
  'printed or returned tables modified before. Timeboards made from the same '
  'layout objects do not influence each other (a remembering pattern '
  'excepted), the arguments given are not modified, modifying them afterwards '
  'changes nothing, and the same definition always makes the same timeboard.',
  ['histories', 'configurations'],
  'Histories of up to 18 operations over 1..3 timeboards sharing layout '
  'objects.',
  'Tests ask each fresh board a single question.',
  [CORE, TBD, WS, IVL], [('state kept by objects', 'all classes')],
  ['all queries', 'arguments after the call'])
# ---------------------------------------------------------------- calendars
p('C27', 'The US calendar has exactly the federal and customary days off',
  'In the US calendar every date of 2000-2020 has label 8 on Monday to Friday '
  'and 0 on weekend, but 0 on the documented holidays (fixed dates, n-th '
  'weekdays, the day after Thanksgiving, the listed one-off days) except those '
  'excluded by the user, and, with long weekends, on the Friday before or '
  'the Monday after a fixed holiday on Saturday or Sunday. Custom bounds only '
  'cut the calendar, custom amendments override it, the flags switch off its '
  'own or all amendments, and bounds out of the range are refused with '
  'OutOfBoundsError.',
  ['configurations', 'inputs'],
  'Any custom bounds, exclusions, flags, custom amendments in any form; '
  'several calendars in one process; queries over them.',
  'Tests check a few years with a few flags; cuts at other bounds and '
  'combinations of flags are not tried.',
  [CAL + 'US.py', CAL + 'calendarbase.py'],
  [('holidays', CAL + 'US.py fed_holidays'),
   ('bounds and flags', CAL + 'calendarbase.py CalendarBase.__new__')],
  ['US.Weekly8x5()', 'queries on the calendar'])
p('C28', 'The UK calendars have exactly the bank holidays of the country',
  'In the UK calendar every date of 2000-2020 has label 8 on Monday to Friday '
  'and 0 on weekend, but 0 on the bank holidays of England, Scotland or '
  'Northern Ireland (fixed dates, n-th Mondays, Good Friday, Easter Monday, '
  'royal celebrations and the holidays moved for them or for VE Day) except '
  'those excluded, and, with long weekends, on the next free weekday after a '
  'fixed holiday on weekend. Custom bounds only cut the calendar, custom '
  'amendments override it, the flags switch off its own or all amendments, '
  'and bounds out of the range are refused with OutOfBoundsError.',
  ['configurations', 'inputs'],
  'Three countries; any custom bounds, exclusions, flags, amendments.',
  'Tests check a few years with a few flags.',
  [CAL + 'UK.py', CAL + 'calendarbase.py'],
  [('holidays', CAL + 'UK.py bank_holidays'),
   ('bounds and flags', CAL + 'calendarbase.py CalendarBase.__new__')],
  ['UK.Weekly8x5()', 'queries on the calendar'])
p('C29', 'The Russian calendar follows the official working time',
  'In the Russian calendar every date of 2005-2021 has the official number of '
  'working hours: public holidays and their transfers 0, other days by the '
  'working week, the listed eves 7 (8 if short eves are off), and 31 December '
  'as published or always 0 on demand. Custom bounds only cut the calendar, '
  'custom amendments override it, the flags switch off its own or all '
  'amendments, and bounds out of the range are refused with OutOfBoundsError.',
  ['configurations', 'inputs'],
  'Any custom bounds, flags, amendments.',
  'Tests check selected dates of several years.',
  [CAL + 'RU.py', CAL + 'calendarbase.py'],
  [('holidays', CAL + 'RU.py changes, holidays'),
   ('bounds and flags', CAL + 'calendarbase.py CalendarBase.__new__')],
  ['RU.Weekly8x5()', 'queries on the calendar'],
  'The published table is copied into the reference; its yearly totals agree '
  'with the official ones.')
p('C30', 'Own calendars honour bounds, amendments and flags',
  'A calendar class made by the user from the template yields the timeboard '
  'of its parameters with its amendments; custom bounds within the range '
  'replace its start and end (others are refused with OutOfBoundsError), and '
  'its amendments method receives the effective bounds, the custom amendments '
  'and all additional arguments. With amendments off there are none, and with '
  'only custom amendments there are just those; the template itself is a '
  'daily calendar of label 1 in 2001-2030 with the custom amendments. '
  'Calendars made from the class before have no influence.',
  ['configurations', 'programs'],
  'Subclasses with any parameters and amendments, any bounds and flags.',
  'Tests cover the template with one or two arguments.',
  [CAL + 'calendarbase.py'],
  [('template', CAL + 'calendarbase.py CalendarBase')],
  ['CalendarBase subclass call', 'queries on the calendar'])
p('C31', 'Tools for amendments find the right dates in every year',
  'The tools for building amendments return exactly the n-th weekdays of '
  'months with shifts (missing ones ignored or, on demand, refused with '
  'OutOfBoundsError), the dates at distances from Western or Orthodox Easter, '
  'and the given holidays plus, for each one on the weekend in the order of '
  'dates, the first day in the chosen direction which is neither weekend nor '
  'taken. The labels are as requested and the given dictionary is not '
  'modified.',
  ['inputs'],
  'Years 1700-2250, any weekdays, ordinals, shifts; any clusters of holidays; '
  'weekends of 1..4 days anywhere in the week; three directions.',
  'Tests cover several years and two clusters.',
  [CAL + 'calendarbase.py'],
  [('tools', CAL + 'calendarbase.py nth_weekday_of_month, extend_weekends, '
    'from_easter')],
  ['nth_weekday_of_month()', 'extend_weekends()', 'from_easter()'])
p('C32', 'Invalid calls are refused and leave everything as it was',
  'A call with an invalid duty or closedness (ValueError), a non-integer '
  'length, a meaningless combination of parameters or reference (TypeError), '
  'an object which is no schedule, point, bound, location or selector, an '
  'unsupported frequency, dropping an unknown schedule, an unusable layout, '
  'amendments, marker or organizer raises an error instead of returning an '
  'answer. Such a refused call has no effect: the timeboard, its schedules '
  'and all later answers stay the same.',
  ['inputs', 'histories'],
  '16 kinds of spoilt calls and 23 of spoilt definitions mixed with '
  'ordinary queries.',
  'Tests try several invalid values once on fresh objects and never query '
  'the objects after that.',
  [TBD, IVL, WS, CORE], [('validation', 'all public calls')],
  ['exceptions of all public calls', 'queries afterwards'])

p('C33', 'Printed objects name themselves; printed layouts are their code',
  'A workshift is shown with its number, its schedule unless that is the '
  'default one, its duration in base units unless that is one, and the base '
  'unit it starts at; an interval with the numbers, durations and units of its '
  'bounds and the number of workshifts; a void one as void; a timeboard with '
  'its first and last base unit. Printing them in full adds the table of '
  'their workshifts. The representation of a timeboard made from an organizer '
  'or a plain pattern is code which, executed, makes a timeboard with the same '
  'workshifts, remembering patterns and markers shared as in the original.',
  ['inputs', 'configurations'],
  'Any timeboard, workshifts and intervals obtained in several ways, under '
  'attached, default, dropped and renamed schedules; nested layouts.',
  'No test looks at the representations.',
  [TBD, WS, IVL, CORE],
  [('compact forms', WS + ', ' + IVL + ' compact_str'),
   ('code of layouts', CORE + ' Organizer._repr_builder')],
  ['repr()', 'str()', 'compact_str'],
  'Amendments and other options of a timeboard are not part of its '
  'representation; user-defined marker functions and remembering patterns as '
  'whole layouts are not printed as code.')
p('C34', 'Timeboards, schedules and layouts tell what they were made of',
  'A timeboard tells its base unit frequency, its start and end, its source of '
  'work time, its default selector and schedule, and holds exactly the '
  'schedules existing at the moment by their names. A schedule, even one '
  'dropped since, tells its name and the ascending numbers of all workshifts '
  'and of those on and off duty under it. An organizer tells its marker or '
  'marks and its structure, a marker its period, offsets and function, as '
  'they were given. Queries made in the meantime change none of it.',
  ['inputs', 'configurations', 'histories'],
  'Any timeboard with its layout objects and up to 4 schedules, before and '
  'after random operations.',
  'Tests read the attributes of a few small objects right after they are made.',
  [TBD, CORE],
  [('attributes of timeboards', TBD + ' Timeboard'),
   ('duty indexes', CORE + ' _Schedule'),
   ('layout objects', CORE + ' Organizer, Marker')],
  ['Timeboard attributes', '_Schedule attributes', 'Organizer attributes',
   'Marker attributes'],
  'A function of a marker given by name is only required to be callable.')


def main():
    import sys
    sys.path.insert(0, HERE)
    extra = os.path.join(HERE, 'tools', 'extra.py')
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, 'exec'), globals())
    P.sort(key=lambda x: x['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'],
                'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['text']},
                'why_tests_cant': x['why'],
                'anchors': {'files': x['files'],
                            'mechanism': [{'name': n, 'where': w}
                                          for n, w in x['mech']],
                            'observe_at': x['observe'],
                            'hook_needed': None}}) + '\n')
    checks = []
    for x in P:
        note = ('Random search against an explicit oracle: no violation in '
                'the generated cases (counts and samples in the evidence '
                'file), not a proof. Trusts the reference model in tbv/ '
                '(integer nanosecond arithmetic, no code of the package), '
                'Hypothesis as generator and shrinker, and pandas for parsing '
                'points in time.')
        if x['assume']:
            note += ' ' + x['assume']
        checks.append({
            'property': x['id'],
            'quick_cmd': './check.sh {} quick'.format(x['id']),
            'thorough_cmd': './check.sh {} thorough'.format(x['id']),
            'evidence_file': 'evidence/{}.json'.format(x['id']),
            'technique': TECH.get(x['id'], DEFAULT_TECH),
            'level': 'exploration', 'level_note': note})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
                   'not_applicable': [],
                   'notes': 'No hooks in /repo. Repairs of genuine defects are '
                            '"fix:" commits listed in known_findings.txt.'},
                  f, indent=1)
        f.write('\n')


DEFAULT_TECH = ('property-based testing (Hypothesis): random definitions '
                'compared with an independent reference model')
SESS = ('model-based property testing (Hypothesis): random query sessions '
        'compared with an independent reference model')
TECH = {'C{}'.format(i): SESS for i in list(range(13, 27)) + [30, 32, 33, 34]}
TECH['C09'] = ('model-based property testing (Hypothesis): histories of '
               'timeboards sharing stateful patterns against a model')
for _c in ('C27', 'C28', 'C29'):
    TECH[_c] = ('property-based testing (Hypothesis): random calendar '
                'configurations against holiday rules over plain dates')
TECH['C31'] = ('property-based testing (Hypothesis): generated inputs '
               'against independent date arithmetic')

if __name__ == '__main__':
    main()
