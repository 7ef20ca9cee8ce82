"""
The period a Time addresses: containment, bounds, days and zone independence.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, aligned, dt, make, moments, offsetAt, offsets, periods, start,
    toUTC, tzinfo, zones, zonesWithNames, RESOLUTIONS)
from epsilon.extime import Time

RULE = ("Pairs of periods of all resolutions, mostly overlapping or touching "
        "at their ends; zones at any whole-minute offset.")


def split(when):
    return (when.year, when.month, when.day, when.hour, when.minute,
            when.second, when.microsecond)


@st.composite
def pairs(draw):
    outer = draw(periods(200, 9800))
    length = RESOLUTIONS[outer[1]]
    begin = dt(outer[0])
    inner = draw(st.sampled_from(sorted(RESOLUTIONS)))
    anchor = draw(st.sampled_from(['start', 'end', 'inside', 'far']))
    jitter = TD(microseconds=draw(st.sampled_from(
        [0, 0, 1, -1, 10 ** 6, -10 ** 6, 3600 * 10 ** 6, -86400 * 10 ** 6])))
    if anchor == 'start':
        when = begin + jitter
    elif anchor == 'end':
        when = begin + length - RESOLUTIONS[inner] + jitter
    elif anchor == 'inside':
        when = begin + length * draw(st.integers(0, 64)) // 64
    else:
        when = begin + TD(days=draw(st.integers(-800, 800)))
    return (outer, (split(when), inner))


def checkContains(case, note):
    (m1, r1), (m2, r2) = case
    a, b = make(m1, r1), make(m2, r2)
    s1, s2 = dt(m1), dt(m2)
    e1, e2 = s1 + RESOLUTIONS[r1], s2 + RESOLUTIONS[r2]
    same(b in a, s1 <= s2 and e2 <= e1, "%r (%s) in %r (%s)" % (b, r2, a, r1))
    same(a in b, s2 <= s1 and e1 <= e2, "%r (%s) in %r (%s)" % (a, r1, b, r2))
    require(a in a, "%r is not within itself", a)
    for other in (None, s1, 3):
        try:
            other in a
        except TypeError:
            pass
        else:
            raise Violation("containment of %r did not fail" % (other,))
    note('inside' if s1 <= s2 and e2 <= e1 else 'not inside')
    note.nontrivial(s1 <= e2 and s2 <= e1)


def checkEdges(case, note):
    """
    At the ends of the calendar, beyond which periods may reach.
    """
    last, (n1, r1), (n2, r2) = case
    times = []
    for n, r in (n1, r1), (n2, r2):
        n *= 900000000
        when = (DT.max - TD(microseconds=999999 + n) if last
                else DT.min + TD(microseconds=n))
        times.append((make(split(when), r), when - DT(5000, 1, 1),
                      RESOLUTIONS[r]))
    (a, s1, l1), (b, s2, l2) = times
    same(b in a, s1 <= s2 and s2 + l2 <= s1 + l1, "%r (%s) in %r (%s)"
         % (b, r2, a, r1))
    same(a in b, s2 <= s1 and s1 + l1 <= s2 + l2, "%r (%s) in %r (%s)"
         % (a, r1, b, r2))
    require(a in a and a in make(split(start(a)), 'y366'),
            "%r within its own period", a)
    same(start(a.oneDay()), dt(split(start(a))[:3]), "day of %r" % (a,))
    for i, t in enumerate([a, b]):
        same(start(t), DT(5000, 1, 1) + times[i][1], "a Time after all that")
    note.nontrivial(l1 > TD(0) and l2 > TD(0))


def checkBounds(case, note):
    (moment, resolution), zone, kind = case
    t = make(moment, resolution)
    low, high = t.getBounds(tzinfo(zone, kind))
    begin = dt(moment)
    length = RESOLUTIONS[resolution]
    utc = (begin, begin + length)
    expected = utc
    if length >= TD(days=1) and zone is not None:
        # the period in that zone, together with the one in UTC
        there = toUTC(zone, begin), toUTC(zone, begin + length)
        if None in there:
            return
        expected = (min(begin, there[0]), max(begin + length, there[1]))
        note('zone matters')
    require(isinstance(low, Time) and isinstance(high, Time),
            "bounds are not Times: %r", (low, high))
    same((start(low), start(high)), expected,
         "bounds of %r (%s) in zone %r" % (t, resolution, zone))
    same((start(t), t.resolution), (begin, length), "a Time after getBounds")
    note.nontrivial(zone is not None)


def checkDay(case, note):
    (moment, resolution), zone, kind = case
    t = make(moment, resolution)
    begin = dt(moment)
    length = RESOLUTIONS[resolution]
    day = t.oneDay()
    same((start(day), day.resolution),
         (DT(begin.year, begin.month, begin.day), TD(days=1)),
         "oneDay of %r" % (t,))
    same((start(t), t.resolution), (begin, length), "a Time after oneDay")
    same(t in day, begin + length <= start(day) + TD(days=1),
         "%r within its own day" % (t,))
    require(day.isAllDay() is True, "oneDay() is not all day")
    same(t.isAllDay(), resolution == 'day', "isAllDay (%s)" % (resolution,))
    same(t.isTimezoneDependent(), length < TD(days=1),
         "isTimezoneDependent (%s)" % (resolution,))
    tz = tzinfo(zone, kind)
    got = t.asDatetime(tz)
    if length >= TD(days=1):
        # the zone is insignificant: the same date everywhere
        same(got.replace(tzinfo=None), begin, "asDatetime(%r) of a whole day"
             % (zone,))
        there = toUTC(zone, begin)
        if there is not None:
            same(got.utcoffset(), begin - there,
                 "offset of asDatetime(%r) of a whole day" % (zone,))
        same(t.asISO8601TimeAndDate(tzinfo=tz), t.asISO8601TimeAndDate(),
             "asISO8601TimeAndDate in zone %r" % (zone,))
        note('zone independent')
    else:
        same(got.replace(tzinfo=None), begin + offsetAt(zone, begin),
             "asDatetime(%r)" % (zone,))
    note.nontrivial(zone is not None)


SUBS = [
    Sub('contains', pairs, checkContains, 2500, 25000,
        rule="the periods overlap or touch"),
    Sub('edges', lambda: st.tuples(
        st.booleans(), *[st.tuples(
            st.one_of(st.integers(0, 200), st.integers(0, 40000)),
            st.sampled_from(sorted(RESOLUTIONS)))] * 2), checkEdges, 500, 5000,
        rule="two periods which aren't moments"),
    Sub('bounds', lambda: st.tuples(periods(200, 9800), zonesWithNames(),
                                    st.sampled_from([0, 1])),
        checkBounds, 2000, 20000, rule="an explicit zone",
        examples=[(((2005, 4, 1, 0, 0, 0, 0), 'day'), 300, 0),
                  (((2005, 4, 1, 0, 0, 0, 0), 'day'), -300, 0)]),
    Sub('day', lambda: st.tuples(periods(200, 9800), zonesWithNames(),
                                 st.sampled_from([0, 1])),
        checkDay, 2000, 20000, rule="an explicit zone"),
]
