"""
Time.asHumanly
"""
from hypothesis import strategies as st

import datetime

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, aligned, dt, make, moments, offsetAt, periods, tzinfo, zonesWithNames,
    RESOLUTIONS)
from epsilon.extime import InvalidPrecision, Time

RULE = ("Periods of all resolutions, seen from a moment close to them (same "
        "day, across midnight, across new year) or far away, in any zone.")

MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def clock(when, seconds):
    text = '%02d:%02d' % ((when.hour - 1) % 12 + 1, when.minute)
    if seconds:
        text += ':%02d' % (when.second,)
    return text + (' am' if when.hour < 12 else ' pm')


def model(moment, resolution, zone, now, seconds):
    length = RESOLUTIONS[resolution]
    when = dt(moment)
    if length < TD(days=1):
        when += offsetAt(zone, when)
    here = now + offsetAt(zone, now)
    allDay = length == TD(days=1)
    if when.date() == here.date():
        return 'all day' if allDay else clock(when, seconds)
    text = '%d %s' % (when.day, MONTHS[when.month - 1])
    if when.year != here.year:
        text += ' %d' % (when.year,)
    if not allDay:
        text += ', ' + clock(when, seconds)
    return text


def check(case, note):
    (moment, resolution), zone, kind, now, precision = case
    t = make(moment, resolution)
    tz = tzinfo(zone, kind)
    args = {}
    if precision == 'seconds':
        args['precision'] = Time.Precision.SECONDS
    elif precision == 'minutes':
        args['precision'] = Time.Precision.MINUTES
    elif precision == 'bad':
        args['precision'] = 'furlongs'
        try:
            text = t.asHumanly(tz, make(now), **args)
        except InvalidPrecision:
            note('invalid precision')
            return
        raise Violation("an invalid precision produced %r" % (text,))
    got = t.asHumanly(tz, make(now, ['us', 'h', 'h12'][now[6] % 3]), **args)
    expected = model(moment, resolution, zone, dt(now), precision == 'seconds')
    same(got, expected, "%r (%s) in zone %r seen at %r" % (
        t, resolution, zone, now))
    if ',' not in got:
        note('all day' if resolution == 'day' else 'same day')
    else:
        note('other day')
    note.nontrivial(zone is not None or resolution == 'day')


def checkPresent(case, note):
    """
    Without a moment given, it is shown from the actual present.
    """
    away, resolution, zone, kind = case

    def present():
        return datetime.datetime.now(datetime.timezone.utc).replace(
            tzinfo=None)

    def fields(when):
        return (when.year, when.month, when.day, when.hour, when.minute,
                when.second, when.microsecond)
    before = present()
    moment = aligned(fields(before + TD(minutes=away)), resolution)
    got = make(moment, resolution).asHumanly(tzinfo(zone, kind))
    require(got in [model(moment, resolution, zone, now, False)
                    for now in (before, present())],
            "%r (%s) in zone %r seen at present (%r): %r",
            moment, resolution, zone, before, got)
    note.nontrivial()


@st.composite
def cases(draw):
    moment, resolution = draw(periods(1900, 9000))
    if draw(st.booleans()):
        resolution = draw(st.sampled_from(['day', 'min', 's', 'us']))
    anchor = dt(moment)
    near = draw(st.sampled_from(['same', 'hours', 'hours', 'days', 'year',
                                 'far']))
    if near == 'same':
        now = anchor
    elif near == 'hours':
        now = anchor + TD(minutes=draw(st.integers(-2000, 2000)))
    elif near == 'days':
        now = anchor + TD(days=draw(st.integers(-20, 20)))
    elif near == 'year':
        now = anchor + TD(days=draw(st.sampled_from([365, 366, -365, -366])))
    else:
        now = dt(draw(moments(1900, 9000)))
    now = (now.year, now.month, now.day, now.hour, now.minute, now.second,
           now.microsecond)
    return ((moment, resolution), draw(zonesWithNames()),
            draw(st.sampled_from([0, 1])), now,
            draw(st.sampled_from(['default', 'minutes', 'seconds', 'seconds',
                                  'default', 'bad'])))


SUBS = [Sub('display', cases, check, 5000, 60000,
            rule="an explicit zone or an all-day period"),
        Sub('present', lambda: st.tuples(
            st.integers(-3000, 3000), st.sampled_from(['day', 'min', 's']),
            zonesWithNames(), st.sampled_from([0, 1])), checkPresent,
            300, 3000, rule="every case")]
