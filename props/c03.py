"""
RFC 2822 / RFC 1123 dates.
"""
import calendar
import email.utils

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, dt, moments, offsetAt, start, toUTC, tzinfo, wholeMinutes,
    zonesWithNames, periods, make)
from epsilon.extime import Time, sanitizeStructTime

RULE = ("Date headers assembled from the RFC 2822 grammar (optional weekday, "
        "optional seconds, numeric and obsolete zones), with out-of-range "
        "values, and mutated headers; formatted dates are read back by the "
        "standard library's email package.")

MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DAYS = 'Mon Tue Wed Thu Fri Sat Sun'.split()
NAMED = dict(UT=0, UTC=0, GMT=0, Z=0, EST=-300, EDT=-240, CST=-360, CDT=-300,
             MST=-420, MDT=-360, PST=-480, PDT=-420)


def render(case):
    (y, mo, d, h, mi, s), seconds, dow, zone, pad = case
    text = ''
    if dow is not None:
        text += DAYS[dow] + ', '
    text += ('%02d' if pad else '%d') % (d,)
    text += ' %s %04d %02d:%02d' % (MONTHS[mo - 1], y, h, mi)
    if seconds:
        text += ':%02d' % (s,)
    if isinstance(zone, str):
        text += ' ' + zone
    else:
        text += ' %s%02d%02d' % ('-' if zone < 0 else '+', abs(zone) // 60,
                                 abs(zone) % 60)
    return text


def closest(fields):
    """
    The valid date and time closest to possibly invalid fields, unit by unit.
    """
    y, mo, d, h, mi, s = fields
    y = min(max(y, 1), 9999)
    mo = min(max(mo, 1), 12)
    d = min(max(d, 1), calendar.monthrange(y, mo)[1])
    return (y, mo, d, min(max(h, 0), 23), min(max(mi, 0), 59),
            min(max(s, 0), 59))


def checkParse(case, note):
    fields, seconds, dow, zone, pad = case
    text = render(case)
    if not seconds:
        fields = fields[:5] + (0,)
    minutes = NAMED[zone] if isinstance(zone, str) else zone
    expected = DT(*closest(fields)) - TD(minutes=minutes)
    try:
        t = Time.fromRFC2822(text)
    except ValueError as exc:
        raise Violation("%r was rejected: %s" % (text, exc))
    same(start(t), expected, "instant of %r" % (text,))
    same(t.resolution, TD(seconds=1), "resolution of %r" % (text,))
    if closest(fields) != fields:
        note('out of range')
    note.nontrivial(minutes != 0 or closest(fields) != fields)


def checkSanitize(case, note):
    fields, rest = case
    got = sanitizeStructTime(fields + rest)
    same(tuple(got), closest(fields) + rest, "sanitizeStructTime(%r)"
         % (fields + rest,))
    note.nontrivial(closest(fields) != fields)


def checkReject(case, note):
    """
    Whatever the text, it is read or rejected with ValueError.
    """
    try:
        t = Time.fromRFC2822(case)
    except ValueError:
        note('rejected')
        note.nontrivial()
        return
    require(isinstance(t, Time), "fromRFC2822 returned %r", t)
    oracle = email.utils.parsedate_tz(case)
    require(oracle is not None,
            "%r is not an RFC 2822 date, but was read as %r", case, t)
    try:
        expected = DT(*closest(oracle[:6])) - TD(
            minutes=(oracle[9] or 0) // 60)
    except OverflowError:
        raise Violation("%r is out of range, but was read as %r" % (case, t))
    same(start(t), expected, "instant of %r" % (case,))
    note('accepted')
    note.nontrivial()


def checkFormat(case, note):
    (moment, resolution), zone, kind, dow = case
    t = make(moment, resolution)
    utc = dt(moment)
    if not wholeMinutes(zone, utc):
        return
    text = t.asRFC2822(tzinfo(zone, kind), dow)
    if t.isTimezoneDependent():
        local = (utc + offsetAt(zone, utc)).replace(microsecond=0)
        off = offsetAt(zone, utc)
    else:
        # all-day periods and longer are the same date in every zone
        local = utc.replace(microsecond=0)
        # which may begin twice, or not at all, there
        there = toUTC(zone, utc)
        off = None if there is None else utc - there
        if off is not None and off.total_seconds() % 60:
            return
    parsed = email.utils.parsedate_tz(text)
    require(parsed is not None, "not an RFC 2822 date: %r", text)
    same(tuple(parsed[:6]), local.timetuple()[:6], "wall clock in %r" % (text,))
    if zone is None:
        require(text.endswith(' -0000'), "%r should end with -0000", text)
    elif off is not None:
        same(parsed[9], int(off.total_seconds()), "zone of %r" % (text,))
    if dow:
        require(text.startswith(DAYS[local.weekday()] + ', '),
                "wrong day of the week in %r", text)
    else:
        require(text[0] in '0123456789', "unexpected weekday in %r", text)
    text = t.asRFC1123()
    same(text, email.utils.format_datetime(
        utc.replace(microsecond=0, tzinfo=__import__('datetime').timezone.utc),
        usegmt=True), "asRFC1123")
    note.nontrivial(zone is not None)


def headers(careful=True):
    hour, minute = st.integers(0, 23), st.integers(0, 59)
    day = st.one_of(st.integers(1, 28), st.integers(29, 31))
    if not careful:
        hour = st.one_of(hour, st.integers(24, 99))
        minute = st.one_of(minute, st.integers(60, 99))
        day = st.one_of(day, st.integers(0, 99))
    year = st.one_of(st.integers(1990, 2040), st.integers(1000, 9998),
                     st.sampled_from([2000, 2004, 2100, 1900]))
    zone = st.one_of(
        st.sampled_from([0, 60, -60, 330, -210, -30, 30, 765, -570, 840]),
        st.integers(-1439, 1439),
        st.sampled_from(sorted(set(NAMED) - {'UTC', 'Z'})))
    return st.tuples(
        st.tuples(year, st.integers(1, 12), day, hour, minute, minute),
        st.booleans(), st.one_of(st.none(), st.integers(0, 6)), zone,
        st.booleans())


@st.composite
def mutants(draw):
    s = render(draw(headers()))
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(s)))
        op = draw(st.sampled_from(['insert', 'delete', 'replace', 'cut',
                                   'word']))
        c = draw(st.sampled_from('0123456789:+-, .JanZ()\n\t\0"\u0663'))
        c *= draw(st.sampled_from([1] * 8 + [2, 5, 10, 20]))
        if op == 'insert':
            s = s[:i] + c + s[i:]
        elif op == 'delete':
            s = s[:i] + s[i + 1:]
        elif op == 'replace':
            s = s[:i] + c + s[i + 1:]
        elif op == 'cut':
            s = s[:i]
        else:
            words = s.split(' ')
            del words[min(i, len(words) - 1)]
            s = ' '.join(words)
    return s


SUBS = [
    Sub('parse', headers, checkParse, 2500, 25000,
        rule="a zone other than UTC, or values out of range",
        examples=[((2004, 12, 6, 14, 15, 16), True, None, -210, False),
                  ]),
    Sub('clamp', lambda: headers(False), checkParse, 2500, 25000,
        rule="a zone other than UTC, or values out of range",
        examples=[((2005, 2, 30, 0, 0, 0), True, None, 0, False),
                  ((2005, 2, 29, 24, 60, 61), True, None, -210, False),
                  ((2005, 4, 31, 23, 59, 61), True, None, 60, False)]),
    Sub('sanitize',
        lambda: st.tuples(
            st.tuples(*[st.one_of(st.integers(-5, 70), st.integers(-10, 10500))
                        ] * 6),
            st.sampled_from([(), (0, 0, 0), (1, 2, 3, 3600)])),
        checkSanitize, 1000, 10000, rule="some value is out of range",
        examples=[((2004, 2, 30, 0, 0, 0), (0, 1, -1))]),
    Sub('mutants', mutants, checkReject, 2000, 30000,
        rule="the text was read or rejected",
        examples=['1 Jan 2000 00:00:00 +9999999999',
                  '1 Jan 2000 00:00:00 -%s' % ('9' * 40,),
                  '1 Jan 0001 00:00:00 +0100', '31 Dec 9999 23:59:59 -0001',
                  '1 Jan %s 00:00:00 -0100' % ('9' * 30,),
                  '31 Dec 9999 23:59:59', '%s Jan 2000 00:00' % ('3' * 30,)]),
    Sub('format',
        lambda: st.tuples(periods(1901, 9997), zonesWithNames(),
                          st.sampled_from([0, 1]), st.booleans()),
        checkFormat, 2000, 20000, rule="an explicit zone",
        examples=[(((y, 12, 31, 23, 59, 59, 999999), 'us'), None, 0, True)
                  for y in (1901, 1969, 1999, 2300, 5000, 9997)]),
]
