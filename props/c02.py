"""
ISO 8601 text denotes the period the standard says, or is rejected.
"""
import calendar
from fractions import Fraction

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, offsets, start, toUTC, tzinfo, zonesWithNames)
from epsilon.extime import Time

RULE = ("Texts are assembled from the parts of the grammar, valid and "
        "invalid, with every choice of delimiters, and also mutated character "
        "by character; an independent hand-written reader is the oracle.")

REJECT = 'reject'
ANY = 'any'         # unspecified: leap seconds, 24:00, absurd zones


def digits(s, i, n):
    part = s[i:i + n]
    if len(part) == n and all(c in '0123456789' for c in part):
        return int(part)
    return None


def runLength(s, i):
    n = 0
    while i + n < len(s) and s[i + n] in '0123456789':
        n += 1
    return n


def read(s, zone):
    """
    The oracle: (naive UTC start, resolution, exact), REJECT or ANY.
    """
    year = digits(s, 0, 4)
    if year is None:
        return REJECT
    i = 4
    if i == len(s):
        return whole(year, None)
    rest = s[i:]
    if rest[0] == '-':
        rest = rest[1:]
    timePart = None
    if 'T' in rest:
        rest, timePart = rest.split('T', 1)
    # rest is the date after the year and its delimiter
    plain = rest.replace('-', '')
    if rest.startswith('W'):
        body = rest[1:]
        if len(body) == 2 and runLength(body, 0) == 2:
            form = 'week'
            fields = (int(body), 1)
        elif (len(body) in (3, 4) and runLength(body, 0) >= 2
              and body[2:].lstrip('-') == body[-1]
              and body[2:-1] in ('', '-') and body[-1] in '0123456789'):
            form = 'weekday'
            fields = (int(body[:2]), int(body[-1]))
        else:
            return REJECT
    elif plain and all(c in '0123456789' for c in plain):
        if rest == plain and len(rest) == 2:
            form = 'month'
            fields = (int(rest), 1)
        elif rest == plain and len(rest) == 3:
            form = 'ordinal'
            fields = (int(rest),)
        elif len(plain) == 4 and rest in (plain, plain[:2] + '-' + plain[2:]):
            form = 'day'
            fields = (int(plain[:2]), int(plain[2:]))
        else:
            return REJECT
    else:
        return REJECT
    if timePart is not None and form in ('month', 'week'):
        return REJECT

    clock = (0, 0, 0, Fraction(0))
    offset = 0
    resolution = {'month': None, 'week': TD(weeks=1)}.get(form, TD(days=1))
    exact = True
    special = False
    if timePart is not None:
        got = readTime(timePart)
        if got is REJECT:
            return REJECT
        clock, resolution, off, exact = got
        hour, minute, second, fraction = clock
        if hour > 24 or minute > 59 or second > 61:
            return REJECT
        if hour == 24 or second > 59:
            special = True
        if off is None:
            offset = zone or 0
        else:
            sign, oh, om = off
            if oh > 23 or om > 59:
                special = True
            offset = sign * (oh * 60 + om)

    if year < 1:
        return REJECT
    # does the date exist?
    if form == 'month' or form == 'day':
        month, day = fields
        if not 1 <= month <= 12 or not (
                1 <= day <= calendar.monthrange(year, month)[1]):
            return REJECT
        date = DT(year, month, day)
        if form == 'month':
            resolution = TD(days=calendar.monthrange(year, month)[1])
    elif form == 'ordinal':
        [n] = fields
        if not 1 <= n <= (366 if calendar.isleap(year) else 365):
            return REJECT
        date = DT(year, 1, 1) + TD(days=n - 1)
    else:
        week, weekday = fields
        if not 1 <= weekday <= 7 or not 1 <= week <= weeksIn(year):
            return REJECT
        # week 1 is the one with the year's first Thursday
        jan1 = DT(year, 1, 1)
        thursday = jan1 + TD(days=(3 - jan1.weekday()) % 7)
        try:
            date = thursday + TD(days=7 * (week - 1) + weekday - 4)
        except OverflowError:
            return REJECT
    if special:
        return ANY
    hour, minute, second, fraction = clock
    us = int(fraction * 1000000)
    try:
        value = (date + TD(hours=hour, minutes=minute, seconds=second,
                           microseconds=us) - TD(minutes=offset))
    except OverflowError:
        # It's in another year than the calendar has in UTC.
        return REJECT
    return value, resolution, exact


def whole(year, _):
    if year < 1:
        return REJECT
    return DT(year, 1, 1), TD(days=366 if calendar.isleap(year) else 365), True


def weeksIn(year):
    """
    A year has 53 weeks if it starts on a Thursday, or on a Wednesday and is
    a leap year.
    """
    first = calendar.weekday(year, 1, 1)
    if first == 3 or (first == 2 and calendar.isleap(year)):
        return 53
    return 52


def readTime(s):
    hour = digits(s, 0, 2)
    if hour is None:
        return REJECT
    values = [hour]
    i = 2
    resolution = TD(hours=1)
    for unit in (TD(minutes=1), TD(seconds=1)):
        j = i + 1 if s[i:i + 1] == ':' else i
        v = digits(s, j, 2)
        if v is None:
            break
        values.append(v)
        i = j + 2
        resolution = unit
    fraction = Fraction(0)
    exact = True
    if len(values) == 3 and s[i:i + 1] in ('.', ','):
        n = runLength(s, i + 1) if s[i:i + 1] else 0
        if n:
            fraction = Fraction(int(s[i + 1:i + 1 + n]), 10 ** n)
            resolution = (TD(microseconds=10 ** (6 - n)) if n <= 6
                          else TD(microseconds=1))
            exact = n <= 6
            i += 1 + n
    while len(values) < 3:
        values.append(0)
    tz = s[i:]
    if tz == '':
        off = None
    elif tz == 'Z':
        off = (1, 0, 0)
    elif tz[0] in '+-':
        oh = digits(tz, 1, 2)
        if oh is None:
            return REJECT
        rest = tz[3:]
        if rest == '':
            om = 0
        else:
            if rest[0] == ':':
                rest = rest[1:]
            if len(rest) != 2 or digits(rest, 0, 2) is None:
                return REJECT
            om = int(rest)
        off = (1 if tz[0] == '+' else -1, oh, om)
    else:
        return REJECT
    return tuple(values) + (fraction,), resolution, off, exact


def check(case, note):
    text, zone = case
    if isinstance(zone, str):
        expected = read(text, 0)
        if expected not in (REJECT, ANY) and expected != read(text, 60):
            # It depends on the zone.
            try:
                instant = toUTC(zone, expected[0])
            except OverflowError:
                expected = ANY
            else:
                if instant is None:
                    return
                expected = (instant,) + expected[1:]
                note('named zone')
    else:
        expected = read(text, zone)
    try:
        t = Time.fromISO8601TimeAndDate(text, tzinfo(zone))
    except ValueError as exc:
        if expected not in (REJECT, ANY):
            raise Violation("%r was rejected (%s), but denotes %r" % (
                text, exc, expected))
        note('rejected')
        note.nontrivial()
        return
    if expected is REJECT:
        raise Violation("%r is not a date and time, but was read as %r"
                        % (text, t))
    if expected is ANY:
        note('unspecified')
        return
    value, resolution, exact = expected
    got = start(t)
    if exact:
        same(got, value, "start of %r (default zone %r)" % (text, zone))
    else:
        require(abs(got - value) <= TD(microseconds=1),
                "start of %r: got %r, expected %r", text, got, value)
    same(t.resolution, resolution, "resolution of %r" % (text,))
    if resolution >= TD(days=1):
        # the zone is insignificant
        same(start(Time.fromISO8601TimeAndDate(text, tzinfo(-300))), value,
             "start of %r in another zone" % (text,))
    note('W' in text and 'week date' or 'T' in text and 'date and time'
         or 'date')
    note.nontrivial()


@st.composite
def texts(draw):
    careful = draw(st.sampled_from([True, True, True, False]))

    def num(n, good, bad):
        """
        Valid numbers of n digits, or sometimes invalid ones.
        """
        return (good if careful else st.one_of(good, good, bad)).map(
            lambda v: '%0*d' % (n, v))

    year = draw(st.one_of(
        st.integers(1970, 2040), st.integers(0, 9999),
        st.sampled_from([1970, 1, 9999]),
        # years with 53 weeks, leap years, centuries
        st.sampled_from([2004, 2009, 2015, 2020, 2026, 2000, 1900, 2100,
                         2005, 2008, 2010, 2012])))
    s = '%04d' % (year,)
    form = draw(st.sampled_from(
        ['year', 'month', 'week', 'day', 'day', 'weekday', 'weekday',
         'ordinal', 'ordinal']))
    sep = lambda c: draw(st.sampled_from([c, c, '']))
    if form == 'year':
        return s
    s += sep('-')
    month = draw(num(2, st.integers(1, 12), st.sampled_from([0, 13, 99])))
    week = draw(num(2, st.one_of(st.integers(1, 52), st.sampled_from(
        [1, 52, 53])), st.sampled_from([0, 54, 99])))
    if form == 'month':
        return s + month
    if form == 'week':
        return s + 'W' + week
    if form == 'day':
        s += month + sep('-') + draw(num(2, st.one_of(
            st.integers(1, 28), st.integers(28, 31)),
            st.sampled_from([0, 32])))
    elif form == 'weekday':
        s += 'W' + week + sep('-') + draw(num(1, st.integers(1, 7),
                                              st.sampled_from([0, 8, 9])))
    else:
        s += draw(num(3, st.one_of(st.integers(1, 365), st.sampled_from(
            [1, 59, 60, 61, 365, 366])), st.sampled_from([0, 366, 367, 999])))
    depth = draw(st.sampled_from([0, 1, 2, 3, 4, 4]))
    if depth == 0:
        return s
    s += 'T' + draw(num(2, st.integers(0, 23), st.sampled_from([25, 99])))
    if depth > 1:
        s += sep(':') + draw(num(2, st.integers(0, 59), st.just(60)))
    if depth > 2:
        s += sep(':') + draw(num(2, st.integers(0, 59), st.just(62)))
    if depth > 3:
        s += draw(st.sampled_from('.,')) + draw(st.one_of(
            st.text('0123456789', min_size=1, max_size=6),
            st.text('0123456789', min_size=1, max_size=9),
            st.sampled_from(['9999999', '999999', '0000004'])))
    zone = draw(st.sampled_from(['', 'Z', 'h', 'hm', 'hm']))
    if zone == 'Z':
        s += 'Z'
    elif zone:
        s += draw(st.sampled_from('+-')) + draw(
            num(2, st.integers(0, 14), st.integers(15, 23)))
        if zone == 'hm':
            s += sep(':') + draw(num(2, st.sampled_from(
                [0, 0, 15, 30, 45, 59, 1]), st.integers(0, 59)))
    return s


@st.composite
def months(draw):
    """
    Months and years whose lengths depend on rules for leap years.
    """
    year = draw(st.one_of(st.integers(1, 99).map(lambda n: n * 100),
                          st.integers(0, 9999), st.just(9999)))
    month = draw(st.sampled_from(['', '-02', '-02', '-01', '-03', '-12',
                                  '-04', '-11', '-366', '-365', '-02-29',
                                  '-060', '-W53', '-W53-1', '-W52-7']))
    return '%04d%s' % (year, month)


@st.composite
def fractions(draw):
    date = draw(st.sampled_from(['2004-02-29', '2004-366', '2004-W53-6',
                                 '20050101', '2005001', '2004W536']))
    return '%sT23:59:59%s%06d%s' % (
        date, draw(st.sampled_from('.,')), draw(st.integers(0, 999999)),
        draw(st.sampled_from(['', 'Z', '-03:30'])))


# Including digits of other scripts, which aren't those of the standard.
ALPHABET = '0123456789-:TWZ+., x\n\0\r_tz/\u2212\u0663\uff15\xb2'


@st.composite
def mutants(draw):
    s = draw(texts())
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(s)))
        op = draw(st.sampled_from(['insert', 'delete', 'replace', 'cut']))
        c = draw(st.sampled_from(ALPHABET))
        if op == 'insert':
            s = s[:i] + c + s[i:]
        elif op == 'delete':
            s = s[:i] + s[i + 1:]
        elif op == 'replace':
            s = s[:i] + c + s[i + 1:]
        else:
            s = s[:i]
    return s + draw(st.sampled_from([''] * 9 + ['\n', ' ', '\0']))


def defaults():
    return st.one_of(st.none(), zonesWithNames(), offsets())


SUBS = [
    Sub('grammar', lambda: st.tuples(texts(), defaults()), check, 5000, 60000,
        rule="the text denotes a period, or must be rejected",
        examples=[(t, None) for t in [
            '2004', '2004-03', '2004-W53', '2005-W53', '2004-366', '2005-366',
            '2004-W53-7', '2009-W01-1', '2004-02-29', '2005-02-29',
            '2004-12-06T14:15:16.123-05:30', '2004-12-06T14-00:30',
            '20041206T141516,9999999+0530', '2008-W01-1', '2010-W53-7',
            '2004-W54-1', '2004-W00-1', '2004-W10-8', '2004-000',
            '2004\n', '2004-03-01\n', '2004-03-01T10:00\n',
            '\n2004', '\uff12004', '2004-0\u0663', '2004-W0\u0661-1',
            '2004-03-01T1\u0660', '2004-03-01T10:00:00.\u0665',
            '9999', '9999-12', '9999-W52', '9999-W53', '9999-W52-5',
            '9999-W52-6', '9999-366', '0001', '0001-W01', '0000', '0000-W01',
            '9999-12-31T23:59-00:01', '0001-01-01T00:00+00:01',
            '2004-03-01T10+0\u0661', '2004-03-01T10:00:00+0\u0661']] +
        [('2004-12-06T14:15:16', -210), ('2004-12-06T14', 345),
         ('2004-12-06', -210), ('2004-12-06T14Z', 60)]),
    Sub('months', lambda: st.tuples(months(), st.none()), check, 400, 4000,
        rule="every case"),
    Sub('fractions', lambda: st.tuples(fractions(), st.none()), check, 800,
        10000, rule="every case"),
    Sub('mutants', lambda: st.tuples(mutants(), defaults()), check, 3000,
        60000, rule="the text denotes a period, or must be rejected"),
]
