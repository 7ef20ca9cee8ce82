"""
Every format with a constructor and a formatter is an inverse pair.
"""
import copy
import datetime
import pickle

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.timelib import (
    DT, TD, make, moments, offsetAt, periods, start, tzinfo, wholeMinutes,
    zones, zonesWithNames, dt, toUTC)
from epsilon import extime
from epsilon.extime import FixedOffset, Time

RULE = ("Moments between years 2 and 9998, biased to calendar edges, in zones "
        "at any whole-minute offset or with DST.")
EPOCH = DT(1970, 1, 1)


def checkDatetime(case, note):
    moment, zone, kind, out = case
    naive = dt(moment)
    tz = tzinfo(zone, kind)
    if zone is None:
        utc = naive
        t = Time.fromDatetime(naive)
    elif isinstance(zone, str):
        utc = naive
        aware = naive.replace(tzinfo=datetime.timezone.utc).astimezone(tz)
        t = Time.fromDatetime(aware)
        note('aware input, of a named zone')
    else:
        utc = naive - TD(minutes=zone)
        t = Time.fromDatetime(naive.replace(tzinfo=tz))
        note('aware input')
    same(start(t), utc, "instant of fromDatetime")
    outTZ = tzinfo(out, kind)
    got = t.asDatetime(outTZ)
    require(got.tzinfo is not None, "asDatetime returned a naive datetime")
    off = offsetAt(out, utc)
    same(got.utcoffset(), off, "utcoffset of asDatetime(%r)" % (out,))
    same(got.replace(tzinfo=None), utc + off, "wall clock of asDatetime")
    same(t.asNaiveDatetime(outTZ), utc + off, "asNaiveDatetime")
    require(Time.fromDatetime(got) == t, "fromDatetime(asDatetime) != t")
    if isinstance(got.tzname(), str):
        note('tzname')
    require(got.tzname() is None or isinstance(got.tzname(), str),
            "tzname is not a string: %r", got.tzname())
    note.nontrivial(zone is not None or out is not None)


def checkOffset(case, note):
    hours, minutes, moment = case
    tz = FixedOffset(hours, minutes)
    total = hours * 60 + minutes
    standard = datetime.timezone(TD(minutes=total))
    naive = dt(moment)
    mine, theirs = naive.replace(tzinfo=tz), naive.replace(tzinfo=standard)
    same(mine.utcoffset(), TD(minutes=total), "utcoffset")
    same(mine.dst(), TD(0), "dst")
    same(mine.tzname(), '%s%02d:%02d' % (('-' if total < 0 else '+',) +
                                         divmod(abs(total), 60)), "tzname")
    same(mine.strftime('%Y-%m-%dT%H:%M:%S%z'),
         theirs.strftime('%Y-%m-%dT%H:%M:%S%z'), "strftime")
    require(mine == theirs and hash(mine) == hash(theirs),
            "%r isn't %r", mine, theirs)
    same(theirs.astimezone(tz).replace(tzinfo=None), naive, "astimezone")
    same(mine.timestamp(), theirs.timestamp(), "timestamp")
    repr(tz)
    note.nontrivial(minutes < 0 or hours < 0)


def checkPOSIX(case, note):
    kind, value = case
    if kind == 'int':
        ts = value
        expected = EPOCH + TD(seconds=value)
        back = value
    else:
        seconds, us = value
        ts = seconds + us / 1e6
        expected = EPOCH + TD(seconds=seconds, microseconds=us)
        back = ts
    t = Time.fromPOSIXTimestamp(ts)
    same(start(t), expected, "instant of fromPOSIXTimestamp(%r)" % (ts,))
    require(TD() <= t.resolution <= TD.resolution,
            "resolution of fromPOSIXTimestamp: %r", t.resolution)
    got = t.asPOSIXTimestamp()
    if kind == 'int':
        require(got == back, "asPOSIXTimestamp: got %r, expected %r", got, back)
    else:
        require(abs(got - back) < 1e-6, "asPOSIXTimestamp: got %r, expected %r",
                got, back)
    require(Time.fromPOSIXTimestamp(got) == t, "POSIX round trip of %r", ts)
    note.nontrivial(ts < 0 or kind == 'float')
    note('before the epoch' if ts < 0 else 'after the epoch')


def checkStruct(case, note):
    moment, zone, kind, rest = case
    utc = dt(moment).replace(microsecond=0)
    if toUTC(zone, utc + offsetAt(zone, utc)) is None:
        return                      # the clock shows that time twice
    t = Time.fromDatetime(dt(moment))
    tz = tzinfo(zone, kind)
    st_ = t.asStructTime(tz)
    local = utc + offsetAt(zone, utc)
    same(tuple(st_)[:6], (local.year, local.month, local.day, local.hour,
                          local.minute, local.second), "asStructTime")
    same(tuple(st_)[6:8], (local.weekday(), local.timetuple().tm_yday),
         "weekday and day of year of asStructTime")
    back = Time.fromStructTime(st_, tz)
    same(start(back), utc, "fromStructTime(asStructTime)")
    # The day of the week, that of the year and the DST flag mean nothing.
    same(start(Time.fromStructTime(tuple(st_)[:6] + rest, tz)), utc,
         "fromStructTime of a plain tuple")
    require(back.resolution == TD(seconds=1), "resolution of fromStructTime")
    if not moment[6]:
        require(back == t, "struct_time round trip")
    note.nontrivial(zone not in (None, 0))


def checkISO(case, note):
    (moment, resolution), zone, kind, delimiters, includeTZ = case
    t = make(moment, resolution)
    utc = dt(moment)
    if not wholeMinutes(zone, utc):
        return                      # local mean time; the format has minutes
    tz = tzinfo(zone, kind)
    if not includeTZ and toUTC(zone, utc + offsetAt(zone, utc)) is None:
        includeTZ = True            # the clock shows that time twice
    text = t.asISO8601TimeAndDate(includeDelimiters=delimiters, tzinfo=tz,
                                  includeTimezone=includeTZ)
    require(isinstance(text, str), "not a string: %r", text)
    back = Time.fromISO8601TimeAndDate(text, tz if not includeTZ else None)
    require(back == t, "%r (%s), formatted in zone %r as %r, is read as %r",
            t, resolution, zone, text, back)
    if not delimiters:
        require(':' not in text and '-' not in text[:8],
                "delimiters in %r", text)
    if t.isTimezoneDependent() and includeTZ and zone is not None:
        # an explicit timezone overrides the parameter
        other = Time.fromISO8601TimeAndDate(text, tzinfo(123, 0))
        require(other == t, "explicit zone of %r did not override tzinfo", text)
        # and it names the zone asked for
        off = int(offsetAt(zone, utc).total_seconds()) // 60
        sep = ':' if delimiters else ''
        suffix = '%s%02d%s%02d' % ('-' if off < 0 else '+', abs(off) // 60,
                                   sep, abs(off) % 60)
        require(text.endswith(suffix), "%r does not end with %r", text, suffix)
    if zone is None and delimiters:
        same(str(t), t.asISO8601TimeAndDate(), "str()")
    note(resolution)
    note.nontrivial(zone is not None or resolution not in ('us', 's'))


def checkRFC(case, note):
    moment, zone, kind, dow = case
    utc = dt(moment)
    if not wholeMinutes(zone, utc):
        return
    t = Time.fromDatetime(utc)
    text = t.asRFC2822(tzinfo(zone, kind), includeDayOfWeek=dow)
    back = Time.fromRFC2822(text)
    require(back == t, "%r, formatted as %r, is read as %r", t, text, back)
    text = t.asRFC1123()
    require(text.endswith(' GMT'), "asRFC1123 is not in GMT: %r", text)
    back = Time.fromRFC2822(text)
    require(back == t, "%r, formatted as %r, is read as %r", t, text, back)
    note.nontrivial(zone is not None)


class Special(Time):
    pass


def checkCopies(case, note):
    """
    Times, and the datetimes made of them, can be copied, pickled and shown;
    the readers make instances of the class they are called on.
    """
    (moment, resolution), zone, protocol, special = case
    t = make(moment, resolution)
    kept = start(t), t.resolution
    for other in (copy.copy(t), copy.deepcopy(t),
                  pickle.loads(pickle.dumps(t, protocol))):
        require(type(other) is Time and other == t, "copy of %r: %r", t, other)
        same((start(other), other.resolution), kept, "copied period")
    for tz in [None] if zone is None else [
            None, FixedOffset(0, zone), FixedOffset(*divmod(zone, 60))]:
        when = t.asDatetime(tz)
        for other in (copy.deepcopy(when), pickle.loads(pickle.dumps(
                when, protocol))):
            require(other == when and other.utcoffset() == when.utcoffset(),
                    "copy of %r: %r", when, other)
            same(other.replace(tzinfo=None), when.replace(tzinfo=None),
                 "copied clock")
            same(other.tzname(), when.tzname(), "name of the copied timezone")
            same(Time.fromDatetime(other), Time.fromDatetime(when),
                 "Time from a copied datetime")
    shown = eval(repr(t), dict(extime=extime, datetime=datetime))
    same(shown, t, "Time from its repr")
    plain = Time.fromDatetime(start(t).replace(microsecond=0))
    for made in (Special.fromDatetime(plain.asDatetime()),
                 Special.fromPOSIXTimestamp(plain.asPOSIXTimestamp()),
                 Special.fromISO8601TimeAndDate(plain.asISO8601TimeAndDate()),
                 # Short years mean something else in this format.
                 Special.fromRFC2822(plain.asRFC2822())
                 if start(t).year > 1900 else Special.fromDatetime(start(plain)),
                 Special.fromStructTime(plain.asStructTime())):
        same(type(made), Special, "class of what was read")
        same(start(made), start(plain), "what was read")
        require(made == plain and not made != plain, "%r isn't %r", made,
                plain)
    made = Special.fromHumanly(special, now=plain)
    same(type(made), Special, "class of what was read")
    same(start(made), start(Time.fromHumanly(special, now=plain)),
         "what was read")
    note.nontrivial(zone is not None or resolution not in ('us', 's'))


SUBS = [
    Sub('copies', lambda: st.tuples(
        periods(), st.one_of(st.none(), st.integers(-1439, 1439)),
        st.integers(0, pickle.HIGHEST_PROTOCOL),
        st.sampled_from(['monday', 'today', '7:15 pm', 'noon'])),
        checkCopies, 400, 4000, rule="a timezone or a period"),
    Sub('datetime',
        lambda: st.tuples(moments(3, 9997), st.one_of(
            zones(), zones(), zonesWithNames()), st.sampled_from([0, 1]),
                          zonesWithNames()),
        checkDatetime, 1500, 15000,
        rule="a zone other than the default on input or output",
        examples=[((2004, 12, 6, 14, 15, 16, 0), -210, 0, 330)]),
    Sub('offset',
        lambda: st.tuples(st.integers(-12, 14), st.integers(-59, 59),
                          moments(3, 9997)),
        checkOffset, 400, 4000, rule="west of Greenwich"),
    Sub('posix',
        lambda: st.one_of(
            st.tuples(st.just('int'), st.one_of(
                st.integers(-10 ** 9, 2 ** 33),
                st.integers(-62000000000, 253000000000))),
            st.tuples(st.just('float'), st.tuples(
                st.integers(-2 ** 32, 2 ** 32), st.integers(0, 999999)))),
        checkPOSIX, 1000, 10000,
        rule="a fraction or a time before the epoch"),
    Sub('struct',
        lambda: st.tuples(moments(3, 9997), zonesWithNames(),
                          st.sampled_from([0, 1]), st.tuples(
                              st.integers(0, 6), st.integers(0, 366),
                              st.sampled_from([-1, 0, 1]))),
        checkStruct, 800, 8000, rule="an offset from UTC"),
    Sub('iso',
        lambda: st.tuples(periods(), zonesWithNames(), st.sampled_from([0, 1]),
                          st.booleans(), st.booleans()),
        checkISO, 3000, 30000,
        rule="a zone, or a resolution other than seconds or microseconds",
        examples=[(((2004, 3, 8, 0, 0, 0, 0), 'week'), None, 0, True, True),
                  (((2004, 3, 8, 10, 0, 0, 0), 'h'), 330, 0, True, True),
                  (((2004, 3, 8, 10, 0, 0, 10000), 'ms'), None, 0, True, True),
                  (((2004, 3, 8, 10, 0, 0, 0), 's'), -210, 0, True, True),
                  (((2004, 3, 8, 10, 0, 0, 0), 's'), -30, 0, False, True)]),
    Sub('rfc',
        lambda: st.tuples(moments(1901, 9997, fraction=False),
                          zonesWithNames(), st.sampled_from([0, 1]),
                          st.booleans()),
        checkRFC, 1500, 15000, rule="an explicit zone"),
]
