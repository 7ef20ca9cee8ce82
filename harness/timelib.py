"""
Generators and independent oracles for the date and time properties.  A moment
is a tuple of the arguments of datetime.datetime; a zone is None, a number of
minutes east of UTC, or the name of a pytz or zoneinfo zone.
"""
import calendar
import datetime

from hypothesis import strategies as st

TD = datetime.timedelta
DT = datetime.datetime

ZONES = ['US/Eastern', 'Europe/Berlin', 'Australia/Lord_Howe', 'Asia/Kolkata',
         'America/St_Johns', 'zoneinfo/US/Eastern',
         'zoneinfo/Australia/Lord_Howe']

# name -> length, of the resolutions the documented constructors produce and of
# others which may be set
RESOLUTIONS = dict([
    ('instant', TD(0)), ('us', TD(microseconds=1)), ('ms', TD(milliseconds=1)),
    ('s', TD(seconds=1)), ('min', TD(minutes=1)), ('h', TD(hours=1)),
    ('day', TD(days=1)), ('week', TD(weeks=1)), ('m28', TD(days=28)),
    ('m30', TD(days=30)), ('m31', TD(days=31)), ('y365', TD(days=365)),
    ('y366', TD(days=366)), ('h2', TD(hours=2)), ('h12', TD(hours=12)),
    ('h23', TD(hours=23)), ('d1h', TD(hours=25)), ('d2', TD(days=2))])


_ZONEINFO = {}


def dt(moment):
    return DT(*moment)


# UTC times from which clocks in some of ZONES show an hour, or half of one,
# twice or not at all
TRANSITIONS = [(2021, 11, 7, 5), (2006, 10, 29, 5), (2021, 3, 14, 6),
               (2021, 4, 3, 14), (2021, 10, 2, 15), (2019, 10, 27, 0),
               (2006, 4, 2, 4), (2010, 11, 7, 3)]


@st.composite
def moments(draw, minYear=2, maxYear=9998, seconds=True, fraction=True):
    if minYear <= 2006 and maxYear >= 2021 and not draw(st.integers(0, 11)):
        y, mo, d, h = draw(st.sampled_from(TRANSITIONS))
        return (y, mo, d, h + draw(st.integers(0, 2)),
                draw(st.sampled_from([0, 1, 29, 30, 31, 45, 59])),
                draw(st.sampled_from([0, 1, 59])) if seconds else 0,
                draw(st.sampled_from([0, 1, 1000])) if fraction else 0)
    year = draw(st.one_of(
        st.integers(max(minYear, 1900), min(maxYear, 2100)),
        st.integers(minYear, maxYear),
        st.sampled_from([y for y in (1970, 1999, 2000, 2004, 2005, 2020, 2100,
                                     1900, minYear, maxYear)
                         if minYear <= y <= maxYear])))
    month = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 12])))
    last = calendar.monthrange(year, month)[1]
    day = draw(st.one_of(st.integers(1, last), st.sampled_from([1, last])))
    hour = draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 11, 12, 23])))
    minute = draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 30, 59])))
    second = draw(st.one_of(st.just(0), st.integers(0, 59)))  if seconds else 0
    us = draw(st.one_of(
        st.just(0), st.integers(0, 999999),
        st.integers(0, 999).map(lambda n: n * 1000),
        st.sampled_from([1, 10, 999999, 500000]))) if fraction else 0
    return (year, month, day, hour, minute, second, us)


def offsets():
    """
    Whole-minute offsets, any that the standard library accepts, but mostly
    those found on this planet.
    """
    return st.one_of(
        st.sampled_from([0, 60, -60, 330, -210, 345, 570, -30, 30, 840, -720,
                         -570, 765]),
        st.integers(-840, 840),
        st.integers(-1439, 1439))


def zones():
    return st.one_of(st.none(), offsets())


def zonesWithNames():
    return st.one_of(st.none(), offsets(), st.sampled_from(ZONES))


def tzinfo(zone, kind=0):
    """
    @param kind: 0 for epsilon's own FixedOffset, 1 for the standard library's.
    """
    if zone is None:
        return None
    if isinstance(zone, str):
        import pytz
        if zone.startswith('zoneinfo/'):
            if zone not in _ZONEINFO:
                import zoneinfo
                with pytz.open_resource(zone[9:]) as f:
                    _ZONEINFO[zone] = zoneinfo.ZoneInfo.from_file(f, zone)
            return _ZONEINFO[zone]
        return pytz.timezone(zone)
    if kind:
        return datetime.timezone(TD(minutes=zone))
    from epsilon.extime import FixedOffset
    sign = -1 if zone < 0 else 1
    return FixedOffset(sign * (abs(zone) // 60), sign * (abs(zone) % 60))


def offsetAt(zone, naiveUTC):
    """
    The offset of a zone at a UTC instant, by a second route.
    """
    if zone is None:
        return TD(0)
    if isinstance(zone, str):
        import pytz
        return pytz.utc.localize(naiveUTC).astimezone(
            tzinfo(zone)).utcoffset()
    return TD(minutes=zone)


def toUTC(zone, local):
    """
    The UTC instant at which a zone's clock shows a time; None if it never
    does, or does so twice.
    """
    found = set()
    for hours in (-48, -3, 0, 3, 48):
        utc = local - offsetAt(zone, local + TD(hours=hours))
        if utc + offsetAt(zone, utc) == local:
            found.add(utc)
    if len(found) == 1:
        return found.pop()
    return None


def wholeMinutes(zone, naiveUTC):
    return offsetAt(zone, naiveUTC).total_seconds() % 60 == 0


def make(moment, resolution=None):
    from epsilon.extime import Time
    t = Time.fromDatetime(dt(moment))
    if resolution is not None:
        t.resolution = RESOLUTIONS[resolution]
    return t


def start(t):
    """
    The start of the period a Time addresses, as a naive UTC datetime.
    """
    return t.asNaiveDatetime()


def aligned(moment, resolution):
    """
    Move a moment to the start of the unit, for those units for which the
    constructors only ever produce aligned starts.
    """
    y, mo, d, h, mi, s, us = moment
    if resolution == 'ms':
        return (y, mo, d, h, mi, s, us // 1000 * 1000)
    if resolution == 's':
        return (y, mo, d, h, mi, s, 0)
    if resolution == 'min':
        return (y, mo, d, h, mi, 0, 0)
    if resolution in ('h', 'h2', 'h12', 'h23'):
        return (y, mo, d, h, 0, 0, 0)
    if resolution in ('day', 'd1h', 'd2'):
        return (y, mo, d, 0, 0, 0, 0)
    if resolution == 'week':
        monday = DT(y, mo, d) - TD(days=DT(y, mo, d).weekday())
        return (monday.year, monday.month, monday.day, 0, 0, 0, 0)
    if resolution in ('m28', 'm30', 'm31'):
        return (y, mo, 1, 0, 0, 0, 0)
    if resolution in ('y365', 'y366'):
        return (y, 1, 1, 0, 0, 0, 0)
    return moment


@st.composite
def periods(draw, minYear=3, maxYear=9997):
    """
    (moment, resolution name) pairs.
    """
    moment = draw(moments(minYear, maxYear))
    resolution = draw(st.sampled_from(sorted(RESOLUTIONS)))
    if resolution not in ('instant', 'us'):
        moment = aligned(moment, resolution)
    return (moment, resolution)
