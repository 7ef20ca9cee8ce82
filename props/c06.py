"""
Time.fromHumanly
"""
from hypothesis import strategies as st

import datetime

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, dt, make, moments, offsetAt, offsets, start, toUTC, tzinfo,
    zonesWithNames)
from epsilon.extime import Time

RULE = ("Every phrase of the documented vocabulary in random case and "
        "spacing, at random moments biased to midnight, noon and the end of "
        "months and years, in zones at any whole-minute offset or with DST, "
        "also shortly before it begins or ends; and phrases "
        "outside of the vocabulary.")

# of what is given as the present
RESOLUTION = dict(weekday='week', day='y366', now='day', clock='h',
                  noon='min')

DAYS = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday',
        'sunday']


def model(words, zone, now):
    """
    @return: (start, resolution) or None for phrases which mean nothing.
    """
    kind = words[0]
    midnight = DT(now.year, now.month, now.day)
    day, minute = TD(days=1), TD(minutes=1)
    if kind == 'weekday':
        ahead = 1
        while (midnight + ahead * day).weekday() != words[2]:
            ahead += 1
        return midnight + ahead * day, day
    if kind == 'day':
        return midnight + {'yesterday': -day, 'today': 0 * day,
                           'tomorrow': day}[words[1]], day
    if kind == 'now':
        return now, None
    local = now + offsetAt(zone, now)
    if kind == 'clock':
        h, m, ampm = words[1:]
        if m > 59 or h > 23:
            return None
        if ampm is not None:
            if not 1 <= h <= 12:
                return None
            h = h % 12 + (12 if ampm == 'pm' else 0)
        earliest = local.replace(second=0, microsecond=0)
    else:
        h, m = {'noon': (12, 0), 'midnight': (0, 0)}[words[1]]
        earliest = local.replace(minute=0, second=0, microsecond=0)
    then = DT(local.year, local.month, local.day, h, m)
    if then < earliest:
        then += day
    return toUTC(zone, then), minute


SPACES = ['', ' ', '  ', '\t', '\n', ' \r\n']


def render(words, style):
    upper, before, between, after, zero = style
    kind = words[0]
    if kind == 'weekday':
        text = (words[1] + ' ' * max(1, between) if words[1] else '') \
            + DAYS[words[2]]
    elif kind == 'clock':
        h, m, ampm = words[1:]
        text = ('%02d:%02d' if zero else '%d:%02d') % (h, m)
        if ampm is not None:
            text += ' ' * between + ampm
    elif kind == 'now':
        text = 'now'
    else:
        text = words[1]
    text = ''.join(c.upper() if upper >> (i % 8) & 1 else c
                   for i, c in enumerate(text))
    return SPACES[before] + text + SPACES[after]


def check(case, note):
    words, style, zone, moment = case
    now = dt(moment)
    text = render(words, style)
    expected = model(words, zone, now)
    # Of a period, its start counts.
    nowTime = make(moment, RESOLUTION[words[0]])
    try:
        t = Time.fromHumanly(text, tzinfo(zone), nowTime)
    except ValueError as exc:
        if expected is not None:
            raise Violation("%r at %r was rejected: %s" % (text, now, exc))
        note('rejected')
        note.nontrivial()
        return
    if expected is None:
        raise Violation("%r is not a time of day, but was read as %r"
                        % (text, t))
    if expected[0] is None or toUTC(zone, now + offsetAt(zone, now)) is None:
        return                      # the clock is being changed
    same(start(t), expected[0], "%r at %r in zone %r" % (text, now, zone))
    if expected[1] is None:
        require(t.resolution <= TD(microseconds=1), "resolution of 'now': %r",
                t.resolution)
    else:
        same(t.resolution, expected[1], "resolution of %r" % (text,))
    same(start(nowTime), now, "the moment given as now, afterwards")
    note(words[0])
    note.nontrivial(words[0] != 'now')


def checkNonsense(case, note):
    text, moment = case
    try:
        t = Time.fromHumanly(text, None, make(moment))
    except ValueError:
        note.nontrivial()
        return
    raise Violation("%r means nothing, but was read as %r" % (text, t))


def checkPresent(case, note):
    """
    Without a moment given, it is the actual present.
    """
    words, style, zone = case
    text = render(words, style)

    def present():
        return datetime.datetime.now(datetime.timezone.utc).replace(
            tzinfo=None)
    before = present()
    created = start(Time())
    t = Time.fromHumanly(text, tzinfo(zone))
    after = present()
    require(before <= created <= after, "Time() between %r and %r: %r",
            before, after, created)
    if words[0] == 'now':
        require(before <= start(t) <= after, "now: %r", t)
    else:
        require(start(t) in [model(words, zone, before)[0],
                             model(words, zone, after)[0]] or
                isinstance(zone, str),
                "%r at %r in zone %r: %r", text, before, zone, t)
    note.nontrivial()


LOOKALIKES = [('s', '\u017f'), ('i', '\u0131'), ('i', '\u0130'),
              ('1', '\u0661'), ('3', '\uff13'), ('o', '\u043e'),
              ('a', '\u0430'), (':', '\uff1a'), ('k', '\u212a')]


def lookalike(text, n):
    """
    Replace one of the letters which can be.
    """
    possible = [(a, b) for a, b in LOOKALIKES if a in text.lower()]
    if not possible:
        return text
    a, b = possible[n % len(possible)]
    return text.lower().replace(a, b, 1)


def nonsense():
    vocabulary = ['monday', 'today', 'noon', 'now', '12:30', '3:15 pm', 'next',
                  'this', 'am']
    return st.one_of(
        # two phrases are not a phrase
        st.tuples(st.sampled_from(vocabulary), st.sampled_from(vocabulary))
        .map(' '.join).filter(lambda s: s not in (
            'next monday', 'this monday', '12:30 am')),
        # letters which are only like the right ones
        st.tuples(st.sampled_from(vocabulary + [
            'yesterday', 'tomorrow', 'midnight', 'saturday', 'Sunday',
            'tuesday', 'this friday']), st.integers(0, 4)).map(
                lambda p: lookalike(*p)).filter(lambda s: not s.isascii()),
        # words which only start or end with a known one
        st.tuples(st.sampled_from(['x', 'to', '1', '-', 'x ']),
                  st.sampled_from(vocabulary)).map(''.join)
        .filter(lambda s: s != '13:15 pm'),
        st.tuples(st.sampled_from(vocabulary),
                  st.sampled_from(['x', 's', '0', ' x', ':', '!', ' 1'])
                  ).map(''.join),
        st.sampled_from(['', ' ', 'next', 'this', 'am', '12', '12:3', ':30',
                         'someday', '123:00', '1:000', 'todaytomorrow',
                         '1230', '0730', '730', '730 pm', '1230am', '12.30',
                         '12-30', '12:30:00', '12: 30', '12 :30', '-1:30',
                         '+1:30', '12:-3', '7 pm', '7pm', '12:30 a.m.',
                         '12:30 a', '12:30 p', '12:30 mp', '12:30ampm', 'mon',
                         'tues', 'thur', 'last monday', 'nextmonday',
                         'this noon', 'next today', 'next week', 'next',
                         'in a day', 'midday', 'nownow', 'no w', '0:0']))


@st.composite
def nows(draw):
    m = draw(moments(1900, 9900))
    edge = draw(st.sampled_from(['', '', 'midnight', 'noon', 'late']))
    y, mo, d, h, mi, s, us = m
    if edge == 'midnight':
        h, mi = 0, 0
    elif edge == 'noon':
        h, mi = 12, 0
    elif edge == 'late':
        h, mi = 23, 59
    return (y, mo, d, h, mi, s, us)


def phrases():
    return st.one_of(
        st.tuples(st.just('weekday'), st.sampled_from(['', 'next', 'this']),
                  st.integers(0, 6)),
        st.tuples(st.just('day'),
                  st.sampled_from(['yesterday', 'today', 'tomorrow'])),
        st.tuples(st.just('clock'),
                  st.one_of(st.integers(0, 23), st.integers(0, 13),
                            st.sampled_from([0, 12, 24, 99])),
                  st.one_of(st.integers(0, 59), st.sampled_from(
                      [0, 30, 59, 60, 99])),
                  st.sampled_from([None, None, 'am', 'pm'])),
        st.tuples(st.just('noon'), st.sampled_from(['noon', 'midnight'])),
        st.just(('now',)))


@st.composite
def cases(draw):
    words = draw(phrases())
    moment = draw(nows())
    zone = draw(st.one_of(zonesWithNames(), zonesWithNames(), offsets()))
    if isinstance(zone, str) and draw(st.booleans()):
        # some day before the clocks are changed
        change = draw(st.sampled_from([
            (2004, 4, 3), (2004, 10, 30), (2020, 3, 7), (2020, 10, 31),
            (2020, 3, 28), (2020, 10, 24), (2020, 4, 4), (2020, 10, 3)]))
        moment = change + moment[3:]
    if words[0] == 'clock' and draw(st.booleans()):
        # close to the current time of day in that zone
        local = dt(moment) + offsetAt(zone, dt(moment))
        near = local + TD(minutes=draw(st.sampled_from([0, 0, 1, -1])))
        words = ('clock', near.hour, near.minute, None)
        if draw(st.booleans()):
            words = ('clock', (near.hour - 1) % 12 + 1, near.minute,
                     'pm' if near.hour >= 12 else 'am')
    space = st.one_of(st.integers(0, 2), st.integers(0, 5))
    style = draw(st.tuples(st.integers(0, 255), space,
                           st.integers(0, 2), space,
                           st.booleans()))
    return words, style, zone, moment


PLAIN = (0, 0, 1, 0, False)
SUBS = [
    Sub('phrases', cases, check, 5000, 60000,
        rule="a phrase other than 'now', or one to be rejected",
        examples=[
            (('clock', 12, 30, 'pm'), PLAIN, None, (2004, 2, 28, 23, 0, 0, 0)),
            (('clock', 12, 0, 'am'), PLAIN, None, (2004, 2, 28, 23, 0, 0, 0)),
            (('clock', 13, 0, 'pm'), PLAIN, None, (2004, 2, 28, 23, 0, 0, 0)),
            (('clock', 0, 0, 'am'), PLAIN, None, (2004, 2, 28, 23, 0, 0, 0)),
            (('weekday', '', 5), PLAIN, None, (2004, 2, 28, 23, 0, 0, 0))]),
    Sub('present', lambda: st.tuples(
        phrases(), st.just(PLAIN), st.one_of(st.none(), offsets())).filter(
            lambda c: model(c[0], c[2], DT(2000, 1, 1)) is not None),
        checkPresent, 300, 3000, rule="every case"),
    Sub('nonsense', lambda: st.tuples(nonsense(), nows()), checkNonsense,
        600, 3000, rule="every case"),
]
