"""
Time instances are ordered and do arithmetic like instants.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.timelib import (
    DT, TD, dt, make, moments, periods, start, RESOLUTIONS)
from epsilon.extime import Time

RULE = ("Lists of periods of all resolutions, drawn from few distinct starts "
        "so that equal and adjacent instants are common; intervals from "
        "microseconds to decades.")


@st.composite
def nearby(draw):
    """
    Several periods which start close to each other.
    """
    base = dt(draw(moments(100, 9900)))
    result = []
    for _ in range(draw(st.integers(2, 6))):
        delta = draw(st.one_of(
            st.just(0), st.sampled_from([1, -1, 1000000, -1000000,
                                         86400 * 10 ** 6]),
            st.integers(-10 ** 14, 10 ** 14)))
        when = base + TD(microseconds=delta)
        resolution = draw(st.sampled_from(sorted(RESOLUTIONS)))
        result.append(((when.year, when.month, when.day, when.hour,
                        when.minute, when.second, when.microsecond),
                       resolution))
    return tuple(result)


OTHERS = [None, 0, 1.5, 'text', (), DT(2000, 1, 1), TD(days=1)]


def checkOrder(case, note):
    times = [make(m, r) for m, r in case]
    keys = [dt(m) for m, r in case]
    for a, ka in zip(times, keys):
        for b, kb in zip(times, keys):
            what = "%r and %r" % (a, b)
            same(a == b, ka == kb, "== of " + what)
            same(a != b, ka != kb, "!= of " + what)
            same(a < b, ka < kb, "< of " + what)
            same(a <= b, ka <= kb, "<= of " + what)
            same(a > b, ka > kb, "> of " + what)
            same(a >= b, ka >= kb, ">= of " + what)
            same(b - a, kb - ka, "difference of " + what)
    same([start(t) for t in sorted(times)], sorted(keys), "sorted")
    same(start(min(times)), min(keys), "min")
    same(start(max(times)), max(keys), "max")
    t = times[0]
    for other in OTHERS:
        require(not (t == other), "%r == %r", t, other)
        require(t != other, "not (%r != %r)", t, other)
        for name, op in [('<', lambda: t < other), ('<=', lambda: t <= other),
                         ('>', lambda: t > other), ('>=', lambda: t >= other)]:
            try:
                result = op()
            except TypeError:
                pass
            else:
                raise Violation("%r %s %r is %r" % (t, name, other, result))
    for t, (m, r) in zip(times, case):
        same((start(t), t.resolution), (dt(m), RESOLUTIONS[r]),
             "a Time after it was compared")
    if len(set(keys)) < len(keys):
        note('equal starts')
    note.nontrivial(len(set(r for m, r in case)) > 1)


def checkArithmetic(case, note):
    (moment, resolution), (days, us) = case
    t = make(moment, resolution)
    delta = TD(days=days, microseconds=us)
    key = dt(moment)
    plus, minus = t + delta, t - delta
    for result, expected in [(plus, key + delta), (minus, key - delta)]:
        require(isinstance(result, Time), "not a Time: %r", result)
        same(start(result), expected, "sum")
        require(result.resolution <= TD(microseconds=1),
                "the result of arithmetic is not an instant: %r",
                result.resolution)
    require(plus - delta == t, "(t + d) - d != t")
    require(minus + delta == t, "(t - d) + d != t")
    same(plus - t, delta, "(t + d) - t")
    same(t - minus, delta, "t - (t - d)")
    same(t - t, TD(0), "t - t")
    same(plus > t, delta > TD(0), "t + d > t")
    same((start(t), t.resolution), (key, RESOLUTIONS[resolution]),
         "a Time after arithmetic")
    for other in (None, 3, 'x', t):
        try:
            t + other
        except TypeError:
            pass
        else:
            raise Violation("added %r to a Time" % (other,))
    for other in (None, 3, 'x'):
        try:
            t - other
        except TypeError:
            pass
        else:
            raise Violation("subtracted %r from a Time" % (other,))
    note.nontrivial(delta != TD(0) and resolution != 'us')
    note('negative' if delta < TD(0) else 'positive')


SUBS = [
    Sub('order', nearby, checkOrder, 1500, 15000,
        rule="several resolutions in one list"),
    Sub('arithmetic',
        lambda: st.tuples(
            periods(200, 9800),
            st.tuples(st.one_of(st.just(0), st.integers(-40000, 40000)),
                      st.one_of(st.just(0), st.integers(-10 ** 12, 10 ** 12),
                                st.sampled_from([1, -1])))),
        checkArithmetic, 2000, 20000,
        rule="a non-zero interval and a resolution worth dropping"),
]
