"""
Generators which several properties share.
"""
from hypothesis import strategies as st


def stretched(strategy, times=(100, 1000)):
    """
    What the strategy makes, some of it repeated often: there are no limits to
    the length of most texts.
    """
    return st.tuples(strategy, st.sampled_from([1] * 30 + list(times))).map(
        lambda p: p[0] * p[1])
