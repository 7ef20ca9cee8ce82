"""
asTwistedVersion understands version strings.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
import epsilon
from epsilon import asTwistedVersion
from twisted.python.versions import Version

RULE = ("Version strings of three or more numbers, with or without a suffix "
        "of any of the usual kinds.")


def check(case, note):
    package, numbers, suffix = case
    text = '.'.join(str(n) for n in numbers) + suffix
    got = asTwistedVersion(package, text)
    require(isinstance(got, Version), "%r", got)
    same((got.package, got.major, got.minor, got.micro),
         (package,) + tuple(numbers[:3]), "version %r" % (text,))
    require(got.prerelease is None and got.dev is None,
            "pre-release of %r: %r", text, got)
    same(got.base(), '.'.join(str(n) for n in numbers[:3]), "base()")
    same(got, Version(package, *numbers[:3]), "version")
    note.nontrivial(bool(suffix) or len(numbers) > 3)


def checkOrder(case, note):
    """
    They are ordered as their numbers are.
    """
    versions = [(tuple(n), asTwistedVersion('p', '.'.join(map(str, n)) + s))
                for n, s in case]
    for a, va in versions:
        for b, vb in versions:
            same((va < vb, va == vb, va > vb), (a < b, a == b, a > b),
                 "%r compared with %r" % (va, vb))
    note.nontrivial(len(set(n for n, v in versions)) > 1)


def checkOwn(case, note):
    same(str(epsilon.version.package), 'epsilon', "package")
    require(epsilon.__version__.startswith(epsilon.version.base()),
            "%r is not the version %r", epsilon.version, epsilon.__version__)
    note.nontrivial()


SUFFIXES = ['', '', 'rc1', '.dev0', '+3.gabc', '-1', 'a2', '.post1', '.',
            '+unknown', '.dev0+123', ' (r123)', '_p1', 'b', '.x.9', '+1.2.3']


def numbers(most):
    return st.lists(st.integers(0, most), min_size=3, max_size=3).map(tuple)


SUBS = [
    Sub('parse', lambda: st.tuples(
        st.text('abc.', min_size=1, max_size=5),
        st.one_of(numbers(3000), st.lists(
            st.one_of(st.integers(0, 99), st.integers(0, 10 ** 9)),
            min_size=3, max_size=5).map(tuple)),
        st.one_of(st.sampled_from(SUFFIXES), st.text(
            st.characters(exclude_characters='0123456789.',
                          exclude_categories=['Nd']), max_size=4))),
        check, 1500, 15000, rule="a suffix, or more numbers"),
    Sub('order', lambda: st.lists(st.tuples(
        numbers(3), st.sampled_from(SUFFIXES)), max_size=5).map(tuple),
        checkOrder, 300, 3000, rule="different versions"),
    Sub('own', lambda: st.tuples(st.none()), checkOwn, 1, 1),
]
