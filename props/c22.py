"""
Caseless strings behave as their lower-cased selves.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from epsilon.caseless import Caseless

RULE = ("Pairs of strings (text, biased to characters with surprising case "
        "mappings, or bytes), often differing in case only, or one a part of "
        "the other; every operation, with generated bounds.")

SEARCH = ['count', 'find', 'index', 'rfind', 'rindex']


class Sub_(Caseless):
    pass


def outcome(f, *args):
    try:
        return ('ok', f(*args))
    except Exception as e:
        return ('raised', type(e))


def check(case, note):
    a, b, bounds, others = case
    A = Caseless(a)
    wrapped = [b, Caseless(b), Caseless(Caseless(b)), Sub_(b),
               Caseless(Sub_(b))]
    la, lb = a.lower(), b.lower()
    for B in wrapped:
        for name, mine, theirs in [
                ('==', lambda: A == B, la == lb),
                ('!=', lambda: A != B, la != lb),
                ('<', lambda: A < B, la < lb),
                ('<=', lambda: A <= B, la <= lb),
                ('>', lambda: A > B, la > lb),
                ('>=', lambda: A >= B, la >= lb),
                ('reversed ==', lambda: B == A, la == lb),
                ('reversed !=', lambda: B != A, la != lb),
                ('reversed <', lambda: B < A, lb < la),
                ('reversed >=', lambda: B >= A, lb >= la),
                ('in', lambda: B in A, lb in la)]:
            result = mine()
            require(result is theirs, "%r %s %r: %r, expected %r", A, name, B,
                    result, theirs)
        for args in [(), bounds[:1], bounds]:
            for name in SEARCH + ['startswith', 'endswith']:
                same(outcome(getattr(A, name), B, *args),
                     outcome(getattr(la, name), lb, *args),
                     "%r.%s(%r, *%r)" % (A, name, B, args))
            for name in ['startswith', 'endswith']:
                tup = tuple(others) + (B,)
                same(outcome(getattr(A, name), tup, *args),
                     outcome(getattr(la, name),
                             tuple(o.lower() for o in others) + (lb,), *args),
                     "%r.%s(%r, *%r)" % (A, name, tup, args))
    if la == lb:
        same(hash(A), hash(Caseless(b)), "hashes of %r and %r" % (a, b))
        note('equal')
    same(hash(A), hash(la), "hash")
    # The rest is as the string's own.
    for again in range(1 + len(others) * 3):
        require(Caseless(A).cased is a and A.cased is a and
                Sub_(A).cased is a and Caseless(Sub_(a)).cased is a, "cased")
        same(len(A), len(a), "len")
        same(list(A), list(a), "iter")
        same(str(A), str(a), "str")
        same(repr(A), 'Caseless(%r)' % (a,), "repr")
        for name in ['lower', 'upper', 'title', 'swapcase']:
            same(getattr(A, name)(), getattr(a, name)(), name)
        for key in [slice(*bounds)] + list(bounds):
            if key is not None:
                same(outcome(A.__getitem__, key), outcome(a.__getitem__, key),
                     "item %r" % (key,))
    if lb in la and b not in a:
        note('found in another case')
    note.nontrivial(a != b and (la == lb or (lb in la and lb != la[:0])))


class Plain(object):
    def __repr__(self):
        return '<plain>'


ANYTHING = [None, 5, 0.5, (), [], ('a',), {}, {'a': 1}, True, NotImplemented,
            Plain(), Plain, len]
OPERATORS = [
    ('==', lambda x, y: x == y), ('!=', lambda x, y: x != y),
    ('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y),
    ('>', lambda x, y: x > y), ('>=', lambda x, y: x >= y),
    ('in', lambda x, y: y in x)]


def checkAnything(case, note):
    """
    Things which aren't strings are treated as by a string.
    """
    a, which, others, bounds, reverse = case
    other = ANYTHING[which]
    A = Sub_(a) if reverse else Caseless(a)
    la = a.lower()
    for name, f in OPERATORS:
        same(outcome(f, A, other), outcome(f, la, other),
             "%r %s %r" % (A, name, other))
        if name != 'in':
            same(outcome(f, other, A), outcome(f, other, la),
                 "%r %s %r" % (other, name, A))
    mixed = tuple(ANYTHING[o] if type(o) is int else o for o in others)
    lowered = tuple(o if type(o) not in (str, bytes) else o.lower()
                    for o in mixed)
    for args in [(), bounds[:1], bounds]:
        for name in SEARCH + ['startswith', 'endswith']:
            if type(other) is not tuple:
                same(outcome(getattr(A, name), other, *args),
                     outcome(getattr(la, name), other, *args),
                     "%r.%s(%r, *%r)" % (A, name, other, args))
        for name in ['startswith', 'endswith']:
            same(outcome(getattr(A, name), mixed, *args),
                 outcome(getattr(la, name), lowered, *args),
                 "%r.%s(%r, *%r)" % (A, name, mixed, args))
    # In a collection, next to what it isn't equal to.
    things = [A, other]
    require(things.index(A) == 0 and things.count(A) == 1 and
            A not in [other] and other not in [A],
            "%r and %r in a list", A, other)
    try:
        hash(other)
    except TypeError:
        pass
    else:
        d = {other: 1, A: 2}
        require(d[other] == 1 and d[Caseless(a.swapcase())
                                    if a.swapcase().lower() == la else A] == 2,
                "%r and %r as keys", A, other)
    note.nontrivial(len(a) > 0)


def checkMany(case, note):
    """
    As keys, in sorting, and in sets.
    """
    strings = case
    same([c.cased for c in sorted(map(Caseless, strings))],
         sorted(strings, key=lambda s: s.lower()), "sorted")
    same(sorted(strings, key=Caseless),
         sorted(strings, key=lambda s: s.lower()), "sorted by key")
    d = {}
    model = {}
    for n, s in enumerate(strings):
        d[Caseless(s)] = n
        model[s.lower()] = n
    same(len(d), len(model), "keys")
    for s in strings:
        for variant in [s, s.upper(), s.swapcase()]:
            if variant.lower() in model:
                same(d.get(Caseless(variant)), model[variant.lower()],
                     "value for %r" % (variant,))
            else:
                same(d.get(Caseless(variant)), None,
                     "value for %r" % (variant,))
    same(len(set(map(Caseless, strings))),
         len(set(s.lower() for s in strings)), "set")
    note.nontrivial(len(model) < len(set(strings)))


ALPHABET = 'aAbB\xe9\xc9\u0130\u0131\xdf\u1e9e\u03c3\u03c2\u03a3\u01c5 1'


def texts():
    return stretched(st.one_of(st.text('aAbB', max_size=6),
                               st.text(ALPHABET, max_size=6),
                               st.text('aA \n\0', max_size=6),
                               st.text(max_size=5)))


def binaries():
    return stretched(st.one_of(
        st.lists(st.sampled_from([b'a', b'A', b'b', b'B', b'\xe9', b'\xc9']),
                 max_size=6).map(b''.join),
        st.binary(max_size=5)))


@st.composite
def pairs(draw):
    kind = draw(st.sampled_from([texts, texts, binaries]))
    a = draw(kind())
    how = draw(st.integers(0, 3))
    if how == 0:
        b = draw(kind())
    elif how == 1:
        b = draw(st.sampled_from([a.upper(), a.lower(), a.swapcase(), a]))
    else:
        i = draw(st.integers(0, len(a)))
        j = draw(st.integers(0, len(a)))
        b = a[min(i, j):max(i, j)]
        if draw(st.booleans()):
            b = b.swapcase()
        if how == 3:
            a = a + draw(kind()) + b.swapcase()
    bound = st.one_of(st.none(), st.integers(-4, 8), st.integers(-4, 8),
                      st.integers(-4, 8), st.integers(-600, 600),
                      st.sampled_from([2 ** 31, -2 ** 40, 2 ** 70, 70000]))
    return (a, b, (draw(bound), draw(bound)),
            tuple(draw(st.lists(kind(), max_size=2))))


SUBS = [
    Sub('pairs', pairs, check, 2500, 30000,
        examples=[('a' * 70000 + 'Bc' + 'a' * 300, 'bC', (66000, 70002), ()),
                  ('a' * 300 + 'B', 'A' * 300 + 'c', (256, None), ())],
        rule="different strings which are equal, or contain each other, but "
             "for case"),
    Sub('anything', lambda: st.tuples(
        st.one_of(texts(), binaries()),
        st.integers(0, len(ANYTHING) - 1),
        st.lists(st.one_of(texts(), binaries(),
                           st.integers(0, len(ANYTHING) - 1)),
                 max_size=3).map(tuple),
        st.tuples(st.one_of(st.none(), st.integers(-4, 8)),
                  st.one_of(st.none(), st.integers(-4, 8))),
        st.booleans()), checkAnything, 500, 5000,
        rule="a string which isn't empty"),
    Sub('collections', lambda: st.one_of(
        st.lists(texts(), max_size=8), st.lists(binaries(), max_size=8)).map(
            tuple), checkMany, 1000, 10000,
        rule="some strings differ in case only"),
]
