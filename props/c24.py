"""
Exposers give access to exposed methods, and to nothing else.
"""
import functools

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.expose import Exposer, MethodNotExposed, NameRequired

RULE = ("Generated class hierarchies (with multiple inheritance and "
        "diamonds) whose methods are exposed or not, by either of two "
        "exposers, under their own or other keys, and overridden or not in "
        "subclasses.")


class Odd(object):
    """
    A descriptor which is equal to all others.
    """
    def __init__(self, function):
        self.function = function

    def __get__(self, instance, owner):
        return lambda *a: self.function('odd', instance, owner, *a)

    def __eq__(self, other):
        return True

    __hash__ = None


def build(classes):
    """
    @param classes: tuple of (bases, methods); bases are indices of earlier
        classes, methods are (attribute name, function name, kind, exposures,
        what is made of it), and exposures are (exposer number, key or None).
    """
    exposers = [Exposer("first"), Exposer("second")]
    built = []
    exposed = [{}, {}]           # key -> list of the exposed objects
    for n, (bases, methods) in enumerate(classes):
        attrs = {}
        for attribute, name, kind, exposures, wrapping in methods:
            def function(*a, _label=(n, attribute)):
                return _label, a
            function.__name__ = name
            if kind == 'function':
                value = function
            elif kind == 'static':
                value = staticmethod(function)
            elif kind == 'class':
                value = classmethod(function)
            elif kind == 'odd':
                value = Odd(function)
            else:
                value = 'data %d' % (n,)
            for which, key in exposures:
                if key is None and kind != 'function':
                    try:
                        exposers[which].expose()(value)
                    except NameRequired:
                        continue
                    raise Violation("a %s exposed without a name" % (kind,))
                if kind == 'data':
                    continue
                result = exposers[which].expose(key)(value)
                require(result is value, "expose returned %r", result)
                exposed[which].setdefault(
                    name if key is None else key, []).append(value)
            if wrapping == 'class':
                # What the class has isn't what was exposed.
                value = classmethod(value)
            elif wrapping == 'static':
                value = staticmethod(value)
            elif wrapping == 'wrapper' and kind == 'function':
                value = functools.wraps(value)(lambda *a: 'wrapped')
            elif wrapping == 'partial':
                value = functools.partialmethod(value)
            elif wrapping == 'property':
                value = property(value)
            attrs[attribute] = value
        parents = tuple(built[b] for b in bases) or (object,)
        try:
            built.append(type('C%d' % (n,), parents, attrs))
        except TypeError:                # no consistent mro
            built.append(type('C%d' % (n,), parents[:1], attrs))
    return exposers, built, exposed


def effective(T, value):
    """
    Is this the object found by looking up one of its names on the class?
    """
    names = set()
    for sub in T.__mro__:
        for name, v in vars(sub).items():
            if v is value:
                names.add(name)
    for name in names:
        for sub in T.__mro__:
            if name in vars(sub):
                if vars(sub)[name] is value:
                    return True
                break
    return False


def check(case, note):
    classes, queries, shadows = case
    exposers, built, exposed = build(classes)
    for n, T in enumerate(built):
        obj = T()
        if n % 2:
            # What the object has of its own was never exposed.
            for name in shadows:
                vars(obj)[name] = lambda *a: 'shadow'
        for which, key in queries:
            values = exposed[which].get(key, [])
            allowed = [v for v in values if effective(T, v)]
            # Where there's no ambiguity: all candidates in the first class
            # of the mro which has any.
            must = None
            for sub in T.__mro__:
                here = [v for v in vars(sub).values()
                        if any(v is x for x in values)]
                if here:
                    if len(here) == 1 and any(here[0] is v for v in allowed):
                        must = here[0]
                    break
            try:
                method = exposers[which].get(obj, key)
            except MethodNotExposed:
                require(must is None, "%r not found on %r", key, T)
                if values and not allowed:
                    note('not exposed by this class')
                continue
            require(allowed, "%r found on %r, where it is not exposed: %r",
                    key, T, method)
            results = [v.__get__(obj, T)(1, 2) for v in
                       ([must] if must is not None else allowed)]
            require(any(method(1, 2) == r for r in results),
                    "%r of %r is %r", key, T, method)
            note('found')
    note.nontrivial(len(classes) > 2 and
                    sum(len(v) for e in exposed for v in e.values()) > 1)


NAMES = ['foo', 'bar', 'baz', 'm\xe9thode', 'long' * 20]
KEYS = [None, None, 'foo', 'bar', 'k', 0, ('t', 1), '', (), 'cl\xe9',
        'key' * 30, b'\xff']


@st.composite
def hierarchies(draw):
    classes = []
    # Many exposures under the same key, or all kinds of them.
    dense = draw(st.booleans())
    for n in range(draw(st.integers(1, 6))):
        bases = tuple(draw(st.lists(st.integers(0, n - 1), max_size=2,
                                    unique=True))) if n else ()
        if draw(st.booleans()):
            bases = tuple(sorted(bases, reverse=True))
        methods = []
        if dense:
            for attribute in NAMES[:2]:
                what = draw(st.sampled_from(['none', 'none', 'plain', 'exposed',
                                             'exposed', 'k']))
                if what != 'none':
                    methods.append((attribute, attribute, 'function', {
                        'plain': (), 'exposed': ((0, None),),
                        'k': ((0, 'k'),)}[what], None))
            classes.append((bases, tuple(methods)))
            continue
        for attribute in draw(st.lists(st.sampled_from(NAMES), max_size=3,
                                       unique=True)):
            name = draw(st.sampled_from([attribute, attribute, 'other',
                                         '\xe9tranger']))
            kind = draw(st.sampled_from(['function'] * 5 + ['static', 'class',
                                                            'data', 'odd']))
            exposures = draw(st.lists(
                st.tuples(st.integers(0, 1), st.sampled_from(KEYS)),
                max_size=2))
            wrapping = draw(st.sampled_from(
                [None] * 12 + ['class', 'static', 'wrapper', 'partial',
                               'property'])) if kind != 'data' else None
            methods.append((attribute, name, kind, tuple(exposures),
                            wrapping))
        classes.append((bases, tuple(methods)))
    queries = [(w, k) for w in (0, 1)
               for k in NAMES + ['k', 0, ('t', 1), '', (), 'other',
                                 'cl\xe9', 'key' * 30, b'\xff', '\xe9tranger',
                                 '__init__', '__class__', 'unknown']]
    shadows = draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True))
    return tuple(classes), tuple(queries), tuple(shadows)


def checkCrowd(case, note):
    """
    Many classes which expose methods under the same keys.
    """
    count, keys, ask = case
    exposer = Exposer("many")
    classes = []
    for n in range(count):
        def method(self, _n=n):
            return _n
        key = 'k%d' % (n % keys,)
        classes.append((key, type('C%d' % (n,), (object,), {
            'method': exposer.expose(key)(method),
            'hidden': lambda self: 'hidden'})))
    for n in [a % count for a in ask] + [0, count - 1]:
        key, T = classes[n]
        same(exposer.get(T(), key)(), n, "method of class %d" % (n,))
        for other in ['k%d' % (k,) for k in range(keys)]:
            if other != key:
                try:
                    exposer.get(T(), other)
                except MethodNotExposed:
                    pass
                else:
                    raise Violation("%r of class %d found" % (other, n))
    note.nontrivial(count > 10)


SUBS = [
    Sub('crowd', lambda: st.tuples(
        st.integers(1, 300), st.integers(1, 4),
        st.lists(st.integers(0, 299), max_size=10).map(tuple)),
        checkCrowd, 40, 400, rule="more than ten classes"),
    Sub('hierarchy', hierarchies, check, 2500, 30000,
        rule="three or more classes and two or more exposures"),
]
