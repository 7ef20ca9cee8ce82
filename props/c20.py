"""
record() classes take their arguments as Python functions do.
"""
import keyword
import re

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.structlike import record

RULE = ("Generated attribute names and defaults, and calls with generated "
        "positional and keyword arguments, judged by a real Python function "
        "with that signature.")


def model(names, defaults):
    """
    A real function with the signature; raises SyntaxError if there is none.
    """
    parameters = []
    for n in names:
        parameters.append(n + ('=D[%r]' % (n,) if n in defaults else ''))
    scope = {'D': defaults}
    exec("def f(%s):\n return locals()" % (', '.join(parameters),), scope)
    return scope['f']


SPECIAL = [None, False, 0, '', (), NotImplemented, Ellipsis, {}]


def value(n):
    """
    Mostly unique objects, but also ones which are easily taken for something
    else.
    """
    if n < 0:
        return SPECIAL[n]
    return [n]


def check(case, note):
    names, defaults, style, calls = case
    defaults = dict((n, value(v)) for n, v in defaults)
    given = dict(defaults)
    try:
        if style == 'keywords':
            if not defaults:
                try:
                    record()
                except TypeError:
                    return
                raise Violation("a record without attributes")
            names = tuple(sorted(defaults))
            function = model(names, defaults)
            R = record(**given)
        elif style == 'separate' and len(names) > 1:
            # All of the names belong into one argument.
            function = None
            R = record(*names, **given)
        else:
            try:
                function = model(names, defaults)
                if set(defaults) - set(names):
                    raise SyntaxError("no such parameter")
            except SyntaxError:
                function = None
            R = record((' ' if style == 'separate' else style).join(names),
                       **given)
    except TypeError as e:
        require(function is None, "record(%r, **%r): %s", names, defaults, e)
        note('no such signature')
        return
    require(function is not None, "record(%r, **%r) was accepted", names,
            defaults)
    same(given, defaults, "the defaults after defining the record")

    class Derived(R):
        extra = 7

        def method(self):
            pass

    class Mixin(object):
        def __init__(self):
            mixed.append(self)

    class Mixed(R, Mixin):
        pass

    mixed = []
    hidden = {}
    watched = list(names[:1])

    class Watching(R):
        """
        A record one of whose attributes is a property.
        """
    for n in watched:
        setattr(Watching, n, property(
            lambda self: hidden[id(self)],
            lambda self, value: hidden.__setitem__(id(self), value)))

    for cls in (R, Derived, Mixed, Watching):
        for args, kw in calls:
            args = [value(v) for v in args]
            kw = dict((n, value(v)) for n, v in kw)
            passed = dict(kw)
            try:
                expected = function(*args, **passed)
            except TypeError:
                expected = None
            del mixed[:]
            try:
                instance = cls(*args, **passed)
            except TypeError:
                require(expected is None, "%r(*%r, **%r) was refused", names,
                        args, kw)
                note('refused')
                continue
            require(expected is not None, "%r(*%r, **%r) was accepted", names,
                    args, kw)
            same(passed, kw, "the arguments after the call")
            got = dict(vars(instance))
            if cls is Watching:
                got.update((n, hidden[id(instance)]) for n in watched)
            elif cls is Mixed:
                require(len(mixed) == 1 and mixed.pop() is instance,
                        "the other base class wasn't initialized once")
            same(sorted(got), sorted(expected), "attributes")
            for n in expected:
                require(getattr(instance, n) is expected[n],
                        "attribute %s of %r(*%r, **%r) is %r, expected %r", n,
                        names, args, kw, got[n], expected[n])
            note('accepted')
            if len(args) + len(kw) < len(names):
                note('defaults used')
    note.nontrivial(len(names) > 1 and len(calls) > 1)


def checkIndependent(case, note):
    """
    Instances and classes don't share anything but the defaults.
    """
    names, ops = case
    R = record(' '.join(names))
    S = record(' '.join(names), **dict((n, n) for n in names))
    instances = []
    wanted = []
    for op, n, name, value in ops:
        if op == 'new':
            cls = (R, S)[n % 2]
            if cls is R:
                values = dict((k, (k, value)) for k in names)
                instances.append(cls(**values))
            else:
                values = dict((k, k) for k in names)
                instances.append(cls())
            wanted.append(values)
        elif instances:
            i = n % len(instances)
            attribute = names[name % len(names)]
            setattr(instances[i], attribute, value)
            wanted[i][attribute] = value
        for instance, values in zip(instances, wanted):
            same(dict((k, getattr(instance, k)) for k in names), values,
                 "attributes")
    same(vars(S()), dict((k, k) for k in names), "defaults")
    note.nontrivial(len(instances) > 1)


def checkWide(case, note):
    """
    Records with many attributes.
    """
    count, tail, positional, leftOut, keywordsOnly = case
    names = tuple('a%d' % (n,) for n in range(count))
    defaults = tuple((n, 1000 + i) for i, n in enumerate(names[
        count - min(tail, count):]))
    positional = min(positional, count)
    calls = [(tuple(range(positional)),
              tuple((n, i) for i, n in enumerate(names[positional:])
                    if i not in leftOut)),
             ((), tuple((n, i) for i, n in enumerate(names))),
             (tuple(range(count)), ()), (tuple(range(count + 1)), ())]
    check((names, defaults, 'keywords' if keywordsOnly and tail >= count
           else ' ', tuple(calls)), note)
    note.nontrivial(count > 16)


def identifiers():
    return st.one_of(
        st.sampled_from(['a', 'b', 'c', 'd', 'e']),
        st.sampled_from(['args', 'kw', 'n', 'v', 'cls', 'a', 'self']),
        st.sampled_from(['A', 'B', 'aB', 'Ab', 'AB', 'ab', 'a_', 'Z', '_', 'a1',
                         'a10', 'a2', 'C']),
        st.from_regex(re.compile(r'[A-Za-z_][A-Za-z0-9_]{0,5}', re.A),
                      fullmatch=True)).filter(
        lambda n: not keyword.iskeyword(n) and n != 'D' and
        not n.startswith('__'))


@st.composite
def cases(draw):
    names = draw(st.lists(identifiers(), min_size=0, max_size=5, unique=True))
    if names and draw(st.integers(0, 9)) == 0:
        # As little a signature as it is one of a function.
        names.insert(draw(st.integers(0, len(names))),
                     draw(st.sampled_from(names)))
    values = st.one_of(st.integers(0, 99), st.integers(-len(SPECIAL), -1))
    tail = draw(st.integers(0, len(names)))
    withDefaults = names[tail:]
    odd = draw(st.integers(0, 6))
    if odd == 0 and names:
        withDefaults = [n for n in names if draw(st.booleans())]
    if odd == 1:
        withDefaults = withDefaults + ['unrelated']
    defaults = tuple((n, draw(values)) for n in withDefaults)
    style = draw(st.sampled_from([' ', '  ', '\t', '\n  ', ' ', ' ', 'keywords',
                                  'separate']))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        pool = list(names) + ['other']
        count = draw(st.integers(0, len(names) + 1))
        args = tuple(draw(values) for _ in range(count))
        keys = [n for n in pool[:-1] if draw(st.booleans())]
        if draw(st.integers(0, 2)):
            # sensible ones
            keys = [n for n in keys if n not in names[:count]]
            if draw(st.booleans()):
                keys = list(names[count:])
        if not draw(st.integers(0, 5)):
            # not everything a class has is an attribute to be given
            keys.append(draw(st.sampled_from([
                'other', 'extra', '__init__', '__names__', '__defaults__',
                '__class__', '__doc__', '__dict__', '__repr__', 'method',
                'other'])))
        calls.append((args, tuple((k, draw(values)) for k in keys)))
    return tuple(names), defaults, style, tuple(calls)


SUBS = [
    Sub('signature', cases, check, 3000, 40000,
        rule="several attributes, and several calls"),
    Sub('wide', lambda: st.tuples(
        st.integers(1, 300), st.integers(0, 300), st.integers(0, 300),
        st.lists(st.integers(0, 299), max_size=3).map(tuple), st.booleans()),
        checkWide, 40, 400, rule="more than sixteen attributes",
        examples=[(300, 300, 100, (), True), (300, 0, 300, (), False)]),
    Sub('independent', lambda: st.tuples(
        st.lists(st.sampled_from('abcde'), min_size=1, max_size=3,
                 unique=True).map(tuple),
        st.lists(st.tuples(st.sampled_from(['new', 'set', 'set']),
                           st.integers(0, 5), st.integers(0, 2),
                           st.integers(0, 9)), max_size=10).map(tuple)),
        checkIndependent, 400, 4000, rule="several instances"),
]
