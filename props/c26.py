"""
remembered attributes are created once for each instance.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.remember import remembered

RULE = ("Classes with several remembered attributes whose creation functions "
        "return any kind of value (None and false ones, too), refer to each "
        "other, or fail at first; histories of accesses on several instances.")


class Broken(Exception):
    pass


NAMES = ['value', '_value', 'value_', 'Value']

VALUES = [None, False, 0, '', (), [], 'value', object(), NotImplemented,
          Ellipsis, 0.0, {}, len, Broken('value'), -1, True]


def check(case, note):
    definition, instances, ops = case
    calls = []

    def make(name, value, failures, needs):
        def creation(self):
            calls.append((self, name))
            self.attempts[name] = self.attempts.get(name, 0) + 1
            if self.attempts[name] <= failures:
                raise Broken(name)
            if needs is not None:
                getattr(self, needs)
            if value == 5:
                return []
            return VALUES[value]
        creation.__name__ = name
        return remembered(creation)
    attrs = {}
    info = {}
    names = []
    for n, (value, failures, needs) in enumerate(definition):
        name = NAMES[n]
        needed = names[needs % len(names)] if (
            needs is not None and names) else None
        if needed is not None and info[needed][1]:
            needed = None            # only on ones which don't fail
        names.append(name)
        info[name] = (value, failures, needed)
        attrs[name] = make(name, value, failures, needed)

    def init(self):
        self.attempts = {}
    attrs['__init__'] = init
    Base = type('Base', (object,), attrs)
    def getMissing(self, name):
        """
        Like a proxy, it has everything.
        """
        if name == 'attempts' or name.startswith('__'):
            raise AttributeError(name)
        return 'missing'

    def setAttribute(self, name, value):
        """
        It has no other attributes.
        """
        if name != 'attempts':
            raise AttributeError(name)
        vars(self)[name] = value
    Child = type('Child', (Base,), {'__getattr__': getMissing})
    Strict = type('Strict', (Base,), {'__setattr__': setAttribute})
    objects = [(Base, Child, Strict)[n % 3]() for n in range(instances)]
    known = [{} for _ in objects]
    tries = [{} for _ in objects]
    expectedCalls = []

    def model(i, name):
        value, failures, needs = info[name]
        if name in known[i]:
            return known[i][name], True
        expectedCalls.append((objects[i], name))
        tries[i][name] = tries[i].get(name, 0) + 1
        if tries[i][name] <= failures:
            return None, False
        if needs is not None:
            model(i, needs)
        known[i][name] = None       # filled in by what's seen first
        return None, True
    for which, n in ops:
        i = which % len(objects)
        name = names[n % len(names)]
        fresh = name not in known[i]
        remembered_, works = model(i, name)
        try:
            got = getattr(objects[i], name)
        except Broken:
            require(not works, "%s failed", name)
            note('failed at first')
            continue
        require(works, "%s didn't fail", name)
        if fresh:
            known[i][name] = (got,)
        elif known[i][name] is None:
            known[i][name] = (got,)
        require(got is known[i][name][0], "%s was %r, is %r", name,
                known[i][name][0], got)
        value = info[name][0]
        if value == 5:
            same(got, [], "value")
            got.append(1)
            got.pop()
        else:
            require(got is VALUES[value], "%s is %r", name, got)
        if not fresh:
            note('remembered')
        same(len(calls), len(expectedCalls), "creations")
        require(all(a[0] is b[0] and a[1] == b[1]
                    for a, b in zip(calls, expectedCalls)), "creations")
    # Values aren't shared between instances.
    lists = [k[name][0] for k in known for name in k
             if info[name][0] == 5 and k[name] is not None]
    same(len(set(map(id, lists))), len(lists), "separate values")
    note.nontrivial(len(ops) > 3)


class Alike(object):
    """
    Equal to all others of its kind.
    """
    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 1

    @remembered
    def own(self):
        return ['own', self.n]

    @remembered
    def nothing(self):
        self.__dict__.setdefault('tries', []).append(1)
        return None


def checkChurn(case, note):
    """
    Instances which come and go.
    """
    kept = []
    for n, (keep, touch) in enumerate(case):
        obj = Alike(n)
        if touch:
            same(obj.own, ['own', n], "value of instance %d" % (n,))
            same(obj.nothing, None, "value")
            same(obj.nothing, None, "value")
            same(obj.tries, [1], "creations")
        if keep:
            kept.append((n, obj))
        elif kept and not touch:
            # One which was there before.
            n, obj = kept[n % len(kept)]
            value = obj.own
            same(value, ['own', n], "value of instance %d" % (n,))
            require(obj.own is value, "not remembered")
    for n, obj in kept:
        same(obj.own, ['own', n], "value of instance %d" % (n,))
    note.nontrivial(len(case) > len(kept) > 0)


SUBS = [
    Sub('churn', lambda: st.lists(st.tuples(st.booleans(), st.booleans()),
                                  max_size=40).map(tuple),
        checkChurn, 300, 3000, rule="some instances are kept, some not",
        examples=[((False, True),) * 50 + ((True, True), (True, False)) * 300 +
                  ((False, True), (False, False)) * 50]),
    Sub('history', lambda: st.tuples(
        st.lists(st.tuples(st.integers(0, len(VALUES) - 1),
                           st.sampled_from([0, 0, 0, 1, 2]),
                           st.one_of(st.none(), st.integers(0, 3))),
                 min_size=1, max_size=4).map(tuple),
        st.integers(1, 3),
        st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)),
                 min_size=1, max_size=12).map(tuple)),
        check, 1500, 15000, rule="four or more accesses"),
]
