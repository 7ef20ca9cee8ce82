"""
SlicedView is a window on a sequence.
"""
import itertools

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.view import SlicedView

RULE = ("Sequences, up to three slices (extended and out of range ones, too) "
        "on top of each other, and changes to the sequence in between, judged "
        "by slicing a list.")


class Recording(object):
    """
    The least a sequence has to be, and a record of what was looked at.
    """
    def __init__(self, items):
        self.items = items
        self.seen = []

    def __len__(self):
        return len(self.items)

    def __getitem__(self, index):
        require(not isinstance(index, slice), "the sequence was sliced")
        require(isinstance(index, int), "index %r", index)
        if 0 <= index < len(self.items):
            self.seen.append(index)
        return self.items[index]


class Index(object):
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


def outcome(f, *args):
    try:
        return ('ok', f(*args))
    except (IndexError, ValueError, TypeError) as e:
        return ('raised', type(e))


def check(case, note):
    kind, items, slices, changes = case
    items = list(items)
    if kind == 'list':
        sequence = items
    elif kind == 'tuple':
        sequence = tuple(items)
    elif kind == 'str':
        items = list(''.join(map(str, items)))
        sequence = ''.join(items)
    else:
        sequence = Recording(items)
    slices = [slice(*s) for s in slices]
    view = SlicedView(sequence, slices[0])
    views = [view]
    for s in slices[1:]:
        view = view[s]
        views.append(view)
        require(isinstance(view, SlicedView), "slice of a view: %r", view)

    def judge():
        model = list(items)
        for s, view in zip(slices, views):
            model = model[s]
            same(len(view), len(model), "len of slices %r of %r" % (
                slices, items))
            for i in range(-len(model) - 2, len(model) + 2):
                same(outcome(view.__getitem__, i),
                     outcome(model.__getitem__, i),
                     "item %d of slices %r of %r" % (i, slices, items))
            for i in [True, 0.0, '0', None, (0,), Index(0), Index(-1)]:
                same(outcome(view.__getitem__, i),
                     outcome(model.__getitem__, i),
                     "item %r of slices %r of %r" % (i, slices, items))
            same(list(view), model, "iteration over slices %r of %r" % (
                slices, items))
        return model
    model = judge()
    if kind == 'recording' and model:
        # Only what's asked for is looked at.
        del sequence.seen[:]
        views[-1][0]
        same(len(sequence.seen), 1, "items looked at")
        del sequence.seen[:]
        len(views[-1])
        views[-1][:]
        same(sequence.seen, [], "items looked at")
    if kind in ('list', 'recording'):
        for change, value in changes:
            if change == 'append':
                items.append(value)
            elif change == 'pop' and items:
                items.pop(value % len(items))
            elif items:
                items[value % len(items)] = -value
            judge()
            note('changed')
    note.nontrivial(len(model) > 1 and len(slices) > 1)


def checkHuge(case, note):
    """
    Views of what nobody would make a list of.
    """
    size, slices, indices = case
    model = range(size)
    view = model
    for n, s in enumerate(slices):
        s = slice(*s)
        view = SlicedView(view, s) if not n else view[s]
        model = model[s]
        same(len(view), len(model), "len of slices %r of %d items" % (
            slices, size))
        for i in indices + (0, -1, len(model) - 1, len(model), -len(model),
                            len(model) // 2, -len(model) - 1):
            same(outcome(view.__getitem__, i), outcome(model.__getitem__, i),
                 "item %d of slices %r of %d items" % (i, slices, size))
        same(list(itertools.islice(view, 300)), list(model[:300]),
             "iteration over slices %r of %d items" % (slices, size))
    note.nontrivial(len(model) > 70000)


def far():
    return st.one_of(st.none(), st.integers(-12, 12),
                     st.integers(-10 ** 6, 10 ** 6),
                     st.integers(-2 ** 40, 2 ** 40))


def bound():
    return st.one_of(st.none(), st.integers(-12, 12), st.integers(-3, 3))


def slices():
    return st.tuples(bound(), bound(), st.one_of(
        st.none(), st.none(), st.integers(-3, 3).filter(bool)))


SUBS = [
    Sub('huge', lambda: st.tuples(
        st.one_of(st.integers(0, 2 * 10 ** 5), st.integers(0, 2 ** 40)),
        st.lists(st.tuples(far(), far(), st.one_of(
            st.none(), st.integers(-3, 3).filter(bool),
            st.integers(-10 ** 5, 10 ** 5).filter(bool))),
            min_size=1, max_size=3).map(tuple),
        st.lists(st.one_of(st.integers(-2 ** 40, 2 ** 40),
                           st.integers(-10 ** 5, 10 ** 5)),
                 max_size=4).map(tuple)), checkHuge, 300, 4000,
        rule="more than 70000 items are left"),
    Sub('view', lambda: st.tuples(
        st.sampled_from(['list', 'tuple', 'str', 'recording']),
        st.lists(st.integers(0, 9), max_size=10).map(tuple),
        st.lists(slices(), min_size=1, max_size=3).map(tuple),
        st.lists(st.tuples(st.sampled_from(['append', 'pop', 'set']),
                           st.integers(0, 9)), max_size=3).map(tuple)),
        check, 4000, 50000, rule="several slices and more than one item left"),
]
