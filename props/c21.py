"""
repr() of records terminates and says what they contain.
"""
import sys
import threading

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.structlike import record

RULE = ("Graphs of records, lists and plain values with shared parts and "
        "cycles, some of whose parts fail to repr() at first, viewed by one "
        "thread or several.")

TWO = record('left right')


class Pair(TWO):
    pass


class Twin(record('one other', other=None)):
    """
    All of these are equal to each other, and unhashable.
    """
    def __eq__(self, other):
        return isinstance(other, Twin)
    __hash__ = None


class Solo(record('only')):
    pass


class _Hidden(record('inner outer')):
    pass


class Counted(record('count other')):
    """
    One of its attributes is computed.
    """
    @property
    def count(self):
        return self._count[0]

    @count.setter
    def count(self, value):
        self._count = [value]

    @count.deleter
    def count(self):
        self._count = [None]


FIELDS = {'_Hidden': ('inner', 'outer'), 'Counted': ('count', 'other'),
          'Pair': ('left', 'right'), 'Twin': ('one', 'other'),
          'Solo': ('only',)}
CLASSES = {'_Hidden': _Hidden, 'Counted': Counted, 'Pair': Pair, 'Twin': Twin, 'Solo': Solo}


class Moody(Exception):
    pass


class Leaf(object):
    """
    Its repr can fail.
    """
    failing = False

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        if self.failing:
            raise Moody(self.n)
        return '<leaf %d>' % (self.n,)


class Retry(object):
    """
    Something whose repr() copes with a failure of what it refers to.
    """
    target = None

    def __init__(self):
        self.failures = []

    def __repr__(self):
        try:
            return '<%r>' % (self.target,)
        except Moody as e:
            self.failures.append(e)
            for leaf in self.leaves:
                leaf.failing = False
            return '<%r>' % (self.target,)


def build(nodes):
    """
    @param nodes: tuple of (kind, references); references are indices into
        nodes (wrapping around).
    """
    objects = []
    for n, (kind, refs) in enumerate(nodes):
        if kind in CLASSES:
            objects.append(CLASSES[kind](*[None] * len(FIELDS[kind])))
        elif kind == 'list':
            objects.append([])
        elif kind == 'dict':
            objects.append({})
        elif kind == 'leaf':
            objects.append(Leaf(n))
        elif kind == 'retry':
            objects.append(Retry())
        else:
            objects.append(n)
    for n, (kind, refs) in enumerate(nodes):
        targets = [objects[r % len(objects)] for r in refs]
        if kind in CLASSES:
            fields = FIELDS[kind]
            for name, target in zip(fields, targets):
                setattr(objects[n], name, target)
            if len(refs) > 2 and refs[2] == 6:
                # It has been deleted.
                delattr(objects[n], fields[0])
        elif kind == 'retry':
            if not isinstance(targets[0], Retry):
                objects[n].target = targets[0]
            objects[n].leaves = [o for o in objects if isinstance(o, Leaf)]
        elif kind == 'list':
            objects[n].extend(targets)
        elif kind == 'dict':
            for i, target in enumerate(targets):
                objects[n][i] = target
    return objects


def expected(obj, active=()):
    if any(obj is a for a in active):
        if isinstance(obj, list):
            return '[...]'
        if isinstance(obj, dict):
            return '{...}'
        return '%s(...)' % (type(obj).__name__,)
    if isinstance(obj, Retry):
        return '<%s>' % (expected(obj.target, active),)
    inner = active + (obj,)
    if isinstance(obj, list):
        return '[%s]' % (', '.join(expected(o, inner) for o in obj),)
    if isinstance(obj, dict):
        return '{%s}' % (', '.join('%r: %s' % (k, expected(v, inner))
                                   for k, v in obj.items()),)
    if type(obj).__name__ in FIELDS:
        return '%s(%s)' % (type(obj).__name__, ', '.join(
            '%s=%s' % (name, expected(getattr(obj, name, None), inner))
            for name in FIELDS[type(obj).__name__]))
    return repr(obj)


def size(obj, active=(), limit=2000):
    """
    How big the repr is going to be (shared parts can make it explode).
    """
    if any(obj is a for a in active):
        return 1
    inner = active + (obj,)
    total = 1
    if isinstance(obj, list):
        parts = obj
    elif isinstance(obj, dict):
        parts = list(obj.values())
    elif isinstance(obj, Retry):
        return 1 + size(obj.target, active, limit)
    elif type(obj).__name__ in FIELDS:
        parts = [getattr(obj, n, None) for n in FIELDS[type(obj).__name__]]
    else:
        parts = []
    for part in parts:
        total += size(part, inner, limit)
        if total > limit:
            return total
    return total


def check(case, note):
    nodes, failing = case
    objects = build(nodes)
    leaves = [o for o in objects if isinstance(o, Leaf)]
    cyclic = False
    for obj in objects:
        if size(obj) > 1000:
            continue
        wanted = expected(obj)
        if '...' in wanted:
            cyclic = True
        if failing and leaves:
            # A part which fails must not leave anything behind.
            victim = leaves[failing % len(leaves)]
            victim.failing = True
            try:
                same(repr(obj), wanted, "repr (some parts may have failed)")
            except Moody:
                note('a part failed')
            victim.failing = False
            if any(isinstance(o, Retry) and o.failures for o in objects):
                note('a part failed and was tried again')
        same(repr(obj), wanted, "repr")
        same(repr(obj), wanted, "repr the second time")
    if cyclic:
        note('cyclic')
    note.nontrivial(cyclic)


def checkDeep(case, note):
    """
    Things nested deeply.
    """
    kinds, back, times = case
    kinds = (kinds * times)[:400]
    nodes = [(kind, (n + 1, n + 1, 0)) for n, kind in enumerate(kinds)]
    if back is not None:
        nodes.append(('Solo', (back % (len(nodes) + 1), 0)))
    else:
        nodes.append(('plain', (0, 0)))
    # Only one way leads down.
    nodes = [(kind, refs if kind == 'Solo' else (refs[0], len(nodes), 0))
             for kind, refs in nodes] + [('plain', (0, 0))]
    objects = build(tuple(nodes))
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        for obj in objects[:2]:
            same(repr(obj), expected(obj), "repr")
    finally:
        sys.setrecursionlimit(limit)
    note.nontrivial(len(kinds) > 20)


class Gate(object):
    """
    Its repr waits until another thread has made a repr of the same thing.
    """
    def __init__(self):
        self.lock = threading.local()
        self.action = None

    def __repr__(self):
        action, self.action = self.action, None
        if action is not None:
            action()
        return '<gate>'


def checkThreads(case, note):
    nodes, where = case
    objects = build(nodes)
    records = [o for o in objects if isinstance(o, TWO)]
    if not records:
        return
    gate = Gate()
    holder = records[where % len(records)]
    holder.left = gate
    for obj in records:
        if size(obj) > 300:
            continue
        wanted = expected(obj)
        results = []

        def other():
            try:
                results.append(repr(obj))
            except BaseException as e:
                results.append(e)

        def action():
            thread = threading.Thread(target=other)
            thread.start()
            thread.join()
        gate.action = action
        mine = repr(obj)
        gate.action = None
        same(mine, wanted, "repr")
        if results:
            same(results, [wanted], "repr in another thread")
            note.nontrivial()


def graphs(kinds, maxSize=7):
    return st.lists(st.tuples(
        st.sampled_from(kinds),
        st.lists(st.integers(0, maxSize - 1), min_size=2, max_size=3).map(
            tuple)), min_size=1, max_size=maxSize).map(tuple)


SUBS = [
    Sub('graph', lambda: st.tuples(
        graphs(['Pair', 'Twin', 'Solo', 'Pair', '_Hidden', 'Counted', 'Solo', 'list', 'dict', 'leaf',
                'leaf', 'plain', 'retry']),
        st.integers(0, 3)), check, 2500, 30000,
        rule="there is a cycle"),
    Sub('deep', lambda: st.tuples(
        st.lists(st.sampled_from(['Pair', 'Twin', 'Solo', 'list', 'dict', '_Hidden',
                                  'Counted']),
                 min_size=1, max_size=6).map(tuple),
        st.one_of(st.none(), st.integers(0, 80)), st.one_of(st.integers(1, 80), st.integers(1, 400))),
        checkDeep, 150, 1500, rule="more than 20 levels",
        examples=[(("Solo",), None, 80), (("Pair",), 0, 80),
                  (("Solo",), None, 400)]),
    Sub('threads', lambda: st.tuples(
        graphs(['Pair', 'Pair', 'Solo', 'list', 'plain'], 4),
        st.integers(0, 3)), checkThreads, 200, 1500,
        rule="another thread made a repr in the middle"),
]
