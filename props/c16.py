"""
AMP routes multiplex independent conversations over one connection.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Errors, Link, Outcome
from epsilon.amprouter import Router
from twisted.internet import defer, error
from twisted.protocols.amp import (
    AMP, AmpBox, BoxDispatcher, Command, CommandLocator, IBoxReceiver, Integer)
from zope.interface import implementer

RULE = ("Two real AMP connections with a Router each, routes with generated "
        "names (non-ASCII, empty, the default one, assigned ones), boxes sent "
        "through any of them in any order, and deliveries of arbitrary sizes.")


@implementer(IBoxReceiver)
class Receiver(object):
    def __init__(self):
        self.sender = None
        self.boxes = []
        self.stopped = []

    def startReceivingBoxes(self, sender):
        assert self.sender is None
        self.sender = sender

    def ampBoxReceived(self, box):
        self.boxes.append(dict(box))

    def stopReceivingBoxes(self, reason):
        self.stopped.append(reason)


def bind(routers, names):
    """
    Bind a receiver for each name (() for an assigned one).
    """
    result = []
    for side in (0, 1):
        here = []
        for name in names[side]:
            receiver = Receiver()
            if name in [r.localRouteName for r, ign in here]:
                continue
            if name == ():
                route = routers[side].bindRoute(receiver)
            else:
                route = routers[side].bindRoute(receiver, name)
                same(route.localRouteName, name, "name of the route")
            here.append((route, receiver))
        taken = [route.localRouteName for route, receiver in here]
        same(len(set(taken)), len(taken), "different names in %r" % (taken,))
        result.append(here)
    return result


def check(case, note):
    names, connections, ops, early = case
    routers = [Router(), Router()]
    # expected: (side, route) -> list of boxes
    expected = {}
    sentThrough = []
    with Errors() as errors:
        if early:
            routes = bind(routers, names)
        link = Link(AMP(boxReceiver=routers[0]), AMP(boxReceiver=routers[1]))
        if not early:
            routes = bind(routers, names)
        targets = {}
        for side in (0, 1):
            for n, (route, receiver) in enumerate(routes[side]):
                other = routes[1 - side]
                if not other:
                    continue
                target = connections[side][n % len(connections[side])]
                target %= len(other)
                route.connectTo(other[target][0].localRouteName)
                require(receiver.sender is not None, "not started")
                targets[side, n] = (1 - side, target)
        last = [None, None]
        for op in ops:
            if op[0] == 'deliver':
                link.deliver(op[1], op[2])
            else:
                kind, side, n, payload = op
                if not routes[side] or (
                        side, n % len(routes[side])) not in targets:
                    continue
                n %= len(routes[side])
                if payload is None and last[side] is not None:
                    # The same box, once more.
                    box, payload = last[side]
                    note('sent again')
                else:
                    payload = payload or ((b'k', b'v'),)
                    box = AmpBox(dict(payload))
                last[side] = box, payload
                routes[side][n][1].sender.sendBox(box)
                expected.setdefault(targets[side, n], []).append(dict(payload))
                sentThrough.append((side, n))
            for side in (0, 1):
                for n, (route, receiver) in enumerate(routes[side]):
                    wanted = expected.get((side, n), [])
                    same(receiver.boxes, wanted[:len(receiver.boxes)],
                         "boxes received by route %d of side %d" % (n, side))
        link.flush()
        for side in (0, 1):
            for n, (route, receiver) in enumerate(routes[side]):
                same(receiver.boxes, expected.get((side, n), []),
                     "boxes received by route %d of side %d" % (n, side))
                same(receiver.stopped, [], "stopped")
        link.disconnect(error.ConnectionLost('gone'))
        for side in (0, 1):
            for n, (route, receiver) in enumerate(routes[side]):
                same([f.check(error.ConnectionLost) for f in receiver.stopped],
                     [error.ConnectionLost], "stopped")
    same(errors.failures, [], "errors logged")
    if any(None in part for part in names):
        note('the default route')
    if early:
        note('bound before the connection was made')
    note.nontrivial(len(set(sentThrough)) > 1)


class Work(Command):
    arguments = [(b'n', Integer())]
    response = [(b'n', Integer())]


class Worker(BoxDispatcher):
    def __init__(self, log, label):
        class Locator(CommandLocator):
            @Work.responder
            def work(self, n):
                log.append((label, n))
                d = defer.Deferred()
                waiting.append((n, d))
                return d
        self.waiting = waiting = []
        BoxDispatcher.__init__(self, Locator())


def checkCommands(case, note):
    count, ops = case
    routers = [Router(), Router()]
    log = []
    with Errors() as errors:
        link = Link(AMP(boxReceiver=routers[0]), AMP(boxReceiver=routers[1]))
        workers = [[], []]
        for side in (0, 1):
            for n in range(count):
                worker = Worker(log, (side, n))
                route = routers[side].bindRoute(worker, 'route-%d' % (n,))
                workers[side].append((worker, route))
        for side in (0, 1):
            for n, (worker, route) in enumerate(workers[side]):
                route.connectTo('route-%d' % (n,))
        calls = []
        for op in ops:
            if op[0] == 'call':
                side, n = op[1], op[2] % count
                ident = len(calls)
                d = workers[side][n][0].callRemote(Work, n=ident)
                calls.append((side, n, Outcome(d)))
            elif op[0] == 'deliver':
                link.deliver(op[1], op[2])
            else:
                worker = workers[op[1]][op[2] % count][0]
                if worker.waiting:
                    ident, d = worker.waiting.pop(op[3] % len(worker.waiting))
                    d.callback(dict(n=ident * 3))
        for _ in range(3):
            link.flush()
            for side in (0, 1):
                for worker, route in workers[side]:
                    while worker.waiting:
                        ident, d = worker.waiting.pop()
                        d.callback(dict(n=ident * 3))
    same(sorted(ident for label, ident in log), list(range(len(calls))),
         "calls received")
    for label, ident in log:
        side, n, outcome = calls[ident]
        same(label, (1 - side, n), "receiver of call %d" % (ident,))
        same(outcome.results, [('ok', {'n': ident * 3})],
             "result of call %d" % (ident,))
    same(errors.failures, [], "errors logged")
    note.nontrivial(len(set((s, n) for s, n, o in calls)) > 1)


# Different names, some of which might be taken for others.
LOOKALIKES = [
    ('\xe9', 'e\u0301', 'E\u0301', '\xc9', 'e', '?', '\\xe9'),
    ('\ufb01', 'fi', '\uff46\uff49', 'FI', 'f\u200bi', 'f\xadi', '\ufefffi'),
    ('0', '00', ' 0', '0 ', '+0', '-0', '0.0', '\u0660', '0\0', '\x000', '1'),
    ('', None, ' ', '\0', '\n', 'None', 'null', '\xa0', '_route', '\t'),
    ('\xdf', 'ss', 'SS', '\u1e9e', '\u017fs'),
    ('a/b', 'a', 'b', 'a//b', '/a', 'a%2Fb', 'a\\b', 'a:b', 'a.b', 'a_b',
     'a-b', 'ab', 'a b', 'a  b', 'a+b'),
]


def routeNames():
    # () asks the router to assign one
    return st.lists(st.one_of(
        st.just(()), st.none(),
        st.sampled_from(['', '0', '1', 'a', '\xe9', '_route', '\u2603']),
        # Names which are easily mistaken for each other.
        st.sampled_from(['a', 'A', ' a', 'a ', 'a\n', 'a\0', 'a.', '', ' ',
                         '\xe9', 'e\u0301', '\xc9', '\ufeffa', 'None', '0',
                         '00', '-0', '\u0660', 'a\xa0', 'a' * 200, 'a' * 300,
                         'a' * 299 + 'b', 'a' * 300 + '\xe9', '\ufb01',
                         'fi']),
        st.sampled_from(['a', 'A', ' a', 'a ', 'a\n', 'a\0', '', ' ', 'None']),
        st.text(st.characters(exclude_categories=['Cs']), max_size=6)),
        max_size=4, unique_by=lambda n: n if n != () else object()).map(tuple)


def payload():
    return st.dictionaries(
        st.binary(min_size=1, max_size=6).filter(
            lambda k: k not in (b'_route',)),
        stretched(st.binary(max_size=8)), min_size=1, max_size=3).map(
            lambda d: tuple(sorted(d.items())))


def delivers():
    return st.tuples(st.just('deliver'), st.integers(0, 1),
                     st.one_of(st.none(), st.integers(1, 60)))


SUBS = [
    Sub('boxes', lambda: st.tuples(
        st.tuples(routeNames(), routeNames()),
        st.tuples(*[st.lists(st.integers(0, 3), min_size=1, max_size=4).map(
            tuple)] * 2),
        st.lists(st.one_of(
            st.tuples(st.just('send'), st.integers(0, 1), st.integers(0, 3),
                      payload()),
            st.tuples(st.just('send'), st.integers(0, 1), st.integers(0, 3),
                      st.one_of(st.none(), payload())),
            delivers()), max_size=15).map(tuple),
        st.booleans()),
        check, 1500, 20000, rule="boxes were sent through several routes",
        examples=[
            ((((),) * len(names), names),
             (tuple(range(len(names))), (0,)),
             tuple(('send', 0, n, ((b'k', b'%d' % n),))
                   for n in range(len(names))), early)
            for names in LOOKALIKES for early in (False, True)]),
    Sub('commands', lambda: st.tuples(
        st.integers(1, 3),
        st.lists(st.one_of(
            st.tuples(st.just('call'), st.integers(0, 1), st.integers(0, 2)),
            st.tuples(st.just('answer'), st.integers(0, 1), st.integers(0, 2),
                      st.integers(0, 3)), delivers()),
            max_size=20).map(tuple)),
        checkCommands, 800, 10000, rule="calls through several routes"),
]
