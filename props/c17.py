"""
The life of routers and routes.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.amprouter import RouteNotConnected, Router
from twisted.internet import error
from twisted.protocols.amp import IBoxReceiver, IBoxSender
from twisted.python.failure import Failure
from zope.interface import implementer

RULE = ("Histories of binding, connecting and unbinding routes, starting and "
        "stopping the router, sending and receiving boxes, also from within "
        "the receivers' own methods.")


@implementer(IBoxSender)
class Sender(object):
    def __init__(self):
        self.boxes = []
        self.errors = []

    def sendBox(self, box):
        self.boxes.append(dict(box))

    def unhandledError(self, failure):
        self.errors.append(failure)


class Item(object):
    """
    The model of a route.
    """
    connected = None         # or (remote name,)
    bound = True

    def __init__(self, receiver, name):
        self.receiver = receiver
        self.name = name
        self.events = []


@implementer(IBoxReceiver)
class Receiver(object):
    item = None
    route = None

    def __init__(self, world, reaction):
        self.world = world
        self.reaction = reaction
        self.events = []

    def startReceivingBoxes(self, sender):
        require(sender is self.route, "started with %r", sender)
        self.events.append('start')
        self.react('start')

    def ampBoxReceived(self, box):
        self.events.append(('box', dict(box)))
        self.react('box')

    def stopReceivingBoxes(self, reason):
        require(reason is self.world.reason, "stopped with %r", reason)
        self.events.append('stop')
        self.react('stop')

    def react(self, when):
        kind, action = self.reaction
        if kind != when:
            return
        self.reaction = (None, None)
        world = self.world
        if action == 'bind':
            if when == 'stop':
                # Which comes too late to be of any use, but does no harm to
                # the others.
                other = Receiver(world, (None, None))
                other.route = world.router.bindRoute(other)
            else:
                n = world.bind((), (None, None))
                world.connect(n, 'far')
        elif action == 'connect':
            if when == 'stop':
                other = Receiver(world, (None, None))
                other.route = world.router.bindRoute(other, 'late')
                other.route.connectTo('far')
            for n, item in enumerate(world.items):
                if item.connected is None and item.bound and when != 'stop':
                    world.connect(n, 'far')
                    break
        elif action == 'unbind':
            if self.item.bound:
                world.unbind(world.items.index(self.item))
        elif action == 'send':
            if self.item.connected is not None:
                world.send(world.items.index(self.item), {'re': 'acted'})


class World(object):
    started = False
    stopped = False

    def __init__(self):
        self.router = Router()
        self.sender = Sender()
        self.items = []
        self.expectedBoxes = []
        self.expectedErrors = []
        self.identifiers = set()
        self.reason = Failure(error.ConnectionLost('gone'))

    def names(self):
        return dict((i.name, i) for i in self.items if i.bound)

    def bind(self, name, reaction):
        receiver = Receiver(self, reaction)
        if name == ():
            route = self.router.bindRoute(receiver)
            require(isinstance(route.localRouteName, str), "name %r",
                    route.localRouteName)
            require(route.localRouteName not in self.names(),
                    "route %r bound twice", route.localRouteName)
            name = route.localRouteName
        else:
            if name in self.names():
                return None
            route = self.router.bindRoute(receiver, name)
            same(route.localRouteName, name, "name")
        receiver.route = route
        item = receiver.item = Item(receiver, name)
        self.items.append(item)
        return len(self.items) - 1

    def connect(self, n, remote):
        item = self.items[n]
        item.connected = (remote,)
        if self.started:
            item.events.append('start')
        item.receiver.route.connectTo(remote)

    def unbind(self, n):
        item = self.items[n]
        item.bound = False
        item.receiver.route.unbind()

    def send(self, n, box):
        item = self.items[n]
        if item.connected is None:
            before = len(self.sender.boxes)
            try:
                item.receiver.route.sendBox(dict(box))
            except RouteNotConnected:
                same(len(self.sender.boxes), before, "boxes sent")
            else:
                raise Violation("sent through a route which isn't connected")
        elif self.started:
            wanted = dict(box)
            remote = item.connected[0]
            if remote is not None:
                wanted[b'_route'] = remote
            self.expectedBoxes.append(wanted)
            item.receiver.route.sendBox(dict(box))

    def receive(self, name, box):
        target = self.names().get(name)
        wire = dict(box)
        if name is not None:
            wire[b'_route'] = name
        if target is None:
            try:
                self.router.ampBoxReceived(wire)
            except KeyError:
                pass
            else:
                raise Violation("a box for unknown route %r" % (name,))
        else:
            target.events.append(('box', dict(box)))
            self.router.ampBoxReceived(wire)

    def observe(self, what):
        for item in self.items:
            same(item.receiver.events, item.events,
                 "events of route %r after %r" % (item.name, what))
        same(self.sender.boxes, self.expectedBoxes, "boxes sent")
        same(self.sender.errors, self.expectedErrors, "errors passed on")


def check(case, note):
    world = World()
    for op in case:
        if world.stopped and op[0] not in ('unbind',):
            continue
        index = op[1] % len(world.items) if (
            len(op) > 1 and isinstance(op[1], int) and world.items) else None
        if op[0] == 'bind':
            world.bind(op[1], op[2])
        elif op[0] == 'connect' and index is not None:
            if world.items[index].connected is None:
                world.connect(index, op[2])
        elif op[0] == 'unbind' and index is not None:
            if world.items[index].bound:
                world.unbind(index)
        elif op[0] == 'send' and index is not None:
            world.send(index, {'n': op[2]})
        elif op[0] == 'start' and not world.started:
            world.started = True
            for item in world.items:
                if item.bound and item.connected is not None:
                    item.events.append('start')
                    note('started with the router')
            world.router.startReceivingBoxes(world.sender)
        elif op[0] == 'stop' and world.started:
            world.stopped = True
            for item in world.items:
                if item.bound:
                    item.events.append('stop')
            world.router.stopReceivingBoxes(world.reason)
            note('stopped')
        elif op[0] == 'receive' and world.started:
            name = op[1]
            if name is not None and world.items and op[2]:
                name = world.items[op[2] % len(world.items)].name
            world.receive(name, {'b': op[2]})
        elif op[0] == 'identifier':
            name = world.router.createRouteIdentifier()
            require(isinstance(name, str) and name not in world.names(),
                    "identifier %r is in use", name)
            require(name not in world.identifiers, "identifier %r again", name)
            world.identifiers.add(name)
        elif op[0] == 'error' and index is not None and world.started:
            f = Failure(ValueError(op[2]))
            world.expectedErrors.append(f)
            world.items[index].receiver.route.unhandledError(f)
        world.observe(op)
    note.nontrivial(sum(len(i.events) for i in world.items) > 2)


def boundNames():
    return st.one_of(st.just(()), st.none(),
                     st.sampled_from(['0', '1', '2', '3', 'a', 'b', '']))


OPS = ['bind'] * 5 + ['connect'] * 6 + ['receive'] * 4 + [
    'send', 'send', 'unbind', 'identifier', 'error', 'start', 'stop']
REACTIONS = [(when, what) for when in ('start', 'box', 'stop', None)
             for what in ('bind', 'connect', 'unbind', 'send')]
LOCAL = [(), (), None, '0', '1', '2', '3', 'a', 'b', '']
REMOTE = [None, 'x', 'y', '0', '']


def op(numbers):
    kind, a, b = numbers
    name = OPS[kind]
    if name == 'bind':
        return ('bind', LOCAL[a % len(LOCAL)], REACTIONS[b % len(REACTIONS)])
    if name == 'connect':
        return ('connect', a, REMOTE[b % len(REMOTE)])
    if name == 'receive':
        local = LOCAL[a % len(LOCAL)]
        return ('receive', 'a' if local == () else local, b)
    if name in ('send', 'error'):
        return (name, a, b)
    if name == 'unbind':
        return ('unbind', a)
    return (name,)


def ops(low, high):
    return st.lists(st.tuples(
        st.integers(0, len(OPS) - 3), st.integers(0, 9), st.integers(0, 15)
    ).map(op), min_size=low, max_size=high).map(tuple)


def histories():
    return st.tuples(ops(0, 12), ops(6, 25), st.booleans(), ops(0, 4)).map(
        lambda p: p[0] + (('start',),) + p[1] +
        ((('stop',),) + p[3] if p[2] else ()))


SUBS = [
    Sub('history', histories, check, 4000, 50000,
        rule="three or more events reached the receivers",
        examples=[
            tuple(('bind', (), (None, None)) for n in range(60)) +
            tuple(('connect', n, 'x') for n in range(0, 60, 2)) +
            (('start',),) +
            tuple(('bind', 'r%d' % (n,), (None, None)) for n in range(60)) +
            tuple(('connect', n, None) for n in range(1, 120, 2)) +
            tuple(('receive', 'a', n) for n in range(1, 120)) +
            tuple(('unbind', n) for n in range(0, 120, 5)) +
            tuple(('receive', 'a', n) for n in range(1, 120)) +
            (('stop',),),
            (('start',),) + (('identifier',),) * 3000 + (
                ('bind', (), (None, None)),) * 3]),
]
