"""
Applications which are built as the documentation shows work.
"""
import io
import os
import random
import sys
import types

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Link, Outcome

import epsilon
import twisted.internet
from epsilon.ampauth import CredAMPServerFactory, OTPLogin, OneTimePadChecker
from epsilon.ampauth import login
from epsilon.amprouter import Router
from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
from twisted.cred.credentials import UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import Portal
from twisted.internet import error
from twisted.protocols.amp import AMP, UnhandledCommand
from twisted.python import log

RULE = ("The programs of doc/listings/amp, as they are, over an in-memory "
        "network which cuts the streams in generated ways; and generated "
        "histories of servers and clients made of their parts.")

LISTINGS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(epsilon.__file__))), 'doc', 'listings', 'amp')
NAMES = ['amp_auth_client', 'amp_auth_server', 'auth_client', 'auth_server',
         'route_client', 'route_server', 'route_setup']


class Network(object):
    """
    Stands in for the reactor of every program.
    """
    def __init__(self, cuts):
        self.cuts = cuts
        self.at = 0
        self.factories = {}

    def cut(self):
        if not self.cuts:
            return None
        self.at += 1
        return self.cuts[self.at % len(self.cuts)]


class Reactor(object):
    running = False
    stopped = False

    def __init__(self, network):
        self.network = network
        self.calls = []
        self.links = []
        self.connecting = []
        self.served = False
        self.triggers = []

    def listenTCP(self, port, factory, *a, **kw):
        self.network.factories[port] = factory
        factory.doStart()
        self.served = True

    def connectTCP(self, host, port, factory, *a, **kw):
        same(host, 'localhost', "host")
        self.connecting.append((port, factory))
        return self

    def callLater(self, delay, f, *a, **kw):
        self.calls.append((f, a, kw))
        return Call()

    def callWhenRunning(self, f, *a, **kw):
        if self.running:
            f(*a, **kw)
        else:
            self.calls.append((f, a, kw))

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        if event == 'shutdown':
            self.triggers.append((f, a, kw))

    def stop(self):
        require(self.running and not self.stopped, "stopped twice")
        self.stopped = True

    def run(self, *a, **kw):
        if self.served:
            # The server goes on when it gets a connection.
            return
        self.running = True
        while not self.stopped:
            busy = False
            calls, self.calls = self.calls, []
            for f, a, kw in calls:
                busy = True
                f(*a, **kw)
            connecting, self.connecting = self.connecting, []
            for port, factory in connecting:
                busy = True
                server = self.network.factories[port].buildProtocol(None)
                self.links.append(Link(factory.buildProtocol(None), server))
            for link in self.links:
                for side in (0, 1):
                    if link.deliver(side, self.network.cut()):
                        busy = True
                for t in link.transports:
                    if t.disconnecting and not t.outgoing and not link.down:
                        link.disconnect()
                        busy = True
            require(busy or self.stopped, "the program never ends")
        for f, a, kw in self.triggers:
            f(*a, **kw)
        for link in self.links:
            if not link.down:
                link.disconnect()
        self.running = False


class Call(object):
    def cancel(self):
        pass

    def active(self):
        return False


class Environment(object):
    """
    What a program finds when it is run: the directory it is in on the path,
    a reactor, and somewhere to print.
    """
    def __init__(self, reactor=None):
        self.reactor = reactor

    def __enter__(self):
        self.path = sys.path[:]
        self.stdout = sys.stdout
        self.startLogging = log.startLogging
        self.module = sys.modules.get('twisted.internet.reactor')
        self.attribute = twisted.internet.__dict__.get('reactor')
        sys.path.insert(0, LISTINGS)
        sys.stdout = io.StringIO()
        log.startLogging = lambda *a, **kw: None
        reactor = self.reactor or Reactor(Network(()))
        sys.modules['twisted.internet.reactor'] = reactor
        twisted.internet.reactor = reactor
        self.forget()
        self.bytecode = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        return self

    def forget(self):
        for name in NAMES:
            sys.modules.pop(name, None)

    def __exit__(self, *exc):
        self.output = sys.stdout.getvalue()
        sys.dont_write_bytecode = self.bytecode
        sys.path[:] = self.path
        sys.stdout = self.stdout
        log.startLogging = self.startLogging
        if self.module is None:
            del sys.modules['twisted.internet.reactor']
        else:
            sys.modules['twisted.internet.reactor'] = self.module
        if self.attribute is None:
            del twisted.internet.reactor
        else:
            twisted.internet.reactor = self.attribute
        self.forget()


def execute(name, run_name):
    path = os.path.join(LISTINGS, name + '.py')
    module = types.ModuleType(run_name)
    module.__file__ = path
    with open(path) as f:
        source = f.read()
    exec(compile(source, path, 'exec'), module.__dict__)
    return module.__dict__


def program(name, network):
    """
    Run a program, and return what it printed.
    """
    reactor = Reactor(network)
    with Environment(reactor) as environment:
        execute(name, '__main__')
    return environment.output.splitlines()


def checkPrograms(case, note):
    which, clients, cuts, seed = case
    network = Network(cuts)
    program(which + '_server', network)
    same(sorted(network.factories), [7805], "ports listened on")
    for n in range(clients):
        state = random.getstate()
        random.seed(seed)
        try:
            with Errors() as errors:
                lines = program(which + '_client', network)
        finally:
            random.setstate(state)
        if which == 'amp_auth' and n:
            same(lines, [], "printed with a pad which was used before")
            require(errors.failures, "nothing logged")
            note('pad used again')
            continue
        same(errors.failures, [], "errors logged")
        if which == 'route':
            found = {}
            for line in lines:
                key, value = line.split(' ', 1)
                found.setdefault(key, []).append(value)
            same(sorted(found), ['0', '1', '2'], "routes")
            for key, values in found.items():
                require(1 <= len(values) <= 4, "%r", lines)
                same(values, ["{'value': %d}" % (i + 1,)
                              for i in range(len(values))],
                     "values of route " + key)
        else:
            same(lines, ["{'sum': 50}"], "printed")
    note(which)
    note.nontrivial(clients > 1 and bool(cuts))


_parts = {}


def part(program, name):
    if program not in _parts:
        with Environment():
            _parts[program] = execute(program, program)
    return _parts[program][name]


class Refused(Exception):
    pass


def checkRoutes(ops, note):
    with Environment():
        server = execute('route_server', 'route_server')
        setup = sys.modules['route_setup']
    Count = server['Count']
    factory = setup.AMPRouteServerFactory()
    refuse = []
    made = []

    def routeProtocol():
        if refuse:
            raise Refused("no more of them")
        made.append(server['Counter']())
        return made[-1]
    factory.routeProtocol = routeProtocol
    clients = []            # [protocol, router, link]
    routes = []             # dicts

    class Receiver(AMP):
        started = 0
        stopped = 0

        def startReceivingBoxes(self, sender):
            self.started += 1
            AMP.startReceivingBoxes(self, sender)

        def stopReceivingBoxes(self, reason):
            self.stopped += 1
            AMP.stopReceivingBoxes(self, reason)

    def settle(client):
        client[2].flush()
    with Errors() as errors:
        for op in ops:
            if op[0] == 'client' and len(clients) < 4:
                router = Router()
                proto = AMP(router)
                router.bindRoute(proto, None).connectTo(None)
                clients.append((proto, router,
                                Link(proto, factory.buildProtocol(None))))
            elif op[0] in ('route', 'open') and clients:
                client = clients[op[1] % len(clients)]
                if client[2].down:
                    continue
                receiver = Receiver()
                routes.append(dict(
                    client=client, receiver=receiver, counts=[],
                    outcome=Outcome(setup.connect(client[0], client[1],
                                                  receiver))))
                if op[0] == 'open':
                    settle(client)
            elif op[0] == 'count' and routes:
                route = routes[op[1] % len(routes)]
                if (route['client'][2].down or
                    [s for s, v in route['outcome'].results] != ['ok']):
                    continue
                for i in range(op[2]):
                    route['counts'].append(Outcome(
                        route['receiver'].callRemote(Count)))
            elif op[0] == 'deliver' and clients:
                link = clients[op[1] % len(clients)][2]
                if not link.down:
                    link.deliver(op[2], op[3])
            elif op[0] == 'settle' and clients:
                settle(clients[op[1] % len(clients)])
            elif op[0] == 'lose' and clients:
                link = clients[op[1] % len(clients)][2]
                if not link.down:
                    link.disconnect()
            elif op[0] == 'refuse' and clients:
                client = clients[op[1] % len(clients)]
                if client[2].down:
                    continue
                settle(client)
                refuse.append(1)
                receiver = Receiver()
                outcome = Outcome(setup.connect(client[0], client[1],
                                                receiver))
                settle(client)
                refuse.pop()
                same([s for s, v in outcome.results], ['failed'],
                     "result of a refused route")
                same((receiver.started, receiver.stopped), (0, 0),
                     "starts and stops of the receiver of a refused route")
                require(not client[2].down or
                        Refused in errors.types(), "%r", errors.failures)
                note('refused')
        for client in clients:
            if not client[2].down:
                settle(client)
        for route in routes:
            down = route['client'][2].down
            statuses = [s for s, v in route['outcome'].results]
            same(len(statuses), 1, "results of connecting")
            if not down:
                same(statuses, ['ok'], "result of connecting")
            receiver = route['receiver']
            same(receiver.started, int(statuses == ['ok']), "starts")
            if statuses == ['ok']:
                same(receiver.stopped, int(down), "stops")
            else:
                require(receiver.stopped <= 1, "stopped twice")
            for n, outcome in enumerate(route['counts']):
                same(len(outcome.results), 1, "results of a count")
                status, value = outcome.results[0]
                if status == 'ok':
                    same(value, {'value': n + 1}, "value")
                else:
                    require(down, "count failed: %r", value)
                    require(value.check(error.ConnectionDone), "%r", value)
                    note('count lost')
    # An undeclared error closes the connection.
    require(Refused in errors.types() or not errors.failures,
            "errors logged: %r", errors.failures)
    counting = [r for r in routes if r['counts']]
    if len(counting) > 1:
        note('several routes')
    note.nontrivial(len(counting) > 1)


def checkAuth(case, note):
    users, pads, connections = case
    checker = InMemoryUsernamePasswordDatabaseDontUse()
    for user, password in users:
        checker.addUser(user, password)
    users = dict(users)
    left = set(p for p in pads)
    factory = CredAMPServerFactory(Portal(
        part('auth_server', 'AdditionRealm')(),
        [checker, OneTimePadChecker(dict((p, 'pad') for p in pads))]))
    Add = part('auth_server', 'Add')
    reached = 0
    for steps, cuts in connections:
        client = AMP()
        link = Link(client, factory.buildProtocol(None))
        network = Network(cuts)
        inside = False

        def settle():
            moved = True
            while moved:
                moved = False
                for side in (0, 1):
                    if link.deliver(side, network.cut()):
                        moved = True
        for step in steps:
            if link.down:
                break
            with Errors() as errors:
                if step[0] == 'add':
                    outcome = Outcome(client.callRemote(
                        Add, left=step[1], right=step[2]))
                    settle()
                    (status, value), = outcome.results
                    if inside:
                        same((status, value),
                             ('ok', {'sum': step[1] + step[2]}), "sum")
                        reached += 1
                    else:
                        require(status == 'failed' and
                                value.check(UnhandledCommand),
                                "sum before logging in: %r", value)
                        note('not logged in')
                elif inside:
                    # It doesn't take more than one.
                    continue
                elif step[0] == 'login':
                    outcome = Outcome(login(client, UsernamePassword(
                        step[1], step[2])))
                    settle()
                    (status, value), = outcome.results
                    if step[1] in users and users[step[1]] == step[2]:
                        same(status, 'ok', "result of logging in")
                        inside = True
                        require(value is client, "logged in: %r", value)
                    else:
                        require(status == 'failed' and
                                value.check(UnauthorizedLogin),
                                "refused with %r", value)
                elif step[0] == 'pad':
                    outcome = Outcome(client.callRemote(OTPLogin,
                                                        pad=step[1]))
                    settle()
                    (status, value), = outcome.results
                    if step[1] in left:
                        same(status, 'ok', "result of logging in")
                        inside = True
                        left.discard(step[1])
                        note('pad')
                    else:
                        require(status == 'failed' and
                                value.check(UnauthorizedLogin),
                                "refused with %r", value)
            require(all(kind in (UnauthorizedLogin, UnhandledCommand)
                        for kind in errors.types()), "%r", errors.failures)
        if not link.down:
            link.disconnect()
    note.nontrivial(reached > 0)


def cuts():
    return st.lists(st.one_of(st.integers(1, 12), st.integers(1, 80),
                              st.none()), max_size=6).map(tuple)


WORDS = [b'testuser', b'', b'bob', b'a b', b'\xff\0', b'examplepass', b'x']


def route_ops():
    client = st.integers(0, 3)
    return st.lists(st.one_of(
        st.just(('client',)),
        st.tuples(st.just('route'), client),
        st.tuples(st.just('open'), client),
        st.tuples(st.just('open'), client),
        st.tuples(st.just('count'), st.integers(0, 9), st.integers(1, 4)),
        st.tuples(st.just('count'), st.integers(0, 9), st.integers(1, 4)),
        st.tuples(st.just('deliver'), client, st.integers(0, 1),
                  st.one_of(st.none(), st.integers(1, 60))),
        st.tuples(st.just('settle'), client),
        st.sampled_from([('settle', 0), ('settle', 1), ('open', 0)] * 2 +
                        [('lose', 0), ('lose', 1), ('refuse', 0)])),
        min_size=8, max_size=25).map(lambda ops: (('client',), ('client',)) + tuple(ops))


def connection():
    word = st.sampled_from(WORDS)
    return st.tuples(st.lists(st.one_of(
        st.tuples(st.just('add'), st.integers(), st.integers()),
        st.tuples(st.just('login'), word, word),
        st.sampled_from([('login', b'testuser', b'examplepass'),
                         ('login', b'bob', b'')]),
        st.tuples(st.just('pad'), word)), max_size=6).map(tuple), cuts())


SUBS = [
    Sub('programs', lambda: st.tuples(
        st.sampled_from(['auth', 'amp_auth', 'route', 'route']),
        st.integers(1, 3), cuts(), st.integers(0, 2 ** 32)),
        checkPrograms, 100, 1500,
        rule="more than one client, and a stream which is cut",
        examples=[('auth', 2, (3,), 0), ('amp_auth', 2, (3,), 0),
                  ('route', 2, (3,), 0)]),
    Sub('routes', route_ops, checkRoutes, 400, 6000,
        rule="counting through more than one route",
        examples=[(('client',),) + (('route', 0),) * 60 + (('settle', 0),) +
                  tuple(('count', n, 40) for n in range(60))]),
    Sub('auth', lambda: st.tuples(
        st.just(((b'testuser', b'examplepass'), (b'bob', b''))),
        st.lists(st.sampled_from(WORDS), unique=True, max_size=3).map(tuple),
        st.lists(connection(), min_size=1, max_size=4).map(tuple)),
        checkAuth, 300, 5000, rule="something added after logging in"),
]
