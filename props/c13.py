"""
Switching from juice to another protocol.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Errors, Link, Outcome
from epsilon import juice
from twisted.internet import defer, error
from twisted.internet.protocol import ClientFactory, Protocol

RULE = ("Connections with ordinary traffic in both directions, a switch "
        "(answered at once, later, with an error, or never), and then writes "
        "by both inner protocols, with deliveries of arbitrary sizes and "
        "disconnection at any point.")


class Inner(Protocol):
    broken = False

    def __init__(self, greeting, echo):
        self.greeting = greeting
        self.echo = echo
        self.events = []
        self.written = b''
        self.received = b''

    def connectionMade(self):
        self.events.append('made')
        self.send(self.greeting)
        if self.broken:
            raise Broken()

    def send(self, data):
        if data:
            self.written += data
            self.transport.write(data)

    def dataReceived(self, data):
        if 'made' not in self.events or 'lost' in self.events:
            self.events.append('data')
        self.received += data
        if self.echo and self.received.count(b'!') < 4:
            self.send(b'[%d]' % (len(data),))

    def connectionLost(self, reason):
        self.events.append('lost')
        self.reason = reason


class Factory(ClientFactory):
    noisy = False

    def __init__(self, inner):
        self.inner = inner
        self.events = []

    def buildProtocol(self, addr):
        self.events.append('build')
        return self.inner

    def clientConnectionLost(self, connector, reason):
        self.events.append('lost')

    def clientConnectionFailed(self, connector, reason):
        self.events.append('failed')


class Denied(Exception):
    pass


class Broken(Exception):
    pass


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'
    arguments = [('name', juice.String()),
                 ('body', juice.String(optional=True))]
    errors = {Denied: 'DENIED'}


class Ping(juice.Command):
    commandName = 'Ping'
    arguments = [('n', juice.Integer())]
    response = [('n', juice.Integer())]
    errors = {Denied: 'DENIED'}


class Tell(juice.Command):
    commandName = 'Tell'
    arguments = [('n', juice.Integer())]


class Peer(juice.Juice):
    inner = None
    how = 'now'

    def __init__(self, isServer):
        juice.Juice.__init__(self, isServer)
        self.pings = []
        self.told = []
        self.unanswered = []
        self.slow = ()
        self.switches = []
        self.waiting = None

    def command_PING(self, n):
        self.pings.append(n)
        if n in self.slow:
            d = defer.Deferred()
            self.unanswered.append((n, d))
            return d
        return dict(n=n)
    command_PING.command = Ping

    def command_TELL(self, n):
        self.told.append(n)
        return {}
    command_TELL.command = Tell

    def command_SWITCH(self, name, body):
        self.switches.append((name, body))
        if self.how == 'now':
            return self.inner
        if self.how == 'denied':
            raise Denied('no')
        self.waiting = defer.Deferred()
        return self.waiting
    command_SWITCH.command = Switch


def check(case, note):
    (how, name, body, greetings, echo, before, ops, drop, broken) = case
    inners = [Inner(greetings[0], echo == 0), Inner(greetings[1], echo == 1)]
    inners[0].broken = broken
    client, server = Peer(False), Peer(True)
    server.inner = inners[1]
    server.how = how
    factory = Factory(inners[0])
    with Errors() as errors:
        link = Link(client, server)
        pings = []
        sent = [0, 0]
        known = {}
        for side in before:
            side, slow = side % 2, side > 1
            sent[side] += 1
            if slow:
                (server, client)[side].slow += (sent[side],)
            else:
                known[side, sent[side]] = True
            pings.append((side, sent[side], Outcome(
                Ping(n=sent[side]).do((client, server)[side]))))
        if sent[1] % 2:
            link.deliver(1, None)
        pingsBefore = len(client.pings)
        outcome = Outcome(Switch(factory, name=name, body=body).do(client))
        # The client can't say anything more in juice.
        mark = link.transports[0].outgoing
        try:
            Ping(n=0).do(client, requiresAnswer=False)
        except AssertionError:
            pass
        else:
            require(False, "a command was accepted after the switch")
        same(link.transports[0].outgoing, mark, "sent after asking to switch")
        told = []
        for op in ops:
            if op[0] == 'deliver':
                link.deliver(op[1], op[2])
            elif op[0] == 'answer':
                if server.waiting is not None:
                    d, server.waiting = server.waiting, None
                    d.callback(inners[1])
            elif op[0] == 'pong':
                # Answers to commands from before the switch can come at any
                # time; it may be too late to send them.
                responder = (client, server)[op[1]]
                if responder.unanswered:
                    n, d = responder.unanswered.pop(
                        op[2] % len(responder.unanswered))
                    if (op[1] == 1 and server.innerProtocol is None and
                            not link.down):
                        known[0, n] = op[3]
                        note('slow answer')
                    else:
                        note('late answer')
                    if op[3]:
                        d.callback(dict(n=n))
                    else:
                        d.errback(Denied('no'))
            elif op[0] == 'tell':
                # What wants no answer still reaches the one who asked.
                if server.innerProtocol is None and not link.down:
                    told.append(len(told))
                    Tell(n=told[-1]).do(server, requiresAnswer=False)
            elif op[0] == 'flood':
                if 'made' in inners[op[1]].events:
                    inners[op[1]].send(
                        bytes(bytearray(range(256))) * (op[2] // 256) +
                        b'!' * (op[2] % 256))
            elif op[0] == 'write':
                if 'made' in inners[op[1]].events:
                    inners[op[1]].send(op[2])
            for side in (0, 1):
                require(inners[1 - side].written.startswith(
                    inners[side].received),
                    "side %d received %r of %r", side, inners[side].received,
                    inners[1 - side].written)
        early = drop
        if not early:
            link.flush()
            if server.waiting is not None and how == 'later':
                d, server.waiting = server.waiting, None
                d.callback(inners[1])
                link.flush()
            same(server.switches, [(name, body)], "requests to switch")
            if broken and how in ('now', 'later'):
                require(link.down, "a broken connection stays open")
                note('broken')
            elif how in ('now', 'later'):
                for side in (0, 1):
                    same(inners[side].received, inners[1 - side].written,
                         "what side %d received" % (side,))
                    same(inners[side].events, ['made'],
                         "events of side %d" % (side,))
                same(factory.events, ['build'], "events of the factory")
                same([s for s, v in outcome.results], ['ok'], "results")
                note('switched')
            for side, n, o in pings:
                if side == 0 and how != 'denied' and not broken:
                    if (0, n) not in known:
                        same(o.results, [], "result of ping")
                    elif known[0, n]:
                        same(o.results, [('ok', {'n': n})], "result of ping")
                    else:
                        same(len(o.results), 1, "results of ping")
                        require(o.results[0][0] == 'failed' and
                                o.results[0][1].check(Denied),
                                "result of ping: %r", o.results[0])
            same(server.pings, list(range(1, sent[0] + 1)), "pings")
            same(client.told, told[:len(client.told)] if how == 'denied'
                 else told, "commands without an answer")
            if told:
                note('told something')
        # Requests which arrive once it's locked are dropped, not answered.
        same(len(client.pings), pingsBefore, "requests to the locked client")
        made = ['made' in i.events for i in inners]
        down = link.down
        if not down:
            link.disconnect(error.ConnectionLost('gone'))
        for side in (0, 1):
            same(inners[side].events,
                 ['made', 'lost'] if made[side] else [],
                 "events of side %d after disconnecting" % (side,))
        same([('build' in factory.events), factory.events[-1:]],
             [made[0], ['lost' if made[0] else 'failed']],
             "events of the factory %r" % (factory.events,))
        same(len(factory.events), 2 if made[0] else 1,
             "number of the events of the factory %r" % (factory.events,))
        same(len(outcome.results), 1, "results of the switch")
        same(outcome.results[0][0],
             'ok' if made[0] and not broken else 'failed',
             "result of the switch")
        if made[0] and broken:
            require(outcome.results[0][1].check(Broken), "%r",
                    outcome.results[0][1])
        if how == 'denied' and not drop:
            require(outcome.results[0][1].check(Denied), "%r",
                    outcome.results[0][1])
            require(down, "the connection of a failed switch stays open")
        for side, n, o in pings:
            same(len(o.results), 1, "results of ping")
            status, value = o.results[0]
            if status == 'ok':
                same((known.get((side, n)), value), (True, {'n': n}),
                     "result of ping")
            else:
                require(value.check(Denied) and
                        known.get((side, n)) is False or
                        value.check(error.ConnectionLost,
                                    error.ConnectionDone),
                        "result of ping: %r", value)
        # Answers which come too late change nothing.
        events = [list(inner.events) for inner in inners]
        for responder in (client, server):
            for n, d in responder.unanswered:
                d.callback(dict(n=n))
        if server.waiting is not None:
            note('late switch')
            server.waiting.callback(inners[1])
        same([inner.events for inner in inners], events,
             "events after the end of the connection")
    same(errors.failures, [], "errors logged")
    if body is not None:
        note('with a body')
    if drop:
        note('dropped early')
    note(how)
    note.nontrivial(all(made) and any(len(i.received) for i in inners) and
                    sum(1 for op in ops if op[0] == 'deliver') > 1)


def checkPipelined(case, note):
    """
    The other side doesn't wait for anything: what it says in the new protocol
    comes with, or right after, the box which makes this side switch.
    """
    asks, body, payload, cuts = case
    inner = Inner(b'', False)
    peer = Peer(asks)
    factory = Factory(inner)
    peer.inner = inner
    with Errors() as errors:
        link = Link(peer, Protocol()) if asks else Link(Protocol(), peer)
        transport = link.transports[0 if asks else 1]
        if asks:
            outcome = Outcome(Switch(factory, name='x').do(peer))
            stream = b'-Answer: 1\r\n'
        else:
            stream = b'-Command: Switch\r\n-Ask: 1\r\nName: x\r\n'
        if body:
            stream += b'-Length: %d\r\n' % (len(body),)
        stream += b'\r\n' + body
        boundary = len(stream)
        stream += payload
        points = sorted(set(c % (len(stream) + 1) for c in cuts))
        if boundary not in points:
            note('box and data in one piece')
        for start, end in zip([0] + points, points + [len(stream)]):
            if end > start:
                peer.dataReceived(stream[start:end])
            same(inner.events, ['made'] if end >= boundary else [],
                 "events after %d of %d bytes" % (end, boundary))
            same(inner.received, stream[boundary:end], "received")
        if asks:
            same([s for s, v in outcome.results], ['ok'], "results")
        link.disconnect(error.ConnectionLost('gone'))
        same(inner.events, ['made', 'lost'], "events")
        if asks:
            same(factory.events, ['build', 'lost'], "events of the factory")
    same(errors.failures, [], "errors logged")
    note('asks' if asks else 'asked')
    note.nontrivial(bool(payload) and boundary not in points)


def data():
    return stretched(st.one_of(
        st.binary(max_size=6),
        st.sampled_from([b'', b'\r\n', b'A: b\r\n\r\n', b'\r\n\r\n', b'!',
                         b'-Length: 3\r\n', b'\0'])))


def ops():
    side = st.integers(0, 1)
    return st.lists(st.one_of(
        st.tuples(st.just('deliver'), side, st.one_of(
            st.none(), st.integers(1, 100), st.integers(1, 5))),
        st.tuples(st.just('deliver'), side, st.one_of(
            st.none(), st.integers(1, 40))),
        st.tuples(st.just('write'), side, data()),
        st.tuples(st.just('flood'), side, st.one_of(
            st.integers(1, 5000), st.integers(60000, 300000))),
        st.tuples(st.just('answer')),
        st.tuples(st.just('tell')),
        st.tuples(st.just('pong'), side, st.integers(0, 3), st.booleans()),
    ), max_size=25).map(tuple)


SUBS = [
    Sub('switch', lambda: st.tuples(
        st.sampled_from(['now', 'now', 'later', 'denied', 'never']),
        st.text('ab\r\n', max_size=5),
        st.one_of(st.none(), st.text('ab\r\n\xe9', max_size=8)),
        st.tuples(data(), data()),
        st.sampled_from([0, 1, 2]),
        st.lists(st.integers(0, 3), max_size=4).map(tuple),
        ops(), st.booleans(), st.sampled_from([False] * 7 + [True])),
        check, 3000, 40000,
        rule="both sides switched, and something was delivered to them in "
             "several pieces"),
    Sub('pipelined', lambda: st.tuples(
        st.booleans(), st.sampled_from([b'', b'a', b'abc', b'\r\n\r\n']),
        st.one_of(data(), st.binary(max_size=40)),
        st.lists(st.integers(0, 120), max_size=4).map(tuple)),
        checkPipelined, 1000, 10000,
        rule="the new protocol's data begins in the middle of a piece"),
]
