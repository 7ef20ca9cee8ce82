"""
Juice requests and responses are correlated, exactly once, whatever the
interleaving.
"""
import gc

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Link, Outcome
from epsilon import juice
from twisted.internet import defer, error
from twisted.python.failure import Failure

RULE = ("Histories of sends by both peers, partial deliveries, answers in any "
        "order, new requests from within callbacks and responders, and "
        "disconnection at any point.")


class Refused(Exception):
    pass


class Work(juice.Command):
    commandName = 'Work'
    arguments = [('n', juice.Integer()), ('nest', juice.Integer())]
    response = [('n', juice.Integer())]
    errors = {Refused: 'REFUSED'}


class Tell(juice.Command):
    commandName = 'Tell'
    arguments = [('n', juice.Integer())]


class Peer(juice.Juice):
    """
    Answers when the history says so.
    """
    def __init__(self, world, side):
        juice.Juice.__init__(self, bool(side))
        self.world = world
        self.side = side
        self.received = []
        self.pending = []

    def command_WORK(self, n, nest):
        self.received.append(n)
        if nest:
            self.world.send(self.side, 'work', 0, 0)
        if nest == 2:
            self.world.expected[n] = ('ok', -n)
            return dict(n=-n)
        d = defer.Deferred()
        self.pending.append((n, d))
        return d
    command_WORK.command = Work

    def command_TELL(self, n):
        self.received.append(n)
        return {}
    command_TELL.command = Tell


class World(object):
    def __init__(self):
        self.count = 0
        self.sent = [[], []]             # by each side, in order
        self.outcomes = {}
        self.expected = {}
        self.late = []
        self.peers = [Peer(self, 0), Peer(self, 1)]
        self.link = Link(*self.peers)

    def send(self, side, kind, nest, chain):
        self.count += 1
        n = self.count
        lost = self.link.down
        outcome = Outcome()
        if not lost:
            self.sent[side].append(n)
        if kind == 'work':
            d = Work(n=n, nest=nest).do(self.peers[side])
        else:
            d = Tell(n=n).do(self.peers[side], requiresAnswer=False)
            if not lost:
                same(d, None, "result of a command without an answer")
                return
        if d is None:
            # Lost, and no answer wanted: there is no one to tell.
            return
        outcome.watch(d)
        if chain:
            # Ask again as soon as the result is known, good or bad.
            d.addCallback(lambda ign: self.send(side, 'work', 0, chain - 1))
        if lost:
            self.late.append((n, outcome))
        else:
            self.outcomes[n] = (side, outcome)

    def answer(self, side, index, kind):
        pending = self.peers[side].pending
        if not pending:
            return
        n, d = pending.pop(index % len(pending))
        if not self.link.down:
            self.expected[n] = (kind, n * 10 if kind == 'ok' else 'no %d' % n)
        if kind == 'ok':
            d.callback(dict(n=n * 10))
        else:
            d.errback(Refused('no %d' % (n,)))

    def observe(self):
        """
        What must hold at every moment.
        """
        for side in (0, 1):
            got = self.peers[1 - side].received
            same(got, self.sent[side][:len(got)],
                 "requests received from side %d" % (side,))
        for n, (side, outcome) in self.outcomes.items():
            require(len(outcome.results) <= 1,
                    "request %d has results %r", n, outcome.results)
            if outcome.results:
                self.judge(n, outcome.results[0])

    def judge(self, n, result):
        status, value = result
        wanted = self.expected.get(n)
        if status == 'failed' and self.link.down and value.check(
                type(self.reason)):
            return
        require(wanted is not None,
                "request %d has the result %r but was not answered", n, value)
        if wanted[0] == 'ok':
            same((status, value), ('ok', {'n': wanted[1]}),
                 "result of request %d" % (n,))
        else:
            require(status == 'failed' and value.check(Refused) and
                    str(value.value) == wanted[1],
                    "result of request %d: %r, expected %r", n, value, wanted)

    reason = None

    def disconnect(self, reason):
        if self.link.down:
            return
        known = dict((n, list(o.results))
                     for n, (s, o) in self.outcomes.items())
        self.reason = reason
        self.link.disconnect(reason)
        for n, (side, outcome) in sorted(self.outcomes.items()):
            same(len(outcome.results), 1,
                 "results of request %d after disconnecting" % (n,))
            if known.get(n):
                require(outcome.results == known[n], "request %d", n)
            else:
                status, value = outcome.results[0]
                require(status == 'failed' and value.value is reason,
                        "pending request %d: %r, expected %r", n, value,
                        reason)


def check(case, note):
    ops, reasonIndex, final = case
    reason = [error.ConnectionDone('bye'), error.ConnectionLost('oops'),
              ValueError('weird')][reasonIndex]
    unsendable = []
    with Errors() as errors:
        world = World()
        for op in ops:
            if op[0] == 'send':
                world.send(*op[1:])
            elif op[0] == 'deliver':
                world.link.deliver(op[1], op[2])
            elif op[0] == 'answer':
                world.answer(*op[1:])
            elif op[0] == 'unsendable' and not world.link.down:
                # It can't be sent, the caller is told so, and that's it.
                try:
                    world.peers[op[1]].sendCommand('Work', n=op[2])
                except (TypeError, ValueError):
                    unsendable.append(op[1:])
                else:
                    require(False, "%r was sent", op[2])
            elif op[0] == 'drop':
                if any(p.pending for p in world.peers):
                    note('dropped with requests pending')
                world.disconnect(reason)
            world.observe()
        if final and not world.link.down:
            # Everything gets through and is answered in the end.
            for _ in range(200):
                world.link.flush()
                if not any(p.pending for p in world.peers):
                    break
                for side in (0, 1):
                    while world.peers[side].pending:
                        world.answer(side, -1, 'ok')
            world.observe()
            for side in (0, 1):
                same(world.peers[1 - side].received, world.sent[side],
                     "all the requests of side %d" % (side,))
            for n, (side, outcome) in world.outcomes.items():
                same(len(outcome.results), 1, "results of request %d" % (n,))
            note('everything answered')
        world.disconnect(reason)
        # Answers which come too late hurt nobody.
        for side in (0, 1):
            world.send(side, 'work', 0, 0)
            while world.peers[side].pending:
                world.answer(side, 0, 'ok')
        world.observe()
        for n, outcome in world.late:
            same(len(outcome.results), 1, "results of late request %d" % (n,))
            status, value = outcome.results[0]
            require(status == 'failed' and value.check(error.ConnectionLost),
                    "late request %d: %r", n, value)
        for side in (0, 1):
            same(world.link.transports[side].outgoing, b'',
                 "written after disconnecting")
        requests, answered = len(world.outcomes), len(world.expected)
        if unsendable:
            # Failures which no one handled are logged when they are freed.
            note('not sendable')
            world = None
            gc.collect()
            # What's left by now stays, and needn't be looked at again.
            gc.freeze()
    same(errors.failures, [], "errors logged")
    if requests > 2:
        note('three or more requests')
    if any(op[0] == 'send' and op[4] for op in ops):
        note('requests from callbacks')
    note.nontrivial(answered >= 2)


def ops():
    side = st.integers(0, 1)
    return st.lists(st.one_of(
        st.tuples(st.just('send'), side, st.just('work'),
                  st.sampled_from([0, 0, 0, 1, 2]),
                  st.sampled_from([0, 0, 1, 2])),
        st.tuples(st.just('send'), side, st.just('work'), st.just(0),
                  st.just(0)),
        st.tuples(st.just('send'), side, st.just('tell'), st.just(0),
                  st.just(0)),
        st.tuples(st.just('deliver'), side,
                  st.one_of(st.none(), st.none(), st.integers(1, 120))),
        st.tuples(st.just('deliver'), side, st.none()),
        st.tuples(st.just('answer'), side, st.integers(0, 5),
                  st.sampled_from(['ok', 'ok', 'refused'])),
    ), max_size=25)


@st.composite
def histories(draw):
    before = draw(ops())
    if draw(st.sampled_from([False, False, True])):
        before = before + [('drop',)] + draw(ops())[:8]
    return tuple(before), draw(st.integers(0, 2)), draw(st.booleans())


def checkRaw(case, note):
    """
    The level of boxes: sendCommand and sendBoxCommand.
    """
    requests, order, relay = case
    received = []

    class Server(juice.Juice):
        def asked(self, box):
            received.append(dict(box))
            d = defer.Deferred()
            waiting.append((box, d))
            return d

        def __getattr__(self, name):
            if name.startswith('juice_'):
                return self.asked
            raise AttributeError(name)
    waiting = []
    client = juice.Juice(False)
    link = Link(client, Server(True))
    outcomes = []
    again = None
    for n, (body, answer, name) in enumerate(requests):
        if answer == 'again':
            # The same box once more, with other contents.
            if again is None:
                again = juice.Box(body)
            again['n'] = str(n)
            again['body'] = body
            answer = n % 4 != 3
            d = client.sendBoxCommand(name, again, answer)
        else:
            d = client.sendCommand(name, body, answer, n=str(n))
        if answer:
            outcomes.append((n, Outcome(d)))
        else:
            same(d, None, "result of a command without an answer")
    link.flush()
    same([b['n'] for b in received], [str(n) for n in range(len(requests))],
         "the commands received")
    for box, (body, answer, name) in zip(received, requests):
        same(box.get('body', ''), body, "body")
        same(box['_command'], name, "command")
    common = juice.Box()

    def answer(box, d):
        if int(box['n']) % 3 == 0:
            # What was asked, with a result.
            result = box
        elif int(box['n']) % 3 == 1:
            result = common
        else:
            result = juice.Box()
        result['r'] = 'r' + box['n']
        d.callback(result)
    for k in order:
        if waiting:
            answer(*waiting.pop(k % len(waiting)))
    while waiting:
        answer(*waiting.pop())
    link.flush()
    for n, outcome in outcomes:
        same(len(outcome.results), 1, "results of %d" % (n,))
        status, value = outcome.results[0]
        same((status, value['r']), ('ok', 'r%d' % (n,)), "result of %d" % (n,))
        if relay and n < 3:
            # What was an answer is a request now.
            value['n'] = str(1000 + n)
            outcome = Outcome(client.sendBoxCommand('asked', value))
            link.flush()
            answer(*waiting.pop())
            link.flush()
            same([(s, v['r']) for s, v in outcome.results],
                 [('ok', 'r%d' % (1000 + n,))], "result of a relayed answer")
    note.nontrivial(len(outcomes) > 1)


@st.composite
def unsendable(draw):
    before, reason, final = draw(histories())
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, len(before)))
        before = before[:k] + (('unsendable', draw(st.integers(0, 1)),
                                '\ud800'),) + before[k:]
    return before, reason, final


def checkDebug(case, note):
    juice.debug = True
    try:
        check(case, note)
    finally:
        juice.debug = False


class Echo(juice.Command):
    commandName = 'Echo'
    arguments = [('n', juice.Integer())]
    response = [('n', juice.Integer()), ('role', juice.String())]


class Echoing(juice.Juice):
    def command_ECHO(self, n):
        return dict(n=n, role='server' if self.isServer else 'client')
    command_ECHO.command = Echo


def checkFactories(case, note):
    """
    Factories make a new protocol for every connection; it knows its side and
    its factory.
    """
    ops, default = case
    servers, clients = juice.JuiceServerFactory(), juice.JuiceClientFactory()
    if not default:
        servers.protocol = clients.protocol = Echoing
    links = []
    seen = []
    with Errors() as errors:
        for op, which, n in ops:
            if op == 'connect':
                pair = clients.buildProtocol(None), servers.buildProtocol(None)
                for p, factory in zip(pair, (clients, servers)):
                    require(not any(p is q for q in seen),
                            "a protocol was built twice")
                    require(p.factory is factory, "the factory of %r is %r",
                            p, p.factory)
                    require(isinstance(p, juice.Juice if default else Echoing),
                            "built %r", p)
                    same((bool(p.isServer), bool(p.isClient)),
                         (factory is servers, factory is clients), "the role")
                    seen.append(p)
                links.append((Link(*pair), pair))
            elif links and not default:
                link, pair = links[which % len(links)]
                side = n % 2
                outcome = Outcome(Echo(n=n).do(pair[side]))
                link.flush()
                same(outcome.results,
                     [('ok', dict(n=n, role='client' if side else 'server'))],
                     "answers")
    same(errors.failures, [], "errors")
    note.nontrivial(len(links) > 1)


def factories():
    return st.tuples(st.lists(st.tuples(
        st.sampled_from(['connect', 'ask', 'ask']), st.integers(0, 4),
        st.integers(0, 99)), min_size=1, max_size=10).map(
            lambda ops: (('connect', 0, 0),) + tuple(ops)),
        st.sampled_from([False, False, False, True]))


def checkMany(case, note):
    """
    Requests which wait while many others come and go.
    """
    early, total, held = case
    waiting = []

    class Server(juice.Juice):
        def juice_ASKED(self, box):
            if int(box['n']) < early or int(box['n']) % held == 0:
                d = defer.Deferred()
                waiting.append((box['n'], d))
                return d
            return juice.Box(r=box['n'])
    client = juice.Juice(False)
    link = Link(client, Server(True))
    results = {}

    def got(box, n):
        results.setdefault(n, []).append(box['r'])
    for n in range(total):
        client.sendCommand('asked', n=str(n)).addBoth(got, n)
        if n % 500 == 0:
            link.flush()
    link.flush()
    require(all(results.get(n) == [str(n)] for n in range(total)
                if not (n < early or n % held == 0)),
            "results of requests answered at once")
    for n, d in waiting:
        require(int(n) not in results, "result of a request which waits")
        d.callback(juice.Box(r=n))
    link.flush()
    wrong = [n for n in range(total) if results.get(n) != [str(n)]]
    require(not wrong, "requests with other results than their own: %r",
            wrong[:5])
    note.nontrivial(total > 200)


def checkManyLost(case, note):
    """
    All of the requests which have no result fail when the connection is lost.
    """
    total, answered = case

    class Server(juice.Juice):
        def juice_ASKED(self, box):
            if box['n'] in answers:
                return juice.Box(r=box['n'])
            return defer.Deferred()
    answers = set(str(a % total) for a in answered)
    client = juice.Juice(False)
    link = Link(client, Server(True))
    outcomes = []
    for n in range(total):
        outcomes.append(Outcome(client.sendCommand('asked', n=str(n))))
    link.flush()
    reason = Failure(error.ConnectionDone('over'))
    with Errors() as errors:
        client.connectionLost(reason)
    same(errors.failures, [], "errors logged")
    for n, outcome in enumerate(outcomes):
        same(len(outcome.results), 1, "results of request %d" % (n,))
        status, value = outcome.results[0]
        if str(n) in answers:
            require(status == 'ok' and value['r'] == str(n),
                    "result %r of request %d", value, n)
        else:
            require(status == 'failed' and value.check(error.ConnectionDone),
                    "result %r of request %d", value, n)
    note.nontrivial(total > 50)


SUBS = [
    Sub('many lost', lambda: st.tuples(
        st.integers(1, 400),
        st.lists(st.integers(0, 399), max_size=20).map(tuple)),
        checkManyLost, 30, 200, rule="more than 50 requests",
        examples=[(3000, (7, 2999))]),
    Sub('history', histories, check, 3000, 40000,
        rule="two or more requests were answered"),
    Sub('unsendable', unsendable, check, 200, 2000,
        rule="at least two requests were answered"),
    Sub('debug', histories, checkDebug, 200, 2000,
        rule="as for history, with the module's debugging messages"),
    Sub('factories', factories, checkFactories, 150, 1500,
        rule="several connections"),
    Sub('boxes', lambda: st.tuples(
        st.lists(st.tuples(st.text('ab\r\n\xe9', max_size=5),
                           st.sampled_from([True, True, False, 'again']),
                           st.sampled_from([
                               'asked', 'asked', 'ASKED', 'as-ked', ' asked',
                               'asked ', 'asked twice', 'asked\nagain',
                               'asked: again', 'na\xefve', '\ufb01le',
                               'asked' * 80, 'a:b:c', '0', 'x\0y'])),
                 max_size=20).map(tuple),
        st.lists(st.integers(0, 20), max_size=20).map(tuple), st.booleans()),
        checkRaw, 500, 6000, rule="two or more wanted answers"),
    Sub('many', lambda: st.tuples(
        st.integers(0, 5), st.integers(1, 700), st.integers(1, 700)),
        checkMany, 30, 200, rule="more than 200 requests",
        examples=[(3, 5000, 4999), (1, 70000, 70000)]),
]
