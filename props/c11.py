"""
Juice error reporting.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Errors, Link, Outcome
from epsilon import juice
from twisted.internet import defer, error

RULE = ("Pipelines of requests which succeed, fail with declared errors (or "
        "subclasses of them), with fatal ones, with undeclared ones, or name "
        "unknown commands, synchronously or later, in any order.")


class Mild(Exception):
    pass


class Milder(Mild):
    pass


class Other(Exception):
    pass


class Fatal(Exception):
    pass


class Fataler(Fatal):
    pass


class Surprise(Exception):
    pass


class Spelled(Exception):
    """
    What it says isn't what it was made from.
    """
    def __init__(self, text, more=(1, 2)):
        Exception.__init__(self, 'made from', more)
        self.text = text

    def __str__(self):
        return self.text


class SpelledFatal(Fatal):
    def __init__(self, text):
        Fatal.__init__(self, 'made from', 3)
        self.text = text

    def __str__(self):
        return self.text


class Key(KeyError):
    pass


CLASSES = dict((c.__name__, c) for c in (Mild, Milder, Other, Fatal, Fataler,
                                         Surprise, Spelled, SpelledFatal, Key))
# what the caller sees
SEEN = dict(Mild=Mild, Milder=Mild, Other=Other, Fatal=Fatal, Fataler=Fatal,
            Spelled=Spelled, Key=Key, SpelledFatal=Fatal,
            Surprise=juice.UnhandledRemoteJuiceError,
            unknown=juice.UnhandledRemoteJuiceError)
CLOSING = ('Fatal', 'Fataler', 'SpelledFatal', 'Surprise', 'unknown')
LOGGED = ('Surprise', 'unknown')


class Try(juice.Command):
    commandName = 'Try'
    arguments = [('n', juice.Integer()), ('kind', juice.String()),
                 ('text', juice.String()), ('later', juice.Boolean())]
    response = [('n', juice.Integer())]
    # Codes are arbitrary text.
    errors = {Mild: 'MILD', Other: 'Other one', Key: 'Other one ',
              Spelled: 'mild'}
    fatalErrors = {Fatal: 'FATAL'}


class Again(Try):
    """
    Declares what the command it's derived from does.
    """
    commandName = 'Again'


class Partly(Try):
    """
    Declares some of it itself, and spells a code differently.
    """
    commandName = 'Partly'
    errors = {Mild: 'Mild!', Other: 'Other one', Key: 'Other one ',
              Spelled: 'mild'}


class Further(Partly):
    commandName = 'Further'
    arguments = Try.arguments


COMMANDS = [Try, Again, Partly, Further]


class Missing(juice.Command):
    commandName = 'Missing'
    arguments = [('n', juice.Integer())]


class Server(juice.Juice):
    def __init__(self):
        juice.Juice.__init__(self, True)
        self.received = []
        self.waiting = []

    def command_TRY(self, n, kind, text, later):
        self.received.append(n)
        if later:
            d = defer.Deferred()
            self.waiting.append((n, kind, text, d))
            return d
        if kind == 'ok':
            return dict(n=n)
        raise CLASSES[kind](text)
    command_TRY.command = Try

    def command_AGAIN(self, **kw):
        return self.command_TRY(**kw)
    command_AGAIN.command = Again

    def command_PARTLY(self, **kw):
        return self.command_TRY(**kw)
    command_PARTLY.command = Partly

    def command_FURTHER(self, **kw):
        return self.command_TRY(**kw)
    command_FURTHER.command = Further


def judge(outcome, kind, n, text, what):
    same(len(outcome.results), 1, "results of " + what)
    status, value = outcome.results[0]
    if kind == 'ok':
        same((status, value), ('ok', {'n': n}), what)
    elif kind == 'lost':
        require(status == 'failed' and value.check(error.ConnectionDone,
                                                   error.ConnectionLost),
                "%s: %r, expected that the connection is lost", what, value)
    else:
        require(status == 'failed' and value.type is SEEN[kind],
                "%s: %r, expected %r", what, value, SEEN[kind])
        if kind not in LOGGED:
            if kind == 'Key':
                text = repr(text)
                value = value.value.args[0]
            else:
                value = str(value.value)
            same(value, text, "description of " + what)


def send(client, n, kind, text, later):
    if kind == 'unknown':
        return Missing(n=n).do(client)
    command = COMMANDS[(n + len(text)) % len(COMMANDS)]
    return command(n=n, kind=kind, text=text, later=later).do(client)


def checkPipeline(case, note):
    requests, pieces, order = case
    server = Server()
    client = juice.Juice(False)
    outcomes = []
    with Errors() as errors:
        link = Link(client, server)
        for n, (kind, text, later) in enumerate(requests):
            outcomes.append(Outcome(send(client, n, kind, text, later)))
        # The model: requests are acted upon in order until one of them closes
        # the connection.
        closed = None
        acted = []
        for n, (kind, text, later) in enumerate(requests):
            acted.append(n)
            if kind in CLOSING and (not later or kind == 'unknown'):
                closed = n
                break
        for size in pieces:
            link.deliver(0, size)
        while link.deliver(0):
            pass
        same(server.received,
             [n for n in acted if requests[n][0] != 'unknown'],
             "requests acted upon")
        same(link.transports[1].disconnecting, closed is not None,
             "connection closing after %r" % (requests,))
        expected = dict((n, requests[n][0]) for n in acted
                        if not requests[n][2] or requests[n][0] == 'unknown')
        either = set()
        logged = sum(1 for n in expected if expected[n] in LOGGED)
        for k in list(order) + [0] * len(server.waiting):
            if not server.waiting:
                break
            n, kind, text, d = server.waiting.pop(k % len(server.waiting))
            if kind == 'ok':
                d.callback(dict(n=n))
            else:
                d.errback(CLASSES[kind](text))
            if kind in LOGGED:
                logged += 1
            expected[n] = kind
            if closed is not None:
                either.add(n)        # the answer may, or may not, get through
            if kind in CLOSING and closed is None:
                closed = n
            same(link.transports[1].disconnecting, closed is not None,
                 "connection closing after %r" % (requests[n],))
        link.flush()
        same(link.down, closed is not None, "connection closed by %r" % (
            requests,))
        if not link.down:
            # It still works.
            again = Outcome(send(client, 99, 'ok', '', False))
            link.flush()
            judge(again, 'ok', 99, '', 'one more request')
    same(len(errors.failures), logged, "errors logged: %r" % (errors.failures,))
    for n, (kind, text, later) in enumerate(requests):
        what = "request %d of %r" % (n, requests)
        if n not in expected:
            judge(outcomes[n], 'lost', n, text, what)
        elif n in either and outcomes[n].results and (
                outcomes[n].results[0][0] == 'failed' and
                outcomes[n].results[0][1].check(error.ConnectionDone)):
            judge(outcomes[n], 'lost', n, text, what)
        else:
            judge(outcomes[n], expected[n], n, text, what)
        note(kind)
    if closed is not None:
        note('closed')
    note.nontrivial(len(requests) > 1 and
                    any(kind != 'ok' for kind, text, later in requests))


def checkUnhandled(case, note):
    """
    Errors which the caller does not handle are logged at the caller, and close
    the connection, as do errors of commands for which no answer is wanted, at
    the responder.
    """
    kind, text, later, mode, before = case
    server = Server()
    client = juice.Juice(False)
    with Errors() as errors:
        link = Link(client, server)
        first = [Outcome(send(client, n, 'ok', '', False))
                 for n in range(before)]
        link.flush()
        for n, outcome in enumerate(first):
            judge(outcome, 'ok', n, '', 'request before')
        if mode == 'no answer':
            command = Try(n=7, kind=kind, text=text, later=later)
            same(command.do(client, requiresAnswer=False), None, "result")
            fails = kind != 'ok'
            closing = 1
            wanted = None
        else:
            d = send(client, 7, kind, text, later)
            closing = 0
            if mode == 'broken callback':
                def broken(ign):
                    raise Surprise('in the callback')
                d.addBoth(broken)
                fails = True
                wanted = Surprise
            elif mode == 'handled':
                d.addErrback(lambda ign: None)
                fails = False
                wanted = None
            else:
                fails = kind != 'ok'
                wanted = SEEN.get(kind)
        del first
        while link.deliver(0):
            pass
        for n, k, t, d2 in server.waiting:
            if k == 'ok':
                d2.callback(dict(n=n))
            else:
                d2.errback(CLASSES[k](t))
        while link.deliver(1):
            pass
        if mode == 'no answer':
            same(link.transports[1].disconnecting, fails,
                 "responder closing the connection")
            same(link.transports[1].outgoing, b'', "sent without an ask")
        else:
            same(link.transports[0].disconnecting, fails,
                 "caller closing the connection")
            if wanted is not None and fails:
                require(wanted in errors.types(), "%r not logged: %r", wanted,
                        errors.failures)
        serverLogs = int(mode != 'no answer' and kind in LOGGED)
        require((len(errors.failures) - serverLogs > 0) == fails,
                "errors logged: %r", errors.failures)
        link.flush()
    note(mode)
    note.nontrivial(fails)


def texts():
    return stretched(st.one_of(
        st.text(st.characters(exclude_categories=['Cs']), max_size=8),
        st.sampled_from(['', 'no', '\r\n', ' x ', 'a: b\r\n\r\nc', '%s'])))


KINDS = ['ok', 'Mild', 'Milder', 'Other', 'Key', 'Spelled', 'Fatal', 'Fataler',
         'SpelledFatal', 'Surprise', 'unknown']


@st.composite
def pipelines(draw):
    few = draw(st.booleans())
    kinds = KINDS[:6] if few else KINDS
    requests = draw(st.lists(st.tuples(
        st.one_of(st.sampled_from(kinds), st.sampled_from(KINDS[:6])), texts(),
        st.booleans()), min_size=1, max_size=8))
    pieces = draw(st.lists(st.integers(1, 200), max_size=10))
    order = draw(st.lists(st.integers(0, 7), max_size=8))
    return tuple(requests), tuple(pieces), tuple(order)


SUBS = [
    Sub('pipeline', pipelines, checkPipeline, 2500, 30000,
        rule="several requests, one of which fails"),
    Sub('unhandled', lambda: st.tuples(
        st.sampled_from(KINDS[:-1]), texts(), st.booleans(),
        st.sampled_from(['no answer', 'unhandled', 'broken callback',
                         'handled']),
        st.integers(0, 2)),
        checkUnhandled, 600, 5000, rule="the error is not handled"),
]
