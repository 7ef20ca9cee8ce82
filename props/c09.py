"""
Typed juice arguments arrive as they were sent.
"""
import re

import six
from hypothesis import strategies as st

from harness import timelib
from harness.core import Sub, Violation, require, same
from harness.gen import stretched
from harness.net import Errors, Link, Outcome, chunks
from epsilon import juice
from twisted.python.filepath import FilePath

RULE = ("Commands with up to six arguments and responses of generated types "
        "(Integer, String, Unicode, EncodedString, Path, Float, Boolean, "
        "Base64Binary, Time, ListOf, JuiceList nested to depth 2, optional "
        "ones, one named 'body'), echoed by a responder over a connection "
        "cut into chunks at arbitrary bytes.")

SIMPLE = {
    'int': lambda opt: juice.Integer(optional=opt),
    'str': lambda opt: juice.String(optional=opt),
    'uni': lambda opt: juice.Unicode(optional=opt),
    'path': lambda opt: juice.Path(optional=opt),
    'float': lambda opt: juice.Float(optional=opt),
    'bool': lambda opt: juice.Boolean(optional=opt),
    'b64': lambda opt: juice.Base64Binary(optional=opt),
    'time': lambda opt: juice.Time(optional=opt),
}

DELIMITERS = [', ', '|', ';', 'ab', '\r\n', '\xe9', '--', 'aba', ', ,']


def argument(kind, optional=False):
    if kind[0] == 'enc':
        return juice.EncodedString(kind[1])
    if kind[0] == 'list':
        if kind[2] == ', ':
            return juice.ListOf(argument(kind[1]))
        return juice.ListOf(argument(kind[1]), kind[2])
    if kind[0] == 'boxes':
        return juice.JuiceList([(n, argument(k)) for n, k in kind[1]])
    if kind[0] == 'opt':
        return argument(kind[1], True)
    return SIMPLE[kind[0]](optional)


def thaw(kind, value):
    """
    From the literal in the case to the object to send.
    """
    if value is None:
        return None
    if kind[0] == 'path':
        return FilePath(value)
    if kind[0] == 'time':
        return timelib.make(value)
    if kind[0] == 'list':
        return [thaw(kind[1], v) for v in value]
    if kind[0] == 'boxes':
        return [dict((n, thaw(k, v)) for (n, k), v in zip(kind[1], row)
                     if v != ('left out',))
                for row in value]
    if kind[0] == 'opt':
        return thaw(kind[1], value)
    return value


def agree(kind, got, sent, what):
    if kind[0] == 'list':
        require(isinstance(got, list) and len(got) == len(sent),
                "%s: got %r, sent %r", what, got, sent)
        for g, s in zip(got, sent):
            agree(kind[1], g, s, what)
    elif kind[0] == 'boxes':
        require(isinstance(got, list) and len(got) == len(sent),
                "%s: got %r, sent %r", what, got, sent)
        for g, s in zip(got, sent):
            same(sorted(g), sorted(n for n, k in kind[1]), what + ": keys")
            for n, k in kind[1]:
                agree(k, g[n], s.get(n), what + '/' + n)
    elif kind[0] == 'opt' and sent is not None:
        agree(kind[1], got, sent, what)
    else:
        require(got == sent and type(got) is type(sent),
                "%s: got %r, sent %r", what, got, sent)
        if kind[0] == 'float':
            same(repr(got), repr(sent), what)


def echo(args):
    """
    Build the command and the responder: args are (name, kind, optional).
    """
    arglist = [(n, argument(k, o)) for n, k, o in args]

    class Echo(juice.Command):
        commandName = 'Echo'
        arguments = arglist
        response = arglist

    class Server(juice.Juice):
        def __init__(self):
            juice.Juice.__init__(self, True)
            self.received = []
            self.returned = []

        def command_ECHO(self, **kw):
            self.received.append(kw)
            self.returned.append((dict(kw), dict(kw)))
            return self.returned[-1][0]
        command_ECHO.command = Echo
    return Echo, Server


def pump(link, cuts):
    """
    Move everything, in chunks.
    """
    for n in range(20):
        moved = False
        for side in (0, 1):
            data = link.transports[side].outgoing
            for part in chunks(data, cuts):
                moved = link.deliver(side, len(part)) or moved
        if not moved:
            return
    raise Violation("the connection never comes to rest")


def check(case, note):
    args, values, cuts = case
    converse(args, [values], cuts, False, note)
    note.nontrivial(len(args) > 1 and len(cuts) > 1)


def converse(args, rows, cuts, pipelined, note):
    Echo, Server = echo(args)
    server = Server()
    client = juice.Juice(False)
    requests = []
    with Errors() as errors:
        link = Link(client, server)
        for values in rows:
            sent = {}
            expected = {}
            for (name, kind, optional), value in zip(args, values):
                if value == ():
                    value = None
                else:
                    value = thaw(kind, value[0])
                    sent[name] = value
                expected[name] = value
            original = dict(sent)
            outcome = Outcome(Echo(**sent).do(client))
            requests.append((sent, original, expected, outcome))
            if not pipelined:
                pump(link, cuts)
        pump(link, cuts)
    same(errors.failures, [], "errors logged for %r" % (
        [sent for sent, o, e, r in requests],))
    same(len(server.received), len(rows), "times the command was received")
    for returned, original in server.returned:
        same(returned, original, "what the responder returned")
    for n, (sent, original, expected, outcome) in enumerate(requests):
        same(sent, original, "the arguments after sending them")
        same(len(outcome.results), 1, "results")
        status, result = outcome.results[0]
        require(status == 'ok', "failed: %r", result)
        for what, got in [('argument', server.received[n]),
                          ('response', result)]:
            same(sorted(got), sorted(expected), what + ": names")
            for name, kind, optional in args:
                agree(kind, got[name], expected[name], what + ' ' + name)
                note(kind[0])
                if optional and expected[name] is None:
                    note('optional, left out')
                if name == 'body':
                    note('as the body')
                if type(got[name]) in (list, dict):
                    # What became of it is up to whoever received it.
                    got[name].clear()


def checkSeries(case, note):
    """
    Several requests of the same command, with similar arguments.
    """
    args, rows, cuts, pipelined = case
    converse(args, rows, cuts, pipelined, note)
    note.nontrivial(len(set(map(repr, rows))) > 1)


def near(kind, v):
    """
    Something which might be mistaken for that.
    """
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return -v
    if isinstance(v, str):
        return v.swapcase() if v.swapcase() != v else v + ' '
    if isinstance(v, bytes):
        return v + b'\0'
    return v


def checkForgotten(case, note):
    """
    A command can't be sent without all its required arguments.
    """
    required, optional, given = case
    arglist = ([(n, juice.String()) for n in required] +
               [(n, juice.String(optional=True)) for n in optional])

    class Cmd(juice.Command):
        commandName = 'Cmd'
        arguments = arglist
    missing = set(required) - set(given)
    kw = dict((n, 'v') for n in given)
    client = juice.Juice(False)
    link = Link(client, juice.Juice(True))
    try:
        d = Cmd(**kw).do(client)
    except RuntimeError as e:
        require(missing, "%r refused although %r were given: %s", required,
                given, e)
        for n in missing:
            require(n in str(e), "%r not named in %r", n, str(e))
        same(link.transports[0].outgoing, b'', "what was sent")
        note('forgotten')
    else:
        d.addErrback(lambda ign: None)
        require(not missing, "sent without %r", missing)
    note.nontrivial(bool(missing) and bool(given))


def checkDelimited(case, note):
    """
    What contains the delimiter of a list isn't torn apart silently.
    """
    items, delimiter = case
    args = (('things', ('list', ('str',), delimiter), False),)
    Echo, Server = echo(args)
    server = Server()
    client = juice.Juice(False)
    with Errors():
        link = Link(client, server)
        try:
            outcome = Outcome(Echo(things=list(items)).do(client))
        except Exception as e:
            require(delimiter.join(items).split(delimiter) != list(items),
                    "%r was refused: %r", items, e)
            same(link.transports[0].outgoing, b'', "what was sent")
            same(server.received, [], "what was received")
            note('refused')
            note.nontrivial()
            return
        pump(link, ())
    same(server.received, [dict(things=list(items))], "what was received")
    same(outcome.results, [('ok', dict(things=list(items)))], "result")


class Q2QTransport(object):
    """
    What the extra arguments of a command are taken from.
    """
    class Address(object):
        def __init__(self, domain, resource):
            self.domain = domain
            self.resource = resource

    def __init__(self, host, peer):
        self.host = self.Address(*host)
        self.peer = self.Address(*peer)

    def getQ2QPeer(self):
        return self.peer

    def getQ2QHost(self):
        return self.host


EXTRA = [('peer', juice.Peer), ('peer_domain', juice.PeerDomain),
         ('peer_user', juice.PeerUser), ('host', juice.Host),
         ('host_domain', juice.HostDomain), ('host_user', juice.HostUser)]


def checkExtra(case, note):
    which, host, peer, forged = case
    extra_ = [(n, k()) for i, (n, k) in enumerate(EXTRA) if which[i]]
    received = []

    class Who(juice.Command):
        commandName = 'Who'
        arguments = [('n', juice.Integer())]
        response = [('n', juice.Integer())]
        extra = extra_

    class Server(juice.Juice):
        def command_WHO(self, **kw):
            received.append(kw)
            return dict(n=kw['n'] + 1)
        command_WHO.command = Who
    client, server = juice.Juice(False), Server(True)
    link = Link(client, server)
    for i, t in enumerate(link.transports):
        q = Q2QTransport(*((peer, host) if i == 0 else (host, peer)))
        t.getQ2QPeer, t.getQ2QHost = q.getQ2QPeer, q.getQ2QHost
    if forged:
        # A peer can't choose what the extra arguments are.
        class Forged(juice.Command):
            commandName = 'Who'
            arguments = Who.arguments + [(n, juice.String())
                                         for n, k in extra_]
            response = Who.response
        outcome = Outcome(Forged(n=5, **dict(
            (n, 'forged') for n, k in extra_)).do(client))
    else:
        outcome = Outcome(Who(n=5).do(client))
    link.flush()
    same(len(received), 1, "times received")
    t = link.transports[1]
    wanted = {'peer': t.getQ2QPeer(), 'peer_domain': peer[0],
              'peer_user': peer[1], 'host': t.getQ2QHost(),
              'host_domain': host[0], 'host_user': host[1]}
    for n, k in extra_:
        same(received[0].get(n), wanted[n], "extra argument %r" % (n,))
    same(received[0]['n'], 5, "argument")
    same(len(outcome.results), 1, "results")
    same(outcome.results[0][0], 'ok', "result")
    same(outcome.results[0][1]['n'], 6, "result")
    if not forged:
        # The caller is told who answered.
        t = link.transports[0]
        wanted = {'peer': t.getQ2QPeer(), 'peer_domain': host[0],
                  'peer_user': host[1], 'host': t.getQ2QHost(),
                  'host_domain': peer[0], 'host_user': peer[1]}
        for n, k in extra_:
            same(outcome.results[0][1].get(n), wanted[n],
                 "extra value %r of the response" % (n,))
    note.nontrivial(bool(extra_))


def texts(size=10):
    return stretched(st.one_of(
        st.text('\r\n :,|-_a\xe9', max_size=size),
        st.text(st.characters(exclude_categories=['Cs']), max_size=size)))


def overlaps(item, delimiter):
    """
    Whether an item makes up a delimiter together with one next to it.
    """
    n = len(item)
    return any((delimiter + item + delimiter).find(delimiter, i) not in
               (-1, len(delimiter) + n)
               for i in range(1, len(delimiter) + n))


def value(kind):
    name = kind[0]
    if name == 'int':
        return st.one_of(st.integers(-5, 5), st.integers(),
                         st.integers(2 ** 53, 2 ** 70),
                         st.integers(-2 ** 70, -2 ** 53))
    if name in ('str', 'uni'):
        return texts()
    if name == 'path':
        return texts().map(lambda t: '/' + t)
    if name == 'enc':
        if kind[1] == 'utf-8':
            return texts()
        if kind[1] == 'ascii':
            return stretched(st.text(st.characters(max_codepoint=127),
                                     max_size=10))
        return texts()
    if name == 'float':
        return st.floats(allow_nan=False, allow_infinity=False)
    if name == 'bool':
        return st.booleans()
    if name == 'b64':
        return stretched(st.binary(max_size=20))
    if name == 'time':
        return timelib.moments()
    if name == 'list':
        element = value(kind[1])
        arg = argument(kind[1])

        def clean(v):
            try:
                item = arg.toStringProto(thaw(kind[1], v), None)
            except Exception:
                # It's what is to be found out.
                return True
            # It must not start or end with a part of it, either.
            return (kind[2] not in six.ensure_str(item) and
                    not overlaps(six.ensure_str(item), kind[2]))
        return st.one_of(
            st.lists(element.filter(clean), min_size=1, max_size=4),
            st.tuples(st.lists(element.filter(clean), min_size=1, max_size=3),
                      st.one_of(st.integers(10, 60),
                                st.integers(10, 400))).map(
                lambda p: (p[0] * p[1])[:p[1]]))
    if name == 'boxes':
        rows = st.lists(st.tuples(*[value(k) for n, k in kind[1]]), max_size=3)
        if any(k[0] in ('boxes', 'list') for n, k in kind[1]):
            return rows
        return st.one_of(rows, rows, rows, st.tuples(
            rows, st.integers(4, 200)).map(lambda p: (p[0] * p[1])[:p[1]]))
    if name == 'opt':
        return st.one_of(st.none(), st.just(('left out',)), value(kind[1]))


@st.composite
def kinds(draw, depth=2, nested=False):
    simple = sorted(SIMPLE)
    choice = draw(st.sampled_from(
        simple + ['enc'] + ([] if not depth else ['list', 'list', 'boxes',
                                                  'boxes'])))
    if choice == 'enc':
        return ('enc', draw(st.sampled_from(['utf-8', 'ascii', 'utf-7'])))
    if choice == 'list':
        inner = draw(st.one_of(
            st.sampled_from([(s,) for s in simple]),
            st.tuples(st.just('list'), st.just(('int',)), st.just(';')),
            st.sampled_from([('enc', 'utf-8'), ('enc', 'utf-7')]),
            st.tuples(st.just('boxes'), st.tuples(st.tuples(
                st.sampled_from(['a', 'body', 'b']),
                st.sampled_from([('int',), ('uni',), ('bool',)]))))))
        delimiters = [d for d in DELIMITERS
                      if not (inner[0] == 'list' and d == ';') and
                      not (inner[0] == 'boxes' and '\r' in d)]
        return ('list', inner, draw(st.sampled_from(delimiters)))
    if choice == 'boxes':
        ns = draw(names(1, 3))
        inner = []
        for n in ns:
            kind = draw(kinds(depth - 1, True))
            if kind[0] in SIMPLE and not draw(st.integers(0, 2)):
                kind = ('opt', kind)
            inner.append((n, kind))
        return ('boxes', tuple(inner))
    return (choice,)


def names(low, high):
    one = st.one_of(
        st.sampled_from(['body', 'a', 'b', 'a_b', 'Class', 'From', 'x1y',
                         'length', 'command', 'a_', 'long' * 70]),
        st.from_regex(re.compile(r'[a-z][a-z0-9_]{0,6}', re.A),
                      fullmatch=True).filter(lambda n: not iskeyword(n)))
    return st.lists(one, min_size=low, max_size=high, unique=True)


def iskeyword(name):
    import keyword
    return keyword.iskeyword(name) or name in ('self', 'cls')


@st.composite
def cases(draw):
    args = []
    values = []
    for name in draw(names(1, 6)):
        kind = draw(kinds())
        optional = draw(st.booleans()) and kind[0] in SIMPLE
        args.append((name, kind, optional))
        if optional and draw(st.booleans()):
            values.append(draw(st.sampled_from([(), (None,)])))
        else:
            values.append((draw(value(kind)),))
    return (tuple(args), tuple(values),
            tuple(draw(st.lists(st.integers(0, 400), max_size=8))))


@st.composite
def series(draw):
    args, values, cuts = draw(cases())
    rows = [values]
    for _ in range(draw(st.integers(1, 3))):
        row = list(draw(st.sampled_from(rows)))
        i = draw(st.integers(0, len(row) - 1))
        kind, optional = args[i][1:]
        how = draw(st.integers(0, 3))
        if how == 0:
            row[i] = (draw(value(kind)),)
        elif how == 1 and optional:
            row[i] = ()
        elif row[i] and row[i][0] is not None and kind[0] in SIMPLE:
            row[i] = (near(kind, row[i][0]),)
            if kind == ('path',) and not row[i][0].startswith('/'):
                row[i] = ('/' + row[i][0],)
        rows.append(tuple(row))
    return args, tuple(rows), cuts, draw(st.booleans())


@st.composite
def forgotten(draw):
    ns = draw(names(1, 5))
    cut = draw(st.integers(0, len(ns)))
    given = [n for n in ns if draw(st.booleans())]
    return tuple(ns[:cut]), tuple(ns[cut:]), tuple(given)


SUBS = [
    Sub('echo', cases, check, 1500, 30000,
        rule="several arguments, and several chunks"),
    Sub('series', series, checkSeries, 500, 8000,
        rule="the requests differ"),
    Sub('forgotten', forgotten, checkForgotten, 300, 2000,
        rule="some given, and some missing"),
    Sub('delimited', lambda: st.sampled_from(DELIMITERS).flatmap(
        lambda d: st.tuples(st.lists(st.lists(
            st.sampled_from(['a', 'x', ' ', ',', d, d, d[:1], d[-1:]]),
            max_size=4).map(
                ''.join), min_size=1, max_size=4).map(tuple), st.just(d))),
        checkDelimited, 300, 3000, rule="it was refused",
        examples=[(('x-', 'y'), '--'), (('xab', 'y'), 'aba'),
                  (('x,', 'y'), ', '), (('x, ', 'y'), ', ,')]),
    Sub('extra', lambda: st.tuples(
        st.tuples(*[st.booleans()] * len(EXTRA)),
        st.tuples(texts(4), texts(4)), st.tuples(texts(4), texts(4)),
        st.booleans()),
        checkExtra, 200, 2000, rule="some extra argument"),
]
