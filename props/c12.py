"""
Which methods a juice peer can invoke.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Link, Outcome
from epsilon import juice
from twisted.internet import defer
from twisted.internet.protocol import ClientFactory, Protocol

RULE = ("Classes with generated command_, juice_ and other methods, commands "
        "in generated namespaces, and requests for names which are spelled in "
        "different ways, near misses, or names of other attributes.")

NAMES = ['ADD', 'ADD_ALL', 'GET', 'GET_X', 'X', 'DO_IT_NOW']
NAMESPACES = [None, 'admin', 'user']


def build(definition):
    """
    @param definition: tuple of (prefix, name, namespaces).
    """
    calls = []

    def method(label):
        def run(self, *a, **kw):
            calls.append(label)
            if label.startswith('command_'):
                return {}
            return juice.Box(ran=label)
        return run
    attrs = {}
    for prefix, name, spaces in definition:
        label = prefix + name
        f = method(label)
        if prefix == 'command_':
            f.command = type('Cmd' + name, (juice.Command,), dict(
                namespaces=list(spaces), commandName=name))
        attrs[label] = f
    # Things a peer has no business invoking.
    for label in ['secret', 'SECRET', 'commandSECRET', 'juiceSECRET',
                  'handle_SECRET', 'command_secret', 'Command_SECRET']:
        attrs[label] = method('!' + label)
    return attrs, calls


def normal(name):
    return name.upper().strip().replace('-', '_')


def allowed(definition, wanted, namespace):
    found = dict((p + n, spaces) for p, n, spaces in definition)
    name = normal(wanted)
    if 'command_' + name in found:
        if namespace in found['command_' + name]:
            return 'command_' + name
        return None
    if namespace is None and 'juice_' + name in found:
        return 'juice_' + name
    return None


def check(case, note):
    definition, requests, wrapped = case
    wrapping = []
    for wanted, namespace in requests:
        attrs, calls = build(definition)
        wrapping = []
        if wrapped:
            def wrapper(callable):
                def run(*a, **kw):
                    before = len(calls)
                    result = callable(*a, **kw)
                    wrapping.extend(calls[before:])
                    return result
                return run
            attrs['wrapper'] = staticmethod(wrapper)
        expected = allowed(definition, wanted, namespace)
        with Errors() as errors:
            if namespace is None:
                # over the wire
                server = type('Server', (juice.Juice,), attrs)(True)
                client = juice.Juice(False)
                link = Link(client, server)
                outcome = Outcome(client.sendCommand(wanted))
                link.flush()
                refused = juice.RemoteJuiceError
            else:
                class Mixed(juice.DispatchMixin):
                    pass
                for k, v in attrs.items():
                    setattr(Mixed, k, v)
                proto = juice.Juice(True)
                outcome = Outcome(defer.maybeDeferred(
                    Mixed().dispatchCommand, proto, wanted, juice.Box(),
                    namespace))
                refused = Exception
        same(calls, [expected] if expected else [],
             "methods invoked by %r in namespace %r" % (wanted, namespace))
        if wrapped:
            same(wrapping, calls, "methods invoked inside the wrapper")
        same(len(outcome.results), 1, "results")
        status, value = outcome.results[0]
        if expected:
            require(status == 'ok', "%r failed: %r", wanted, value)
            note('invoked ' + expected.split('_')[0])
        else:
            require(status == 'failed' and value.check(refused),
                    "%r: %r", wanted, value)
            note('refused')
            if 'command_' + normal(wanted) in [p + n for p, n, s
                                               in definition]:
                note('refused for the namespace')
                if namespace is not None:
                    require(value.check(juice.UnhandledCommand),
                            "%r: %r", wanted, value)
            if namespace is None:
                require(juice.UnhandledCommand in errors.types(),
                        "not logged: %r", errors.failures)
    note.nontrivial(bool(definition) and len(requests) > 1)


@st.composite
def spelling(draw, name):
    result = ''
    for c in name:
        if c == '_' and draw(st.booleans()):
            c = '-'
        if draw(st.booleans()):
            c = c.lower()
        result += c
    return (draw(st.sampled_from(['', '', ' ', '\t'])) + result +
            draw(st.sampled_from(['', '', ' ', '  ', '\t'])))


@st.composite
def nearMiss(draw, name):
    """
    A name which differs in one place.
    """
    at = draw(st.integers(0, len(name)))
    if '_' in name and draw(st.booleans()):
        at = name.index('_')
    instead = draw(st.sampled_from(
        ['', ' ', '.', ':', '/', '--', '__', '\u2010', '\u2212', '\xad', '\0',
         '\xa0', '\n', '+', '~', 'X', '\uff3f', '\u203f', ',']))
    return name[:at] + instead + name[at + draw(st.integers(0, 1)):]


@st.composite
def cases(draw):
    definition = []
    for name in draw(st.lists(st.sampled_from(NAMES), max_size=5,
                              unique=True)):
        for prefix in draw(st.sampled_from([('command_',), ('juice_',),
                                            ('command_', 'juice_')])):
            definition.append((prefix, name, tuple(draw(st.lists(
                st.sampled_from(NAMESPACES), unique=True, max_size=3)))))
    defined = sorted(set(name for prefix, name, ns in definition)) or NAMES
    requests = draw(st.lists(st.tuples(
        st.one_of(
            st.sampled_from(defined).flatmap(nearMiss),
            st.sampled_from(NAMES).flatmap(spelling),
            st.sampled_from(NAMES).flatmap(spelling),
            st.sampled_from(['secret', 'SECRET', '_SECRET', 'command_ADD',
                             'juice_ADD', '', 'boxreceived', 'ADDX', 'AD',
                             'ADD ALL', 'ADD.ALL', '__class__', 'admin:ADD',
                             'dataReceived', 'ADD_', '-', 'ADD--ALL',
                             '\uff21\uff24\uff24', '\xadADD', 'A\u200bDD']),
            st.tuples(st.sampled_from(['', 'a', 'admin', 'public', 'ADD',
                                       'command', 'juice']),
                      st.sampled_from(['.', ':', '/', '_', '-', ' ', '\n',
                                       '\0', '\xa0', '\\', ',', ';']),
                      st.sampled_from(NAMES + ['SECRET', ''])).map(''.join),
            st.tuples(st.sampled_from(NAMES),
                      st.sampled_from([' ' * 300, '_' * 300, '\0' * 300]),
                      st.sampled_from(['', 'a', 'admin', 'ADD', 'x'])
                      ).map(''.join),
            st.tuples(st.sampled_from(NAMES + ['SECRET']),
                      st.sampled_from(['.', ':', '/', '_', '-', ' ', '\n', '?',
                                       '\0', '\xa0', '()', ',', ';']),
                      st.sampled_from(['', 'a', 'admin', 'ADD', 'x'])
                      ).map(''.join)),
        st.sampled_from(NAMESPACES)), min_size=1, max_size=5))
    return tuple(definition), tuple(requests), draw(st.booleans())


def checkResults(case, note):
    """
    What an object does with the results of its requests is done in its
    wrapper too, like its methods.
    """
    requests, wrapped = case
    depth = [0]
    seen = []
    entered = []

    class Refusal(Exception):
        pass

    class Do(juice.Command):
        commandName = 'Do'
        arguments = [('how', juice.String())]
        response = [('n', juice.Integer())]
        errors = {Refusal: 'REFUSED'}

    class Server(juice.Juice):
        def command_DO(self, how):
            if how == 'error':
                raise Refusal('no')
            if how == 'later':
                d = defer.Deferred()
                waiting.append(d)
                return d
            return dict(n=1)
        command_DO.command = Do
    waiting = []

    class Client(juice.Juice):
        if wrapped:
            @staticmethod
            def wrapper(callable):
                def run(*a, **kw):
                    entered.append(1)
                    depth[0] += 1
                    try:
                        return callable(*a, **kw)
                    finally:
                        depth[0] -= 1
                return run

    def result(value, n, kind):
        seen.append((n, kind, depth[0]))
    client = Client(False)
    with Errors():
        link = Link(client, Server(True))
        for n, (how, raw) in enumerate(requests):
            if raw:
                d = client.sendCommand('Do', how=how)
            else:
                d = Do(how=how).do(client)
            d.addCallbacks(result, result, callbackArgs=(n, 'ok'),
                           errbackArgs=(n, 'failed'))
        link.flush()
        for d in waiting:
            d.callback(dict(n=2))
        link.flush()
    inside = 1 if wrapped else 0
    same(sorted(seen),
         [(n, 'failed' if how == 'error' else 'ok', inside)
          for n, (how, raw) in enumerate(requests)],
         "results, and how many wrappers they were in")
    if wrapped:
        same(len(entered), len(requests), "times the wrapper was entered")
    note.nontrivial(wrapped)


class Inner(Protocol):
    def __init__(self):
        self.data = b''

    def connectionMade(self):
        self.transport.write(b'hello')

    def dataReceived(self, data):
        self.data += data


class Switched(ClientFactory):
    def __init__(self, inner):
        self.inner = inner

    def buildProtocol(self, addr):
        return self.inner


def checkNamespaced(case, note):
    """
    A command is done in the namespace which the caller says: the peer is
    asked for C{'namespace:name'}.
    """
    requests, switch = case
    for n, (name, spaces, namespace) in enumerate(requests):
        switches = switch and n == len(requests) - 1
        asked = []
        ran = []
        inner = Inner(), Inner()

        class Do(juice.ProtocolSwitchCommand if switches else juice.Command):
            commandName = name
            namespaces = list(spaces)

        class Server(juice.Juice):
            def dispatchCommand(self, proto, cmd, box, namespace=None):
                asked.append(cmd)
                if ':' in cmd:
                    namespace, cmd = cmd.rsplit(':', 1)
                return juice.Juice.dispatchCommand(self, proto, cmd, box,
                                                   namespace)

        def run(self):
            ran.append(name)
            return inner[1] if switches else {}
        run.command = Do
        setattr(Server, 'command_' + normal(name), run)
        client = juice.Juice(False)
        with Errors():
            link = Link(client, Server(True))
            command = Do(Switched(inner[0])) if switches else Do()
            if namespace is None and n % 2:
                d = command.do(client)
            else:
                d = command.do(client, namespace)
            outcome = Outcome(d)
            link.flush()
        same(asked, [name if namespace is None else namespace + ':' + name],
             "names asked for")
        fine = namespace in spaces
        same(ran, [name] if fine else [], "what ran for %r in %r" % (
            asked, spaces))
        same(len(outcome.results), 1, "results")
        if not switches:
            same(outcome.results[0][0], 'ok' if fine else 'failed', "result")
        same([i.data for i in inner],
             [b'hello' if switches and fine else b''] * 2,
             "what the inner protocols received")
        if namespace is not None and fine:
            note('in a namespace')
    note.nontrivial(any(namespace is not None and namespace in spaces
                        for name, spaces, namespace in requests))


SUBS = [
    Sub('results', lambda: st.tuples(st.lists(st.tuples(
        st.sampled_from(['now', 'error', 'later']), st.booleans()),
        min_size=1, max_size=5).map(tuple), st.sampled_from(
            [True, True, False])), checkResults, 150, 2000,
        rule="the object has a wrapper"),
    Sub('namespaced', lambda: st.tuples(st.lists(st.tuples(
        st.sampled_from(NAMES),
        st.lists(st.sampled_from(NAMESPACES + ['a:b', '']), unique=True,
                 max_size=4).map(tuple),
        st.sampled_from(NAMESPACES + ['a:b', ''])), min_size=1,
        max_size=3).map(tuple), st.booleans()),
        checkNamespaced, 200, 3000,
        rule="a command in one of its namespaces other than the default"),
    Sub('dispatch', cases, check, 1500, 20000,
        rule="some methods, and more than one request"),
]
