"""
Nothing is sent in the clear, or out of order, around the start of TLS.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Transport
from epsilon import juice
from twisted.internet import defer

RULE = ("Histories of sends, preparations and starts of TLS on one "
        "connection; the transport records the order of writes and of the "
        "start of TLS.")


class Broken(Exception):
    pass


class Certificate(object):
    def options(self, *authorities):
        return ('options', self, authorities)


_real = []


def realCertificate():
    if not _real:
        from twisted.internet.ssl import KeyPair
        _real.append(KeyPair.generate(size=1024).selfSignedCert(1, CN='x'))
    return _real[0]


class Refused(Exception):
    pass


class Ask(juice.Command):
    commandName = 'Ask'
    arguments = [('n', juice.String()), ('how', juice.String())]
    response = [('n', juice.String())]
    errors = {Refused: 'REFUSED'}


class Switch(juice.ProtocolSwitchCommand):
    commandName = 'Switch'
    arguments = [('n', juice.String())]


class Peer(juice.Juice):
    """
    Says which box it is in every box it sends.
    """
    def __init__(self):
        juice.Juice.__init__(self, False)
        self.waiting = []

    def command_ASK(self, n, how):
        if how == 'later':
            d = defer.Deferred()
            self.waiting.append((n, d))
            return d
        if how == 'error':
            raise Refused(n)
        return dict(n=n)
    command_ASK.command = Ask


class TLSTransport(Transport):
    broken = False

    def startTLS(self, options):
        if self.broken:
            raise Broken()
        Transport.startTLS(self, options)
    def getHandle(self):
        return self

    def get_peer_certificate(self):
        return realCertificate().original

    def getPeerCertificate(self):
        return realCertificate().original


def check(case, note):
    ops = case
    proto = Peer()
    transport = TLSTransport()
    proto.makeConnection(transport)
    certificate = Certificate()
    expected = []        # boxes (their number) and ('tls', authorities)
    buffered = None
    secured = False
    count = 0
    started = []

    def boxes(log):
        result = []
        for kind, value in log:
            if kind == 'tls':
                require(value[:2] == ('options', certificate),
                        "TLS started with %r", value)
                result.append(('tls', value[2]))
            else:
                for box in juice.parseString(value):
                    result.append(box.get('n') or box['_error_description'])
        return result
    failed = False
    switched = False

    def sent(n):
        if buffered is None:
            expected.append(n)
        else:
            buffered.append(n)
    for op in ops:
        if switched and op[0] not in ('prepare', 'start', 'broken'):
            continue
        if op[0] == 'send':
            count += 1
            wanted = proto.sendCommand('x', op[1], n=str(count))
            if wanted is not None:
                wanted.addErrback(lambda ign: None)
            sent(str(count))
        elif op[0] == 'tell':
            count += 1
            proto.sendCommand('x', '', False, n=str(count))
            sent(str(count))
        elif op[0] == 'reused':
            # What happens to a box after it was sent is nobody's business.
            box = juice.Box()
            for _ in range(op[1]):
                count += 1
                box['n'] = str(count)
                wanted = proto.sendBoxCommand('x', box, op[2])
                if wanted is not None:
                    wanted.addErrback(lambda ign: None)
                sent(str(count))
            box.clear()
            if buffered is not None:
                note('a reused box waits')
        elif op[0] == 'unsendable':
            # The one who sends it is told at once, and only it isn't sent.
            try:
                proto.sendCommand('x', n='\ud800')
            except ValueError:
                note('not sendable')
            else:
                require(False, "something which can't be sent was accepted")
        elif op[0] == 'switch' and not switched:
            # Nothing can be sent afterwards, but what was sent before is.
            count += 1
            switched = True
            Switch(None, n=str(count)).do(proto).addErrback(lambda ign: None)
            sent(str(count))
            if buffered is not None:
                note('a switch waits')
        elif op[0] == 'burst':
            for _ in range(op[1]):
                count += 1
                proto.sendCommand('x', '', False, n=str(count))
                sent(str(count))
        elif op[0] == 'asked':
            count += 1
            proto.dataReceived(juice.Box(
                _command='Ask', _ask='t%d' % (count,), n=str(count),
                how=op[1]).serialize())
            if op[1] != 'later':
                sent(str(count))
        elif op[0] == 'answer' and proto.waiting:
            n, d = proto.waiting.pop(op[1] % len(proto.waiting))
            if op[2]:
                d.callback(dict(n=n))
            else:
                d.errback(Refused(n))
            sent(n)
            if buffered is not None:
                note('an answer waits')
        elif op[0] == 'prepare' and not secured:
            # Doing so again makes no difference.
            proto.prepareTLS()
            if buffered is None:
                buffered = []
        elif op[0] == 'broken' and buffered is not None and not (
                secured or failed):
            # TLS can't be started: what waits for it waits for ever.
            transport.broken = True
            try:
                proto.startTLS(certificate)
            except Broken:
                pass
            transport.broken = False
            failed = True
            note('start failed')
        elif op[0] == 'start' and not failed:
            authorities = tuple(range(op[1]))
            if secured:
                try:
                    proto.startTLS(Certificate(), *authorities)
                except RuntimeError:
                    note('second start refused')
                else:
                    require(False, "TLS started a second time")
            else:
                proto.startTLS(certificate, *authorities)
                secured = True
                expected.append(('tls', authorities))
                expected.extend(buffered or [])
                if buffered:
                    note('boxes waited')
                buffered = None
        elif op[0] == 'box' and buffered is None and not secured:
            count += 1
            # The response which agrees to TLS is the last in the clear.
            done = []
            box = juice.TLSBox(
                certificate, op[1], (lambda: done.append(
                    [k for k, v in transport.log if k == 'tls'])
                ) if op[2] else None,
                n=str(count))
            box['_answer'] = '1'
            box.sendTo(proto)
            secured = True
            expected.append(str(count))
            expected.append(('tls', () if op[1] is None else (op[1],)))
            same(done, [['tls']] if op[2] else [], "notification of TLS")
            note('response')
        same(boxes(transport.log), expected, "sent after %r of %r" % (op, ops))
        if failed:
            continue
        if secured:
            same(proto.hostCertificate, certificate, "certificate")
        else:
            same(proto.hostCertificate, None, "certificate")
    note.nontrivial(secured and count > 1)


def ops():
    return st.lists(st.one_of(
        st.tuples(st.just('send'), stretched(st.text('ab\r\n', max_size=4))),
        st.tuples(st.just('send'), st.just('')),
        st.just(('prepare',)),
        st.just(('tell',)),
        st.one_of(st.tuples(st.just('reused'), st.integers(1, 3),
                            st.booleans()),
                  st.just(('unsendable',)), st.just(('switch',))),
        st.tuples(st.just('burst'), st.integers(1, 40)),
        st.tuples(st.just('asked'), st.sampled_from(
            ['now', 'later', 'error'])),
        st.tuples(st.just('answer'), st.integers(0, 3), st.booleans()),
        st.sampled_from([('broken',), ('prepare',), ('prepare',)]),
        st.tuples(st.just('start'), st.integers(0, 2)),
        st.tuples(st.just('box'), st.sampled_from([None, 'authority']),
                  st.booleans()),
    ), min_size=1, max_size=16).map(tuple)


SUBS = [
    Sub('history', ops, check, 2000, 20000,
        rule="TLS was started and more than one box sent",
        examples=[(('prepare',), ('burst', 300), ('start', 1)),
                  (('prepare',), ('send', 'a'), ('send', 'b'), ('start', 1),
                   ('send', 'c'), ('start', 0))]),
]
