"""
An in-memory network whose schedule the generated case owns, and a log
observer.
"""
from twisted.internet import error
from twisted.python import log
from twisted.python.failure import Failure


class Errors(object):
    """
    Collects what is logged as an error while it is active.
    """
    def __enter__(self):
        self.failures = []
        log.addObserver(self._observe)
        return self

    def __exit__(self, *exc):
        log.removeObserver(self._observe)

    def _observe(self, event):
        if event.get('isError'):
            self.failures.append(event.get('failure'))

    def types(self):
        return [f.type if f is not None else None for f in self.failures]


class Transport(object):
    """
    One end of a connection.  What is written stays in C{outgoing} until the
    schedule delivers it.
    """
    disconnecting = False
    disconnected = False

    def __init__(self, name='end'):
        self.name = name
        self.outgoing = b''
        self.log = []

    def write(self, data):
        if not isinstance(data, bytes):
            raise TypeError("Data must be bytes, not %r" % (type(data),))
        if self.disconnected or self.disconnecting:
            return
        self.outgoing += data
        self.log.append(('write', data))

    def writeSequence(self, seq):
        self.write(b''.join(seq))

    def loseConnection(self):
        self.disconnecting = True

    abortConnection = loseConnection

    def getPeer(self):
        return ('memory', self.name, 'peer')

    def getHost(self):
        return ('memory', self.name)

    def startTLS(self, options):
        self.log.append(('tls', options))

    def registerProducer(self, producer, streaming):
        pass

    def unregisterProducer(self):
        pass


class Link(object):
    """
    Two protocols connected to each other.
    """
    def __init__(self, a, b):
        self.ends = [a, b]
        self.transports = [Transport('a'), Transport('b')]
        self.lost = [False, False]
        for proto, transport in zip(self.ends, self.transports):
            proto.makeConnection(transport)

    def deliver(self, side, count=None):
        """
        Deliver up to count bytes (or everything) written by a side to the
        other.  Returns whether there was something to deliver.
        """
        source = self.transports[side]
        other = 1 - side
        data = source.outgoing if count is None else source.outgoing[:count]
        if (not data or self.lost[other] or
            self.transports[other].disconnecting):
            # A transport stops reading once it was asked to disconnect.
            return False
        source.outgoing = source.outgoing[len(data):]
        self.ends[other].dataReceived(data)
        return True

    def flush(self, limit=100000):
        """
        Deliver everything, in both directions, and then carry out the
        disconnections which were asked for.
        """
        moved = True
        while moved:
            limit -= 1
            if limit < 0:
                raise AssertionError("the two ends never come to rest")
            moved = False
            for side in (0, 1):
                while self.deliver(side):
                    moved = True
            for side in (0, 1):
                t = self.transports[side]
                if t.disconnecting and not t.outgoing and not self.lost[side]:
                    self.disconnect()
                    moved = True

    def disconnect(self, reason=None):
        if reason is None:
            reason = error.ConnectionDone("done")
        for side in (0, 1):
            if not self.lost[side]:
                self.lost[side] = True
                self.transports[side].disconnected = True
                self.transports[side].outgoing = b''
        for side in (0, 1):
            self.ends[side].connectionLost(Failure(reason))

    @property
    def down(self):
        return any(self.lost)


class Outcome(object):
    """
    Records each time a Deferred's result becomes known.
    """
    def __init__(self, d=None):
        self.results = []
        if d is not None:
            self.watch(d)

    def watch(self, d):
        d.addCallbacks(self._ok, self._failed)

    def _ok(self, result):
        self.results.append(('ok', result))

    def _failed(self, failure):
        self.results.append(('failed', failure))


def chunks(data, cuts):
    """
    Split data at the (sorted, wrapped around) positions.
    """
    points = sorted(set(c % (len(data) + 1) for c in cuts))
    result = []
    last = 0
    for p in points + [len(data)]:
        if p > last:
            result.append(data[last:p])
            last = p
    return result
