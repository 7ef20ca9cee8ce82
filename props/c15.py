"""
epsilon.liner.LineReceiver
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Transport, chunks
from epsilon.liner import LineReceiver

RULE = ("Streams of lines and counted raw blocks, cut into chunks at "
        "arbitrary bytes, with three delimiters; some streams ask for the "
        "connection to be closed in the middle, others leave raw mode later, "
        "from outside of the delivery of data.")

DELIMITERS = [b'\r\n', b'\n', b'||']


class Recorder(LineReceiver):
    """
    A line b'<n>' is followed by n raw bytes.  The line b'quit' closes the
    connection.
    """
    remaining = 0

    def __init__(self, eager):
        self.events = []
        self.eager = eager

    def arrives(self):
        """
        Something more may arrive while data is being delivered.
        """

    def lineReceived(self, line):
        self.events.append(('line', line))
        self.arrives()
        if line == b'quit':
            self.transport.loseConnection()
        elif line.startswith(b'<'):
            self.remaining = int(line[1:-1])
            self.setRawMode()
            if not self.remaining:
                self.setLineMode()

    def rawDataReceived(self, data):
        mine, extra = data[:self.remaining], data[self.remaining:]
        self.remaining -= len(mine)
        if self.events[-1][0] == 'raw':
            self.events[-1] = ('raw', self.events[-1][1] + mine)
        else:
            self.events.append(('raw', mine))
        if mine.startswith(b'a'):
            self.arrives()
        if not self.remaining:
            if self.events[-1][1].endswith(b'!'):
                self.transport.loseConnection()
            self.setLineMode(extra)
        else:
            assert not extra
        self.arrives()


class Reentrant(Recorder):
    """
    What arrives doesn't wait until what arrived before has been dealt with.
    """
    def arrives(self):
        if self.parts and self.when.pop(0):
            self.when.append(True)
            self.dataReceived(self.parts.pop(0))
        elif self.parts:
            self.when.append(False)


def checkReentrant(case, note):
    case, when = case
    return check(case, note, when)


def check(case, note, when=None):
    which, items, cuts, connected = case
    delimiter = DELIMITERS[which]
    stream = b''
    expected = []
    closed = False
    for kind, value in items:
        if kind == 'line':
            line = b''.join(
                {'d': delimiter[:1], 'e': delimiter[1:]}.get(c, c.encode())
                for c in value)
            # A line is whatever comes before the first delimiter.
            if (line + delimiter).find(delimiter) != len(line):
                line = b'x'
            if line.startswith(b'<'):
                line = b'y' + line
            stream += line + delimiter
            if not closed:
                expected.append(('line', line))
        elif kind == 'raw':
            block = b''.join(
                {'d': delimiter, 'e': delimiter[:1]}.get(c, c.encode())
                for c in value)
            head = b'<%d>' % (len(block),)
            stream += head + delimiter + block
            if not closed:
                expected.append(('line', head))
                if block:
                    expected.append(('raw', block))
                    if block.endswith(b'!'):
                        closed = True
                        note('closed by a raw block')
        else:
            stream += b'quit' + delimiter
            if not closed:
                expected.append(('line', b'quit'))
            closed = True
    receiver = (Recorder if when is None else Reentrant)(True)
    receiver.delimiter = delimiter
    transport = Transport()
    if connected or closed:
        receiver.makeConnection(transport)
    parts = chunks(stream, cuts)
    receiver.parts = coming = list(parts)
    receiver.when = list(when or ())
    while coming:
        # Some transports (TLS ones) still deliver what arrived.
        receiver.dataReceived(coming.pop(0))
    same(receiver.events, expected, "events of %r" % (parts,))
    same(transport.disconnecting, closed, "closed")
    if closed:
        note('closed')
    if any(k == 'raw' for k, v in items):
        note('raw')
    note.nontrivial(len(parts) > 1 and len(items) > 1)


def checkMany(case, note):
    count, size, piece = case
    block = (b'ab\r\n<1>' * size)[:size]
    unit = b'<%d>\r\n' % (len(block),) + block
    stream = unit * count
    receiver = Recorder(True)
    receiver.makeConnection(Transport())
    step = piece or len(stream)
    for i in range(0, len(stream), step):
        receiver.dataReceived(stream[i:i + step])
    expected = []
    for _ in range(count):
        expected.append(('line', b'<%d>' % (len(block),)))
        expected.append(('raw', block))
    require(receiver.events == expected,
            "%d raw blocks in chunks of %d bytes: got %d events, expected %d",
            count, step, len(receiver.events), len(expected))
    note.nontrivial(count > 50)


def checkLong(case, note):
    line, block, size, which = case
    delimiter = DELIMITERS[which]
    stream = b'x' * line + b'y' + delimiter + b'<%d>' % (block,) + delimiter
    stream += b'z' * block + b'end' + delimiter
    expected = [('line', b'x' * line + b'y'), ('line', b'<%d>' % (block,))]
    if block:
        expected.append(('raw', b'z' * block))
    expected.append(('line', b'end'))
    receiver = Recorder(True)
    receiver.delimiter = delimiter
    receiver.makeConnection(Transport())
    for i in range(0, len(stream), size):
        receiver.dataReceived(stream[i:i + size])
    require(receiver.events == expected, "a line of %d and a block of %d "
            "bytes in chunks of %d: received %r", line + 1, block, size,
            [(kind, len(data)) for kind, data in receiver.events])
    note.nontrivial(line + block > 65536)


def items():
    text = st.text('abde<1>', max_size=6)
    return st.lists(st.one_of(
        st.tuples(st.just('line'), text),
        st.tuples(st.just('line'), text),
        st.tuples(st.just('raw'), st.text('abde<1>', max_size=8)),
        st.tuples(st.just('raw'), st.text('abde<1>', max_size=30)),
    ), max_size=8).map(tuple)


@st.composite
def streams(draw):
    before = draw(items())
    if draw(st.sampled_from([False, False, True])):
        before += (draw(st.sampled_from([('quit', ''), ('raw', 'a!')])),)
        before += draw(items())
    return (draw(st.integers(0, len(DELIMITERS) - 1)), before,
            tuple(draw(st.lists(st.integers(0, 120), max_size=10))),
            draw(st.sampled_from([True, True, False])))


class Manual(LineReceiver):
    """
    The line b'raw' starts raw data; somebody else decides when it ends.
    """
    def __init__(self):
        self.events = []
        self.held = b''

    def lineReceived(self, line):
        self.events.append(('line', line))
        if line == b'raw':
            self.setRawMode()

    def rawDataReceived(self, data):
        self.held += data


def checkManual(case, note):
    """
    Raw mode can be left from outside of rawDataReceived: what is then given
    back is received as lines at once.
    """
    rounds, connected, which = case
    delimiter = DELIMITERS[which]
    receiver = Manual()
    receiver.delimiter = delimiter
    if connected:
        receiver.makeConnection(Transport())
    expected = []
    pending = b''
    raw = False
    held = b''

    def arrives(data):
        nonlocal pending, raw, held
        data = pending + data
        pending = b''
        while data and not raw:
            if delimiter not in data:
                pending = data
                return
            line, data = data.split(delimiter, 1)
            expected.append(('line', line))
            raw = line == b'raw'
        if raw:
            held += data
    switches = 0
    for data, cuts, take in rounds:
        data = data.replace(b'\r', delimiter[:1]).replace(
            b'\n', delimiter[1:])
        for part in chunks(data, cuts):
            receiver.dataReceived(part)
            arrives(part)
            same(receiver.events, expected, "lines after %r" % (part,))
            same(receiver.held, held, "raw data after %r" % (part,))
        if raw and take is not None:
            extra = held[take:]
            held = receiver.held = b''
            raw = False
            receiver.setLineMode(extra) if extra or take % 2 else \
                receiver.setLineMode()
            arrives(extra)
            switches += 1
            same(receiver.events, expected,
                 "lines after giving back %r" % (extra,))
            same(receiver.held, held, "raw data after %r" % (extra,))
    note.nontrivial(switches > 1)


def manual():
    piece = st.sampled_from([b'a\r\n', b'\r\n', b'raw\r\n', b'raw\r\n',
                             b'b', b'\r', b'\n', b'r', b'cd\r\nraw\r\n'])
    return st.tuples(st.lists(st.tuples(
        st.lists(piece, max_size=6).map(b''.join),
        st.lists(st.integers(0, 30), max_size=3).map(tuple),
        st.one_of(st.none(), st.integers(0, 4), st.integers(0, 20))),
        max_size=6).map(tuple), st.booleans(),
        st.integers(0, len(DELIMITERS) - 1))


SUBS = [
    Sub('stream', streams, check, 4000, 60000,
        rule="several items in several chunks"),
    Sub('reentrant', lambda: st.tuples(
        streams(), st.lists(st.booleans(), min_size=1, max_size=6).map(tuple)),
        checkReentrant, 1500, 20000, rule="several items in several chunks"),
    Sub('manual', manual, checkManual, 1500, 20000,
        rule="raw mode is left more than once"),
    Sub('many', lambda: st.tuples(st.integers(1, 500), st.integers(1, 9),
                                  st.sampled_from([0, 0, 1, 7, 100])),
        checkMany, 25, 100, rule="more than 50 switches of mode",
        examples=[(3000, 3, 0)]),
    Sub('long', lambda: st.tuples(
        st.one_of(st.integers(0, 200000), st.integers(0, 20000)),
        st.one_of(st.integers(0, 200000), st.just(0)),
        st.sampled_from([1000, 16384, 65536, 1 << 30]),
        st.integers(0, len(DELIMITERS) - 1)),
        checkLong, 25, 200, rule="more than 64 kB",
        examples=[(65536, 65536, 16384, 0), (1300000, 0, 65536, 0),
                  (3 << 20, 3 << 20, 1 << 30, 1)]),
]
