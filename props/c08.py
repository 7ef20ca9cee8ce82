"""
Juice boxes survive the wire, however it chops them up.
"""
import io
import re

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Transport, chunks
from epsilon import juice

RULE = ("Sequences of boxes with keys of letters, digits and underscores, "
        "values and bodies of arbitrary text biased to CR, LF, spaces, colons "
        "and non-ASCII characters, cut into chunks at arbitrary bytes.")


class Collector(juice.Juice):
    def __init__(self):
        juice.Juice.__init__(self, False)
        self.boxes = []

    def juiceBoxReceived(self, box):
        self.boxes.append(dict(box))


def build(description):
    pairs, body = description
    box = juice.Box()
    for k, v in pairs:
        box[k] = v
    if body is not None:
        box['body'] = body
    return box


def expected(description):
    pairs, body = description
    result = dict(pairs)
    if body is not None:
        result['body'] = body
    return result


def check(case, note):
    descriptions, cuts = case
    boxes = [build(d) for d in descriptions]
    wanted = [expected(d) for d in descriptions]
    copies = [box.copy() for box in boxes]
    for box, copy in zip(boxes, copies):
        require(copy == box and copy is not box and type(copy) is type(box),
                "copy of %r: %r", box, copy)
    data = b''.join(box.serialize() for box in boxes)
    same([dict(b) for b in boxes], wanted, "the boxes, after serializing them")
    for again in range(2):
        parsed = juice.parseString(data)
        same([dict(b) for b in parsed], wanted, "parseString(%r)" % (data,))
        for box in parsed:
            # They belong to whoever asked for them.
            box.clear()
    collector = Collector()
    collector.makeConnection(Transport())
    parts = chunks(data, cuts)
    for part in parts:
        collector.dataReceived(part)
    same(collector.boxes, wanted, "boxes received from %r" % (parts,))
    # what was sent is what arrives: through a real sender
    sender = Collector()
    transport = Transport()
    sender.makeConnection(transport)
    for box in copies:
        box.sendTo(sender)
    same(transport.outgoing, data, "what was sent")
    text = ''.join(v for pairs, body in descriptions for k, v in pairs)
    if '\r\n' in text:
        note('line break in a value')
    if any(body is not None for pairs, body in descriptions):
        note('body')
    if any(body == '' for pairs, body in descriptions):
        note('empty body')
    if len(parts) > 1:
        note('several chunks')
    note.nontrivial(len(parts) > 1 and ('\r' in text or any(
        body for pairs, body in descriptions)))


def checkPrefix(case, note):
    """
    Every box is delivered as soon as, and not before, its last byte is.
    """
    descriptions = case
    boxes = [build(d) for d in descriptions]
    wanted = [expected(d) for d in descriptions]
    collector = Collector()
    collector.makeConnection(Transport())
    for n, box in enumerate(boxes):
        data = box.serialize()
        for i in range(len(data)):
            same(len(collector.boxes), n, "boxes received after %d of the %d "
                 "bytes of box %d" % (i, len(data), n))
            collector.dataReceived(data[i:i + 1])
        same(collector.boxes, wanted[:n + 1], "boxes received")
    note.nontrivial()


def checkMany(case, note):
    count, size, headers = case
    boxes = []
    for n in range(count):
        pairs = [('n', str(n))] if headers else []
        body = ('%d:' % (n,)) + 'x' * size if size or not headers else None
        boxes.append((tuple(pairs), body))
    data = b''.join(build(b).serialize() for b in boxes)
    collector = Collector()
    collector.makeConnection(Transport())
    collector.dataReceived(data)
    require(collector.boxes == [expected(b) for b in boxes],
            "%d boxes in one chunk: received %d", count, len(collector.boxes))
    note.nontrivial(count > 50)


def checkBig(case, note):
    value, body, size = case
    wanted = [{'a': 'x' * value + 'y', 'body': 'z' * body + 'w', 'n': '1'},
              {'n': '2'}]
    data = b''.join(build((tuple((k, v) for k, v in b.items() if k != 'body'),
                           b.get('body'))).serialize() for b in wanted)
    require([dict(b) for b in juice.parse(io.BytesIO(data))] == wanted,
            "parse gives other boxes with %d and %d bytes", value, body)
    collector = Collector()
    collector.makeConnection(Transport())
    for i in range(0, len(data), size):
        collector.dataReceived(data[i:i + size])
    require(collector.boxes == wanted, "boxes with values of %d and %d bytes "
            "in chunks of %d: received %r", value, body, size,
            [[(k, len(v)) for k, v in b.items()] for b in collector.boxes])
    note.nontrivial(value + body > 65535)


def checkWide(case, note):
    """
    Boxes with any number of keys of any length.
    """
    count, length, lines, size = case
    wanted = []
    for box in range(2):
        wanted.append(dict(
            ('k%d%s' % (n, 'x' * (length * n // max(1, count))),
             '\r\n'.join(str(n) for n in range(lines if n % 7 == 0 else 1)))
            for n in range(count)))
    wanted[0]['body'] = 'b' * count
    data = b''.join(build((tuple((k, v) for k, v in b.items() if k != 'body'),
                           b.get('body'))).serialize() for b in wanted)
    collector = Collector()
    collector.makeConnection(Transport())
    for i in range(0, len(data), size):
        collector.dataReceived(data[i:i + size])
    require(collector.boxes == wanted, "boxes with %d keys of up to %d "
            "characters, and values of %d lines: received %r", count, length,
            lines, [len(b) for b in collector.boxes])
    note.nontrivial(count > 50)


def keys():
    from keyword import iskeyword, kwlist
    words = sorted(k for k in kwlist if k.islower())
    return st.one_of(
        st.from_regex(re.compile(r'[a-z_0-9][a-z0-9_]{0,8}', re.A),
                      fullmatch=True),
        st.from_regex(re.compile(r'[a-z_0-9][a-z0-9_]{0,8}', re.A),
                      fullmatch=True),
        # Names with a meaning elsewhere; words of Python are spelled with an
        # initial capital, as they can't be arguments otherwise.
        st.sampled_from(words).map(str.title),
        st.tuples(st.sampled_from(['', '_', '__', 'x']),
                  st.sampled_from(words + ['body', 'length', 'key', 'self',
                                           'print', 'none', 'true']),
                  st.sampled_from(['', '_', '__', '1', 'x'])).map(''.join),
    ).filter(lambda k: k not in ('body', '_length') and not iskeyword(k))


def values():
    return stretched(st.one_of(
        st.text('\r\n :-_a\xe9\t', max_size=12),
        st.text(st.characters(exclude_categories=['Cs']), max_size=12),
        st.lists(st.sampled_from(['\r\n', '\r\n', 'a', ' ', 'x: y', '\n']),
                 max_size=40).map(''.join),
        st.sampled_from(['', ' ', '\r\n', '\r\n\r\n', '\r\n ', ': ', '\r',
                         '\n', 'a\r', '\na', '\r\nA: b', '\r\r\n\n'])))


def descriptions(minSize=1, maxSize=4):
    return st.lists(
        st.tuples(
            st.lists(st.tuples(keys(), values()), max_size=4,
                     unique_by=lambda p: p[0]).map(tuple),
            st.one_of(st.none(), values(), st.text('ab\r\n', max_size=40))),
        min_size=minSize, max_size=maxSize).map(tuple)


SUBS = [
    Sub('wire', lambda: st.tuples(
        descriptions(), st.lists(st.integers(0, 300), max_size=12).map(tuple)),
        check, 2500, 30000,
        rule="several chunks, and line breaks in values or bodies",
        examples=[((((('a', 'b'),), 'caf\xe9'), ((('c', 'd'),), None)), (3,)),
                  ((((('a', 'b'),), ''), ((('c', 'd'),), 'x')), (3, 9))]),
    Sub('bytewise', lambda: descriptions(1, 2), checkPrefix, 300, 3000,
        rule="every case"),
    Sub('big', lambda: st.tuples(
        st.one_of(st.integers(0, 200000), st.just(0)),
        st.one_of(st.integers(0, 200000), st.just(0)),
        st.sampled_from([100, 1000, 16384, 65536, 1 << 30])),
        checkBig, 25, 200, rule="more than 64 kB",
        examples=[(65536, 65536, 16384), (70000, 150000, 90),
                  (1300000, 0, 65536),
                  (0, 1300000, 65536), (3 << 20, 3 << 20, 1 << 30)]),
    Sub('wide', lambda: st.tuples(st.integers(1, 500), st.integers(0, 300),
                                  st.integers(1, 100),
                                  st.sampled_from([50, 1000, 1 << 30])),
        checkWide, 15, 100, rule="more than 50 keys",
        examples=[(1200, 400, 30, 1 << 30), (20, 3000, 3000, 500)]),
    Sub('many', lambda: st.tuples(st.integers(1, 600), st.integers(0, 3),
                                  st.booleans()),
        checkMany, 25, 100, rule="more than 50 boxes in one chunk",
        examples=[(3000, 1, True), (3000, 0, False)]),
]
