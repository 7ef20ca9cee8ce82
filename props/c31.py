"""
What the benchmark tool reads, measures and reports.
"""
import io
import os

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, require, same
from epsilon import juice
from epsilon.scripts import benchmark
from twisted.python.filepath import FilePath

RULE = ("Generated diskstats lines, resource snapshots, directory trees and "
        "mount tables.")

DISK = ['readCount', 'mergedReadCount', 'readSectorCount', 'readMilliseconds',
        'writeCount', 'mergedWriteCount', 'writeSectorCount',
        'writeMilliseconds', 'outstandingIOCount', 'ioMilliseconds',
        'weightedIOMilliseconds']
PARTITION = ['readCount', 'readSectorCount', 'writeCount', 'writeSectorCount']


def checkDiskStats(case, note):
    lines, binary = case
    text = ''
    expected = []
    for device, numbers, spaces, extra in lines:
        names = PARTITION if len(numbers) == 4 else DISK
        values = list(numbers)
        if names is DISK:
            # Newer kernels report more than is understood here.
            values += list(extra)
        fields = ['8', '0', device] + [str(v) for v in values]
        text += ' ' * spaces + (' ' * max(1, spaces)).join(fields) + '\n'
        expected.append((device, names, dict(zip(names, numbers))))
    f = io.BytesIO(text.encode()) if binary else io.StringIO(text)
    got = list(benchmark.parseDiskStats(f))
    same(len(got), len(expected), "devices in %r" % (text,))
    for (device, record), (wanted, names, values) in zip(got, expected):
        require(device == wanted and type(device) is str, "device %r", device)
        require(isinstance(record, benchmark.partitionstat if
                           names is PARTITION else benchmark.diskstat),
                "record %r", record)
        same(dict((n, getattr(record, n)) for n in names), values,
             "statistics in %r" % (text,))
    note.nontrivial(len(set(len(n) for d, n, s, e in lines)) > 1)


def snapshot(time, disk, partition, size):
    return benchmark.ResourceSnapshot(
        time=time,
        disk=None if disk is None else benchmark.diskstat(*disk),
        partition=None if partition is None else
        benchmark.partitionstat(*partition),
        size=size)


def checkResults(case, note):
    name, sector, before, after, error, timeout, count = case
    hasDisk = before[1] is not None and after[1] is not None
    hasPartition = before[2] is not None and after[2] is not None
    b = snapshot(before[0], before[1] if hasDisk else None,
                 before[2] if hasPartition else None, before[3])
    a = snapshot(after[0], after[1] if hasDisk else None,
                 after[2] if hasPartition else None, after[3])
    data = b''.join(benchmark.formatResults(name, sector, b, a, error, timeout)
                    for _ in range(count))
    boxes = juice.parseString(data)
    same(len(boxes), count, "results in the output")
    for box in boxes:
        # Read it back as the command it is.
        values = juice.stringsToObjects(box, benchmark.Results.arguments, None)
        same(box['_command'], 'Result', "command")
        wanted = dict(version=benchmark.STATS_VERSION, error=error,
                      timeout=timeout, name=name, sector_size=sector,
                      elapsed=after[0] - before[0],
                      filesystem_growth=after[3] - before[3],
                      read_count=None, read_sectors=None, write_count=None,
                      write_sectors=None, read_ms=None, write_ms=None)
        if hasPartition:
            for key, field in [('read_count', 0), ('read_sectors', 1),
                               ('write_count', 2), ('write_sectors', 3)]:
                wanted[key] = after[2][field] - before[2][field]
        if hasDisk:
            for key, field in [('read_ms', 3), ('write_ms', 7)]:
                wanted[key] = after[1][field] - before[1][field]
        same(dict((k, values[k]) for k in wanted), wanted,
             "results read back from %r" % (data,))
    note.nontrivial(hasDisk and hasPartition)


def checkReport(case, note):
    """
    Reports accumulate in the output file.
    """
    existing, reports = case
    with scratch.directory(), scratch.quiet():
        if existing is not None:
            with open('output', 'wb') as f:
                f.write(existing)
        for report in reports:
            benchmark.reportResults(report)
        got = b''
        if os.path.exists('output'):
            with open('output', 'rb') as f:
                got = f.read()
    same(got, (existing or b'') + b''.join(reports), "the output file")
    note.nontrivial(bool(existing) and len(reports) > 1)


def checkSize(case, note):
    with scratch.directory() as path:
        root = os.path.join(path, 'root')
        os.mkdir(root)
        with open(os.path.join(path, 'plain'), 'wb') as f:
            f.write(b'not a directory')
        directories = [root]
        expected = []
        for n, (where, kind, size) in enumerate(case):
            parent = directories[where % len(directories)]
            target = os.path.join(parent, ('.h' if size % 3 == 0 else 'n') +
                                  str(n))
            if kind == 'file':
                with open(target, 'wb') as f:
                    f.write(b'x' * size)
                expected.append(size)
            elif kind == 'dir':
                os.mkdir(target)
                directories.append(target)
            elif kind == 'broken':
                text = ['', '/', '../', os.path.join(path, 'x'),
                        os.path.join(path, 'plain', ''),
                        '\xe9\u20ac'][size % 6]
                text += 'm' * (size % 50 + 1)
                if size % 7 == 0:
                    # It leads to itself.
                    text = os.path.basename(target)
                elif size % 11 == 0:
                    text = 'm' * 300
                os.symlink(text, target)
                expected.append(len(os.fsencode(text)))
                note('broken link')
            else:
                outside = os.path.join(path, 'outside%d' % (n,))
                with open(outside, 'wb') as f:
                    f.write(b'y' * size)
                os.symlink(outside, target)
                expected.append(size)
        wanted = sum(expected) + sum(os.stat(d).st_size for d in directories)
        same(benchmark.getSize(FilePath(root)), wanted, "size of the tree")
        note.nontrivial(len(expected) > 1 and len(directories) > 1)


def checkDevice(case, note):
    depth, mounts, names_, directories = case
    with scratch.directory() as path:
        names = directories[:depth]
        cwd = os.path.join(path, *names)
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        parts = cwd.split('/')[1:]
        table = []
        best = None
        for n, (level, twist) in enumerate(mounts):
            level = len(parts) - min(level, len(parts))
            point = '/' + '/'.join(parts[:level])
            if twist == 'shorter' and level:
                point = point[:-1] if not point[:-1].endswith('/') else point
            elif twist == 'longer' and level:
                point += 'x'
            elif twist == 'below':
                point = cwd + '/sub'
            elif twist == 'spaced':
                point = point.rstrip('/') + ' x'
            elif twist == 'first word':
                point = point.split(' ')[0] or '/'
            elif twist == 'elsewhere':
                point = '/dev/pts'
            # The order of the names isn't that of the mounts.
            device = '/dev/%s%d' % (names_[n % len(names_)], n)
            written = ''.join('\\%03o' % (ord(c),) if c in ' \t\n\\#' else c
                              for c in point)
            table.append('%s %s ext4 rw 0 0\n' % (device, written))
            covers = point == '/' or cwd == point or \
                cwd.startswith(point + '/')
            if covers and (best is None or len(point) >= best[0]):
                best = (len(point), device)
        with open(os.path.join(path, 'mounts'), 'w') as f:
            f.write(''.join(table))
        same(benchmark.discoverCurrentWorkingDevice(
            os.path.join(path, 'mounts')),
            best[1] if best else '<unknown>',
            "device of %r according to %r" % (cwd, table))
        if any(t != 'exact' for level, t in mounts):
            note('misleading mounts')
    note.nontrivial(len(mounts) > 1)


def numbers(count):
    # Some counters wrap at 2 ** 32 and others don't.
    return st.tuples(*[st.one_of(st.integers(0, 10 ** 7),
                                 st.integers(0, 2 ** 64 - 1))] * count)


def lines():
    return st.lists(st.tuples(
        st.from_regex(r'\A[a-z]{2,5}[0-9]{0,2}\Z', fullmatch=True).map(
            lambda s: s.strip()),
        st.one_of(numbers(4), numbers(11)),
        st.integers(0, 4),
        st.one_of(st.just(()), numbers(4), numbers(6))), max_size=6).map(tuple)


def reports():
    return st.one_of(
        st.binary(max_size=10),
        st.tuples(st.binary(min_size=1, max_size=10), st.sampled_from(
            [100, 1000, 7000])).map(lambda p: p[0] * p[1]))


def snapshots():
    return st.tuples(
        st.floats(0, 2e9), st.one_of(st.none(), numbers(11), numbers(11)),
        st.one_of(st.none(), numbers(4), numbers(4)),
        st.integers(0, 10 ** 12))


SUBS = [
    Sub('diskstats', lambda: st.tuples(lines(), st.booleans()),
        checkDiskStats, 500, 5000, rule="disks as well as partitions"),
    Sub('results', lambda: st.tuples(
        st.text(st.characters(exclude_categories=['Cs']), max_size=10),
        st.integers(1, 65536), snapshots(), snapshots(), st.booleans(),
        st.booleans(), st.integers(1, 2)),
        checkResults, 600, 6000, rule="both kinds of statistics"),
    Sub('report', lambda: st.tuples(
        st.one_of(st.none(), reports()),
        st.lists(reports(), max_size=4).map(tuple)),
        checkReport, 60, 500, rule="added to what is there, more than once"),
    Sub('size', lambda: st.lists(st.tuples(
        st.integers(0, 4),
        st.sampled_from(['file', 'file', 'dir', 'broken', 'link']),
        st.integers(0, 5000)), max_size=10).map(tuple),
        checkSize, 150, 1500, rule="several files and directories"),
    Sub('device', lambda: st.tuples(
        st.integers(0, 3),
        st.lists(st.tuples(st.integers(0, 6), st.sampled_from(
            ['exact', 'exact', 'shorter', 'longer', 'below', 'elsewhere',
             'spaced', 'first word'])),
            max_size=8).map(tuple),
        st.lists(st.sampled_from('abcxyz'), min_size=1, max_size=8).map(
            tuple),
        st.one_of(st.just(('aa', 'b', 'cc')), st.tuples(*[st.sampled_from(
            ['aa', 'b', 'c c', ' ', 'a\tb', 'x\n', '\\', '\\040', '#1',
             'b\\134', '\xe9\u20ac', 'a ', 'a\xa0b'])] * 3))),
        checkDevice, 300, 3000, rule="several mounts"),
]
