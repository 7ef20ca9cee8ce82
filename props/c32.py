"""
What the benchmark tool does with the process it measures.
"""
import os
import signal
import subprocess
import sys
import time

from hypothesis import strategies as st

from harness import scratch
from harness.core import HarnessError, Sub, Violation, require, same
from harness.net import Errors, Outcome
from epsilon import juice
from epsilon.scripts import benchmark
from twisted.internet import defer, error, task
from twisted.python.failure import Failure
from twisted.python.filepath import FilePath

RULE = ("Histories of a child process (output, messages on the back channel "
        "cut up in any way, closed descriptors, silence, files written to its "
        "directory) which end in any way; and scripts on the other end of the "
        "back channel, in a process of their own.")

PATIENCE = 900


class Transport(object):
    react = None

    def __init__(self):
        self.calls = []

    def writeToChild(self, fd, data):
        if type(data) is not bytes:
            raise Violation("%r written to the child" % (data,))
        self.calls.append(('write', fd, data))
        # The child goes on at once.
        if self.react is not None:
            self.react()

    exited = False

    def signalProcess(self, name):
        self.calls.append(('signal', name))
        if self.exited:
            raise error.ProcessExitedAlready()

    def loseConnection(self):
        pass


def contents(path):
    return sum(os.stat(os.path.join(path, n)).st_size
               for n in os.listdir(path))


def checkProcess(case, note):
    kind, executable, args, env, events, ending, busy = case
    cls = getattr(benchmark, kind)
    measured = kind == 'BenchmarkProcess'
    if not os.path.exists('/proc/diskstats'):
        raise HarnessError("no /proc/diskstats")
    clock = task.Clock()
    with scratch.directory(chdir=False) as path, Errors() as errors:
        transport = Transport()
        spawned = []

        def spawnProcess(proto, *a, **kw):
            spawned.append((a, kw))
            proto.callLater = clock.callLater
            spawned.append(proto)
            proto.makeConnection(transport)
            return transport

        def react():
            with open(os.path.join(path, 'busy'), 'ab') as f:
                f.write(b'x' * 10000)
        with open(os.path.join(path, 'busy'), 'wb'):
            pass
        if busy:
            transport.react = react
        sizes = [os.stat(path).st_size]
        began = time.time()
        startSize = contents(path)
        outcome = Outcome(cls.spawn(executable, list(args), path, dict(env),
                                    spawnProcess))
        [(a, kw), proto] = spawned
        names = ['executable', 'args', 'env', 'path']
        got = dict(zip(names, a))
        got.update(kw)
        same(got, dict(executable=executable, args=[executable] + list(args),
                       path=path, env=dict(env),
                       childFDs={0: 'w', 1: 'r', 2: 'r', 3: 'r', 4: 'w'}),
             "what was spawned")
        output = []
        calls = []
        silence = 0
        killed = False
        window = [None, None]
        for event in events:
            if event[0] == 'data':
                silence = 0
                output.append((event[1], event[2]))
                proto.childDataReceived(event[1], event[2])
            elif event[0] == 'lost':
                silence = 0
                output.append((event[1], None))
                proto.childConnectionLost(event[1])
            elif event[0] == 'channel':
                silence = 0
                if not measured:
                    output.append((3, event[1]))
                else:
                    here = contents(path)
                    for n in range(len(event[1])):
                        byte = event[1][n:n + 1]
                        if byte in (b'\0', b'\1'):
                            calls.append(('write', 4, byte))
                            window[ord(byte)] = (here, time.time())
                            here += 10000 if busy else 0
                            note('timing')
                        else:
                            calls.append(('signal', 'QUIT'))
                            note('nonsense on the back channel')
                proto.childDataReceived(3, event[1])
                if measured:
                    for n in (0, 1):
                        if window[n] and bytes([n]) in event[1]:
                            snapshot = (proto.benchmarkChange.after if n else
                                        proto.benchmarkChange.before)
                            require(window[n][1] - 1 <= snapshot.time <=
                                    time.time() + 1,
                                    "the time recorded is not the current one")
            elif event[0] == 'advance':
                clock.advance(event[1])
                silence += event[1]
                if silence >= PATIENCE and not killed:
                    killed = True
                    calls.append(('signal', 'KILL'))
                    note('killed')
            elif event[0] == 'exited':
                # It's gone, but hasn't been noticed yet: its output may still
                # come, or be kept open by processes it has left behind.
                transport.exited = True
                note('signalled after its exit')
            elif event[0] == 'file':
                with open(os.path.join(path, event[1]), 'wb') as f:
                    f.write(b'x' * event[2])
                sizes.append(os.stat(path).st_size)
            same(transport.calls, calls, "what was done to the process")
            same(outcome.results, [], "results before the process ended")
        if ending[0] == 'done' and killed and transport.exited:
            # Nothing has been killed. Whether that's still in time isn't
            # judged, but it's over.
            proto.processEnded(Failure(error.ProcessDone(0)))
            same(len(outcome.results), 1, "results")
            same(clock.getDelayedCalls(), [], "timers left over")
            return
        if ending[0] == 'done' and killed:
            ending = ('terminated', None, 9, 9)
        if ending[0] == 'done':
            reason = error.ProcessDone(0)
        elif ending[0] == 'terminated':
            reason = error.ProcessTerminated(*ending[1:])
        else:
            reason = error.ConnectionLost('gone')
        endSize = contents(path)
        proto.processEnded(Failure(reason))
        same(transport.calls, calls, "what was done to the process at the end")
        same(len(outcome.results), 1, "results")
        [(status, result)] = outcome.results
        if ending[0] == 'done':
            require(status == 'ok', "failed: %r", result)
            same(len(result), 3, "parts of the result")
            require(result[0] is proto, "result %r", result)
            same(result[1:], (0, output), "status and output")
        elif killed:
            require(status == 'failed' and result.check(error.TimeoutError),
                    "result of a process which was silent for too long: %r",
                    result)
        elif ending[0] == 'terminated':
            require(status == 'failed' and result.check(benchmark.ProcessDied),
                    "result of a process which died: %r", result)
            e = result.value
            same((e.exitCode, e.signal, e.status, e.output),
                 (ending[1], ending[2], ending[3], output),
                 "how the process died")
        else:
            require(status == 'failed' and result.value is reason,
                    "result of a process which was lost: %r", result)
        same(clock.getDelayedCalls(), [], "timers left over")
        if measured:
            def growth(change, before, after, what):
                spread = max(sizes) - min(sizes)
                grown = change.after.size - change.before.size
                require(grown == after - before or
                        after - before - spread <= grown <=
                        after - before + spread,
                        "growth %s: got %r, expected %r", what, grown,
                        after - before)

            overall = proto.overallChange
            growth(overall, startSize, endSize, "overall")
            require(began - 1 <= overall.before.time <= overall.after.time <=
                    time.time() + 1, "times recorded")
            if window[0] and window[1]:
                note('measured')
                growth(proto.benchmarkChange, window[0][0], window[1][0],
                       "between start and stop")
        same(errors.failures, [], "errors logged")
    note.nontrivial(len(events) > 3)


def checkDisks(case, note):
    """
    The statistics recorded are those of the working directory's partition,
    and of the disk it is on.
    """
    disk, number, whole, others, events = case
    partition = disk + number
    captured = []

    def captureStats():
        which = len(captured)
        stats = dict((name, (name, which)) for name in others)
        stats[partition] = (partition, which)
        if whole:
            stats[disk] = (disk, which)
        else:
            stats.pop(disk, None) if disk != partition else None
        captured.append(stats)
        return stats
    old = benchmark.captureStats, benchmark.discoverCurrentWorkingDevice
    clock = task.Clock()
    with scratch.directory(chdir=False) as path, Errors():
        def spawnProcess(proto, *a, **kw):
            proto.callLater = clock.callLater
            spawned.append(proto)
            proto.makeConnection(Transport())
        spawned = []
        benchmark.captureStats = captureStats
        benchmark.discoverCurrentWorkingDevice = lambda: '/dev/' + partition
        try:
            Outcome(benchmark.BenchmarkProcess.spawn(
                'x', [], path, {}, spawnProcess))
            [proto] = spawned
            if len(captured) != 1:
                return                      # gathered in some other way
            wanted = dict(overallChange=[0, None], benchmarkChange=[None] * 2)
            for n, byte in enumerate(events):
                proto.childDataReceived(3, byte)
                wanted['benchmarkChange'][ord(byte)] = n + 1
            proto.processEnded(Failure(error.ProcessDone(0)))
            wanted['overallChange'][1] = len(events) + 1
        finally:
            (benchmark.captureStats,
             benchmark.discoverCurrentWorkingDevice) = old
    for name, points in wanted.items():
        change = getattr(proto, name)
        for attribute, which in zip(['before', 'after'], points):
            if which is None:
                continue
            snapshot = getattr(change, attribute)
            same((snapshot.disk, snapshot.partition),
                 (captured[which].get(disk), captured[which].get(partition)),
                 "statistics %s in %s" % (attribute, name))
    note.nontrivial(bool(events) and bool(number))


def checkScript(case, note):
    """
    start() and stop() in the process which is measured.
    """
    script, answers = case
    fds = [os.pipe() for _ in range(3)]
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.alarm(60)
            messages, replies, results = fds[0][1], fds[1][0], fds[2][1]
            # Move them out of the way before 3 and 4 are taken.
            messages, replies, results = [
                os.dup(os.dup(os.dup(os.dup(os.dup(os.dup(os.dup(fd)))))))
                for fd in (messages, replies, results)]
            for pair in fds:
                for fd in pair:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            os.dup2(messages, 3)
            os.dup2(replies, 4)
            said = []
            for name in script:
                try:
                    getattr(benchmark, name)()
                except Exception as e:
                    said.append(type(e).__name__)
                else:
                    said.append('ok')
            os.write(results, ' '.join(said).encode())
            code = 0
        finally:
            os._exit(code)
    try:
        os.close(fds[0][1])
        os.close(fds[1][0])
        os.close(fds[2][1])
        os.write(fds[1][1], answers)
        os.close(fds[1][1])

        def readAll(fd):
            result = b''
            while True:
                data = os.read(fd, 4096)
                if not data:
                    return result
                result += data
        said = readAll(fds[2][0])
        messages = readAll(fds[0][0])
    finally:
        os.close(fds[0][0])
        os.close(fds[2][0])
        _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise HarnessError("the child was killed by %d" % (
            os.WTERMSIG(status),))
    wanted = []
    for n, name in enumerate(script):
        code = {'start': b'\0', 'stop': b'\1'}[name]
        wanted.append('ok' if answers[n:n + 1] == code else 'RuntimeError')
    same(messages, b''.join({'start': b'\0', 'stop': b'\1'}[name]
                            for name in script), "messages to the parent")
    same(said.decode(), ' '.join(wanted), "outcomes of %r when the parent "
         "says %r" % (script, answers))
    note.nontrivial(len(set(wanted)) > 1 or len(wanted) > 1)


class Change(object):
    def __init__(self, before, after):
        self.before = benchmark.ResourceSnapshot(
            time=before[0], disk=None, partition=None, size=before[1])
        self.after = benchmark.ResourceSnapshot(
            time=after[0], disk=None, partition=None, size=after[1])


class Process(object):
    pass


def checkBench(case, note):
    """
    What's reported about one run.
    """
    name, overall, inner, kind, status, output, late = case
    if not hasattr(benchmark, '_bench'):
        note.nontrivial()
        return
    proto = Process()
    proto.overallChange = Change(*overall)
    proto.benchmarkChange = Change(*inner)
    output = [tuple(o) for o in output]
    with scratch.directory() as path, scratch.quiet(), Errors() as errors:
        d = defer.Deferred()
        if not late:
            finish(d, kind, proto, status, output)
        outcome = Outcome(benchmark._bench(name, FilePath(path), lambda: d))
        if late:
            same(outcome.results, [], "results before the process ended")
            require(not os.path.exists('output'), "a report came too early")
            finish(d, kind, proto, status, output)
        same([s for s, r in outcome.results], ['ok'], "outcome")
        got = []
        if os.path.exists('output'):
            with open('output', 'rb') as f:
                got = juice.parseString(f.read())
    values = [juice.stringsToObjects(b, benchmark.Results.arguments, None)
              for b in got]
    bad = bool(status) or any(fd == 2 and data is not None
                              for fd, data in output)
    if kind == 'ok':
        wanted = [(name + suffix, after[0] - before[0], after[1] - before[1],
                   bad, False)
                  for suffix, (before, after) in [('-overall', overall),
                                                  ('-benchmark', inner)]]
        note('error reported' if bad else 'success reported')
    else:
        # No measurements to report.
        wanted = []
    same([(v['name'], v['elapsed'], v['filesystem_growth'], v['error'],
           v['timeout']) for v in values], wanted, "what was reported")
    same(errors.types(), [ValueError] if kind == 'strange' else [],
         "errors logged")
    note.nontrivial(kind == 'ok')


TOOL = """
import sys
sys.path.insert(0, %r)
from epsilon.scripts import benchmark
benchmark.main()
"""

BENCHMARK = """
import os, sys
sys.path.insert(0, %r)
from epsilon.scripts import benchmark

def write(name, size):
    with open(name, 'wb') as f:
        f.write(b'x' * int(size))
write('before', sys.argv[1])
benchmark.start()
write('during', sys.argv[2])
benchmark.stop()
write('after', sys.argv[3])
how = sys.argv[4]
if [os.environ.get(name) for name in (
        'VERIF_MARK', 'PYTHONVERIFMARK', 'HOME', 'LD_VERIF', 'verif_empty',
        'PYTHONHASHSEED')] != [sys.argv[1]] * 4 + ['', None]:
    sys.stderr.write('environment')
if len(sys.argv) != 5 or os.path.dirname(os.getcwd()) != os.path.dirname(
        os.path.realpath(sys.argv[0])):
    sys.stderr.write('arguments')
if how == 'stderr':
    sys.stderr.write('oops')
elif how == 'stdout':
    sys.stdout.write('fine')
elif how == 'exit':
    sys.exit(3)
elif how == 'killed':
    os.kill(os.getpid(), 9)
"""


def checkTool(case, note):
    """
    The whole tool, with a real script.
    """
    runs = case
    home = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(benchmark.__file__))))
    environment = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    environment.pop('PYTHONHASHSEED', None)
    wanted = []
    with scratch.directory() as path:
        script = os.path.join(path, 'script.py')
        with open(script, 'w') as f:
            f.write(BENCHMARK % (home,))
        for sizes, how in runs:
            for name in ('VERIF_MARK', 'PYTHONVERIFMARK', 'HOME', 'LD_VERIF'):
                environment[name] = str(sizes[0] * 10000)
            environment['verif_empty'] = ''
            child = subprocess.run(
                [sys.executable, '-c', TOOL % (home,), script] +
                [str(s * 10000) for s in sizes] + [how],
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, env=environment, timeout=90)
            same(child.returncode, 0, "exit status (%s)" % (
                child.stderr[-300:],))
            if how not in ('exit', 'killed'):
                wanted.append((script + '-overall', sum(sizes),
                               how == 'stderr', False))
                wanted.append((script + '-benchmark', sizes[1],
                               how == 'stderr', False))
            same(set(os.listdir(path)), set(['script.py']) | set(
                ['output'] if wanted else []), "files left behind")
            got = []
            if wanted:
                with open('output', 'rb') as f:
                    got = [juice.stringsToObjects(
                        b, benchmark.Results.arguments, None)
                        for b in juice.parseString(f.read())]
            # Directories may grow a little as well.
            same([(v['name'], v['filesystem_growth'] // 10000, v['error'],
                   v['timeout']) for v in got], wanted, "what was reported")
            for v in got:
                require(v['filesystem_growth'] % 10000 < 6000, "growth %r",
                        v['filesystem_growth'])
            for overall, inner in zip(got[::2], got[1::2]):
                require(0 <= inner['elapsed'] <= overall['elapsed'] < 90,
                        "elapsed %r of %r", inner['elapsed'],
                        overall['elapsed'])
        note.nontrivial(bool(wanted))


def finish(d, kind, proto, status, output):
    if kind == 'ok':
        d.callback((proto, status, output))
    elif kind == 'timeout':
        d.errback(error.TimeoutError())
    elif kind == 'died':
        d.errback(benchmark.ProcessDied(1, None, 1, output))
    else:
        d.errback(ValueError('strange'))


def events():
    return st.lists(st.one_of(
        st.tuples(st.just('data'), st.sampled_from([1, 2]),
                  st.binary(max_size=5)),
        st.tuples(st.just('lost'), st.integers(0, 4)),
        st.tuples(st.just('channel'),
                  st.one_of(st.sampled_from([b'\0', b'\1', b'\0\1', b'\1\0',
                                             b'\0\0\1']),
                            st.sampled_from([b'\0', b'\1']),
                            st.binary(max_size=4))),
        st.tuples(st.just('advance'),
                  st.sampled_from([1, 10, 100, 449, 450, 899, 900, 901, 599,
                                   600])),
        st.tuples(st.just('file'), st.sampled_from(['a', 'b', 'c']),
                  st.integers(0, 3000)),
        st.just(('exited',)),
    ), max_size=14).map(tuple)


def signs():
    # Signs of life of each kind, with silences of which two are too long.
    return st.lists(st.one_of(
        st.tuples(st.just('data'), st.sampled_from([1, 2]),
                  st.binary(min_size=1, max_size=2)),
        st.tuples(st.just('lost'), st.integers(0, 4)),
        st.tuples(st.just('channel'),
                  st.sampled_from([b'\0', b'\1', b'\0\1', b'\0', b'\1', b'x'])),
    ).flatmap(lambda sign: st.sampled_from([450, 599, 600, 800, 899]).map(
        lambda seconds: (('advance', seconds), sign))),
        min_size=1, max_size=6).map(lambda pairs: sum(pairs, ()) + (
            ('advance', 600),))


def cases(events=events):
    word = st.text('abc-/ =', min_size=1, max_size=5)
    return st.tuples(
        st.sampled_from(['BasicProcess', 'BenchmarkProcess',
                         'BenchmarkProcess']),
        word, st.lists(word, max_size=3).map(tuple),
        st.lists(st.tuples(word, word), max_size=2).map(tuple),
        events(),
        st.one_of(st.just(('done',)), st.just(('done',)),
                  st.tuples(st.just('terminated'),
                            st.one_of(st.none(), st.integers(1, 255)),
                            st.one_of(st.none(), st.integers(1, 15)),
                            st.integers(0, 65535)),
                  st.just(('lost',))),
        st.booleans())


def change():
    point = st.tuples(st.integers(0, 10 ** 6).map(lambda n: n / 8),
                      st.integers(0, 10 ** 9))
    return st.tuples(point, point)


SUBS = [
    Sub('process', cases, checkProcess, 1200, 12000,
        rule="four or more events",
        examples=[
            (kind, 'x', ('y',) * 40, tuple(('V%d' % (n,), str(n))
                                           for n in range(300)),
             tuple(('data', 1 + n % 2, b'%d' % (n,)) for n in range(3000)) + (
                 ('data', 1, b'x' * 200000), ('channel', b'\0\1' * 50)),
             ('done',), False)
            for kind in ('BasicProcess', 'BenchmarkProcess')]),
    Sub('signs', lambda: cases(signs), checkProcess, 200, 2000,
        rule="four or more events"),
    Sub('disks', lambda: st.tuples(
        st.sampled_from(['sda', 'sdb', 'hda', 'vda', 'xvdf', 'md']),
        st.sampled_from(['', '1', '2', '10', '09', '123']), st.booleans(),
        st.lists(st.sampled_from(['sda', 'sdb', 'hda', 'sda1', 'sda10', 'sd',
                                  'md1', 'loop0', 'vda1']),
                 max_size=5).map(tuple),
        st.lists(st.sampled_from([b'\0', b'\1']), max_size=4).map(tuple)),
        checkDisks, 200, 2000, rule="a partition, and measurements"),
    Sub('script', lambda: st.tuples(
        st.lists(st.sampled_from(['start', 'stop']), min_size=1,
                 max_size=5).map(tuple),
        st.one_of(st.lists(st.sampled_from([b'\0', b'\1']), max_size=5).map(
            b''.join), st.binary(max_size=5))),
        checkScript, 120, 1000, rule="several calls",
        examples=[(('start', 'stop'), b'\0\1'),
                  (('start', 'stop', 'start', 'stop'), b'\0\1\0\1')]),
    Sub('bench', lambda: st.tuples(
        st.text('abc.', min_size=1, max_size=5), change(), change(),
        st.sampled_from(['ok', 'ok', 'ok', 'timeout', 'died', 'strange']),
        st.sampled_from([0, 0, 0, 1, 256]),
        st.tuples(st.booleans(), st.lists(st.one_of(
            st.tuples(st.just(1), st.binary(max_size=3)),
            st.tuples(st.just(1), st.binary(max_size=3)),
            st.tuples(st.sampled_from([1, 2]), st.binary(min_size=1,
                                                         max_size=3))),
            max_size=3)).map(lambda p: tuple(p[1]) + (((1, None), (2, None))
                                                      if p[0] else
                                                      ((2, None), (1, None)))),
        st.booleans()),
        checkBench, 400, 4000, rule="there is something to report"),
    Sub('tool', lambda: st.lists(st.tuples(
        st.tuples(*[st.integers(0, 50)] * 3),
        st.sampled_from(['ok', 'ok', 'stderr', 'stdout', 'exit', 'killed'])),
        min_size=1, max_size=2).map(tuple), checkTool, 5, 60,
        rule="there is something to report",
        examples=[(((1, 2, 3), 'ok'), ((3, 0, 1), 'stderr')),
                  (((1, 2, 3), 'exit'), ((3, 7, 1), 'stdout'))]),
]
