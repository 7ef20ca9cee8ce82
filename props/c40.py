"""
Child processes find the packages they were promised.
"""
import importlib
import os
import subprocess
import sys

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, Violation, require, same
from epsilon import process

RULE = ("Generated directories with packages and modules in them, any of "
        "which may be asked for, and generated environments; the reactor "
        "records what it is asked to spawn.")


class Reactor(object):
    def __init__(self):
        self.calls = []

    def spawnProcess(self, processProtocol, executable, args=(), env={},
                     path=None, uid=None, gid=None, usePTY=0, childFDs=None):
        self.calls.append(dict(
            processProtocol=processProtocol, executable=executable, args=args,
            env=env, path=path, uid=uid, gid=gid, usePTY=usePTY,
            childFDs=childFDs))
        return self.calls[-1]


# sys.prefix is prefix while they are looked for; what's in its lib directory is
# installed with Python.
DIRECTORIES = ['dir0', 'dir1', 'dir2', 'dir3', 'dir4', 'dir5', 'prefix',
               'prefix/src', 'prefix/lib/python3/site-packages',
               'prefix/lib/python3', 'elsewhere/lib']


def check(case, note):
    python, layout, wanted, given, rest = case
    given = dict(given)
    rest = dict(rest)
    reactor = Reactor()
    old = process.reactor
    syspath = list(sys.path)
    prefix = sys.prefix
    process.reactor = reactor
    protocol = object()
    asked = []
    try:
        with scratch.directory(chdir=False) as root:
            importlib.invalidate_caches()
            env = dict((k, v.replace('ROOT', root))
                       for k, v in given.items())
            original = dict(env)
            expected = []
            names = []
            for n, (directory, kind) in enumerate(layout):
                where = os.path.join(root, DIRECTORIES[directory] if
                                     directory < len(DIRECTORIES) else
                                     'many%d' % (directory,))
                os.makedirs(where, exist_ok=True)
                name = 'verif_%s%d' % (os.path.basename(root)[-8:].replace(
                    '-', '_'), n)
                at = where
                for outer in range(int(kind[7:] or 0)):
                    # inside of packages
                    at = os.path.join(at, name)
                    os.mkdir(at)
                    with open(os.path.join(at, '__init__.py'), 'w'):
                        pass
                if kind.startswith('package'):
                    os.mkdir(os.path.join(at, name))
                    target = os.path.join(at, name, '__init__.py')
                else:
                    target = os.path.join(at, name + '.py')
                with open(target, 'w'):
                    pass
                names.append((os.path.relpath(os.path.join(at, name),
                                              where).replace('/', '.'), where))
                if where not in sys.path:
                    sys.path.append(where)
            for index in wanted:
                if index == 'site':
                    # Installed along with Python: it's there anyway.
                    asked.append('twisted')
                elif names:
                    name, where = names[index % len(names)]
                    asked.append(name)
                    if 'site' not in wanted and 'prefix/lib/' in where:
                        note('installed with Python')
                    else:
                        expected.append(where)
            kw = dict(rest)
            if 'site' not in wanted:
                sys.prefix = os.path.join(root, 'prefix')
            if python:
                result = process.spawnPythonProcess(
                    protocol, env=env, packages=iter(asked), **kw)
                executable = sys.executable
            else:
                executable = 'program'
                result = process.spawnProcess(
                    protocol, executable, env=env, packages=tuple(asked), **kw)
    finally:
        process.reactor = old
        sys.prefix = prefix
        sys.path[:] = syspath
    same(len(reactor.calls), 1, "processes spawned")
    [call] = reactor.calls
    require(result is call, "result %r", result)
    same(env, original, "the environment which was passed in")
    require(call['processProtocol'] is protocol, "protocol %r",
            call['processProtocol'])
    same(call['executable'], executable, "executable")
    for name, default in [('args', ()), ('path', None), ('uid', None),
                          ('gid', None), ('usePTY', 0)]:
        same(call[name], rest.get(name, default), name)
    got = dict(call['env'])
    # An empty entry is the working directory; but an empty path has no entries.
    paths, given = [
        p.split(os.pathsep) if p else []
        for p in (got.pop('PYTHONPATH', ''), original.pop('PYTHONPATH', ''))]
    same(got, original, "the rest of the environment")
    count = len(set(expected))
    same(sorted(paths[:count]), sorted(set(expected)),
         "directories at the front of the path")
    # What the caller put there comes after that, in order.
    same(paths[count:], given, "what was on the path already")
    if set(given) & set(expected):
        note('on the path already')
    note.nontrivial(len(set(expected)) > 1)


def checkDefaults(case, note):
    """
    One call leaves nothing behind for the next.
    """
    reactor = Reactor()
    old = process.reactor
    process.reactor = reactor
    try:
        for packages, env in case:
            kw = {}
            if env is not None:
                kw['env'] = dict(env)
            process.spawnPythonProcess(object(), packages=packages, **kw)
    finally:
        process.reactor = old
    same(len(reactor.calls), len(case), "processes spawned")
    for (packages, env), call in zip(case, reactor.calls):
        got = dict(call['env'])
        paths = got.pop('PYTHONPATH', '').split(os.pathsep)
        same(got, dict(env or ()), "environment")
        home = os.path.realpath(os.path.dirname(os.path.dirname(
            process.__file__)))
        same(home in [os.path.realpath(p) for p in paths if p],
             'epsilon' in packages, "epsilon is on the path")
    note.nontrivial(len(case) > 1)


SCRIPT = '''
import sys
sys.path[:0] = %r
from zope.interface import implementer
from twisted.internet import reactor
from twisted.internet.interfaces import IHalfCloseableProtocol
from twisted.internet.protocol import Protocol
from twisted.application.service import MultiService
from epsilon.process import StandardIOService

@implementer(IHalfCloseableProtocol)
class Echo(Protocol):
    made = 0
    def connectionMade(self):
        self.made += 1
        if self.made > 1:
            self.transport.write(b'again')
    def dataReceived(self, data):
        if not service.running:
            self.transport.write(b'not running')
        self.transport.write(data)
    def readConnectionLost(self):
        self.transport.loseConnection()
    def writeConnectionLost(self):
        pass
    def connectionLost(self, reason):
        reactor.callLater(0, reactor.stop)

service = StandardIOService(Echo())
how = sys.argv[1]
if how == 'direct':
    reactor.callWhenRunning(service.startService)
else:
    parent = MultiService()
    if how == 'before':
        service.setServiceParent(parent)
        reactor.callWhenRunning(parent.startService)
    else:
        parent.startService()
        reactor.callWhenRunning(service.setServiceParent, parent)
reactor.callLater(60, reactor.stop)
reactor.run()
'''


def checkStandardIO(case, note):
    """
    The service's protocol talks to whoever started the process.
    """
    how, data = case
    home = os.path.dirname(os.path.dirname(process.__file__))
    environment = dict((k, v) for k, v in os.environ.items()
                       if k != 'PYTHONPATH')
    child = subprocess.run(
        [sys.executable, '-B', '-c', SCRIPT % ([home],), how],
        input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=environment, timeout=90)
    same((child.stdout, child.returncode), (data, 0),
         "what came back (%s)" % (child.stderr[-300:],))
    note.nontrivial(bool(data))


SUBS = [
    Sub('spawn', lambda: st.tuples(
        st.booleans(),
        st.lists(st.tuples(st.integers(0, len(DIRECTORIES) - 1),
                           st.sampled_from(['package', 'module_', 'package',
                                            'module_', 'package1', 'module_1',
                                            'package2', 'module_3'])),
                 max_size=8).map(tuple),
        st.lists(st.one_of(st.integers(0, 9), st.integers(0, 9),
                           st.just('site')), max_size=9).map(tuple),
        st.lists(st.one_of(
            st.tuples(st.sampled_from(['HOME', 'X', 'PYTHONHOME']),
                      st.text('ab/', max_size=4)),
            st.tuples(st.just('PYTHONPATH'),
                      st.sampled_from([
                          '', '/a', '/b:/a', '/a:/b', '/b', 'ROOT/dir0',
                          '/a:ROOT/dir0', 'ROOT/dir1:/b:ROOT/dir0', '/a:/a',
                          'ROOT/dir0/..', 'ROOT/dir', 'relative:/a', '/a:',
                          ':/b', ':', '/a::/b'])),
            st.tuples(st.just('PYTHONPATH'), st.lists(
                st.sampled_from(['/a', 'ROOT/dir0', 'ROOT/dir1', 'ROOT/dir2',
                                 'ROOT/prefix', 'ROOT/prefix/src']),
                min_size=2, max_size=4).map(':'.join))),
            max_size=4, unique_by=lambda p: p[0]).map(tuple),
        st.lists(st.one_of(
            st.tuples(st.just('args'), st.sampled_from([('a',), ('b', 'c')])),
            st.tuples(st.just('path'), st.sampled_from(['/', '.'])),
            st.tuples(st.just('uid'), st.integers(0, 9)),
            st.tuples(st.just('gid'), st.integers(0, 9)),
            st.tuples(st.just('usePTY'), st.integers(0, 1))),
            unique_by=lambda p: p[0], max_size=5).map(tuple)),
        check, 400, 4000, rule="packages from several directories",
        examples=[(False, ((0, 'package'), (1, 'module_')), (0, 1),
                   (('PYTHONPATH', '/a:ROOT/dir1:/b:ROOT/dir0'),), ()),
                  (True, tuple((n, 'package') for n in range(11)),
                   tuple(range(11)), (('PYTHONPATH', '/a'),), ()),
                  (False, tuple((n % 150, 'module_%d' % (n % 4,)) for n in range(200)),
                   tuple(range(200)), (('PYTHONPATH', '/b:/a'),), ())]),
    Sub('calls', lambda: st.lists(st.tuples(
        st.sampled_from([(), ('epsilon',), ('twisted',), ('epsilon', 'twisted')]),
        st.sampled_from([None, (), (('A', 'b'),)])), max_size=4).map(tuple),
        checkDefaults, 100, 1000, rule="several calls"),
    Sub('stdio', lambda: st.tuples(
        st.sampled_from(['direct', 'before', 'after']),
        st.binary(max_size=40)), checkStandardIO, 12, 100,
        rule="something was said"),
]
