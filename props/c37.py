"""
Requiring hotfixes is harmless and idempotent.
"""
import importlib.util
import os
import sys

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, Violation, require, same
from epsilon import hotfix
from twisted.internet import base, defer, task
from twisted.plugin import pluginPackagePaths
from twisted.protocols import loopback, policies
from twisted.python import filepath
from twisted.test import proto_helpers
from twisted.trial import unittest

RULE = ("Sequences of requests for known and unknown hotfixes in any order "
        "and with repetitions, each in a fresh copy of the module; what the "
        "hotfixes are about is tried before and after.")

KNOWN = ['filepath_copyTo', 'timeoutmixin_calllater', 'delayedcall_seconds',
         'deferredgenerator_tfailure', 'proto_helpers_stringtransport',
         'internet_task_Clock', 'trial_assertwarns', 'plugin_package_paths',
         'loopbackasync_reentrancy']
UNKNOWN = [('twisted', 'nonsense'), ('axiom', 'filepath_copyTo'),
           ('twisted', 'FILEPATH_COPYTO'), ('', ''), ('twisted', ''),
           ('Twisted', 'trial_assertwarns'), ('twisted', 'internet_task_clock')]
CLASSES = [filepath.FilePath, policies.TimeoutMixin, base.DelayedCall,
           task.Clock, proto_helpers.StringTransport, unittest.TestCase,
           loopback, defer]


def fresh():
    spec = importlib.util.spec_from_file_location(
        'fresh_hotfix', hotfix.__file__)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def inventory():
    result = {}
    for c in CLASSES:
        for name, value in vars(c).items():
            if not name.startswith('__'):
                result[c.__name__, name] = value
    return result


def features():
    """
    What the hotfixes promise works.
    """
    require(filepath.FilePath('a') == filepath.FilePath('a'),
            "equal paths are not equal")
    clock = task.Clock()
    a = clock.callLater(10, lambda: None)
    b = clock.callLater(1, lambda: None)
    same((a.getTime(), b.getTime()), (10, 1), "times of delayed calls")
    fired = []

    class Impatient(policies.TimeoutMixin):
        callLater = clock.callLater

        def timeoutConnection(self):
            fired.append(clock.seconds())
    Impatient().setTimeout(3)
    clock.advance(2)
    same(fired, [], "timeouts too early")
    clock.advance(1)
    same(fired, [3], "timeouts")
    same(base.DelayedCall(5, None, (), {}, None, None, lambda: 2).getTime(), 5,
         "time of a delayed call")
    t = proto_helpers.StringTransport()
    t.write(b'x')
    same(t.value(), b'x', "what was written")
    try:
        t.write(u'x')
    except TypeError:
        pass
    else:
        raise Violation("text was written to a StringTransport")
    require(isinstance(pluginPackagePaths('twisted.plugins'), list),
            "pluginPackagePaths")
    require(callable(unittest.TestCase.assertWarns), "assertWarns")
    got = []
    d = defer.succeed(1)
    d.addCallback(got.append)
    same(got, [1], "results of a Deferred")


def check(case, note):
    module = fresh()
    before = inventory()
    for package, name in case:
        known = package == 'twisted' and name in KNOWN
        try:
            result = module.require(package, name)
        except module.NoSuchHotfix:
            require(not known, "%r: no such hotfix", name)
            note('unknown')
        else:
            require(known, "%r of %r was accepted", name, package)
            same(result, None, "result")
        features()
    after = inventory()
    # Nothing in this version of Twisted is in need of any fix.
    changed = sorted(k for k in set(before) | set(after)
                     if before.get(k) is not after.get(k))
    same(changed, [], "parts of Twisted which were replaced")
    note.nontrivial(len(set(case)) > 2)


def checkOld(case, note):
    """
    A Twisted which lacks what plugin_package_paths adds gets it, once.
    """
    repeats, name, directories = case
    module = fresh()
    import twisted.plugin
    real = twisted.plugin.pluginPackagePaths
    path = list(sys.path)
    try:
        del twisted.plugin.pluginPackagePaths
        with scratch.directory() as where:
            for n, (kind, known) in enumerate(directories):
                entry = os.path.join(where, str(n))
                package = os.path.join(entry, *name.split('.'))
                if kind != 'missing':
                    os.makedirs(package)
                if kind == 'package':
                    with open(os.path.join(package, '__init__.py'), 'w'):
                        pass
                if known:
                    sys.path.append(entry)
            seen = []
            for _ in range(repeats):
                module.require('twisted', 'plugin_package_paths')
                seen.append(twisted.plugin.pluginPackagePaths)
            require(all(s is seen[0] for s in seen), "it was installed again")
            same(sorted(seen[0](name)), sorted(real(name)),
                 "plugin directories")
    finally:
        twisted.plugin.pluginPackagePaths = real
        sys.path[:] = path
    note.nontrivial(len(directories) > 1)


SUBS = [
    Sub('sequence', lambda: st.lists(st.one_of(
        st.tuples(st.just('twisted'), st.sampled_from(KNOWN)),
        st.tuples(st.just('twisted'), st.sampled_from(KNOWN)),
        st.sampled_from(UNKNOWN),
        st.tuples(st.text(max_size=4), st.text(max_size=4)).filter(
            lambda p: p[0] != 'twisted')),
        min_size=1, max_size=12).map(tuple), check, 400, 4000,
        rule="three or more distinct hotfixes",
        examples=[tuple(('twisted', n) for n in KNOWN)]),
    Sub('old', lambda: st.tuples(
        st.integers(1, 3),
        st.sampled_from(['twisted.plugins', 'axiom.plugins', 'one', 'a.b.c']),
        st.lists(st.tuples(st.sampled_from(['package', 'plain', 'missing']),
                           st.booleans()), max_size=4).map(tuple)),
        checkOld, 150, 1500, rule="several directories"),
]
