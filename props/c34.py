"""
autosetup packages everything there is.
"""
import importlib
import itertools
import os
import pickle
import sys

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, Violation, require, same
from epsilon import setuphelper

RULE = ("Generated trees of directories, some of them packages, some plugin "
        "directories, some hidden, with source, compiled and data files.")

FILES = ['__init__.py', '__init__.py', 'mod.py', 'mod.pyc', 'mod.pyo',
         'dropin.cache', 'data.txt', 'page.html', 'noext', '.hidden',
         'x.tar.gz', 'README.pyx', 'setup.cfg', 'MOD.PY', 'olddropin.cache',
         '.py', 'a.pyc.txt', 'dropin.cache.new', 'x~', 'm.pyw', 'x.so',
         '__init__.pyc', 'a b.txt', '\xe9.txt']
DIRS = ['pkg', 'other', 'plugins', 'test', 'static', '.git', '.hid', 'pkgs',
        'CVS', '__pycache__', '_darcs', 'build', 'plugins2', 'pkg']


class Distribution(object):
    def __init__(self):
        self.commands = []


def build(where, tree):
    """
    Create the tree; returns it as nested (files, directories) dicts.
    """
    files, directories = tree
    for name in files:
        with open(os.path.join(where, name), 'w'):
            pass
    children = {}
    for name, child in directories:
        if name in children:
            continue
        path = os.path.join(where, name)
        os.mkdir(path)
        children[name] = build(path, child)
    return (set(files), children)


def packages(tree, prefix):
    """
    The dotted names of the packages in a tree, with their contents.
    """
    files, children = tree
    visible = dict((n, c) for n, c in children.items()
                   if not n.startswith('.'))
    result = []
    if prefix and ('__init__.py' in files or 'plugins' in visible):
        result.append(('.'.join(prefix), tree))
    for name, child in visible.items():
        result.extend(packages(child, prefix + (name,)))
    return result


def data(tree, prefix):
    files, children = tree
    result = []
    for name in files:
        if name == 'dropin.cache':
            continue
        source = os.path.splitext(name)[1] in ('.py', '.pyc', '.pyo')
        if not source or '__init__.py' not in files:
            result.append('/'.join(prefix + (name,)))
    for name, child in children.items():
        if not name.startswith('.'):
            result.extend(data(child, prefix + (name,)))
    return result


def check(case, note):
    tree, keywords = case
    calls = []

    def setup(**kw):
        calls.append(kw)
        distributions.append(Distribution())
        return distributions[-1]
    distributions = []
    old = setuphelper.setup
    setuphelper.setup = setup
    try:
        with scratch.directory() as path, scratch.quiet():
            built = build(path, tree)
            # The project's directory itself is neither.
            result = setuphelper.autosetup(**dict(keywords))
    finally:
        setuphelper.setup = old
    same(len(calls), 1, "calls of setup()")
    require(result is distributions[0], "result %r", result)
    got = dict(calls[0])
    found = packages(built, ())
    same(sorted(got.pop('packages')), sorted(n for n, t in found), "packages")
    files = got.pop('package_data')
    wanted = dict((n, sorted(data(t, ()))) for n, t in found if '.' not in n)
    same(dict((n, sorted(f)) for n, f in files.items()), wanted,
         "files in the packages")
    same(got, dict(keywords), "other arguments of setup()")
    if any('.' in n for n, t in found):
        note('nested packages')
    note.nontrivial(len(found) > 1 and any(wanted.values()))


def checkRefused(case, note):
    name, = case
    calls = []
    old = setuphelper.setup
    setuphelper.setup = lambda **kw: calls.append(kw)
    try:
        with scratch.directory() as path, scratch.quiet():
            try:
                setuphelper.autosetup(**{name: []})
            except AssertionError:
                pass
            else:
                raise Violation("%s was replaced silently" % (name,))
    finally:
        setuphelper.setup = old
    same(calls, [], "calls of setup()")
    note.nontrivial()


counter = itertools.count()

PLUGIN = """
from zope.interface import provider
from twisted.plugin import IPlugin

@provider(IPlugin)
class %s(object):
    pass
"""


class Command(object):
    def __init__(self, where):
        self.install_lib = where


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def checkPlugins(case, note):
    """
    After an installation the caches of all the plugins are up to date.
    """
    specs, commands, relative = case
    installs = 'install' in commands
    prefix = 'vp%d_' % (next(counter),)
    path = list(sys.path)
    modules = set(sys.modules)
    old = setuphelper.setup
    with scratch.directory() as where, scratch.quiet():
        expected = {}
        installed = os.path.join(where, '.installed')
        os.mkdir(installed)
        for n, (kind, plugins) in enumerate(specs):
            name = prefix + str(n)
            write(os.path.join(where, name, 'plugins', 'p.py'), '')
            if kind == 'package':
                # Not a directory just for plugins.
                write(os.path.join(where, name, '__init__.py'), '')
            if kind == 'missing':
                continue
            # Another project brought the package itself.
            write(os.path.join(installed, name, '__init__.py'), '')
            there = os.path.join(installed, name, 'plugins')
            for p in plugins:
                write(os.path.join(there, p + '.py'), PLUGIN % (p.title(),))
            if kind == 'broken':
                write(os.path.join(there, 'aa_broken.py'), '1 / 0')
            os.makedirs(there, exist_ok=True)
            if kind in ('raises', 'lacks', 'value', 'exits', 'syntax'):
                write(os.path.join(there, '__init__.py'), {
                    'raises': 'raise RuntimeError("broken")',
                    'lacks': 'import there_is_no_such_module',
                    'value': 'raise ValueError()',
                    'exits': 'raise SystemExit(3)',
                    'syntax': 'not python ('}[kind])
            else:
                write(os.path.join(there, '__init__.py'), '')
            expected[name] = (there, kind not in (
                'package', 'raises', 'lacks', 'value', 'exits', 'syntax'),
                plugins)

        def setup(**kw):
            dist = Distribution()
            dist.commands = list(commands)
            dist.command_obj = dict((c, Command(
                '.installed' if relative else installed)) for c in commands)
            return dist
        setuphelper.setup = setup
        importlib.invalidate_caches()
        try:
            setuphelper.autosetup(name='x')
            if not installs:
                same(sys.path, path, "sys.path")
        finally:
            setuphelper.setup = old
            sys.path[:] = path
            for name in set(sys.modules) - modules:
                if name.startswith(prefix):
                    del sys.modules[name]
        for name, (there, cached, plugins) in expected.items():
            cache = os.path.join(there, 'dropin.cache')
            require(os.path.exists(cache) == (installs and cached),
                    "the cache of %s, which is %s, %s", name,
                    specs[int(name[len(prefix):])][0],
                    'was written' if os.path.exists(cache) else
                    'was not written')
            if installs and cached:
                with open(cache, 'rb') as f:
                    dropins = pickle.load(f)
                same(sorted(dropins), sorted(plugins), "modules of %s" % name)
                same(sorted(p.name for d in dropins.values()
                            for p in d.plugins),
                     sorted(p.title() for p in plugins), "plugins of %s" % name)
                note('cached')
    note.nontrivial(installs and len(expected) > 1)


def trees():
    files = st.lists(st.sampled_from(FILES), unique=True,
                     max_size=6).map(tuple)
    leaf = st.tuples(files, st.just(()))
    return st.recursive(leaf, lambda inner: st.tuples(
        files, st.lists(st.tuples(st.sampled_from(DIRS), inner),
                        max_size=4).map(tuple)), max_leaves=12)


def deep(levels):
    """
    A tree with one directory in another.
    """
    tree = (('mod.py', 'data.txt'), ())
    for n in range(levels):
        tree = (('__init__.py', 'page.html')[n % 3 == 0:], (('d%d' % (n,), tree),))
    return tree


def root():
    # The top has no name, and isn't a package, whatever is in it.
    return st.tuples(
        st.lists(st.sampled_from(['setup.py', 'README.txt', 'setup.py',
                                  '__init__.py']), unique=True, max_size=2).map(tuple),
        st.lists(st.tuples(st.sampled_from(DIRS), trees()), min_size=1,
                 max_size=4).map(tuple))


SUBS = [
    Sub('tree', lambda: st.tuples(root(), st.lists(st.tuples(
        st.sampled_from(['name', 'version', 'scripts', 'cmdclass']),
        st.text('abc', max_size=3)), max_size=3, unique_by=lambda k: k[0]).map(
            tuple)), check, 600, 6000,
        rule="several packages, and files in them",
        examples=[(((), (('pkg', deep(12)), ('other', deep(30)))), ()),
                  (((), tuple(('p%d' % (n,), (
                      ('__init__.py',) + tuple('f%d' % (m,) for m in range(n)),
                      (('plugins', ((), ())),) if n % 3 else ()))
                      for n in range(80))), ())]),
    Sub('refused', lambda: st.tuples(
        st.sampled_from(['packages', 'package_data'])), checkRefused, 2, 2),
    Sub('plugins', lambda: st.tuples(
        st.lists(st.tuples(
            st.sampled_from(['plain'] * 5 + [
                'missing', 'package', 'broken', 'raises', 'lacks', 'value',
                'exits', 'syntax']),
            st.lists(st.sampled_from(['one', 'two', 'three']), unique=True,
                     min_size=1, max_size=3).map(tuple)),
            min_size=1, max_size=5).map(tuple),
        st.sampled_from([('install',), ('install',), ('build', 'install'),
                         ('build',), (), ('install_lib',), ('sdist',)]),
        st.booleans()),
        checkPlugins, 150, 1000,
        rule="an installation with several plugin packages",
        # Which of them comes first is up to the directory.
        examples=[(tuple((kind if n % 2 else 'plain', ('one',))
                         for n in range(9)), ('install',), False)
                  for kind in ('missing', 'package', 'broken', 'raises',
                               'lacks', 'value', 'exits', 'syntax')]),
]
