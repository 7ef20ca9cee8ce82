"""
asplode writes the files its template describes.
"""
import contextlib
import datetime
import io
import locale
import os
import sys

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, require, same
from epsilon import asplode

RULE = ("Templates of several files in nested directories, with placeholders "
        "in names and contents, and files which come up twice.")


REAL = datetime.date


@contextlib.contextmanager
def onDay(day):
    """
    It's another day, as far as L{asplode} asks the date class for it.
    """
    if day is None:
        yield
        return

    class Date(REAL):
        @classmethod
        def today(cls):
            return cls(day.year, day.month, day.day)
    replaced = [(module, name) for module in (datetime, asplode)
                for name in ('date',) if getattr(module, name, None) is REAL]
    for module, name in replaced:
        setattr(module, name, Date)
    try:
        yield
    finally:
        for module, name in replaced:
            setattr(module, name, REAL)


def check(case, note):
    files, project, capitalized, asLines, unfinished, pretended = case
    if asLines == 'stdin':
        project, capitalized = 'zoop', 'Zoop'
    lines = []
    for name, comment, contents in files:
        lines.append('%s###file:%s%s%s\n' % (
            '# ' if comment else '', ' ' if comment else '', name,
            '  ' if comment else ''))
        lines.extend(line + '\n' for line in contents)
    last = ''
    if unfinished and files[-1][2] and files[-1][2][-1]:
        # The last line doesn't end.
        lines[-1] = lines[-1][:-1]
        last = os.path.normpath(files[-1][0])

    def expected(day):
        wanted = {}
        for name, comment, contents in files:
            def fill(text):
                return text.replace('_project_', project).replace(
                    '_Project_', capitalized).replace('_date_', day.isoformat())
            wanted[os.path.normpath(fill(name))] = ''.join(
                fill(line) + '\n' for line in contents)
        if last:
            wanted[os.path.normpath(fill(last))] = \
                wanted[os.path.normpath(fill(last))][:-1]
        return wanted

    def run():
        before = REAL.today()
        with scratch.directory() as path, scratch.quiet(), \
                onDay(pretended):
            if asLines == 'stdin':
                old = sys.stdin
                sys.stdin = io.StringIO(''.join(lines), newline='')
                try:
                    asplode.main(['asplode'])
                finally:
                    sys.stdin = old
            else:
                given = list(lines)
                asplode.splode(iter(lines) if asLines else given,
                               project, capitalized)
                same(given, lines, "the lines which were given")
            got = {}
            for where, directories, names in os.walk(path):
                for n in names:
                    full = os.path.join(where, n)
                    with open(full, newline='') as f:
                        got[os.path.relpath(full, path)] = f.read()
        return before, got, before == REAL.today()
    today, got, conclusive = run()
    if not conclusive:
        # Midnight came in between.
        today, got, conclusive = run()
    wanted = expected(today)
    if pretended is not None and got != wanted:
        # What tells it the date may be something else than what was replaced.
        wanted = expected(pretended)
    same(got, wanted, "files")
    if any('/' in n for n in wanted):
        note('directories')
    if len(set(n for n, c, t in files)) < len(files):
        note('the same file twice')
    note.nontrivial(len(wanted) > 1)


def names():
    part = st.sampled_from(['a', 'b.py', '_project_', '_Project_', 'x_project_',
                            '__init__.py', '_project_.txt', 'a b', 'x#y',
                            'two  words.txt', '.hidden', 'a"b', "it's",
                            'a:b', '_date_.log', 'UPPER', '%s', 'a,b'])
    directory = st.sampled_from(['d_', 'test_', '_project_d_', 'd_e'])
    # Directories and files never have the same name.
    return st.tuples(st.lists(directory, max_size=3), part).map(
        lambda p: '/'.join([d + '.d' for d in p[0]] + [p[1]]))


# The files are in the encoding of the locale.
FOREIGN = ['\xe9', '\u2028', '\u6f22 ', '\U0001f600'] if (
    locale.getpreferredencoding(False).lower().replace('-', '') == 'utf8') else []


def lines():
    word = st.sampled_from(['_project_', '_Project_', '_date_', ' ', 'text',
                            '_', '#', 'PROJECT', '###', 'file:', '_PROJECT_',
                            '  ', '\t', '%s', '%(a)s', '{}', '\\n', '\r',
                            '\x0c', '###file', '"""', '_Date_', 'project',
                            '_project_' * 4, '_Project__project_',
                            '_date_ ' * 3, 'x' * 300] + FOREIGN)
    return st.lists(word, max_size=6).map(''.join).filter(
        lambda s: '###file:' not in s)


SUBS = [
    Sub('template', lambda: st.tuples(
        st.lists(st.tuples(names(), st.booleans(),
                           st.lists(lines(), max_size=4).map(tuple)),
                 min_size=1, max_size=5).map(tuple),
        st.sampled_from(['zoop', 'my', 'p', 'my project', '\\1', 'a-b']),
        st.sampled_from(['Zoop', 'My', 'P', 'My Project', '%s']),
        st.sampled_from([False, True, 'stdin']), st.booleans(),
        st.one_of(st.none(), st.dates(
            datetime.date(2000, 1, 1), datetime.date(2099, 12, 31)))),
        check, 500, 5000, rule="two or more files",
        examples=[(tuple(('d%d/f%d' % (n % 70, n), False,
                          ('_project_ %d ' % (n,) * 10,) * (n % 40))
                         for n in range(300)), 'zoop', 'Zoop', True, False, None)]),
]
