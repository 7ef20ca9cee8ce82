"""
unrepr reads literals back, and runs no code.
"""
import builtins

from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.gen import stretched
from epsilon.unrepr import unrepr

RULE = ("Nested literals of every kind, formatted with repr or written "
        "otherwise; and expressions which mix literals with names, calls, "
        "operators and other code.")


def identical(a, b):
    """
    Equal, and of the same types throughout.
    """
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(identical, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            identical(x, y) and identical(a[x], b[y]) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    if isinstance(a, (float, complex)):
        return repr(a) == repr(b)
    return a == b


def checkLiteral(case, note):
    value, = case
    text = repr(value)
    got = unrepr(text)
    require(identical(got, value), "unrepr(%r) is %r", text, got)
    # What was read belongs to the reader.
    def change(value):
        if isinstance(value, list):
            for each in value:
                change(each)
            value.append('changed')
        elif isinstance(value, tuple):
            for each in value:
                change(each)
        elif isinstance(value, dict):
            for each in value.values():
                change(each)
            value['changed'] = 1
        elif isinstance(value, set):
            value.add('changed')
    change(got)
    got = unrepr(text)
    require(identical(got, value), "unrepr(%r) is %r after a change to the "
            "first result", text, got)
    note.nontrivial(isinstance(value, (list, tuple, dict, set)) and value)


class Trap(Exception):
    pass


def checkCode(case, note):
    template, literal = case
    text = template.replace('LITERAL', literal)
    ran = []

    def trap(*a, **kw):
        ran.append(text)
        raise Trap()

    class Meddler(object):
        def __getattr__(self, name):
            return trap()
        __call__ = __getitem__ = __add__ = __radd__ = __lt__ = __bool__ = trap
        __neg__ = __iter__ = __contains__ = __or__ = trap
    builtins.trap = Meddler()
    try:
        try:
            result = unrepr(text)
        except Trap:
            raise Violation("%r was run" % (text,))
        except (ValueError, SyntaxError, TypeError):
            pass
        else:
            raise Violation("unrepr(%r) is %r" % (text, result))
    finally:
        del builtins.trap
    same(ran, [], "code which was run")
    note.nontrivial()


TEMPLATES = [
    'trap', 'trap()', 'trap(LITERAL)', '[trap()]', '(LITERAL, trap(LITERAL))',
    '{LITERAL: trap()}', '{trap(): LITERAL}', 'trap.x', 'trap[LITERAL]',
    '[x for x in trap]', '{trap.y, LITERAL}', 'LITERAL + trap',
    'trap if LITERAL else LITERAL', 'LITERAL if trap else LITERAL',
    'lambda: LITERAL', 'lambda: trap()', 'f"{trap()}"', "f'{trap}'",
    '__import__("os")', 'LITERAL and trap', 'not trap', '-trap', '(yield)',
    'x = LITERAL', 'import os', 'LITERAL; trap()', 'print(LITERAL)',
    '[LITERAL, *trap]', '{**trap}', 'LITERAL < trap', '(x := LITERAL)',
    '[LITERAL for _ in ()]', 'LITERAL.__class__', '(LITERAL)()', '', '(',
    '[LITERAL', "'unfinished", '1 LITERAL',
    'inf', 'nan', '-inf', 'Ellipsis', 'NotImplemented', 'frozenset()', 'dict()',
    'list()', 'tuple()', 'float("inf")', 'true', 'null', 'bytes()', 'int()',
    'datetime.date(2000, 1, 1)', 'frozenset([1])', 'set([1])', 'bytearray()',
    '__debug__', 'object()', '<object object at 0x1>', 'os', '__name__',
]


NAMES = ['trap', 'x', 'inf', 'nan', 'true', 'null', 'set', 'dict', 'list',
         'Ellipsis_', '__builtins__', '__class__', '_', 'datetime', 'Decimal',
         'float', 'int', 'str', 'bytes', 'frozenset', 'array', 'OrderedDict',
         'repr', 'eval', 'unrepr', 'NotImplemented', 'e', 'j', 'none', 'False_']


def code():
    """
    Expressions which aren't literals, at some depth inside of literals.
    """
    literal = st.one_of(
        st.sampled_from(['1', '-2', '0.5', 'None', 'True', '"inf"', "b'nan'",
                         '()', '[]', '{}', '1j', "'trap()'", '""', "u'x'"]),
        st.text('abinf()trap.,', max_size=8).map(repr))
    name = st.sampled_from(NAMES + ['trap'] * 10)
    args = st.lists(st.one_of(literal, name), max_size=2).map(', '.join)
    wrong = st.one_of(
        name,
        st.tuples(name, args).map('%s(%s)'.__mod__).filter(
            lambda s: s != 'set()'),
        st.tuples(name, name).map('%s.%s'.__mod__),
        st.tuples(literal, name).map('(%s).%s()'.__mod__),
        st.tuples(name, literal).map('%s[%s]'.__mod__),
        st.tuples(literal, st.sampled_from(
            ['*', '/', '//', '%', '**', '@', '<<', '>>', '&', '|', '^', ' or ',
             ' and ', '<', '==', ' is ', ' in ', ' not in ', '!=']),
            literal).map(''.join),
        st.tuples(literal, literal, name).map(
            '%s if %s else %s'.__mod__),
        st.tuples(name, name, name).map('[%s for %s in %s]'.__mod__),
        st.tuples(name, literal).map('{%s for y in %s}'.__mod__),
        st.tuples(literal, literal).map('(%s for y in %s)'.__mod__),
        st.tuples(name, literal).map('(lambda %s: %s)'.__mod__),
        name.map("f'{%s}'".__mod__), literal.map('(not %s)'.__mod__),
        name.map('-%s'.__mod__), name.map('~%s'.__mod__), name.map(
            '(*%s,)'.__mod__), name.map('{**%s}'.__mod__),
        st.tuples(literal, literal).map("'%%s' %% (%s, %s)".__mod__),
        st.just('-"1"'), st.just('+[1]'), st.just('~1'), st.just('not 0'),
        st.just('1 + 2'), st.just('1j + 2'), st.just('"a" + "b"'),
        st.just('[1] + [2]'), st.just('"a" * 3'), st.just('[0][0]'))

    def wrap(inner):
        return st.one_of(
            inner.map('[%s]'.__mod__), inner.map('(%s,)'.__mod__),
            inner.map('(%s)'.__mod__),
            st.tuples(literal, inner).map('[%s, %s]'.__mod__),
            st.tuples(inner, literal).map('(%s, %s)'.__mod__),
            st.tuples(literal, inner).map('{%s: %s}'.__mod__),
            st.tuples(inner, literal).map('{%s: %s}'.__mod__),
            inner.map('{%s}'.__mod__), inner.map(' %s'.__mod__),
            inner.map('%s  # comment'.__mod__))
    return st.recursive(wrong, wrap, max_leaves=3)


def checkGenerated(case, note):
    checkCode((case[0], ''), note)


def atoms():
    return st.one_of(
        st.none(), st.booleans(), st.integers(), st.integers(2 ** 62, 2 ** 130),
        st.floats(allow_nan=False, allow_infinity=False),
        stretched(st.text(max_size=8)), stretched(st.binary(max_size=8)),
        st.text('\'"\\\n\r\t\0{}#\u2028\ud800', max_size=6),
        st.complex_numbers(allow_nan=False, allow_infinity=False).filter(
            lambda c: c.real or not str(c.real).startswith('-')).filter(
                lambda c: identical(eval(repr(c)), c)))


def values():
    hashable = st.recursive(atoms(), lambda inner: st.lists(
        inner, max_size=3).map(tuple), max_leaves=4)
    return st.recursive(atoms(), lambda inner: st.one_of(
        st.lists(inner, max_size=4), st.lists(inner, max_size=4).map(tuple),
        st.dictionaries(hashable, inner, max_size=4),
        st.lists(hashable, max_size=3).map(set)), max_leaves=15)


def checkSpelling(case, note):
    (value, text), = case
    got = unrepr(text)
    require(identical(got, value), "unrepr(%r) is %r, not %r", text, got, value)
    note.nontrivial(text != repr(value))


def spellings():
    """
    Literals, and ways to write them other than with repr.
    """
    plain = st.text('ab \t#{}[]:,;\xe9\u6f22', max_size=6)
    number = st.integers(0, 2 ** 70)
    atom = st.one_of(
        number.map(lambda n: (n, hex(n))), number.map(lambda n: (n, oct(n))),
        number.map(lambda n: (n, bin(n).upper().replace('0B', '0B'))),
        number.map(lambda n: (n, '{:_}'.format(n))),
        number.map(lambda n: (-n, '- %d' % n)),
        number.map(lambda n: (n, '+%d' % n)),
        st.integers(0, 999).map(lambda n: (n * 100.0, '%d.e2' % n)),
        st.integers(0, 999).map(lambda n: (n / 8.0, '%.3f' % (n / 8.0))),
        st.integers(1, 99).map(lambda n: (complex(3, -n), '3-%dj' % n)),
        plain.map(lambda t: (t, '"%s"' % t)),
        plain.map(lambda t: (t, "u'%s'" % t)),
        plain.map(lambda t: (t, 'r"""%s"""' % t)),
        st.tuples(plain, plain).map(lambda t: (
            '\n'.join(t), "'''%s\n%s'''" % t)),
        st.tuples(plain, plain).map(lambda t: (
            t[0] + t[1], "('%s'  \"%s\")" % t)),
        st.tuples(plain, plain).map(lambda t: (
            t[0] + t[1], "'%s\\\n%s'" % t)),
        plain.map(lambda t: (t, "'%s'" % ''.join(
            '\\U%08x' % ord(c) for c in t))),
        st.binary(max_size=4).map(lambda b: (b, "B'%s'" % ''.join(
            '\\%03o' % c for c in b))),
        atoms().map(lambda v: (v, repr(v))))
    space = st.sampled_from(['', ' ', '\n', '\n\t ', ' # comment\n', '  ',
                             ' # ["\n', '\t'])

    def container(inner, kinds):
        def build(t):
            kind, parts, spaces, comma = t
            if kind == '()' and len(parts) == 1:
                comma = True
            elif not parts:
                comma = False
            text = ','.join(spaces[0] + text + spaces[1]
                            for value, text in parts)
            text = kind[0] + text + ',' * comma + spaces[2] + kind[1]
            return {'[]': list, '()': tuple, '{}': set}[kind](
                value for value, text in parts), text
        return st.tuples(st.sampled_from(kinds), st.lists(inner, max_size=3),
                         st.tuples(space, space, space), st.booleans()).filter(
            lambda t: t[1] or t[0] != '{}').map(build)

    def mapping(keys, inner):
        return st.tuples(st.lists(st.tuples(keys, inner), max_size=3),
                         space, space).map(lambda t: (
            dict((k[0], v[0]) for k, v in t[0]),
            '{' + ''.join(k[1] + t[1] + ':' + t[2] + v[1] + ',' + t[1]
                          for k, v in t[0]) + '}'))
    hashable = st.one_of(atom, container(atom, ['()']))
    return st.one_of(atom, st.recursive(atom, lambda inner: st.one_of(
        container(inner, ['[]', '()']), container(hashable, ['{}']),
        mapping(hashable, inner),
        st.tuples(space, inner, space).map(
            lambda t: (t[1][0], '(%s%s%s)' % (t[0], t[1][1], t[2])))),
        max_leaves=8))


SUBS = [
    Sub('literal', lambda: st.tuples(values()), checkLiteral, 3000, 40000,
        rule="a container"),
    Sub('spellings', lambda: st.tuples(spellings()), checkSpelling, 1500, 20000,
        rule="written otherwise than by repr"),
    Sub('code', lambda: st.tuples(st.sampled_from(TEMPLATES),
                                  st.sampled_from(
                                      ['1', '[]', '"x"', 'None', '(1,)',
                                       '{}', 'b""', '0.5', '-3'])),
        checkCode, 330, 333, rule="every case"),
    Sub('expressions', lambda: st.tuples(code()), checkGenerated, 1500, 20000,
        rule="every case"),
]
