"""
certcreate writes the certificate it was asked for.
"""
import os
import sys

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, Violation, require, same
from epsilon.scripts import certcreate
from OpenSSL import SSL, crypto
from twisted.internet.ssl import PrivateCertificate

RULE = ("Command lines with any subset of the options, spelled in their long "
        "and short forms, in any order and some of them twice, or wrongly.")

# name, short name, default, part of the subject
OPTIONS = [
    ('country', 'C', 'US', 'C'),
    ('state', 's', 'New York', 'ST'),
    ('city', 'c', 'New York', 'L'),
    ('organization', 'o', 'Divmod LLC', 'O'),
    ('unit', 'u', 'Security', 'OU'),
    ('hostname', 'h', 'divmod.com', 'CN'),
    ('email', 'e', 'support@divmod.org', 'emailAddress'),
    ('filename', 'f', 'server.pem', None),
    ('serial-number', 'S', 1, None),
]


def check(case, note):
    given, quiet, existing, bad, fromArgv = case
    values = dict((name, default) for name, short, default, part in OPTIONS)
    args = []
    for index, value, form in given:
        name, short, default, part = OPTIONS[index]
        values[name] = value
        value = str(value)
        if form == 'long':
            args.extend(['--' + name, value])
        elif form == 'joined':
            args.append('--%s=%s' % (name, value))
        else:
            args.extend(['-' + short, value])
    if quiet:
        args.insert(len(args) if quiet == 'end' else 0,
                    '-q' if quiet == 'short' else '--quiet')
    if bad is not None:
        args.append(bad)
    with scratch.directory() as path:
        if existing is not None:
            with open(values['filename'], 'wb') as f:
                f.write(existing)
        with scratch.quiet() as out:
            old = sys.argv
            try:
                if fromArgv:
                    sys.argv = ['certcreate'] + args
                    certcreate.main()
                else:
                    certcreate.main(args)
            except SystemExit as e:
                require(bad is not None, "%r was refused: %r", args, e)
                require(e.code not in (None, 0), "exit status %r", e.code)
                same(os.listdir(path),
                     [] if existing is None else [values['filename']],
                     "files after a command line which was refused")
                note('refused')
                return
            finally:
                sys.argv = old
        require(bad is None, "%r was accepted", args)
        same(os.listdir(path), [values['filename']], "files")
        with open(values['filename'], 'rb') as f:
            data = f.read()
        require(bool(out.getvalue()) == (not quiet), "printed %r",
                out.getvalue())
        # It shows whose certificate it is.
        require(quiet or values['hostname'].strip() in out.getvalue(),
                "printed %r", out.getvalue())
    require(b'older' not in data, "what was in the file remains: %r",
            data[-100:])
    certificate = crypto.load_certificate(crypto.FILETYPE_PEM, data)
    key = crypto.load_privatekey(crypto.FILETYPE_PEM, data)
    # Both can be used by a server, from the one file.
    PrivateCertificate.loadPEM(data)
    context = SSL.Context(SSL.TLS_METHOD)
    context.use_certificate(certificate)
    context.use_privatekey(key)
    try:
        context.check_privatekey()
    except SSL.Error as e:
        raise Violation("the key doesn't belong to the certificate: %r" % (e,))
    wanted = dict((part, values[name]) for name, short, default, part
                  in OPTIONS if part is not None)
    for what in (certificate.get_subject(), certificate.get_issuer()):
        same(dict((k.decode(), v.decode()) for k, v in what.get_components()),
             wanted, "name in the certificate")
    same(certificate.get_serial_number(), int(values['serial-number']),
         "serial number")
    require(not certificate.has_expired(), "it has expired")
    # Nobody else has the key.
    number = key.to_cryptography_key().private_numbers().public_numbers
    require(number not in KEYS, "the key of another certificate")
    KEYS.append(number)
    del KEYS[:-20]
    if fromArgv:
        again(dict(values, quiet=bool(quiet)), certificate, number)
    note.nontrivial(len(given) > 1)


KEYS = []


def again(options, first, number):
    """
    The same options are used for another certificate.
    """
    before = dict(options)
    printed = []
    with scratch.directory() as path:
        for n in range(2):
            with scratch.quiet() as out:
                made = certcreate.createSSLCertificate(options)
            printed.append(bool(out.getvalue()))
            same(options, before, "the options which were given")
            same(os.listdir(path), [options['filename']], "files")
            with open(options['filename'], 'rb') as f:
                data = f.read()
            certificate = crypto.load_certificate(crypto.FILETYPE_PEM, data)
            same(certificate.get_subject().get_components(),
                 first.get_subject().get_components(), "name")
            same(certificate.get_serial_number(), first.get_serial_number(),
                 "serial number")
            key = crypto.load_privatekey(crypto.FILETYPE_PEM, data)
            other = key.to_cryptography_key().private_numbers().public_numbers
            require(other != number, "the key of an earlier certificate")
            number = other
            same(made.serialNumber(), first.get_serial_number(),
                 "serial number of what was returned")
    same(printed, [not options['quiet']] * 2, "it was shown")


def value(index):
    name = OPTIONS[index][0]
    text = ''.join(chr(c) for c in range(33, 127))
    if name == 'country':
        return st.text('ABCDEFGHIJKLMNOPQRSTUVWXYZ', min_size=2, max_size=2)
    if name == 'filename':
        return st.text('abc.-_', min_size=1, max_size=8).filter(
            lambda s: s.strip('.') and not s.startswith('-'))
    if name == 'serial-number':
        return st.one_of(st.integers(1, 2 ** 64), st.integers(1, 2 ** 158))
    word = st.text(text, min_size=1, max_size=12).filter(
        lambda s: not s.startswith('-'))
    phrase = st.lists(word, min_size=1, max_size=3).map(' '.join)
    return st.one_of(phrase, phrase, st.tuples(
        st.sampled_from(['', ' ', '  ']), phrase,
        st.sampled_from(['', ' ', '  '])).map(''.join))


def options():
    return st.integers(0, len(OPTIONS) - 1).flatmap(lambda n: st.tuples(
        st.just(n), value(n), st.sampled_from(['long', 'joined', 'short'])))


SUBS = [
    Sub('options', lambda: st.tuples(
        st.lists(options(), max_size=9).map(tuple),
        st.sampled_from([None, 'short', 'end', 'long']),
        st.sampled_from([None, None, b'older contents' * 1000,
                         b'older']),
        st.sampled_from([None] * 8 + ['--nonsense', '-Z', '--email']),
        st.booleans()),
        check, 90, 500, rule="two or more options",
        examples=[(tuple((n, v, form) for n, v in enumerate(
            ['DE', 'Hesse', 'Kassel', 'Some Org', 'Some Unit', 'example.org',
             'me@example.org', 'other.pem', 4711])), quiet, None, None, False)
            for form, quiet in [('long', None), ('joined', 'short'),
                                ('short', 'long')]] +
        [((), None, None, None, True)] +
        [(((8, serial, 'long'),), None, None, None, False)
         for serial in (2 ** 31, 2 ** 63 + 5, 2 ** 127 + 9)]),
]
