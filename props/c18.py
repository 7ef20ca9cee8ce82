"""
Who gets to log in over AMP.
"""
import random
from hashlib import sha1

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.gen import stretched
from harness.net import Errors, Link, Outcome
from epsilon import ampauth
from epsilon.iepsilon import IOneTimePad
from twisted.cred.checkers import InMemoryUsernamePasswordDatabaseDontUse
from twisted.cred.credentials import UsernamePassword
from twisted.cred.error import UnauthorizedLogin
from twisted.cred.portal import IRealm, Portal
from twisted.protocols.amp import AMP, AmpBox, IBoxReceiver
from zope.interface import implementer

RULE = ("Histories of requests for challenges and of responses on several "
        "connections: right ones, wrong ones, replayed ones, ones for "
        "challenges of other connections, users or moments, and ones sent "
        "before any challenge; and one-time pads.")

# carol has no IBoxReceiver avatar
USERS = [b'alice', b'bob', b'carol', b'', b' Alice\xff ']
PADS = [b'pad', b'Pad', b'pad ', b'', b'\0', b'\xff', b'pad2']
OWNERS = USERS + [b'alice ', b'0', None, 0]       # whose pads there may be


@implementer(IBoxReceiver)
class Avatar(object):
    def __init__(self, name):
        self.name = name
        self.events = []

    def startReceivingBoxes(self, sender):
        self.events.append('start')

    def ampBoxReceived(self, box):
        self.events.append('box')

    def stopReceivingBoxes(self, reason):
        self.events.append('stop')


@implementer(IRealm)
class Realm(object):
    def __init__(self):
        self.avatars = []

    def requestAvatar(self, avatarId, mind, *interfaces):
        same(interfaces, (IBoxReceiver,), "interfaces requested")
        if avatarId == b'carol':
            raise NotImplementedError("no avatar")
        avatar = Avatar(avatarId)
        self.avatars.append(avatar)
        return IBoxReceiver, avatar, lambda: avatar.events.append('logout')


def build(passwords, pads):
    realm = Realm()
    checker = InMemoryUsernamePasswordDatabaseDontUse()
    for user, password in zip(USERS, passwords):
        if password is not None:
            checker.addUser(user, password)
    otp = ampauth.OneTimePadChecker(dict(pads))
    require(IOneTimePad in otp.credentialInterfaces, "credentials")
    factory = ampauth.CredAMPServerFactory(Portal(realm, [checker, otp]))
    return realm, factory


def digest(challenge, nonce, password):
    h = sha1()
    for part in (challenge, b' ', nonce, b' ', password):
        h.update(part)
    return h.digest()


class Connection(object):
    def __init__(self, factory):
        self.client = AMP()
        self.server = factory.buildProtocol(None)
        self.link = Link(self.client, self.server)
        self.username = self.challenge = None
        self.challenges = []
        self.over = False

    def call(self, command, **kw):
        outcome = Outcome(self.client.callRemote(command, **kw))
        self.link.flush()
        return outcome.results


def check(case, note, size=3):
    passwords, pads, ops = case
    real = dict((u, p) for u, p in zip(USERS, passwords) if p is not None)
    pads = dict(pads)
    realm, factory = build(passwords, pads)
    connections = [Connection(factory) for _ in range(size)]
    responses = []                   # everything an eavesdropper has seen
    seenChallenges = []
    loggedIn = []
    for op in ops:
        connection = connections[op[1] % len(connections)]
        if connection.over:
            continue
        before = len(realm.avatars)
        if op[0] == 'login':
            user = USERS[op[2]] if op[2] < len(USERS) else b'mallory'
            results = connection.call(ampauth.PasswordLogin, username=user)
            same(len(results), 1, "results of PasswordLogin")
            status, value = results[0]
            same(status, 'ok', "result of PasswordLogin: %r" % (value,))
            challenge = value['challenge']
            require(isinstance(challenge, bytes) and len(challenge) >= 8,
                    "challenge %r", challenge)
            require(challenge not in seenChallenges, "challenge used twice")
            seenChallenges.append(challenge)
            connection.username = user
            connection.challenge = challenge
            connection.challenges.append(challenge)
            same(len(realm.avatars), before, "avatars")
            continue
        if op[0] == 'pad':
            pad = PADS[op[2]]
            results = connection.call(ampauth.OTPLogin, pad=pad)
            expected = pads.pop(pad, UnauthorizedLogin)
            if expected == b'carol':
                outcome = NotImplementedError
            elif expected is not UnauthorizedLogin:
                outcome = (expected,)
                note('pad accepted')
            else:
                outcome = UnauthorizedLogin
                note('pad refused')
        else:
            kind = op[2]
            password = real.get(connection.username or b'', b'')
            challenge = connection.challenge or b''
            if kind == 'right':
                args = ampauth.PasswordChallengeResponse.determineFrom(
                    challenge, password)
                same(args['response'],
                     digest(challenge, args['cnonce'], password),
                     "the response determined from a challenge")
                require(args['cnonce'] not in [n for n, r in responses],
                        "nonce used twice")
            elif kind == 'own nonce':
                args = dict(cnonce=op[4],
                            response=digest(challenge, op[4], password))
            elif kind == 'wrong password':
                args = ampauth.PasswordChallengeResponse.determineFrom(
                    challenge, op[4])
            elif kind == 'stale':
                old = (connection.challenges or [b'x'])[0]
                args = ampauth.PasswordChallengeResponse.determineFrom(
                    old, password)
            elif kind == 'other connection':
                other = connections[op[3] % len(connections)]
                args = ampauth.PasswordChallengeResponse.determineFrom(
                    other.challenge or b'', password)
            elif kind == 'other user':
                args = ampauth.PasswordChallengeResponse.determineFrom(
                    challenge, real.get(USERS[op[3] % len(USERS)], b''))
            elif kind == 'replay':
                nonce, response = (responses or [(b'', b'')])[
                    op[3] % max(1, len(responses))]
                args = dict(cnonce=nonce, response=response)
            elif kind == 'no nonce':
                args = dict(cnonce=b'',
                            response=sha1(challenge + password).digest())
            elif kind == 'truncated':
                args = dict(cnonce=b'n', response=digest(
                    challenge, b'n', password)[:op[3]])
            elif kind == 'changed':
                response = bytearray(digest(challenge, b'n', password))
                response[op[3]] ^= 1 << (len(op[4]) % 8)
                args = dict(cnonce=b'n', response=bytes(response))
            elif kind == 'respelled':
                response = digest(challenge, b'n', password)
                args = dict(cnonce=b'n', response=[
                    response.upper(), response.lower(), response.swapcase(),
                    response + b'x', response + b' ', b' ' + response,
                    response.hex().encode(), response[::-1],
                    response * 2, response + b'\0', b'\0' + response,
                    response + b'\n', b'\t' + response, response[1:],
                    response[:-1], response[10:] + response[:10],
                    bytes(c & 0x7f for c in response),
                    bytes(c ^ 0xff for c in response),
                    bytes(sorted(response)),
                    bytes(20)][op[3] % 20])
            else:
                args = dict(cnonce=b'n', response=op[4])
            responses.append((args['cnonce'], args['response']))
            with Errors():
                results = connection.call(
                    ampauth.PasswordChallengeResponse, **args)
            if connection.challenge is None:
                outcome = None       # no challenge: any failure will do
                note('response without a challenge')
            elif connection.username in real and args['response'] == digest(
                    connection.challenge, args['cnonce'],
                    real[connection.username]):
                outcome = (connection.username,)
                if outcome == (b'carol',):
                    outcome = NotImplementedError
                note('accepted')
            else:
                outcome = UnauthorizedLogin
                note('refused: ' + kind)
        same(len(results), 1, "results of %r" % (op,))
        status, value = results[0]
        if isinstance(outcome, tuple):
            require(status == 'ok', "%r failed: %r", op, value)
            same(len(realm.avatars), before + 1, "avatars")
            same((realm.avatars[-1].name, realm.avatars[-1].events),
                 (outcome[0], ['start']), "the avatar")
            loggedIn.append(outcome)
            connection.over = True
        else:
            require(status == 'failed' and
                    (outcome is None or value.check(outcome)),
                    "%r: %r, expected %r", op, value, outcome)
            same(len(realm.avatars), before, "avatars after %r" % (op,))
            if connection.link.down:
                connection.over = True
    note.nontrivial(len(responses) > 1)


def checkNear(case, note):
    """
    Responses which resemble the right one.
    """
    user, password, nonce, masks, order = case
    realm, factory = build([password if u == user else None for u in USERS], {})
    connection = Connection(factory)
    results = connection.call(ampauth.PasswordLogin, username=user)
    challenge = results[0][1]['challenge']
    right = digest(challenge, nonce, password)
    wrong = [bytes(c ^ (mask if at == n else 0) for n, c in enumerate(right))
             for at, mask in enumerate(masks)]
    wrong.extend(right[:n] for n in range(len(right)))
    wrong.extend(right[n:] for n in range(1, len(right)))
    for byte in (b'\0', b' ', b'\n', b'\r', b'\t', b'x', b'\xff', b'0'):
        wrong.extend([right + byte, byte + right, byte * 20])
    wrong.extend([
        right.upper(), right.lower(), right.swapcase(), right[::-1], right * 2,
        right.hex().encode(), right[10:] + right[:10], bytes(sorted(right)),
        bytes(c & 0x7f for c in right), bytes(c ^ 0xff for c in right),
        digest(challenge, nonce, password + b' '),
        digest(challenge, nonce, password + b'\0'),
        digest(challenge, password, nonce), digest(nonce, challenge, password),
        sha1(challenge + nonce + password).digest(),
        sha1(b' '.join([challenge, nonce])).digest(),
        sha1(password).digest(), password, challenge, nonce])
    wrong = [response for response in wrong if response != right]
    random.Random(order).shuffle(wrong)
    for response in wrong:
        with Errors():
            results = connection.call(ampauth.PasswordChallengeResponse,
                                      cnonce=nonce, response=response)
        same(len(results), 1, "results of %r" % (response,))
        require(results[0][0] == 'failed' and
                results[0][1].check(UnauthorizedLogin),
                "%r instead of %r: %r", response, right, results)
        same(realm.avatars, [], "avatars after %r" % (response,))
    results = connection.call(ampauth.PasswordChallengeResponse,
                              cnonce=nonce, response=right)
    same(results, [('ok', {})], "results of the right response")
    same([(a.name, a.events) for a in realm.avatars], [(user, ['start'])],
         "avatars")
    note.nontrivial()


def checkPads(case, note):
    """
    A pad is good for one login, whoever's it is.
    """
    pads, ops = case
    check(((None,) * 5, pads, ops), note, size=6)
    used = [op[2] for op in ops]
    note.nontrivial(any(used.count(n) > 1 and PADS[n] in dict(pads)
                        for n in used))


class Lookalike(object):
    """
    Something which isn't said to be credentials, for all that it looks like
    them.
    """
    def __init__(self, username, password):
        self.username = username
        self.password = password


def checkLogin(case, note):
    """
    The client's half.
    """
    passwords, attempts = case
    real = dict((u, p) for u, p in zip(USERS, passwords) if p is not None)
    realm, factory = build(passwords, {})
    for user, password, text in attempts:
        connection = Connection(factory)
        user = USERS[user] if user < len(USERS) else b'mallory'
        if password is None:
            password = real.get(user, b'')
        given = password
        if text:
            try:
                given = password.decode('utf-8')
            except UnicodeDecodeError:
                pass
        outcome = Outcome(ampauth.login(
            connection.client, UsernamePassword(user, given)))
        connection.link.flush()
        same(len(outcome.results), 1, "results of login")
        status, value = outcome.results[0]
        if user in real and real[user] == password:
            if user == b'carol':
                require(status == 'failed' and
                        value.check(NotImplementedError), "login: %r", value)
            else:
                require(status == 'ok', "login failed: %r", value)
                require(value is connection.client, "login: %r", value)
                same(realm.avatars[-1].name, user, "the avatar")
                note('accepted')
        else:
            require(status == 'failed' and value.check(UnauthorizedLogin),
                    "login of %r: %r", user, value)
            note('refused')
        if b' ' in password:
            note('spaces')
    connection = Connection(factory)
    for credentials in (object(), Lookalike(b'alice', b'x'), None):
        try:
            d = ampauth.login(connection.client, credentials)
        except ampauth.UnhandledCredentials:
            pass
        else:
            require(False, "login with %r: %r", credentials, d)
    same(connection.link.transports[0].outgoing, b'', "sent")
    note.nontrivial(len(attempts) > 1)


def checkFresh(case, note):
    """
    Among very many challenges and nonces, none occurs twice.
    """
    count, connections = case
    realm, factory = build((), {})
    servers = [factory.buildProtocol(None) for _ in range(connections)]
    challenges = set()
    nonces = set()
    for n in range(count):
        if n < 40000:
            server = servers[n % connections]
            respond = server.locateResponder(b'PasswordLogin')
            respond(AmpBox(username=b'alice')).addCallback(
                lambda box: challenges.add(box[b'challenge']))
        nonces.add(ampauth.PasswordChallengeResponse.determineFrom(
            b'challenge', b'password')['cnonce'])
        if n % 256 == 255:
            # A new connection now and then.
            servers[n % connections] = factory.buildProtocol(None)
    same(len(challenges), min(count, 40000), "different challenges")
    same(len(nonces), count, "different nonces")
    note.nontrivial(count > 1000)


def secrets():
    return stretched(st.one_of(
        st.sampled_from([b'', b'a', b'b', b'a b', b' ', b'p w d', b'\xff',
                         b'\xc3\xa9']),
        st.text('aB \t\r\n\0', max_size=4).map(str.encode),
        st.text('aB \xe9e\u0301\ufeff', max_size=4).map(
            lambda s: s.encode('utf-8')),
        st.binary(max_size=6),
        st.binary(min_size=60, max_size=70)), (10, 100))


def pads():
    return st.dictionaries(
        st.sampled_from(PADS), st.sampled_from(OWNERS), max_size=4).map(
            lambda d: tuple(sorted(d.items())))


def passwords():
    return st.tuples(secrets(), secrets(), st.one_of(st.none(), secrets()),
                     st.one_of(st.none(), secrets()),
                     st.one_of(st.none(), secrets()))


def near():
    return st.tuples(
        st.sampled_from([u for u in USERS if u != b'carol']), secrets(),
        st.binary(max_size=20),
        st.lists(st.integers(1, 255), min_size=20, max_size=20).map(tuple),
        st.integers(0, 1000))


KINDS = ['right', 'right', 'own nonce', 'wrong password', 'stale',
         'other connection', 'other user', 'replay', 'no nonce', 'truncated',
         'garbage', 'changed', 'respelled']

SUBS = [
    Sub('near', near, checkNear, 60, 600, rule="every case"),
    Sub('server', lambda: st.tuples(
        passwords(),
        pads(),
        st.lists(st.one_of(
            st.tuples(st.just('login'), st.integers(0, 2), st.integers(0, 5)),
            st.tuples(st.just('respond'), st.integers(0, 2),
                      st.sampled_from(KINDS), st.integers(0, 19), secrets()),
            st.tuples(st.just('respond'), st.integers(0, 2),
                      st.sampled_from(KINDS), st.integers(0, 19), secrets()),
            st.tuples(st.just('pad'), st.integers(0, 2),
                      st.integers(0, len(PADS) - 1)),
        ), min_size=2, max_size=12).map(tuple)),
        check, 1200, 15000, rule="two or more responses were sent"),
    Sub('fresh', lambda: st.tuples(st.integers(1, 3000), st.integers(1, 5)),
        checkFresh, 5, 20, rule="more than a thousand of each",
        examples=[(200000, 4)]),
    Sub('pads', lambda: st.tuples(
        pads(), st.lists(st.tuples(st.just('pad'), st.integers(0, 5),
                                   st.integers(0, len(PADS) - 1)),
                         min_size=2, max_size=10).map(tuple)),
        checkPads, 400, 4000, rule="a pad was tried twice"),
    Sub('client', lambda: st.tuples(
        passwords(),
        st.lists(st.tuples(st.integers(0, 5),
                           st.one_of(st.none(), secrets()), st.booleans()),
                 min_size=1, max_size=4).map(tuple)),
        checkLogin, 400, 4000, rule="more than one attempt"),
]
