"""
The life of an avatar logged in over AMP.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Link, Outcome
from epsilon import ampauth
from twisted.cred.error import UnauthorizedLogin
from twisted.internet import defer, error
from twisted.protocols.amp import AMP, AmpBox, Command, IBoxReceiver
from zope.interface import implementer

RULE = ("Histories of logins on several connections with a portal which "
        "decides when, in which order, and how each is resolved; boxes sent "
        "before and after; and disconnection at any point.")


@implementer(IBoxReceiver)
class Avatar(object):
    def __init__(self, connection, reaction='ok'):
        self.reaction = reaction
        self.connection = connection
        self.events = []
        self.logouts = 0
        self.sender = None

    def startReceivingBoxes(self, sender):
        self.events.append('start')
        self.sender = sender
        if self.reaction == 'drops':
            self.connection.link.disconnect(error.ConnectionLost('early'))
        elif self.reaction == 'sends':
            sender.sendBox(AmpBox({b'hello': b'%d' % (id(self),)}))

    def ampBoxReceived(self, box):
        self.events.append(('box', dict(box)))

    def stopReceivingBoxes(self, reason):
        self.events.append('stop')
        if self.reaction == 'resolves':
            self.connection.resolve()

    def logout(self):
        self.logouts += 1
        self.events.append('logout')


class Portal(object):
    """
    Only what CredReceiver may rely on: login returns a Deferred.
    """
    def __init__(self):
        self.waiting = []
        self.current = None
        self.synchronous = False

    def login(self, credentials, mind, *interfaces):
        d = defer.Deferred()
        self.waiting.append((self.current, d))
        return d


class Wait(Command):
    pass


class Client(AMP):
    """
    One which takes its time to answer.
    """
    @Wait.responder
    def wait(self):
        return defer.Deferred()


class Connection(object):
    def __init__(self, factory, portal, everyone):
        self.portal = portal
        self.everyone = everyone
        self.client = Client()
        self.server = factory.buildProtocol(None)
        self.link = Link(self.client, self.server)
        self.avatars = []
        self.active = None
        self.attempts = []
        self.boxes = []
        self.clientBoxes = []
        self.expectedAtClient = []
        received = self.client.ampBoxReceived

        def ampBoxReceived(box):
            if b'hello' in box:
                self.clientBoxes.append(box[b'hello'])
            else:
                received(box)
        self.client.ampBoxReceived = ampBoxReceived

    def resolve(self):
        """
        Complete the logins which are pending, while the connection is being
        lost.
        """
        for pair in list(self.portal.waiting):
            if pair[0] is self:
                self.portal.waiting.remove(pair)
                avatar = Avatar(self)
                self.everyone.append(avatar)
                pair[1].callback((IBoxReceiver, avatar, avatar.logout))
                same(avatar.events, ['logout'],
                     "events of an avatar which arrives while the connection "
                     "is being lost")


def check(case, note):
    count, ops = case
    portal = Portal()
    factory = ampauth.CredAMPServerFactory(portal)
    everyone = []
    with Errors() as errors:
        connections = [Connection(factory, portal, everyone)
                       for _ in range(count)]
        for op in ops:
            c = connections[op[1] % count]
            if op[0] == 'login' and not c.link.down and c.active is None:
                portal.current = c
                before = len(portal.waiting)
                outcome = Outcome(c.client.callRemote(
                    ampauth.OTPLogin, pad=b'x'))
                c.link.flush()
                same(len(portal.waiting), before + 1, "logins begun")
                c.attempts.append(outcome)
            elif op[0] == 'resolve' and portal.waiting:
                c, d = portal.waiting.pop(op[2] % len(portal.waiting))
                if op[3] != 'failed':
                    avatar = Avatar(c, op[3])
                    everyone.append(avatar)
                    c.avatars.append(avatar)
                    usable = not c.link.down and c.active is None
                    if usable:
                        c.active = avatar
                    else:
                        note('login completed too late')
                    d.callback((IBoxReceiver, avatar, avatar.logout))
                    if usable and op[3] == 'drops':
                        same(avatar.events, ['start', 'stop', 'logout'],
                             "events of an avatar whose connection is lost "
                             "while it is started")
                        note('lost while started')
                    elif usable:
                        same(avatar.events, ['start'], "events of the avatar")
                        if op[3] == 'sends':
                            c.expectedAtClient.append(b'%d' % (id(avatar),))
                    else:
                        same(avatar.events, ['logout'],
                             "events of an avatar which can't be used")
                else:
                    d.errback(UnauthorizedLogin())
                if not c.link.down:
                    c.link.flush()
            elif op[0] == 'box' and not c.link.down and c.active is not None:
                # From now on the connection is the avatar's.
                payload = {b'n': b'%d' % (op[2],), b'_command': b'whatever'}
                c.client.sendBox(AmpBox(payload))
                c.link.flush()
                same(c.active.events[-1], ('box', payload), "box received")
                note('boxes for the avatar')
            elif op[0] == 'ask' and not c.link.down and c.active is None:
                # The server asks something before the login, and completes it
                # when there is no answer.
                c.server.callRemote(Wait).addErrback(
                    lambda failure, c=c: c.resolve())
                c.link.flush()
            elif op[0] == 'drop' and not c.link.down:
                pending = any(p[0] is c for p in portal.waiting)
                if pending:
                    note('dropped while logging in')
                c.link.disconnect(error.ConnectionLost('gone'))
                if c.active is not None:
                    require(c.active.events[-1] == 'logout' and
                            c.active.events.count('stop') == 1,
                            "events of the avatar: %r", c.active.events)
                    note('logged out')
            for avatar in everyone:
                con = avatar.connection
                active = con.active is avatar
                same(avatar.logouts, 0 if (active and not con.link.down)
                     else 1, "logouts after %r" % (op,))
                same(avatar.events.count('start'), 1 if active else 0,
                     "starts")
        for c in connections:
            if not c.link.down:
                c.link.disconnect(error.ConnectionDone('end'))
        for c, d in portal.waiting:
            avatar = Avatar(c)
            everyone.append(avatar)
            d.callback((IBoxReceiver, avatar, avatar.logout))
        for avatar in everyone:
            same(avatar.logouts, 1, "logouts in the end")
        for c in connections:
            ok = 0
            for outcome in c.attempts:
                same(len(outcome.results), 1, "results of a login")
                ok += outcome.results[0][0] == 'ok'
            # An answer can't arrive any more if the start of the avatar lost
            # the connection.
            same(ok, 1 if c.active and c.active.reaction != 'drops' else 0,
                 "successful logins of a connection")
            same(c.clientBoxes, c.expectedAtClient, "boxes sent by avatars")
    same([f for f in errors.failures
          if f is None or not f.check(UnauthorizedLogin)], [],
         "errors logged")
    note.nontrivial(len(everyone) > 1)


OPS = ['login'] * 3 + ['resolve'] * 3 + ['box', 'drop', 'ask']


def op(n):
    kind, a, b, ok = n
    kind = OPS[kind]
    if kind == 'resolve':
        return (kind, a, b, ok)
    return (kind, a, b)


SUBS = [
    Sub('history', lambda: st.tuples(
        st.integers(1, 3),
        st.lists(st.tuples(st.integers(0, len(OPS) - 1), st.integers(0, 2),
                           st.integers(0, 5),
                           st.sampled_from(['ok', 'ok', 'ok', 'failed',
                                            'failed', 'drops',
                                            'sends', 'resolves'])).map(op),
                 min_size=3, max_size=25).map(tuple)),
        check, 2500, 30000, rule="two or more avatars were created"),
]
