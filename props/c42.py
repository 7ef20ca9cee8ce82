"""
The TimeoutMixin which epsilon carries for old versions of Twisted.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from props.c30 import install
from twisted.internet import task
from twisted.protocols import policies

RULE = ("Histories of setting, resetting and disabling timeouts of several "
        "connections and of time passing, also from inside of a timeout; the "
        "same history is given to Twisted's own TimeoutMixin.")


class Transport(object):
    def __init__(self, log, clock):
        self.log = log
        self.clock = clock

    def loseConnection(self):
        self.log.append(('lost', self.clock.seconds()))


def connection(mixin, clock, kind, reaction, default):
    """
    Make a connection with a timeout.

    @param kind: C{'reactor'} to use what the mixin calls by default,
        C{'clock'} to replace C{callLater}, or C{'drop'} to also keep the
        default reaction to a timeout.
    @param default: the period the class declares.
    """
    log = []

    class Connection(mixin):
        if default is not None:
            timeOut = default
    made = Connection()
    made.log = log
    if kind != 'reactor':
        def callLater(self, period, func):
            return clock.callLater(period, func)
        Connection.callLater = callLater
    if kind == 'drop':
        made.transport = Transport(log, clock)
    else:
        def timeoutConnection(self):
            log.append(('timeout', clock.seconds(), self.timeOut))
            if len(log) > 50:
                return
            if reaction == 'reset':
                self.resetTimeout()
            elif reaction == 'none':
                log.append(('was', self.setTimeout(None)))
            elif reaction is not None:
                log.append(('was', self.setTimeout(reaction)))
        Connection.timeoutConnection = timeoutConnection
    return made


def play(mixin, clock, connections, ops):
    made = [connection(mixin, clock, *c) for c in connections]
    start = clock.seconds()
    for op in ops:
        if op[0] == 'time':
            clock.advance(op[1])
            continue
        c = made[op[1] % len(made)]
        if op[0] == 'set':
            c.log.append(('was', c.setTimeout(op[2])))
        elif op[0] == 'reset':
            c.log.append(('reset', c.resetTimeout()))
        elif op[0] == 'quiet':
            c.setTimeout(None)
        c.log.append(('now', c.timeOut))
    for c in made:
        c.setTimeout(None)
    pending = len(clock.getDelayedCalls())
    clock.advance(10000)
    return [[tuple(round(v - start, 6) if n == 1 and e[0] in (
        'timeout', 'lost') else v for n, v in enumerate(e)) for e in c.log]
        for c in made], pending


class Model(object):
    """
    One connection by the book.
    """
    def __init__(self, kind, reaction, default):
        self.kind = kind
        self.reaction = reaction
        self.period = default
        self.due = None
        self.log = []

    def set(self, period, now):
        was = self.period
        self.period = period
        self.due = None if period is None else now + period
        return was

    def reset(self, now):
        if self.due is not None and self.period is not None:
            self.due = now + self.period

    def fire(self, now):
        self.due = None
        if self.kind == 'drop':
            self.log.append(('lost', now))
            return
        self.log.append(('timeout', now, self.period))
        if len(self.log) > 50 or self.reaction is None:
            return
        if self.reaction == 'reset':
            self.reset(now)
        else:
            period = None if self.reaction == 'none' else self.reaction
            self.log.append(('was', self.set(period, now)))


def model(connections, ops):
    made = [Model(*c) for c in connections]
    now = 0

    def advance(seconds):
        for c in made:
            # A clock jumps; what became due in the meantime happens at the
            # end of the jump.
            while c.due is not None and c.due <= now + seconds:
                c.fire(now + seconds)
    for op in ops:
        if op[0] == 'time':
            advance(op[1])
            now += op[1]
            continue
        c = made[op[1] % len(made)]
        if op[0] == 'set':
            c.log.append(('was', c.set(op[2], now)))
        elif op[0] == 'reset':
            c.log.append(('reset', c.reset(now)))
        elif op[0] == 'quiet':
            c.set(None, now)
        c.log.append(('now', c.period))
    return [c.log for c in made]


def check(case, note):
    clock = install()
    from epsilon.hotfixes.timeoutmixin_calllater import TimeoutMixin
    connections, ops = case
    before = len(clock.getDelayedCalls())
    ours, pending = play(TimeoutMixin, clock, connections, ops)
    same(pending, before, "calls which are left behind")
    same(ours, model(connections, ops), "what the connections saw")
    theirs, _ = play(policies.TimeoutMixin, task.Clock(),
                     [('clock' if k == 'reactor' else k, r, p)
                      for k, r, p in connections], ops)
    same(ours, theirs, "what connections saw, compared with Twisted's")
    fired = sum(1 for log in ours for e in log if e[0] in ('timeout', 'lost'))
    if fired:
        note('timed out')
    note.nontrivial(fired > 0 and any(op[0] == 'reset' for op in ops))


PERIODS = [None, 1, 2, 3, 5, 0.5, 0.25, 1, 2, 0.5, 0, 60, 5000]

@st.composite
def histories(draw):
    connections = draw(st.lists(st.tuples(
        st.sampled_from(['reactor', 'clock', 'drop']),
        st.sampled_from([None, 'reset', 'none', 1, 2, 0.5]),
        st.sampled_from([None, None, 1, 2])),
        min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 4]))))
    ops = []
    # what the periods of the connections are likely to be
    last = [c[2] for c in connections]
    for _ in range(draw(st.integers(4, 20))):
        which = draw(st.integers(0, len(connections) - 1))
        kind = draw(st.sampled_from(['set', 'set', 'again', 'reset', 'reset',
                                     'quiet', 'time', 'time', 'time',
                                     'almost', 'long']))
        if kind == 'set':
            last[which] = draw(st.sampled_from(PERIODS))
            ops.append(('set', which, last[which]))
        elif kind == 'again':
            ops.append(('set', which, last[which]))
        elif kind == 'almost' and last[which]:
            ops.append(('time', last[which] * draw(st.sampled_from(
                [0.5, 0.75, 1, 1.25]))))
        elif kind == 'long':
            ops.append(('time', draw(st.sampled_from([0, 59, 4900, 100]))))
        elif kind in ('reset', 'quiet'):
            ops.append((kind, which))
            if kind == 'quiet':
                last[which] = None
        else:
            ops.append(('time', draw(st.sampled_from(
                [0.25, 0.5, 0.75, 1, 2, 3, 5]))))
    return tuple(connections), tuple(ops)


SUBS = [
    Sub('history', histories,
        check, 2500, 25000, rule="a timeout happened and one was reset",
        examples=[
            ((('reactor', None, None),),
             (('set', 0, 3), ('time', 2), ('reset', 0), ('time', 2),
              ('time', 1), ('reset', 0), ('set', 0, 1), ('time', 1))),
            ((('drop', None, 2), ('clock', 1, None)),
             (('set', 0, 3), ('set', 1, 2), ('time', 2), ('set', 0, 5),
              ('time', 3), ('time', 2), ('set', 1, None), ('time', 5))),
        ]),
]
