"""
react() runs the reactor for as long as main takes.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from harness.net import Errors
from epsilon.react import react
from twisted.internet import defer, error
from twisted.python.failure import Failure

RULE = ("Main functions whose Deferred fires (with a result or a failure) at "
        "once, at some time, during shutdown or never, and reactors which are "
        "stopped by something else before, at, or after that time; the "
        "reactor used refuses everything a real one would.")


class Reactor(object):
    """
    As strict as a real one, with a clock of its own.
    """
    def __init__(self):
        self.running = False
        self.runs = 0
        self.stops = 0
        self.whenRunning = []
        self.calls = []
        self.triggers = {'before': [], 'during': [], 'after': []}
        self.now = 0
        self.count = 0
        self.stopRequested = False

    def addSystemEventTrigger(self, phase, event, f, *a, **kw):
        require(event == 'shutdown', "trigger for %r", event)
        self.triggers[phase].append((f, a, kw))
        return (phase, event, (f, a, kw))

    def removeSystemEventTrigger(self, ident):
        phase, event, trigger = ident
        self.triggers[phase].remove(trigger)

    def callWhenRunning(self, f, *a, **kw):
        if self.running:
            f(*a, **kw)
        else:
            self.whenRunning.append((f, a, kw))

    def callLater(self, delay, f, *a, **kw):
        self.count += 1
        self.calls.append((self.now + delay, self.count, f, a, kw))

    def stop(self):
        if not self.running or self.stopRequested:
            raise error.ReactorNotRunning("Can't stop reactor that isn't "
                                          "running.")
        self.stops += 1
        self.stopRequested = True

    def run(self, installSignalHandlers=True):
        if self.runs:
            raise error.ReactorNotRestartable()
        self.runs += 1
        self.running = True
        starting, self.whenRunning = self.whenRunning, []
        for f, a, kw in starting:
            f(*a, **kw)
        while not self.stopRequested:
            if not self.calls:
                raise Violation("the reactor would run forever")
            self.calls.sort(key=lambda c: c[:2])
            when, ign, f, a, kw = self.calls.pop(0)
            self.now = max(self.now, when)
            f(*a, **kw)
        # Other things happen in the iteration in which it was stopped, too.
        rest = [c for c in self.calls if c[0] <= self.now]
        self.calls = [c for c in self.calls if c[0] > self.now]
        for when, ign, f, a, kw in sorted(rest, key=lambda c: c[:2]):
            f(*a, **kw)
        for phase in ('before', 'during', 'after'):
            for f, a, kw in list(self.triggers[phase]):
                f(*a, **kw)
        self.running = False


class Problem(Exception):
    pass


def check(case, note):
    fires, kind, outside, argv, shutdownFires = case
    succeeds = not (isinstance(kind, type) and issubclass(kind,
                                                         BaseException))
    reactor = Reactor()
    seen = []
    d = defer.Deferred()
    state = dict(fired=False)

    def fire():
        if state['fired']:
            return
        state['fired'] = True
        if succeeds:
            d.callback(kind)
        else:
            d.errback(Failure(kind('p')))

    def main(*args):
        seen.append(args)
        if fires == 'now':
            fire()
        elif fires is not None:
            reactor.callLater(fires, fire)
        if shutdownFires is not None:
            reactor.addSystemEventTrigger(shutdownFires, 'shutdown', fire)
        return d
    if outside is not None:
        reactor.callLater(outside, stopIfRunning, reactor)
    with Errors() as errors:
        result = react(reactor, main, list(argv))
        require(result is None, "react returned %r", result)
        leftover = []
        d.addErrback(leftover.append)
        same(leftover, [], "failures nobody handles")
    same(seen, [(reactor,) + tuple(argv)], "calls of main")
    same(reactor.runs, 1, "runs of the reactor")
    same(reactor.stops, 1, "stops of the reactor")
    same(reactor.running, False, "still running")
    # It stopped when the first of the two happened.
    moments = [m for m in (0 if fires == 'now' else fires, outside)
               if m is not None]
    same(reactor.now, min(moments), "time at which it stopped")
    same([f if f is None else f.type for f in errors.failures],
         [kind] if (state['fired'] and not succeeds) else [],
         "errors logged")
    if outside is not None and fires is not None:
        note('both')
    if shutdownFires:
        note('during shutdown')
    if not succeeds:
        note('fails')
    note.nontrivial(fires != 'now' or outside is not None)


def stopIfRunning(reactor):
    if reactor.running and not reactor.stopRequested:
        reactor.stop()


def reactorless(reactor):
    raise Violation("a result isn't to be called")


@st.composite
def cases(draw):
    fires = draw(st.sampled_from(['now', None, 0, 1, 2, 3]))
    outside = draw(st.sampled_from([None, 0, 1, 2, 3]))
    shutdown = draw(st.sampled_from([None, None, 'before', 'during', 'after']))
    if fires is None and outside is None:
        outside = 1
    kind = draw(st.one_of(
        st.sampled_from(['result', None, 0, False, (), reactorless]),
        st.sampled_from([Problem, Problem, ValueError, defer.CancelledError,
                         error.ReactorNotRunning, error.ConnectionDone,
                         error.ReactorAlreadyRunning, KeyError,
                         AssertionError, SystemExit, KeyboardInterrupt])))
    argv = draw(st.lists(st.sampled_from(
        [0, 1, 2, None, '', 'a', b'', (), ('a', 'b'), False, '-x', '--']),
        max_size=4))
    return (fires, kind, outside, tuple(argv), shutdown)


SUBS = [
    Sub('run', cases, check, 1000, 5000,
        rule="it doesn't finish at once, or something else stops the reactor"),
]
