"""
SchedulingService and iterateInReactor.
"""
import sys

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Outcome
from twisted.internet import defer, task

RULE = ("Histories of adding iterators (long and short ones, ones which fail, "
        "ones which wait), starting and stopping the service, and passing "
        "time on a clock in place of the reactor.")

clock = None


def install():
    """
    Put a clock where the cooperator looks for the reactor.
    """
    global clock
    if clock is None:
        import twisted.internet
        clock = task.Clock()
        sys.modules['twisted.internet.reactor'] = clock
        twisted.internet.reactor = clock
    return clock


class Broken(Exception):
    pass


class Job(object):
    def __init__(self, steps, fails, pause):
        self.steps = steps
        self.fails = fails
        self.pause = pause
        self.done = 0
        self.waiting = None
        self.problems = []

    def __iter__(self):
        return self

    def __next__(self):
        if self.waiting is not None and not self.waiting.called:
            self.problems.append("advanced while it waits")
        if not self.allowed():
            self.problems.append("advanced while the service isn't running")
        if self.done == self.steps:
            if self.fails:
                raise Broken(self.steps)
            raise StopIteration()
        self.done += 1
        if self.pause and self.done == self.pause:
            self.waiting = defer.Deferred()
            return self.waiting
        return None


def check(case, note):
    from epsilon.cooperator import SchedulerStopped, SchedulingService
    clock = install()
    service = SchedulingService()
    state = dict(running=False)
    jobs = []
    everStopped = spoiled = False

    def settle():
        for _ in range(100000):
            clock.advance(0.01)
            if not clock.getDelayedCalls():
                break
    with Errors() as errors:
        for op in case:
            if op[0] == 'add':
                job = Job(*op[1:])
                job.allowed = lambda: state['running']
                d = service.addIterator(job)
                job.outcome = Outcome(d)
                job.doomed = everStopped and not state['running']
                job.ended = job.doomed
                jobs.append(job)
                if job.doomed:
                    expectStopped(job, SchedulerStopped)
                    note('added after stopping')
            elif op[0] == 'crowd':
                for n in range(op[1]):
                    job = Job(n % 3, False, 0)
                    job.allowed = lambda: state['running']
                    job.outcome = Outcome(service.addIterator(job))
                    job.doomed = everStopped and not state['running']
                    job.ended = job.doomed
                    jobs.append(job)
                    if job.doomed:
                        expectStopped(job, SchedulerStopped)
            elif op[0] == 'start' and not state['running'] and not spoiled:
                state['running'] = True
                service.startService()
            elif op[0] == 'stop':
                # It needn't have been started, nor be stopped only once.
                service.stopService()
                state['running'] = False
                everStopped = True
                # Twisted's cooperator forgets the iterators it has; not all
                # of them are told. It may run into those which weren't when it
                # is started again.
                spoiled = spoiled or sum(
                    not job.ended for job in jobs) > 1
                for job in jobs:
                    if not job.ended:
                        note('stopped in the middle')
                        job.ended = job.doomed = True
                        if job.outcome.results:
                            expectStopped(job, SchedulerStopped)
            elif op[0] == 'time':
                settle()
                for job in jobs:
                    if job.ended or not state['running']:
                        continue
                    if job.waiting is not None and not job.waiting.called:
                        same(job.outcome.results, [], "results while waiting")
                        same(job.done, job.pause, "steps before waiting")
                        continue
                    job.ended = True
                    expectDone(job)
                    note('finished')
            elif op[0] == 'resume':
                for job in jobs:
                    if job.waiting is not None and not job.waiting.called:
                        if job.doomed:
                            continue
                        job.waiting.callback(None)
                        note('resumed')
                        break
            same(bool(service.running), state['running'], "running")
            for job in jobs:
                require(len(job.outcome.results) <= 1, "results %r",
                        job.outcome.results)
                same(job.problems, [], "problems of an iterator")
        if state['running']:
            service.stopService()
            state['running'] = False
        settle()
        for job in jobs:
            require(len(job.outcome.results) <= 1, "results")
            same(job.problems, [], "problems of an iterator")
    same(errors.failures, [], "errors logged")
    note.nontrivial(sum(1 for j in jobs if j.outcome.results) > 1)


def expectStopped(job, SchedulerStopped):
    same(len(job.outcome.results), 1, "results of a stopped iterator")
    status, value = job.outcome.results[0]
    require(status == 'failed' and value.check(SchedulerStopped),
            "result of a stopped iterator: %r", value)


def expectDone(job):
    same(job.done, job.steps, "steps")
    same(len(job.outcome.results), 1, "results")
    status, value = job.outcome.results[0]
    if job.fails:
        require(status == 'failed' and value.check(Broken), "result %r", value)
    else:
        require(status == 'ok' and value is job, "result %r", value)


def checkInReactor(case, note):
    """
    iterateInReactor needs no service.
    """
    from epsilon.cooperator import iterateInReactor
    clock = install()
    jobs = []
    for spec in case:
        job = Job(*spec)
        job.allowed = lambda: True
        job.outcome = Outcome(iterateInReactor(job))
        jobs.append(job)
    for _ in range(200):
        clock.advance(0.01)
    for job in jobs:
        if job.waiting is not None and not job.waiting.called:
            same(job.outcome.results, [], "results while waiting")
            job.waiting.callback(None)
    for _ in range(200):
        clock.advance(0.01)
    for job in jobs:
        expectDone(job)
        same(job.problems, [], "problems of an iterator")
    note.nontrivial(len(jobs) > 1)


def checkEndless(case, note):
    """
    Iterators which don't end don't keep the others from ending, and go on
    for as long as the service does.
    """
    from epsilon.cooperator import SchedulingService
    clock = install()
    jobs, endless, before, ticks = case
    service = SchedulingService()
    steps = [0] * endless

    def forever(n):
        while True:
            steps[n] += 1
            yield None
    outcomes = [Outcome(service.addIterator(forever(n)))
                for n in range(endless)]
    if before:
        service.startService()
    added = []
    for spec in jobs:
        job = Job(*spec)
        job.allowed = lambda: service.running
        job.outcome = Outcome(service.addIterator(job))
        added.append(job)
    if not before:
        same(steps, [0] * endless, "steps before the start")
        service.startService()
    for _ in range(100000):
        clock.advance(0.01)
        if all(j.outcome.results or j.waiting for j in added):
            break
    for job in added:
        if job.waiting is not None:
            same(job.outcome.results, [], "results while waiting")
        else:
            expectDone(job)
    then = list(steps)
    for _ in range(ticks + endless):
        clock.advance(0.01)
    for n in range(endless):
        require(steps[n] > then[n], "an endless iterator stalled")
        same(outcomes[n].results, [], "results of an endless iterator")
    service.stopService()
    then = list(steps)
    for _ in range(20):
        clock.advance(0.01)
    same(steps, then, "steps after the end")
    note.nontrivial(endless and len(added) > 1)


def specs():
    return st.tuples(st.integers(0, 6), st.booleans(),
                     st.sampled_from([0, 0, 1, 2])).map(
        lambda t: (t[0], t[1], t[2] if t[2] <= t[0] else 0))


SUBS = [
    Sub('service', lambda: st.lists(st.one_of(
        specs().map(lambda s: ('add',) + s),
        specs().map(lambda s: ('add',) + s),
        st.just(('start',)), st.just(('stop',)), st.just(('time',)),
        st.tuples(st.just('crowd'), st.integers(0, 60)),
        st.just(('resume',))), min_size=2, max_size=14).map(tuple),
        check, 600, 6000, rule="two or more iterators ended",
        examples=[(('crowd', 200), ('start',), ('crowd', 150), ('time',)),
                  (('add', 3, False, 0), ('time',), ('start',), ('time',),
                   ('add', 5, True, 0), ('add', 5, False, 2), ('time',),
                   ('stop',), ('add', 1, False, 0), ('start',),
                   ('add', 2, False, 0), ('time',))]),
    Sub('endless', lambda: st.tuples(
        st.lists(specs(), max_size=4).map(tuple), st.integers(0, 3),
        st.booleans(), st.integers(1, 10)),
        checkEndless, 25, 250, rule="endless and other iterators"),
    Sub('reactor', lambda: st.lists(specs(), max_size=5).map(tuple),
        checkInReactor, 100, 1000, rule="several iterators"),
]
