"""
PendingEvent tells everyone who waits, once.
"""
import copy

from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Outcome
from epsilon.pending import PendingEvent
from twisted.internet import defer
from twisted.python.failure import Failure

RULE = ("Histories of waiting, firing with results and failures, giving up, "
        "and waiting or firing again from within the callbacks.")


class Boom(Exception):
    pass


class Hollow(Boom):
    """
    There's nothing in it.
    """
    def __len__(self):
        return 0


def check(case, note):
    event = PendingEvent()
    waiting = []                  # outcomes which have yet to be told
    told = []                     # (outcome, expected result)
    order = []
    wantedOrder = []
    count = [0]

    def wait(reaction):
        outcome = Outcome()
        outcome.ident = count[0]
        count[0] += 1
        d = event.deferred()
        require(isinstance(d, defer.Deferred), "deferred(): %r", d)

        def seen(result):
            order.append(outcome.ident)
            return result
        outcome.d = d
        outcome.late = reaction == 'late'
        waiting.append(outcome)
        if outcome.late:
            # It looks at the result some time after it is there.
            note('looks later')
            return d
        d.addBoth(seen)
        outcome.watch(d)
        if reaction == 'wait':
            d.addBoth(lambda ign: wait(None))
        elif reaction == 'raise':
            def broken(ign):
                raise Boom('listener')
            d.addBoth(broken).addErrback(lambda f: f.trap(Boom))
        elif reaction == 'fire':
            def again(ign):
                wait(None)
                fire('callback', 'again')
                note('fired again')
            d.addBoth(again)
        elif reaction == 'change':
            d.addBoth(lambda ign: 'changed')
        return d

    def fire(kind, value):
        given = copy.deepcopy(value)
        current = list(waiting)
        del waiting[:]
        wantedOrder.append([o.ident for o in current if not o.late])
        if kind == 'callback':
            for o in current:
                told.append((o, ('ok', value)))
            event.callback(value)
        elif kind == 'errback':
            f = Failure(Boom(value))
            for o in current:
                told.append((o, ('failure', f)))
            event.errback(f)
        elif kind == 'exception':
            e = (Hollow if value else Boom)(value)
            for o in current:
                told.append((o, ('failed', e)))
            event.errback(e)
        else:
            for o in current:
                told.append((o, ('current', value)))
            try:
                raise Boom(value)
            except Boom:
                event.errback()
        same(value, given, "the result which was given")

    with Errors() as errors:
        for op in case:
            if op[0] == 'wait':
                wait(op[1])
            elif op[0] == 'crowd':
                for _ in range(op[1]):
                    wait(None)
            elif op[0] == 'cancel' and waiting:
                o = waiting.pop(op[1] % len(waiting))
                if not o.late:
                    wantedOrder.append([o.ident])
                told.append((o, ('cancelled', None)))
                o.d.cancel()
            elif op[0] == 'fire':
                fire(op[1], op[2])
            for o in waiting:
                same(o.results, [], "results of one who still waits")
            for o, (kind, value) in told:
                if o.late:
                    o.late = False
                    o.watch(o.d)
                same(len(o.results), 1, "results of one who was told")
                status, got = o.results[0]
                if kind == 'ok':
                    require(status == 'ok' and got is value, "result %r", got)
                elif kind == 'failed':
                    require(status == 'failed' and got.value is value,
                            "result %r", got)
                elif kind == 'failure':
                    require(status == 'failed' and got is value,
                            "result %r", got)
                elif kind == 'current':
                    require(status == 'failed' and got.check(Boom) and
                            got.value.args == (value,), "result %r", got)
                else:
                    require(status == 'failed' and
                            got.check(defer.CancelledError), "result %r", got)
        same(sorted(order), sorted(i for group in wantedOrder for i in group),
             "who was told")
        for group in wantedOrder:
            same([i for i in order if i in group], group,
                 "order of those who were told at once")
    same(errors.failures, [], "errors logged")
    note.nontrivial(len(told) > 2)


SUBS = [
    Sub('history', lambda: st.lists(st.one_of(
        st.tuples(st.just('wait'),
                  st.sampled_from([None, None, 'wait', 'raise', 'change', 'late', 'fire'])),
        st.tuples(st.just('wait'), st.none()),
        st.tuples(st.just('crowd'), st.integers(1, 40)),
        st.tuples(st.just('fire'),
                  st.sampled_from(['callback', 'errback', 'current', 'exception']),
                  st.one_of(st.none(), st.integers(0, 9), st.just(()),
                            st.sampled_from(['', 'r\xe9sult', 'r' * 99,
                                             b'\xff', ['list']]))),
        st.tuples(st.just('cancel'), st.integers(0, 5)),
    ), min_size=2, max_size=15).map(tuple), check, 2000, 20000,
        examples=[(('crowd', 1100), ('fire', 'callback', 1), ('crowd', 300),
                   ('fire', 'errback', 2), ('fire', 'callback', 3))],
        rule="three or more were told"),
]
