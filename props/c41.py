"""
Juice version negotiation.
"""
from hypothesis import strategies as st

from harness.core import Sub, require, same
from harness.net import Errors, Link, Outcome
from epsilon import juice

RULE = ("Lists of versions to offer and to support, negotiations begun by "
        "either side, one after another.")


def check(case, note):
    supported, rounds = case
    old = juice.VERSIONS
    juice.VERSIONS = list(supported)
    try:
        run(supported, rounds, note)
    finally:
        juice.VERSIONS = old


def run(supported, rounds, note):
    peers = [juice.Juice(False), juice.Juice(True)]
    link = Link(*peers)
    current = [0, 0]
    same([p.protocolVersion for p in peers], current, "versions")
    for side, how, versions in rounds:
        if link.down:
            break
        common = [v for v in versions if v in supported]
        with Errors() as errors:
            if how == 'renegotiate':
                try:
                    d = peers[side].renegotiateVersion(versions[0])
                except AssertionError:
                    require(versions[0] not in supported,
                            "version %r refused", versions[0])
                    same(link.transports[side].outgoing, b'', "sent")
                    note('own side does not support it')
                    continue
                require(versions[0] in supported, "version %r accepted",
                        versions[0])
                outcome = Outcome(d)
                link.flush()
                current = [versions[0]] * 2
                same(outcome.results, [('ok', versions[0])], "result")
            else:
                outcome = Outcome(
                    juice.Negotiate(versions=list(versions)).do(peers[side]))
                link.flush()
                same(len(outcome.results), 1, "results")
                status, value = outcome.results[0]
                if common:
                    same((status, value), ('ok', {'version': common[0]}),
                         "result of %r" % (versions,))
                    current[1 - side] = common[0]
                    note('agreed')
                else:
                    require(status == 'failed' and
                            value.check(juice.RemoteJuiceError),
                            "result of %r: %r", versions, value)
                    require(juice.IncompatibleVersions in errors.types(),
                            "not logged: %r", errors.failures)
                    note('incompatible')
        same([p.protocolVersion for p in peers], current, "versions")
        same(supported, tuple(juice.VERSIONS), "supported versions")
    note.nontrivial(len(rounds) > 1)


def versions():
    return st.lists(st.integers(0, 5), min_size=1, max_size=5).map(tuple)


SUBS = [
    Sub('negotiate', lambda: st.tuples(
        st.one_of(st.just((1,)), versions().map(
            lambda v: tuple(sorted(set(v))))),
        st.lists(st.tuples(st.integers(0, 1),
                           st.sampled_from(['renegotiate', 'command']),
                           versions()), min_size=1, max_size=5).map(tuple)),
        check, 1000, 10000, rule="more than one round"),
]
