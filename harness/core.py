"""
The driver shared by all checks.

A property module (props/cNN.py) lists sub-checks.  A sub-check is a Hypothesis
strategy which generates cases made of plain Python literals, and a function
which runs one case against the real code and compares what it observes with
an oracle, raising Violation if they disagree.  Because cases are literals, a
(shrunk) failing case is written to a replay file as text, and is replayed
without Hypothesis.
"""
import argparse
import ast
import errno
import hashlib
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLES = 4

# No case takes more than a fraction of a second, or much memory, unless the
# code under test doesn't terminate.
PATIENCE = 100
MEMORY = 12 * 2 ** 30


class Violation(Exception):
    """
    What was observed contradicts the property.
    """


class HarnessError(Exception):
    """
    The check is unable to do its work; says nothing about the property.
    """


def require(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def same(got, expected, what):
    if not (got == expected):
        raise Violation("%s: got %r, expected %r" % (what, got, expected))


class Note(object):
    """
    What one execution of a case reports about itself.
    """
    def __init__(self):
        self.labels = set()
        self.isNontrivial = False

    def __call__(self, label):
        self.labels.add(label)

    def nontrivial(self, condition=True):
        if condition:
            self.isNontrivial = True


class Sub(object):
    """
    One generated sub-check of a property.

    @ivar strategy: zero-argument callable returning a Hypothesis strategy.
    @ivar check: callable(case, note), raising Violation.
    @ivar quick, thorough: the number of cases to generate (thorough: in each
        of the shards).
    @ivar examples: cases which are always run first.
    @ivar rule: what makes a case non-trivial.
    """
    def __init__(self, name, strategy, check, quick, thorough=None,
                 examples=(), rule=''):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.examples = list(examples)
        self.rule = rule


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0

    def asDict(self):
        return dict(evaluations=self.evaluations,
                    nontrivial=sorted(self.nontrivial),
                    labels=self.labels, samples=self.samples,
                    skipped=self.skipped)


class Failed(Exception):
    """
    A case violated the property.
    """
    def __init__(self, sub, case, text, related=()):
        Exception.__init__(self, text)
        self.sub = sub
        self.case = case
        self.text = text
        self.related = list(related)


def repoFrames(tb, repo):
    prefix = os.path.join(repo, "epsilon") + os.sep
    return any(f.filename.startswith(prefix) for f in traceback.extract_tb(tb))


def isHarnessProblem(exc, repo):
    """
    Is this exception, raised by running a case, the fault of the check or of
    the machine, rather than of the code under test?
    """
    if isinstance(exc, Violation):
        return False
    if isinstance(exc, (HarnessError, KeyboardInterrupt)):
        return True
    if isinstance(exc, MemoryError):
        # The limit is far more than any check needs.
        return not repoFrames(exc.__traceback__, repo)
    if isinstance(exc, OSError) and exc.errno in (
            errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT,
            errno.ENOMEM, errno.EROFS):
        return True
    if repoFrames(exc.__traceback__, repo):
        return False
    return isinstance(exc, (ImportError, NameError, SyntaxError))


def digest(sub, case):
    return hashlib.sha1(
        (sub.name + "\0" + repr(case)).encode("utf-8", "surrogatepass")
    ).hexdigest()[:16]


class Watchdog(object):
    """
    Ends the process, with a report, if one case takes forever.

    @ivar report: callable(Failed) to run before that.
    """
    report = None

    def __init__(self):
        self.pid = os.getpid()
        self.current = None

    def install(self, report):
        self.report = report
        signal.signal(signal.SIGALRM, self.alarm)
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        if hard == resource.RLIM_INFINITY or hard > MEMORY:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))

    def start(self, sub, case):
        if self.report is not None:
            self.current = (sub, case)
            signal.setitimer(signal.ITIMER_REAL, PATIENCE)

    def stop(self):
        if self.report is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def alarm(self, number, frame):
        if os.getpid() != self.pid:
            os._exit(70)
        sys.settrace(None)
        sub, case = self.current
        text = "not done after %d seconds:\n%s" % (
            PATIENCE, "".join(traceback.format_stack(frame)))
        self.report(Failed(sub, case, text))


watchdog = Watchdog()


def execute(sub, case, stats=None):
    """
    Run one case; update the statistics if it passes or fails as a case.
    """
    note = Note()
    watchdog.start(sub, case)
    try:
        sub.check(case, note)
    except (SystemExit, GeneratorExit) as exc:
        # Not meant for the check itself.
        raise Violation("%r was raised" % (exc,)).with_traceback(
            exc.__traceback__)
    finally:
        watchdog.stop()
        if stats is not None:
            stats.evaluations += 1
            for label in note.labels:
                key = sub.name + ": " + label
                stats.labels[key] = stats.labels.get(key, 0) + 1
            if note.isNontrivial:
                stats.nontrivial.add(digest(sub, case))


def runSub(sub, seed, count, stats, repo, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky, HypothesisException

    for case in sub.examples:
        try:
            execute(sub, case, stats)
        except Exception as exc:
            if isHarnessProblem(exc, repo):
                raise
            raise Failed(sub, case, describe(exc))

    if not count:
        return
    failures = []
    recent = []
    # The stats of a failing run are those up to its first failure.
    wanted = [1, max(2, count // 7), max(3, count // 3), max(4, count // 2)]
    state = dict(n=0)

    @hypothesis.seed(seed)
    @settings(max_examples=count, database=None, deadline=None,
              phases=[Phase.generate] + (
                  [] if os.environ.get("VERIF_SHRINK") == "0" else
                  [Phase.shrink]),
              report_multiple_bugs=False, print_blob=False,
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.large_base_example,
                                     HealthCheck.data_too_large])
    @given(sub.strategy())
    def test(case):
        counting = not failures
        if counting:
            if time.monotonic() > deadline:
                stats.skipped += 1
                return
            state['n'] += 1
            if state['n'] in wanted and len(stats.samples) < 40:
                text = repr(case)
                stats.samples.append("%s: %s" % (
                    sub.name, text if len(text) < 600 else text[:600] + '...'))
            recent.append(case)
            del recent[:-20]
        try:
            execute(sub, case, stats if counting else None)
        except Exception as exc:
            if isHarnessProblem(exc, repo):
                raise
            failures.append((case, describe(exc)))
            raise Violation(describe(exc)) from exc

    try:
        test()
    except Violation:
        case, text = failures[-1]
        raise Failed(sub, case, text)
    except Flaky:
        if not failures:
            raise
        case, text = min(failures, key=lambda f: len(repr(f[0])))
        # It only fails after other cases: state leaks from one to the next.
        raise Failed(sub, case, text + "\n(only after other cases)", recent)
    except HypothesisException as exc:
        raise HarnessError("%s: %s: %s" % (sub.name, type(exc).__name__, exc))


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    return "".join(traceback.format_exception(type(exc), exc,
                                              exc.__traceback__)).strip()


def writeReplay(prop, failed):
    directory = os.environ.get("VERIF_REPLAYS") or os.path.join(HERE, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "%s-%s-%s.json" % (
        prop, failed.sub.name, digest(failed.sub, failed.case)))
    with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(dict(property=prop, sub=failed.sub.name,
                       case=ascii(failed.case),
                       related=[ascii(c) for c in failed.related],
                       error=failed.text,
                       command="%s %s %s --replay %s" % (
                           sys.executable, os.path.join(HERE, "run.py"), prop,
                           path)),
                  f, indent=1)
    return path


def findings(prop):
    """
    The known findings of this property: a list of dicts.
    """
    result = []
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry["property"] == prop and entry["status"] == "known":
                        result.append(entry)
    return result


def reportFindings(prop, subs, repo):
    """
    Print a line for each known finding which still fails.
    """
    byName = dict((s.name, s) for s in subs)
    for entry in findings(prop):
        sub = byName[entry["sub"]]
        try:
            execute(sub, ast.literal_eval(entry["case"]))
        except Exception as exc:
            if isHarnessProblem(exc, repo):
                raise
            print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))


class Unimportable(object):
    """
    Stands for a property module, if the code it is about fails when imported.
    """
    RULE = "Importing the code."

    def __init__(self, text):
        from hypothesis import strategies as st

        def check(case, note):
            raise Violation(text)
        self.SUBS = [Sub("import", lambda: st.just(("import",)), check, 1, 1)]


def load(prop):
    from harness import bootstrap
    try:
        module = importlib.import_module("props." + prop.lower())
    except Exception as exc:
        tb = exc.__traceback__
        inside = os.path.join(bootstrap.REPO, "epsilon") + os.sep
        if not (repoFrames(tb, bootstrap.REPO) or str(getattr(
                exc, "filename", None)).startswith(inside)):
            raise
        return Unimportable("the code can't even be imported: %s" % (
            "".join(traceback.format_exception(exc)).strip(),))
    import epsilon
    where = os.path.realpath(os.path.dirname(epsilon.__file__))
    if where != os.path.realpath(os.path.join(bootstrap.REPO, "epsilon")):
        raise HarnessError("testing the wrong tree: " + where)
    return module


def validatedSubs(module):
    return list(module.SUBS)


def replay(prop, path):
    from harness import bootstrap
    module = load(prop)
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    found = [s for s in module.SUBS if s.name == data["sub"]]
    if data["sub"] == "import" and not found:
        print("property %s holds for this case" % (prop,))
        return 0
    [sub] = found

    def hangs(failed):
        os.write(1, ("%s\nVIOLATION property=%s replay=%s\n" % (
            failed.text, prop, path)).encode("utf-8", "backslashreplace"))
        os._exit(1)

    watchdog.install(hangs)
    for text in data["related"]:
        try:
            execute(sub, ast.literal_eval(text))
        except Exception:
            pass
    try:
        execute(sub, ast.literal_eval(data["case"]))
    except Exception as exc:
        if isHarnessProblem(exc, bootstrap.REPO):
            raise
        print(describe(exc))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("property %s holds for this case" % (prop,))
    return 0


def explore(prop, tier, seed, shard, stats):
    """
    Run all the sub-checks in this process.
    """
    from harness import bootstrap
    module = load(prop)
    budget = (float(os.environ.get("VERIF_BUDGET", 0)) or
              (300.0 if tier == "quick" else 2400.0))
    end = time.monotonic() + budget
    for index, sub in enumerate(module.SUBS):
        count = sub.quick if tier == "quick" else sub.thorough
        # Every sub-check gets a share of what is left of the time budget;
        # running out of it is no violation, just less explored.
        now = time.monotonic()
        deadline = now + max(5.0, (end - now) / (len(module.SUBS) - index) * 2)
        runSub(sub, seed * 1000003 + shard * 7919 + index, count, stats,
               bootstrap.REPO, min(deadline, end))
    return module


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                        choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int,
                        default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--replay")
    parser.add_argument("--shard", type=int, default=0)
    parser.add_argument("--shards", type=int, default=None)
    parser.add_argument("--partial", help=argparse.SUPPRESS)
    opts = parser.parse_args(argv)
    try:
        if opts.replay:
            return replay(opts.property, opts.replay)
        return run(opts)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the check itself failed" % (opts.property,))
        return 2


def run(opts):
    from harness import bootstrap
    started = time.monotonic()
    prop = opts.property
    shards = opts.shards
    if shards is None:
        shards = 1 if opts.tier == "quick" else (os.cpu_count() or 1)

    stats = Stats()
    failed = None

    def hangs(failed):
        path = writeReplay(prop, failed)
        if opts.partial:
            with open(opts.partial, "w") as f:
                json.dump(dict(stats=stats.asDict(), path=path,
                               text=failed.text), f)
        else:
            writeEvidence(opts, load(prop), stats, time.monotonic() - started,
                          1, shards)
            os.write(1, ("%s\nVIOLATION property=%s replay=%s\n" % (
                failed.text, prop, path)).encode(
                    "utf-8", "backslashreplace"))
        os._exit(1)

    if shards == 1 or opts.partial:
        watchdog.install(hangs)
        try:
            module = explore(prop, opts.tier, opts.seed, opts.shard, stats)
        except Failed as exc:
            failed = exc
            module = load(prop)
        path = writeReplay(prop, failed) if failed is not None else None
        text = failed.text if failed is not None else None
        if opts.partial:
            with open(opts.partial, "w") as f:
                json.dump(dict(stats=stats.asDict(), path=path, text=text), f)
            return 1 if failed is not None else 0
    else:
        module = load(prop)
        path, text = runShards(opts, shards, stats)

    reportFindings(prop, module.SUBS, bootstrap.REPO)
    writeEvidence(opts, module, stats, time.monotonic() - started,
                  1 if path else 0, shards)
    print("%s %s seed=%d: %d cases, %d distinct and non-trivial, %.1f s" % (
        prop, opts.tier, opts.seed, stats.evaluations, len(stats.nontrivial),
        time.monotonic() - started))
    if stats.skipped:
        print("time budget: %d cases not run" % (stats.skipped,))
    if path:
        print(text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not stats.nontrivial:
        raise HarnessError("no non-trivial case was generated")
    return 0


def runShards(opts, shards, stats):
    path = text = None
    with tempfile.TemporaryDirectory() as scratch:
        children = []
        for n in range(shards):
            partial = os.path.join(scratch, "%d.json" % (n,))
            children.append((partial, subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), opts.property,
                 "--tier", opts.tier, "--seed", str(opts.seed),
                 "--shard", str(n), "--partial", partial],
                stdout=subprocess.DEVNULL)))
        for partial, child in children:
            code = child.wait()
            if code not in (0, 1) or not os.path.exists(partial):
                for _, other in children:
                    if other.poll() is None:
                        other.kill()
                raise HarnessError("shard failed with status %r" % (code,))
            with open(partial) as f:
                data = json.load(f)
            part = data["stats"]
            stats.evaluations += part["evaluations"]
            stats.nontrivial.update(part["nontrivial"])
            stats.skipped += part["skipped"]
            for label, n in part["labels"].items():
                stats.labels[label] = stats.labels.get(label, 0) + n
            stats.samples.extend(part["samples"][:SAMPLES])
            if data["path"] and path is None:
                path, text = data["path"], data["text"]
    return path, text


def writeEvidence(opts, module, stats, wall, violations, shards):
    level = getattr(module, "LEVEL", "exploration")
    rules = [module.RULE] if getattr(module, "RULE", "") else []
    rules += ["%s: %s" % (s.name, s.rule) for s in module.SUBS if s.rule]
    data = dict(
        property=opts.property, tier=opts.tier, seed=opts.seed, level=level,
        coverage=dict(
            evaluations=stats.evaluations,
            distinct_nontrivial=len(stats.nontrivial),
            rule=" ".join(rules),
            samples=stats.samples or [
                "%s: %r" % (s.name, c) for s in module.SUBS
                for c in s.examples[:1]],
            classes=dict(sorted(stats.labels.items())),
            subchecks=dict((s.name, s.quick if opts.tier == "quick"
                            else s.thorough) for s in module.SUBS),
            shards=shards,
            not_run_for_lack_of_time=stats.skipped),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(wall, 3),
        violations=violations)
    directory = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(directory, exist_ok=True)
    target = os.path.join(directory, opts.property + ".json")
    temporary = target + ".tmp"
    with open(temporary, "w", encoding="utf-8",
              errors="backslashreplace") as f:
        json.dump(data, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.rename(temporary, target)
