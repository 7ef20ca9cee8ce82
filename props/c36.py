"""
Tracing shows what a program does without changing it.
"""
import queue
import re
import signal
import sys
import threading

from hypothesis import strategies as st

from harness import scratch
from harness.core import Sub, Violation, require, same
from epsilon.spewer import SignalService, Spewer, Tracer

RULE = ("Generated programs of functions and methods with all kinds of "
        "parameters which call each other, return, and raise; histories of "
        "installing and uninstalling tracers and of signal services.")


class Boom(Exception):
    pass


class Unprintable(object):
    def __repr__(self):
        raise ValueError("can't")


class Thing(object):
    def __repr__(self):
        return '<thing>'

    def __len__(self):
        return 0


class Clueless(Thing):
    """
    It doesn't know its class.
    """
    @property
    def __class__(self):
        raise Boom("no class")


class Secretive(Thing):
    def __getattribute__(self, name):
        raise KeyError(name)


class Confused(Thing):
    __class__ = 7


class Foreign(Thing):
    def __repr__(self):
        return '<\xfc\u4e2d\ud800>'


SELVES = [Thing, Clueless, Secretive, Confused, Foreign]


SIGNATURES = [
    # parameters, how to pass three values, the names the values have
    ('a, b, c', '{0}, {1}, {2}', [('a', 0), ('b', 1), ('c', 2)]),
    ('a, b=None, c=None', '{0}, c={2}, b={1}', [('a', 0), ('b', 1), ('c', 2)]),
    ('*a', '{0}, {1}, {2}', [('a', (0, 1, 2))]),
    ('a, *b', '{0}, {1}, {2}', [('a', 0), ('b', (1, 2))]),
    ('a, **k', '{0}, x={1}, y={2}', [('a', 0), ('k', {'x': 1, 'y': 2})]),
    ('a, *b, **k', '{0}, {1}, y={2}',
     [('a', 0), ('b', (1,)), ('k', {'y': 2})]),
    ('a, *, b, c=None', '{0}, b={1}, c={2}', [('a', 0), ('b', 1), ('c', 2)]),
    ('a, *b, c, **k', '{0}, {1}, c={2}',
     [('a', 0), ('c', 2), ('b', (1,)), ('k', {})]),
    ('*, a, b, c=None, d=4, e=5', 'c={2}, b={1}, a={0}',
     [('a', 0), ('b', 1), ('c', 2), ('d', [4]), ('e', [5])]),
    # Many of them.
    ('a, ' + ', '.join('d%d=%d' % (n, n) for n in range(40)) + ', b=3, *c',
     '{0}, ' + ', '.join(str(n) for n in range(40)) + ', {1}, {2}',
     [('a', 0)] + [('d%d' % (n,), [n]) for n in range(40)] +
     [('b', 1), ('c', (2,))]),
]


def pick(shape, values):
    if isinstance(shape, list):
        return shape[0]
    if isinstance(shape, tuple):
        return tuple(values[i] for i in shape)
    if isinstance(shape, dict):
        return dict((k, values[i]) for k, i in shape.items())
    return values[shape]


def build(functions):
    """
    @param functions: (signature number, method?, calls, ending) tuples; calls
        are (function number relative to this one, values, catch?).
    """
    space = {'Boom': Boom, 'self_': Thing(), 'count': [0]}
    for n, (signature, method, calls, ending) in enumerate(functions):
        params = SIGNATURES[signature][0]
        lines = ['def fn_%d(%s):' % (n, ('self, ' if method else '') + params),
                 '    result = [%d]' % (n,)]
        for offset, values, catch in calls:
            target = n + 1 + offset
            if target >= len(functions):
                continue
            arguments = SIGNATURES[functions[target][0]][1].format(
                *['values_%d[%d]' % (len(space), i) for i in range(3)])
            space['values_%d' % (len(space),)] = values
            if functions[target][1]:
                arguments = 'self_, ' + arguments
            call = 'result.append(fn_%d(%s))' % (target, arguments)
            if catch:
                lines += ['    try:', '        ' + call, '    except Boom as e:',
                          '        result.append(e.args)']
            else:
                lines.append('    ' + call)
        lines.append({'value': '    return result', 'none': '    return None',
                      'zero': '    return 0', 'empty': '    return ()',
                      'false': '    return False', 'text': "    return ''",
                      'long': '    return [0] * 200',
                      'raise': '    raise Boom(%d)' % (n,),
                      'story': '    raise Boom(%d, "x" * 3000)' % (n,),
                      'falls': '    result = None'}[ending])
        exec('\n'.join(lines) + '\n', space)
    return space


def trace(space, functions, values):
    """
    What's expected to be seen: ('call', name, arguments), ('return', value),
    ('raise', exception args); and the program's own result.
    """
    events = []
    depths = []

    def run(n, values, depth=0):
        depths.append(depth)
        signature, method, calls, ending = functions[n]
        arguments = [(name, pick(shape, values))
                     for name, shape in SIGNATURES[signature][2]]
        if method:
            arguments.insert(0, ('self', '<thing>'))
        events.append(('call', ('props.c36.Thing.' if method else '') +
                       'fn_%d' % (n,), arguments))
        result = [n]
        for offset, inner, catch in calls:
            target = n + 1 + offset
            if target >= len(functions):
                continue
            try:
                result.append(run(target, inner, depth + 1))
            except Boom as e:
                events.append(('raise', e.args))
                if not catch:
                    raise
                result.append(e.args)
        if ending in ('raise', 'story'):
            arguments = (n,) if ending == 'raise' else (n, 'x' * 3000)
            events.append(('raise', arguments))
            raise Boom(*arguments)
        results = {'value': result, 'zero': 0, 'empty': (), 'false': False,
                   'text': '', 'long': [0] * 200}
        if ending in results:
            result = results[ending]
            events.append(('return', list(result) if result else result))
            return result
        return None
    try:
        result = ('ok', run(0, values))
    except Boom as e:
        result = ('raised', e.args)
    return events, result, depths


def revive(value):
    return Unprintable() if value == 'unprintable' else value


def checkSpew(case, note):
    functions, values = case[:2]
    who, encoding = case[2:] or (0, None)
    unprintable = [False]

    def live(values):
        if 'unprintable' in values:
            unprintable[0] = True
        return tuple(revive(v) for v in values)
    functions = tuple(
        (s, m, tuple((o, live(v), c) for o, v, c in calls), e)
        for s, m, calls, e in functions)
    values = live(values)
    space = build(functions)
    arguments = SIGNATURES[functions[0][0]][1].format(
        *['values[%d]' % (i,) for i in range(3)])
    if functions[0][1]:
        arguments = 'self_, ' + arguments
    space['values'] = values
    space['output'] = []
    space['self_'] = SELVES[who]()
    main = compile('output.append(fn_0(%s))' % (arguments,), 'main', 'exec')
    old = sys.gettrace(), threading.gettrace()
    spewer = Spewer()
    with scratch.quiet(encoding) as out:
        try:
            spewer.install()
            try:
                exec(main, space)
                result = ('ok', space['output'][0])
            except Boom as e:
                result = ('raised', e.args)
            finally:
                spewer.uninstall()
        finally:
            sys.settrace(old[0])
            threading.settrace(old[1])
    events, wanted, wantedDepths = trace(space, functions, values)
    same(result, wanted, "result of the program which was traced")
    got = []
    thread = '%X' % (id(threading.current_thread()),)
    for line in out.getvalue().splitlines():
        match = re.match(r'([0-9A-F]+) ( *)(.*)$', line)
        if match and match.group(1) == thread:
            got.append((len(match.group(2)), match.group(3)))
    calls = [(depth, text) for depth, text in got
             if re.match(r'[\w.]*fn_\d+\(', text)]
    wantedCalls = [e for e in events if e[0] == 'call']
    same([text.split('(')[0] for depth, text in calls],
         [name.replace('Thing', SELVES[who].__name__) for kind, name, arguments in wantedCalls], "calls")
    note.nontrivial(len(calls) > 1)
    if unprintable[0]:
        note('unprintable arguments')
        return
    if who or encoding:
        # How exactly it's shown isn't promised.
        same([depth - calls[0][0] for depth, text in calls], wantedDepths,
             "indentation of the calls")
        return
    # Everything, in order; ignoring what surrounds the program.
    texts = []
    for event in events:
        if event[0] == 'call':
            texts.append('%s(%s)' % (event[1], ', '.join(
                '%s=%s' % (k, v if k == 'self' else repr(v))
                for k, v in event[2])))
        elif event[0] == 'return':
            texts.append('<= %r' % (event[1],))
    seen = [text for depth, text in got
            if re.match(r"[\w.]*fn_\d+\(|<= (\[|0$|\(\)$|False$|''$)", text)]
    same(seen, texts, "what was shown of calls and return values")
    raised = [text for depth, text in got if text.startswith('^- ') and
              'Boom' in text]
    numbers = [re.search(r'Boom\((\d+)', text).group(1) for text in raised
               if re.search(r'Boom\((\d+)', text)]
    wantedNumbers = [str(e[1][0]) for e in events if e[0] == 'raise']
    for e, text in zip([e[1] for e in events if e[0] == 'raise'], raised):
        require(repr(Boom(*e)) in text, "exception %r shown as %r", e, text)
    # The last one gets out of the program, too.
    if wanted[0] == 'raised':
        wantedNumbers.append(wantedNumbers[-1])
    same(numbers, wantedNumbers, "exceptions shown")
    if any(e[0] == 'raise' for e in events):
        note('exceptions')
    # Depth tells who called whom.
    depths = [depth for depth, text in calls]
    same(depths, [depth + depths[0] for depth in wantedDepths],
         "indentation of the calls")


def checkThreads(case, note):
    """
    Several threads are traced at once, each with calls of its own.
    """
    levels, schedule = case
    gates = [queue.SimpleQueue() for n in levels]
    reports = queue.SimpleQueue()
    results = {}

    def fn(t, level):
        # These aren't Python functions, so they aren't shown.
        reports.put(None)
        gates[t].get()
        below = fn(t, level - 1) if level else []
        reports.put(None)
        gates[t].get()
        return below + [level]

    def run(t):
        try:
            results[t] = fn(t, levels[t])
        finally:
            reports.put(t)

    old = sys.gettrace(), threading.gettrace()
    spewer = Spewer()
    ended = []

    def wait():
        try:
            ended.append(reports.get(timeout=60))
        except queue.Empty:
            raise Violation("threads which are traced got stuck")
    with scratch.quiet() as out:
        try:
            threads = [threading.Thread(target=run, args=(t,), daemon=True)
                       for t in range(len(levels))]
            spewer.install()
            sys.settrace(None)
            for t in threads:
                t.start()
                wait()
            turns = list(schedule)
            while True:
                left = [t for t in range(len(levels)) if t not in ended]
                if not left:
                    break
                turn = left[turns.pop(0) % len(left)] if turns else left[0]
                gates[turn].put(None)
                wait()
            for t in threads:
                t.join(60)
        finally:
            spewer.uninstall()
            sys.settrace(old[0])
            threading.settrace(old[1])
    same(results, dict((t, list(range(n + 1)))
                       for t, n in enumerate(levels)),
         "results of the threads which were traced")
    for n, (t, thread) in enumerate(zip(levels, threads)):
        lines = []
        for line in out.getvalue().splitlines():
            match = re.match(r'([0-9A-F]+)( +)(.*)$', line)
            if match and match.group(1) == '%X' % (id(thread),):
                text = match.group(3)
                if re.match(r'(\w+\.)*fn\(', text):
                    lines.append((len(match.group(2)), 'call',
                                  text.split('(', 1)[1].split(', ')[1]))
                elif text.startswith('<= [0'):
                    lines.append((len(match.group(2)), 'return', text[3:]))
        base = lines[0][0] if lines else 0
        wanted = [(base + t - level, 'call', 'level=%d)' % (level,))
                  for level in range(t, -1, -1)]
        wanted += [(base + t - level, 'return', repr(list(range(level + 1))))
                   for level in range(t + 1)]
        same(lines, wanted, "what was shown of one thread")
    note.nontrivial(len([n for n in levels if n > 0]) > 1 and
                    len(set(schedule)) > 1)


class Recorder(Tracer):
    def __init__(self, policy):
        self.policy = policy
        self.events = []

    def _seen(self, kind, frame, arg):
        self.events.append((kind, frame.f_code.co_name))
        return self.skip if self.policy.get(kind) == 'skip' else \
            self.policy.get(kind)

    def trace_CALL(self, frame, arg):
        return self._seen('call', frame, arg)

    def trace_LINE(self, frame, arg):
        return self._seen('line', frame, arg)

    def trace_RETURN(self, frame, arg):
        return self._seen('return', frame, arg)

    def trace_EXCEPTION(self, frame, arg):
        return self._seen('exception', frame, arg)


def traced():
    x = 1
    try:
        raise Boom()
    except Boom:
        x += 1
    return x


def checkTracer(case, note):
    operations, policy = case
    policy = dict(policy)
    frame = sys._getframe()
    tracer = Recorder(policy)
    for event in ['call', 'line', 'return', 'exception']:
        got = tracer.trace(frame, event, None)
        wanted = policy.get(event)
        if wanted == 'skip':
            require(got is None, "trace() of a %s to be skipped: %r", event,
                    got)
        elif wanted is None:
            same(got, tracer.trace, "trace() of a %s" % (event,))
        else:
            require(got is wanted, "trace() of a %s: %r", event, got)
    same([k for k, n in tracer.events],
         ['call', 'line', 'return', 'exception'], "events")
    tracer = Recorder({'call': 'skip'} if policy.get('call') == 'skip' else {})
    old = sys.gettrace(), threading.gettrace()
    results = []
    try:
        installed = False
        for operation in operations:
            if operation == 'toggle':
                tracer.toggle()
                installed = not installed
            elif operation == 'install':
                tracer.install()
                installed = True
            elif operation == 'uninstall':
                tracer.uninstall()
                installed = False
            elif operation == 'foreign':
                # There's a debugger, too.
                if not installed:
                    sys.settrace(lambda frame, event, arg: None)
                    tracer.toggle()
                    installed = True
                    note('another tracer')
            else:
                del tracer.events[:]
                if operation == 'thread':
                    t = threading.Thread(target=traced)
                    t.start()
                    t.join()
                else:
                    traced()
                seen = [k for k, n in tracer.events if n == 'traced']
                results.append((operation, installed,
                                (seen.count('call'), seen.count('exception'),
                                 seen.count('return'), 'line' in seen)))
            state = (sys.gettrace(), threading.gettrace(), tracer.installed)
            results.append(('state', installed, state))
    finally:
        sys.settrace(old[0])
        threading.settrace(old[1])
    for operation, installed, seen in results:
        if operation == 'state':
            wanted = ((tracer.trace, tracer.trace, True) if installed
                      else (None, None, False))
            same(seen, wanted, "what's installed")
        elif not installed:
            same(seen, (0, 0, 0, False), "events while not installed")
        elif tracer.policy:
            same(seen, (1, 0, 0, False), "events of a call to be skipped")
        else:
            same(seen, (1, 1, 1, True), "events of a call")
    note.nontrivial(len(operations) > 2)


NUMBERS = [signal.SIGUSR1, signal.SIGUSR2, signal.SIGWINCH]
HARMLESS = [signal.SIGWINCH]


def checkSignals(case, note):
    initial, maps, operations = case
    hits = []

    def handler(name):
        if name == 'ignore':
            return signal.SIG_IGN
        if name == 'default':
            return signal.SIG_DFL
        return handlers.setdefault(name, lambda s, f: hits.append((name, s)))
    handlers = {}
    saved = dict((s, signal.getsignal(s)) for s in NUMBERS)
    try:
        current = {}
        for s, name in zip(NUMBERS, initial):
            signal.signal(s, handler(name))
            current[s] = handler(name)
        stack = []
        services = [SignalService(dict((NUMBERS[i], handler(name))
                                       for i, name in m)) for m in maps]
        for operation in operations:
            idle = [s for s in services
                    if s not in [x for x, old in stack]]
            if operation == 'stop' and stack:
                service, old = stack.pop()
                service.stopService()
                current = dict(current)
                current.update((NUMBERS[i], old[NUMBERS[i]]) for i, name in
                               maps[services.index(service)])
                require(not service.running, "running after stopService")
            elif isinstance(operation, tuple):
                # Something else has its own ideas.
                which, name = operation
                signal.signal(NUMBERS[which], handler(name))
                current = dict(current)
                current[NUMBERS[which]] = handler(name)
                note('changed by something else')
            elif operation != 'stop' and idle:
                service = idle[operation % len(idle)]
                stack.append((service, current))
                service.startService()
                current = dict(current)
                current.update(
                    (NUMBERS[i], handler(name)) for i, name in
                    maps[services.index(service)])
                require(service.running, "not running after startService")
                if len(stack) > 1:
                    note('nested')
            for s in NUMBERS:
                require(signal.getsignal(s) is current[s] or
                        signal.getsignal(s) == current[s],
                        "handler of %r: %r", s, signal.getsignal(s))
                if current[s] == signal.SIG_DFL and s not in HARMLESS:
                    continue
                del hits[:]
                signal.raise_signal(s)
                wanted = [(n, s) for n, h in handlers.items()
                          if h is current[s]]
                same(hits, wanted, "handlers which were run")
    finally:
        for s, old in saved.items():
            signal.signal(s, old)
    note.nontrivial(len(operations) > 2)


def values():
    plain = st.one_of(st.integers(0, 9), st.text('xy', max_size=2), st.none(),
                      st.booleans())
    last = st.integers(0, 15).flatmap(
        lambda n: plain if n != 7 else st.just('unprintable'))
    return st.tuples(plain, plain, last)


def programs():
    calls = st.lists(st.tuples(st.integers(0, 2), values(), st.booleans()),
                     max_size=3).map(tuple)
    return st.lists(st.tuples(
        st.integers(0, len(SIGNATURES) - 1), st.booleans(), calls,
        st.sampled_from(['value', 'value', 'none', 'raise', 'falls', 'zero',
                         'empty', 'false', 'text', 'story', 'long'])),
        min_size=1, max_size=4).map(tuple)


def chain(length, ending):
    """
    Functions each of which calls the next.
    """
    return tuple((n % 3, n % 5 == 0, ((0, (n, 'x', None), n % 7 == 0),),
                  ending if n == length - 1 else 'value')
                 for n in range(length)), (1, 2, 3)


SUBS = [
    Sub('spew', lambda: st.tuples(programs(), values()), checkSpew, 800, 8000,
        rule="more than one call",
        examples=[chain(120, 'value'), chain(100, 'raise'),
                  chain(60, 'story')]),
    Sub('hostile', lambda: st.tuples(
        programs(), values(), st.integers(0, len(SELVES) - 1),
        st.sampled_from([None, 'ascii', 'latin-1', 'utf-8', 'utf-16'])),
        checkSpew, 300, 3000, rule="more than one call"),
    Sub('threads', lambda: st.tuples(
        st.lists(st.integers(0, 3), min_size=1, max_size=4).map(tuple),
        st.lists(st.integers(0, 3), max_size=24).map(tuple)),
        checkThreads, 150, 1500,
        rule="two threads with calls which take turns"),
    Sub('tracer', lambda: st.tuples(
        st.lists(st.sampled_from(['toggle', 'install', 'uninstall', 'call',
                                  'thread', 'call', 'foreign']), max_size=8).map(tuple),
        st.lists(st.tuples(
            st.sampled_from(['call', 'line', 'return', 'exception']),
            st.sampled_from(['skip', 'other'])), max_size=3,
            unique_by=lambda p: p[0]).map(tuple)),
        checkTracer, 400, 4000, rule="three or more operations"),
    Sub('signals', lambda: st.tuples(
        st.tuples(*[st.sampled_from(['ignore', 'default', 'a', 'b'])] * 3),
        st.lists(st.lists(st.tuples(
            st.integers(0, 2), st.sampled_from(['ignore', 'default', 'c',
                                             'd'])),
            max_size=3, unique_by=lambda p: p[0]).map(tuple),
            min_size=1, max_size=3).map(tuple),
        st.lists(st.one_of(st.just('stop'), st.just('stop'),
                           st.integers(0, 2), st.integers(0, 2), st.tuples(
                               st.integers(0, 2),
                               st.sampled_from(['e', 'f', 'ignore',
                                                'default']))),
                 max_size=12).map(tuple)),
        checkSignals, 600, 6000, rule="three or more operations",
        examples=[
            (('a',) * 3, (((0, 'c'), (1, how), (2, 'd')),),
             (0, 'stop', (0, 'e'), (1, 'f'), 0, 'stop', (1, 'ignore'),
              (2, 'default'), 0, 'stop')) for how in ('c', 'ignore')]),
]
