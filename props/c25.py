"""
Modal classes dispatch methods on the mode of the instance.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.modal import Modal, ModalType, mode

RULE = ("Modal classes (derived from Modal, or only of its metaclass) with "
        "generated modes and methods, some modes derived from others, some "
        "without hooks of their own, with their own, an inherited or the "
        "default mode attribute and initial mode, subclasses (which add and "
        "extend modes) and mixins of them, and histories of calls, "
        "transitions (some of which fail) and assignments on several "
        "instances.")

METHODS = ['run', 'walk', '_move', '__call__', 'mode_', 'Stop', '__str__',
           '__len__', '_modes', 'x', 'm\xe9thode', 'method' * 15]
MODES = ['idle', 'busy', 'done', 'nil', 'occup\xe9', 'mode' * 20]
HOOKS = ['__enter__', '__exit__']


class Derived(mode):
    pass


class Refused(Exception):
    pass


class Unlucky(AttributeError):
    pass


def modes(definition, tag, attribute, doc):
    """
    The mode classes, and for each the labels of its own methods.
    """
    classes = {}
    labels = {}
    for modeName, methods, hooks, parent in definition:
        body = {'__module__': __name__, '__qualname__': 'X.' + modeName}
        if doc:
            body['__doc__'] = "The mode " + modeName
        own = {}
        base = mode
        if parent is not None and classes:
            parent = sorted(classes)[parent % len(classes)]
            base = classes[parent]
            own.update(labels[parent])
        elif len(methods) % 2:
            # Not necessarily derived from it directly.
            base = Derived

        def makeHook(name, label):
            def hook(self):
                self.log.append((name, label, getattr(self, attribute)))
                if self.refuse and self.refuse[0] == name:
                    raise self.refuse[1]()
            return hook
        for name in HOOKS:
            if name in hooks:
                own[name] = (tag, modeName, name)
                body[name] = makeHook(name, own[name])
        for method in methods:
            own[method] = (tag, modeName, method)

            def implementation(self, *a, _label=own[method], **kw):
                return _label, self, a, kw
            body[method] = implementation
        classes[modeName] = type(modeName, (base,), body)
        labels[modeName] = own
    return classes, labels


def overlay(effective, labels):
    """
    What the modes of a class do; those of its base classes are below.
    """
    result = dict((m, dict(e)) for m, e in effective.items())
    for modeName, own in labels.items():
        there = result.setdefault(modeName, {})
        there.update(own)
        for name in HOOKS:
            there.setdefault(name, None)
    return result


def build(definition, modeAttribute, initial, doc, where, modal, clash):
    """
    @param where: whether modeAttribute and initialMode are inherited from an
        ordinary class.
    @param modal: whether to derive from Modal.
    @param clash: methods of the class itself, which have no effect if there
        are any in a mode.
    """
    special = {'initialMode': initial}
    if modeAttribute is not None:
        special['modeAttribute'] = modeAttribute
    attrs = {'plain': 'plain value'}
    bases = [Modal] if modal else [object]
    if where == 'own':
        attrs.update(special)
    else:
        mixin = type('Mixin', (object,), special)
        if where == 'far':
            mixin = type('Derived', (mixin,), {})
        bases = [mixin] + [b for b in bases if b is not object]

    def normal(self, x):
        return ('normal', x)
    attrs['normal'] = normal
    for name in clash:
        attrs[name] = lambda self, *a, **kw: 'clash'
    classes, labels = modes(definition, 'Machine', modeAttribute or 'mode', doc)
    attrs.update(classes)
    attrs['__doc__'] = 'A modal class.'
    return ModalType('Machine', tuple(bases), attrs), labels


def check(case, note):
    (definition, modeAttribute, initial, other, doc, where, modal, extension,
     clash, ops) = case
    if not modal and modeAttribute is None:
        modeAttribute = 'mode'
    attribute = modeAttribute or 'mode'
    Machine, labels = build(definition, modeAttribute, initial, doc, where,
                            modal, clash)
    effective = overlay({'nil': dict.fromkeys(HOOKS)} if modal else {}, labels)
    Sub_ = type(Machine)('Sub_', (Machine,), {'extra': 1})
    Other = type(Machine)('Other', (Machine,), {'initialMode': other})
    Mixin = type('Mixin', (object,), {'mixed': 2})
    Starter = type('Starter', (object,), {'initialMode': initial})
    Far = type(Machine)('Far', (Mixin, Other), {})
    Back = type(Machine)('Back', (Starter, Far), {})
    more, moreLabels = modes(extension, 'Extended', attribute, doc)
    Extended = type(Machine)('Extended', (Machine,), more)
    Further = type(Machine)('Further', (Mixin, Extended), {})
    extended = overlay(effective, moreLabels)
    objects = []
    models = []
    for cls, start, known in [
            (Machine, initial, effective), (Sub_, initial, effective),
            (Other, other, effective), (Machine, initial, effective),
            (Far, other, effective), (Back, initial, effective),
            (Extended, initial, extended), (Further, initial, extended)]:
        obj = cls()
        obj.log = []
        obj.refuse = None
        objects.append(obj)
        models.append(dict(mode=start, log=[], modes=known))
        same(cls.initialMode, start, "initial mode")
    for op, which, name in ops:
        i = which % len(objects)
        obj, model = objects[i], models[i]
        known = model['modes']
        available = known.get(model['mode'], {})
        if op == 'call':
            modalOne = any(name in m for m in known.values())
            try:
                method = getattr(obj, name)
            except AttributeError:
                require(name not in available,
                        "no %r in mode %r", name, model['mode'])
                require(modalOne or name not in clash, "%r is missing", name)
                note('missing in this mode')
            else:
                if not modalOne and name in clash:
                    same(method(1, two=2), 'clash', "ordinary method")
                elif modalOne or name != '__str__':
                    require(name in available,
                            "%r found in mode %r", name, model['mode'])
                    got = method(1, two=2)
                    same((got[0], got[2:]),
                         (available[name], ((1,), {'two': 2})),
                         "call of %r in mode %r" % (name, model['mode']))
                    require(got[1] is obj, "called on something else")
        elif op == 'set':
            setattr(obj, attribute, name)
            model['mode'] = name
            note('mode set')
        elif op == 'class':
            if any(name in m for m in known.values()):
                try:
                    getattr(type(obj), name)
                except AttributeError:
                    pass
                else:
                    raise Violation("unbound modal method %r" % (name,))
        elif name in known and modal and model['mode'] in known:
            refused = op.split()[0]
            obj.refuse = None if op == 'go' else (
                refused, Unlucky if op.endswith('badly') else Refused)
            fails = False
            for hook, target in zip(HOOKS[::-1], (model['mode'], name)):
                if hook == '__enter__':
                    model['mode'] = name
                label = known[target][hook]
                if label is not None:
                    model['log'].append((hook, label, target))
                    if hook == refused:
                        fails = True
                        break
            try:
                obj.transitionTo(name)
            except (Refused, Unlucky) as e:
                require(fails and type(e) is obj.refuse[1], "%r failed", op)
                note('transition fails')
            else:
                require(not fails, "failure during %r is hidden", op)
            note('transition')
        for obj, model in zip(objects, models):
            same(getattr(obj, attribute), model['mode'], "mode")
            same(obj.log, model['log'], "transitions")
            same(obj.plain, 'plain value', "plain attribute")
            same(obj.normal(3), ('normal', 3), "normal method")
            for method in METHODS:
                if not any(method in m for m in model['modes'].values()):
                    if method != '__str__':
                        same(hasattr(obj, method), method in clash,
                             "whether it has %r" % (method,))
                else:
                    same(hasattr(obj, method),
                         method in model['modes'].get(model['mode'], ()),
                         "whether it has %r in mode %r" % (
                             method, model['mode']))
    same(Machine.__doc__, 'A modal class.', "documentation")
    same(Machine.__name__, 'Machine', "name")
    same((Far.mixed, Sub_.extra), (2, 1), "other attributes")
    note.nontrivial(len(definition) > 1 and
                    any(op in ('go', 'set') for op, w, name in ops))


@st.composite
def definitions(draw, least):
    result = []
    for modeName in draw(st.lists(st.sampled_from(MODES), min_size=least,
                                  max_size=3, unique=True)):
        result.append((
            modeName,
            tuple(draw(st.lists(st.sampled_from(METHODS), unique=True,
                                max_size=6))),
            draw(st.sampled_from([tuple(HOOKS)] * 4 + [
                (), ('__enter__',), ('__exit__',)])),
            draw(st.sampled_from([None, None, None, 0, 1]))))
    return tuple(result)


@st.composite
def cases(draw):
    definition = draw(definitions(1))
    extension = draw(definitions(0))
    names = [m[0] for m in definition]
    targets = sorted(set(names + [m[0] for m in extension] + ['nil']))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(['call', 'call', 'class']),
                  st.integers(0, 7), st.sampled_from(METHODS)),
        st.tuples(st.sampled_from(
            ['go'] * 5 + ['__exit__', '__enter__', '__exit__ badly',
                          '__enter__ badly']),
            st.integers(0, 7), st.sampled_from(targets)),
        st.tuples(st.just('set'), st.integers(0, 7),
                  st.sampled_from(names + ['unheard of', None, '', 0, False,
                                           1, ('idle',)]))),
        max_size=15))
    return (definition,
            draw(st.sampled_from([None, 'mode', 'state', '_current', '\xe9tat',
                                  'attribute' * 9])),
            draw(st.sampled_from(names)), draw(st.sampled_from(names)),
            draw(st.booleans()), draw(st.sampled_from(['own', 'mixin', 'far'])),
            draw(st.sampled_from([True, True, False])), extension,
            tuple(draw(st.lists(st.sampled_from(
                [m for m in METHODS if m not in ('__str__', '__len__')]),
                max_size=2, unique=True))), tuple(ops))


def checkRequired(case, note):
    """
    Both names are needed.
    """
    given = dict((k, 'idle') for k in case)
    try:
        ModalType('Machine', (object,), given)
    except TypeError:
        require(len(given) < 2, "refused")
    else:
        require(len(given) == 2, "accepted with %r only", case)
    note.nontrivial()


def checkFamily(case, note):
    """
    Modes of several base classes, in the order in which methods are resolved.
    """
    family, renamed, initial, ops = case
    classes = [(Modal, type('Modal', (object,), {}))]
    #: For each class, what its own body defines.
    own = {classes[0][1]: ({'nil': {}}, ())}
    for n, (definition, parents, plain) in enumerate(family):
        last = n == len(family) - 1
        chosen = []
        for p in parents:
            if p % len(classes) not in chosen:
                chosen.append(p % len(classes))
        if last:
            chosen = chosen or [0]
        chosen.sort(reverse=True)
        chosen = chosen or [0]
        shadow = type('C%d' % (n,), tuple(classes[i][1] for i in chosen), {})
        made, labels = modes(definition, 'C%d' % (n,), renamed or 'mode',
                             False)
        body = dict(made)
        for name in plain:
            body[name] = lambda self, *a, _n=n, **kw: ('plain', _n)
        if n == 0:
            body['initialMode'] = 'nil'
        if last:
            body['initialMode'] = initial
            if renamed:
                body['modeAttribute'] = renamed
        real = ModalType('C%d' % (n,), tuple(classes[i][0] for i in chosen),
                         body)
        classes.append((real, shadow))
        own[shadow] = (labels, plain)
    real, shadow = classes[-1]
    attribute = renamed or 'mode'
    known = {}
    for cls in shadow.__mro__[:-1]:
        for modeName in own[cls][0]:
            known.setdefault(modeName, {})
    plain = {}
    for method in METHODS + HOOKS:
        if method == '__str__':
            continue
        for i, cls in enumerate(shadow.__mro__[:-1]):
            labels, ordinary = own[cls]
            defined = [m for m in labels if method in labels[m]]
            for modeName in defined:
                known[modeName].setdefault(method, labels[modeName][method])
            if method in ordinary and not defined:
                if not any(method in m for m in known.values()):
                    plain[method] = ('plain', int(cls.__name__[1:]))
                break
    obj = real()
    obj.log = []
    obj.refuse = None
    current = initial
    log = []
    for assign, target in ops:
        if assign or current not in known or target not in known:
            setattr(obj, attribute, target)
            current = target
        else:
            for hook, where in (('__exit__', current), ('__enter__', target)):
                if known[where].get(hook) is not None:
                    log.append((hook, known[where][hook], where))
            obj.transitionTo(target)
            current = target
            note('transition')
        same(getattr(obj, attribute), current, "mode")
        same(obj.log, log, "transitions")
        for method in METHODS:
            if method == '__str__':
                continue
            got = getattr(obj, method, None)
            if method in plain:
                same(got(), plain[method], "ordinary method %r" % (method,))
                continue
            label = known.get(current, {}).get(method)
            same(got is not None, label is not None,
                 "whether it has %r in mode %r" % (method, current))
            if got is not None:
                same(got(1)[0], label, "call of %r in mode %r" % (
                    method, current))
    merged = [m for m in known if sum(
        1 for cls in shadow.__mro__[:-1] if m in own[cls][0]) > 1]
    if merged:
        note('a mode of several classes')
    if renamed:
        note('renamed')
    note.nontrivial(len(shadow.__mro__) > 4 and len(ops) > 1)


@st.composite
def families(draw):
    family = []
    for n in range(draw(st.integers(1, 5))):
        family.append((
            draw(definitions(0)),
            tuple(draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))),
            tuple(draw(st.sampled_from([(), (), (), ('run',), ('x',)])))))
    names = sorted(set(m[0] for d, b, p in family for m in d) | set(['nil']))
    return (tuple(family), draw(st.sampled_from([None, None, 'state', '\xe9tat'])),
            draw(st.sampled_from(names)),
            tuple(draw(st.lists(st.tuples(
                st.sampled_from([False, False, True]), st.sampled_from(names)),
                max_size=6))))


SUBS = [
    Sub('family', families, checkFamily, 800, 10000,
        rule="several classes and transitions"),
    Sub('machine', cases, check, 1500, 20000,
        rule="several modes, and a transition"),
    Sub('required', lambda: st.sets(st.sampled_from(
        ['initialMode', 'modeAttribute'])).map(lambda s: tuple(sorted(s))),
        checkRequired, 4, 4, rule="every case"),
]
