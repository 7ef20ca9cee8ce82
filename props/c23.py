"""
attribute and requiredAttribute.
"""
from hypothesis import strategies as st

from harness.core import Sub, Violation, require, same
from epsilon.descriptor import attribute, requiredAttribute

RULE = ("Classes with several attributes which define any of get, set and "
        "delete, with inheritance among them, and histories of operations on "
        "several instances.")


def outcome(f, *args):
    try:
        return ('ok', f(*args))
    except AttributeError as e:
        return ('AttributeError', None)


def make(name, abilities):
    """
    An attribute backed by self.store, and the equivalent property.
    """
    body = {}
    log = '_log'
    if 'get' in abilities:
        def get(self):
            getattr(self, log).append(('get', name))
            return self.store[name]
        body['get'] = get
    if 'set' in abilities:
        def set(self, value):
            getattr(self, log).append(('set', name, value))
            self.store[name] = value
        body['set'] = set
    if 'delete' in abilities:
        def delete(self):
            getattr(self, log).append(('delete', name))
            self.store[name] = 'deleted'
        body['delete'] = delete
    descriptor = type(attribute)(name, (attribute,), dict(body))
    return descriptor, body


def check(case, note):
    definition, instances, ops = case
    attrs = {}
    bodies = {}
    for n, abilities in enumerate(definition):
        name = 'attr%d' % (n,)
        attrs[name], bodies[name] = make(name, abilities)

    class Base(object):
        def __init__(self):
            self.store = dict((k, 'initial') for k in attrs)
            self._log = []
    Owner = type('Owner', (Base,), dict(attrs))
    Child = type('Child', (Owner,), {'__len__': lambda self: 0,
                                     '__eq__': lambda self, other: True,
                                     '__hash__': None})
    models = []
    objects = []
    for n in range(instances):
        objects.append((Owner, Child)[n % 2]())
        models.append(dict((k, 'initial') for k in attrs))
    logs = [[] for _ in objects]
    for op, which, n, value in ops:
        i = which % len(objects)
        obj, model, log = objects[i], models[i], logs[i]
        name = 'attr%d' % (n % len(definition),)
        able = op in bodies[name]
        if op == 'get':
            got = outcome(getattr, obj, name)
            if able:
                log.append(('get', name))
                same(got, ('ok', model[name]), "value of " + name)
            else:
                same(got[0], 'AttributeError', "getting " + name)
        elif op == 'set':
            got = outcome(setattr, obj, name, value)
            if able:
                log.append(('set', name, value))
                model[name] = value
                same(got, ('ok', None), "setting " + name)
            else:
                same(got[0], 'AttributeError', "setting " + name)
        elif op == 'delete':
            got = outcome(delattr, obj, name)
            if able:
                log.append(('delete', name))
                model[name] = 'deleted'
                same(got, ('ok', None), "deleting " + name)
            else:
                same(got[0], 'AttributeError', "deleting " + name)
        note(op + (' possible' if able else ' impossible'))
        for obj, model, log in zip(objects, models, logs):
            same(obj.store, model, "the values")
            same(obj._log, log, "what was invoked")
            same(sorted(vars(obj)), ['_log', 'store'], "instance attributes")
    for name in attrs:
        require(getattr(Owner, name) is attrs[name],
                "%s of the class is %r", name, getattr(Owner, name))
        require(isinstance(attrs[name], attribute), "not an attribute")
    note.nontrivial(len(definition) > 1 and len(ops) > 3)


def checkSyntax(case, note):
    """
    As written in a class statement, with an attribute derived from another.
    """
    start, add, ops = case

    class Dynamo(object):
        class dynamic(attribute):
            "Documentation."
            def get(self):
                self.count += 1
                return self.count

            def set(self, value):
                self.count += value
        count = start
        class frozen(attribute):
            def get(self):
                return self.count
    d, e = Dynamo(), Dynamo()
    model = start
    for op in ops:
        if op is None:
            model += 1
            same(d.dynamic, model, "value")
        elif op == 'read':
            same(d.frozen, model, "value")
            same(outcome(setattr, d, 'frozen', 1)[0], 'AttributeError', "set")
        elif op == 'del':
            same(outcome(delattr, d, 'dynamic')[0], 'AttributeError', "del")
        else:
            d.dynamic = op
            model += op
        same(d.count, model, "count")
        same(e.count, start, "count of the other")
    note.nontrivial(len(ops) > 2)


def checkRequired(case, note):
    names, ops, overridden = case

    class Mixin(object):
        pass
    for name in names:
        setattr(Mixin, name, requiredAttribute(name))
    Derived = type('Derived', (Mixin,), dict(
        (name, ('class', name)) for name in overridden if name in names))
    Plain = type('Plain', (Mixin,), {'__bool__': lambda self: False})
    objects = [Mixin(), Plain(), Plain(), Derived()]
    models = [{} for _ in objects]
    for op, which, n, value in ops:
        i = which % len(objects)
        obj, model = objects[i], models[i]
        name = names[n % len(names)]
        supplied = isinstance(obj, Derived) and name in overridden
        if op == 'set':
            setattr(obj, name, value)
            model[name] = value
        elif op == 'del' and not supplied:
            same(outcome(delattr, obj, name)[0], 'AttributeError',
                 "deleting " + name)
        for j, (obj, model) in enumerate(zip(objects, models)):
            for name in names:
                if name in model:
                    same(getattr(obj, name), model[name], "value")
                elif isinstance(obj, Derived) and name in overridden:
                    same(getattr(obj, name), ('class', name), "value")
                else:
                    try:
                        v = getattr(obj, name)
                    except AttributeError as e:
                        require(name in str(e), "%r does not name %r", e, name)
                        require(not hasattr(obj, name), "hasattr")
                        same(getattr(obj, name, 5), 5, "default")
                    else:
                        raise Violation("%s is %r without being set" % (
                            name, v))
    note.nontrivial(any(models))


def values():
    return st.one_of(st.none(), st.integers(0, 9), st.just(''), st.just(()),
                     st.sampled_from(['v\xe4lue', b'\xff', 'v' * 99,
                                      ('\u2026',)]))


SUBS = [
    Sub('attribute', lambda: st.tuples(
        st.lists(st.lists(st.sampled_from(['get', 'set', 'delete']),
                          unique=True).map(tuple), min_size=1,
                 max_size=4).map(tuple),
        st.integers(1, 3),
        st.lists(st.tuples(st.sampled_from(['get', 'set', 'delete']),
                           st.integers(0, 2), st.integers(0, 3), values()),
                 max_size=10).map(tuple)),
        check, 1200, 12000, rule="several attributes, four or more operations"),
    Sub('syntax', lambda: st.tuples(
        st.integers(-3, 3), st.integers(0, 3),
        st.lists(st.one_of(st.none(), st.integers(-3, 3),
                           st.sampled_from(['read', 'del'])),
                 max_size=8).map(tuple)),
        checkSyntax, 300, 3000, rule="three or more operations"),
    Sub('required', lambda: st.tuples(
        st.lists(st.sampled_from(['foo', 'bar', 'expectedResult', '_x',
                                  'w\xe4rme', 'long' * 20]),
                 min_size=1, max_size=3, unique=True).map(tuple),
        st.lists(st.tuples(st.sampled_from(['set', 'set', 'del']),
                           st.integers(0, 3), st.integers(0, 2), values()),
                 max_size=8).map(tuple),
        st.lists(st.sampled_from(['foo', 'bar', '_x']), max_size=2,
                 unique=True).map(tuple)),
        checkRequired, 800, 8000, rule="something was set"),
]
