import inspect
import sys
import types
from engine.core import Test

RULE = ('A case is a generated module (classes in a random hierarchy, nested classes, functions, signatures), or a chain of closures. Non-trivial: some class has a subclass, a '
        'constructor has a parameter, a name is nested, or a closure is unwrapped.')
ASSUMPTIONS = ['constructors written in python whose first parameter is self, as those of builtin classes cannot be introspected in the same way in all interpreters',
               'the classes are alive when their subclasses are asked for', 'the order and the multiplicity of the subclasses are not compared']

NAMES = ['a', 'b', 'x', 'y', 'self_', 'n_jobs', '_p', 'args1']
CLASSES = ['C', 'Company', 'Base', '_Private', 'Nan', 'X9']


def gen_signature(d):
    names = d.sample(NAMES, 0, 5)
    ndef = d.int(0, len(names))
    return (names, ndef, d.choice([None, None, 'args']), d.choice([None, None, 'kwargs']), d.choice([[], [], ['kw1'], ['kw1', 'kw2']]) if d.bool(0.5) else [])


def signature_text(sig, first):
    names, ndef, varargs, varkw, kwonly = sig
    parts = list(first)
    for i, n in enumerate(names):
        j = i - (len(names) - ndef)
        parts.append(n if j < 0 else '%s=%d' % (n, j + 10))
    if varargs:
        parts.append('*' + varargs)
    elif kwonly:
        parts.append('*')
    parts += ['%s=%d' % (k, i) for i, k in enumerate(kwonly)]
    if varkw:
        parts.append('**' + varkw)
    return ', '.join(parts)


def spec_of(sig, first):
    names, ndef, varargs, varkw, _ = sig
    defaults = tuple(range(10, 10 + ndef)) or None
    return list(first) + list(names), varargs, varkw, defaults, list(names[:len(names) - ndef])


def gen(d):
    classes = []
    for i in range(d.int(1, 6)):
        bases = sorted(d.sample(range(i), 0, 2), reverse=True) if i else []
        classes.append((d.choice(CLASSES), bases, gen_signature(d) if d.bool(0.6) else None, d.bool(0.3), gen_signature(d)))
    return classes, d.choice(['c32generated', 'c32generated.sub', 'c32generated.sub.module']), d.bool(0.5)


def resolve(module, name, made):
    mod, path = made[1], name[len(module) + 1:]
    obj = mod
    for part in path.split('.'):
        obj = obj.__dict__[part] if isinstance(obj, types.ModuleType) else getattr(obj, part)
    return obj


NOT_FUNCTIONS = [3, None, 'text', [], {}]


def judge(case, ctx):
    from whatami import fqn, init_argspec, getargspec
    from whatami.misc import all_subclasses, required_args
    classes, module, late = case
    # distinct names, so that all the classes stay reachable
    names = ['%s%d' % (c[0], i) for i, c in enumerate(classes)]
    mod = types.ModuleType(module)
    shown = {}
    parents = {}
    live = {}

    def define(i):
        base, bases, init, nested, sig = classes[i]
        bs = []
        for b in bases:
            if not any(b in ancestors(x) for x in bs):
                bs.append(b)
        parents[i] = bs
        lines = ['class %s(%s):' % (names[i], ', '.join(names[b] for b in bs) or 'object'), '    member = %d' % i]
        if init is not None:
            lines += ['    def __init__(%s):' % signature_text(init, ['self']), '        pass']
        lines += ['    def method(%s):' % signature_text(sig, ['self']), '        pass']
        if nested:
            lines += ['    class Inner(object):', '        class Innermost(object):', '            def __init__(self, a, b=2):', '                pass']
        lines += ['def function%d(%s):' % (i, signature_text(sig, [])), '    def inside():', '        pass', '    return inside']
        exec(compile('\n'.join(lines), '<generated>', 'exec'), mod.__dict__)
        live[i] = mod.__dict__[names[i]]

    def ancestors(i):
        out = {i}
        for b in parents[i]:
            out |= ancestors(b)
        return out

    def check_subclasses():
        for i in live:
            expected = set(j for j in live if j != i and i in ancestors(j))
            got = all_subclasses(live[i])
            ctx.check(isinstance(got, list), 'not a list: %r', got)
            ctx.eq(sorted(set(c.__name__ for c in got)), sorted(names[j] for j in expected), 'subclasses of %s' % names[i])
            ctx.check(all(any(c is live[j] for j in expected) for c in got), 'other classes as subclasses of %s: %r', names[i], got)
            if expected:
                ctx.interesting(True)

    sys.modules[module] = mod
    try:
        order = list(range(len(classes)))
        for i in order:
            define(i)
            if late:
                check_subclasses()
        check_subclasses()
        for i in order:
            cls = live[i]
            prefix = module + '.'
            ctx.eq(fqn(cls), prefix + names[i], 'fqn of a class')
            ctx.eq(fqn(cls, use_class=True), 'builtins.type', 'fqn of the class of a class')
            ctx.eq(fqn(cls.method), prefix + names[i] + '.method', 'fqn of a method')
            f = mod.__dict__['function%d' % i]
            ctx.eq(fqn(f), prefix + 'function%d' % i, 'fqn of a function')
            instance = cls.__new__(cls)
            ctx.eq(fqn(instance, use_class=True), prefix + names[i], 'fqn of the class of an instance')
            ctx.raises(AttributeError, lambda: fqn(instance), 'fqn of an instance')
            instance.__name__ = 'given'
            ctx.eq(fqn(instance), prefix + 'given', 'fqn of an instance with a name')
            for asked in (cls, f, cls.method):
                ctx.check(resolve(module, fqn(asked), (None, mod)) is asked, 'the fqn %r does not lead to %r', fqn(asked), asked)
            if classes[i][3]:
                ctx.interesting(True)
                inner = cls.__dict__['Inner'].__dict__['Innermost']
                ctx.eq(fqn(inner), prefix + names[i] + '.Inner.Innermost', 'fqn of a nested class')
                ctx.eq(list(init_argspec(inner))[-1], ['a'], 'required parameters of a nested class')
            # constructors
            owner = next((j for j in mro(cls, live) if classes[j][2] is not None), None)
            if owner is not None:
                args, varargs, varkw, defaults, required = spec_of(classes[owner][2], ['self'])
                for what, obj in (('class', cls), ('instance', instance)):
                    got = init_argspec(obj)
                    ctx.eq(len(got), 5, 'parts of the constructor')
                    ctx.eq(list(got[0]), args, 'parameters of the constructor from the ' + what)
                    ctx.eq((got[1], got[2]), (varargs, varkw), 'variadic parameters of the constructor from the ' + what)
                    ctx.eq(got[3], defaults, 'defaults of the constructor from the ' + what)
                    ctx.eq(list(got[4]), required, 'required parameters of the constructor from the ' + what)
                ctx.interesting(len(args) > 1)
                ctx.label('constructor own' if owner == i else 'constructor inherited')
            else:
                odd = type('Odd', (cls,), {'__init__': NOT_FUNCTIONS[i % len(NOT_FUNCTIONS)]})
                ctx.eq([list(part) for part in init_argspec(odd)], [[]] * 5, 'constructor that cannot be inspected')
            # functions
            args, varargs, varkw, defaults, required = spec_of(classes[i][4], [])
            got = getargspec(f)
            ctx.eq((list(got[0]),) + tuple(got[1:]), (args, varargs, varkw, defaults), 'signature of a function')
            ctx.eq(len(got), 4, 'parts of the signature')
            ctx.eq(list(required_args(f)), required, 'required parameters of a function')
            ctx.eq(list(required_args(cls.method)), ['self'] + required, 'required parameters of a method')
    finally:
        sys.modules.pop(module, None)


def mro(cls, live):
    return [j for c in cls.__mro__ for j in live if live[j] is c]


# --- Closures and iterables

def gen_closure(d):
    layers = [d.choice(['what', 'what', 'plain', 'two', 'value', 'other']) for _ in range(d.int(0, 4))]
    return d.choice(['function', 'function', 'closure', 'lambda']), layers


def judge_closure(case, ctx):
    from whatami.misc import extract_decorated_function_from_closure, is_closure, callable2call
    core, layers = case

    def function(a, b=3):
        return a, b

    free = 7

    def closing(a, b=5):
        return a, b, free
    f = {'function': function, 'closure': closing, 'lambda': lambda a, b=4: 3}[core]
    ctx.eq(is_closure(f), core == 'closure', 'is_closure of the innermost')
    chain = [f]
    for i, layer in enumerate(layers):
        chain.append(wrap(chain[-1], layer, i))
        ctx.check(is_closure(chain[-1]) is True, 'a closure taken for something else')
    # reference: unwrap while the only thing enclosed is a function and there is a what
    expected = chain[-1]
    for i in range(len(layers) - 1, -1, -1):
        if layers[i] != 'what':
            break
        expected = chain[i]
    got = extract_decorated_function_from_closure(chain[-1])
    ctx.check(got is expected, 'extracted %r from %r, expected %r', got, layers, expected)
    ctx.interesting(expected is not chain[-1])
    asked = []

    def extractor(c):
        asked.append(c)
        return f
    name, params = callable2call(chain[-1], closure_extractor=extractor)
    if layers or core == 'closure':
        ctx.check(len(asked) == 1 and asked[0] is chain[-1], 'the closure extractor got %r', asked)
    else:
        ctx.eq(asked, [], 'closures extracted')
    ctx.eq((name, params), ({'function': 'function', 'closure': 'closing', 'lambda': 'lambda'}[core], {'b': {'function': 3, 'closure': 5, 'lambda': 4}[core]}), 'the call with an extractor')
    for x in (len, dict, 3, None, 'x', [].append, Iterable('iter')):
        ctx.check(is_closure(x) is False, '%r taken for a closure', x)


def wrap(f, layer, i):
    if layer == 'what':
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs)
        wrapper.what = lambda: None
    elif layer == 'plain':
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs)
    elif layer == 'two':
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs), i
        wrapper.what = lambda: None
    elif layer == 'other':
        g = Iterable('iter')

        def wrapper(*args, **kwargs):
            return g
        wrapper.what = lambda: None
    else:
        def wrapper(*args, **kwargs):
            return i
        wrapper.what = lambda: None
    return wrapper


class Iterable(object):
    def __init__(self, kind):
        self.kind = kind

    def __iter__(self):
        if self.kind == 'raises':
            raise TypeError('no')
        if self.kind == 'wrong':
            return 3
        return iter(())


class Getitem(object):
    def __getitem__(self, i):
        raise IndexError()


class NotIterable(object):
    __iter__ = None


class Plain(object):
    pass


class Meta(type):
    def __iter__(cls):
        return iter([1])


MetaIterable = Meta('MetaIterable', (object,), {})


def generator():
    yield 1


VALUES = {'list': lambda: [1], 'empty': lambda: [], 'str': lambda: 'a', 'estr': lambda: '', 'bytes': lambda: b'', 'dict': lambda: {}, 'set': lambda: set(), 'generator': generator, 'iter': lambda: iter([]),
          'None': lambda: None, 'int': lambda: 0, 'float': lambda: 1.5, 'class': lambda: list, 'function': lambda: generator, 'Iterable': lambda: Iterable('iter'), 'raises': lambda: Iterable('raises'),
          'wrong': lambda: Iterable('wrong'), 'Getitem': Getitem, 'NotIterable': NotIterable, 'Plain': Plain, 'MetaIterable': lambda: MetaIterable, 'range': lambda: range(0), 'inherited': lambda: type('L', (list,), {})(),
          'zip': lambda: zip(), 'inherited not': lambda: type('N', (NotIterable,), {})(), 'attribute': lambda: with_attribute()}
NOT = ('None', 'int', 'float', 'class', 'function', 'raises', 'wrong', 'NotIterable', 'Plain', 'inherited not', 'attribute')


def with_attribute():
    p = Plain()
    p.__iter__ = lambda: iter(())
    return p


def gen_iterable(d):
    return d.sample(sorted(VALUES), 1, 8)


def judge_iterable(case, ctx):
    from whatami.misc import is_iterable
    for name in case:
        v = VALUES[name]()
        ctx.check(is_iterable(v) is (name not in NOT), 'is_iterable of %s gives %r', name, is_iterable(v))
        if name == 'generator':
            ctx.eq(list(v), [1], 'the elements after asking')
    ctx.interesting(len(set(n in NOT for n in case)) == 2)


EX = [([('C', [], (['a', 'b'], 1, None, None, []), True, (['x'], 0, 'args', 'kwargs', [])), ('C', [0], None, False, ([], 0, None, None, ['kw1'])), ('Base', [0], ([], 0, 'args', 'kwargs', []), False, (['a'], 1, None, None, [])),
        ('Nan', [2, 1], None, True, ([], 0, None, None, []))], 'c32generated.sub', late) for late in (True, False)]
TESTS = [Test('modules', gen, judge, quick=700, examples=EX), Test('closures', gen_closure, judge_closure, quick=800), Test('iterables', gen_iterable, judge_iterable, quick=400, examples=[sorted(VALUES)])]
