import functools
import inspect
from engine.core import Test

RULE = ('A case is a hierarchy of classes with decorators for some of their members, or a function signature with demanded parameters, or a subclass of Recorder with a sequence of calls. '
        'Non-trivial: some member is decorated, or some parameter demanded, or some add defined.')
ASSUMPTIONS = ['one decorating metaclass per hierarchy', 'decorators given as one callable or a reusable collection of them', 'the demanded parameters given as a collection of names']

METHODS = ['foo', 'bar', 'baz', '__init__', '__call__', 'add', '_private', 'd', 'mcs', 'bases', 'prop', '__len__']
KINDS = ['function', 'function', 'function', 'super', 'static', 'classmethod', 'property', 'value', 'none', 'class', 'shared', 'lambda']
DECORATORS = ['wrap', 'wrap', 'same', 'value', 'partial', 'falsy', 'again']  # again: one that is already in the list


def gen(d):
    decorators = []
    for m in d.sample(METHODS, 0, 4):
        many = d.choice(['one', 'list', 'tuple', 'one'])
        decorators.append((m, many, [d.choice(DECORATORS) for _ in range(1 if many == 'one' else d.int(0, 5))]))
    classes = []
    for i in range(d.int(1, 5)):
        bases = d.sample(range(i), 0, 2)
        members = [(m, d.choice(KINDS)) for m in d.sample(METHODS, 0, 5)]
        classes.append((sorted(bases, reverse=True) if i else [], members, d.choice(['statement', 'statement', 'call', 'with_metaclass'])))
    return decorators, classes, d.choice([None, 'HeyThere', 'Other']), d.bool(0.2), d.choice([4, 0, 1, 2, 3])


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)


def judge(case, ctx):
    from whatami.misc import decorate_some
    decorators, classes, name, again, style = case
    log = []

    def decorator(method, index, kind):
        def deco(f):
            if kind == 'wrap':
                def r(*args, **kwargs):
                    return (method, index, f(*args, **kwargs))
            elif kind == 'same':
                r = f
            elif kind == 'value':
                r = ('replaced', method, index)
            elif kind == 'falsy':
                r = []
            else:
                r = functools.partial(len, [])
            log.append((method, index, f, r))
            return r
        if index % 4 == style:  # callables of other kinds
            return functools.partial(deco)
        if index % 4 == (style + 1) % 4 and style < 4:
            return Callable(deco)
        if index % 4 == (style + 2) % 4 and style < 4:
            return lambda f: deco(f)
        return deco
    live, indices = {}, {}
    for m, many, kinds in decorators:
        ds, indices[m] = [], []
        for i, k in enumerate(kinds):
            again_ = k == 'again' and i > 0
            ds.append(ds[i // 2] if again_ else decorator(m, i, 'wrap' if k == 'again' else k))
            indices[m].append(indices[m][i // 2] if again_ else i)
        live[m] = ds[0] if many == 'one' else (ds if many == 'list' else tuple(ds))
    before = dict((k, list(v) if isinstance(v, (list, tuple)) else v) for k, v in live.items())
    meta = decorate_some(**live) if name is None else decorate_some(name=name, **live)
    ctx.check(isinstance(meta, type) and issubclass(meta, type), 'not a metaclass: %r', meta)
    ctx.eq(meta.__name__, name or 'DecorateSome', 'the name of the metaclass')
    ctx.eq(log, [], 'the decorators called before there is any class')
    created = []
    shared = lambda *args: 'shared'
    for i, (bases, members, how) in enumerate(classes):
        bs = []
        for b in bases:
            if not any(issubclass(x, created[b]) for x in bs):
                bs.append(created[b])
        bs = tuple(bs)
        ns = {'__module__': 'generated'}
        for m, kind in members:
            ns[m] = member(kind, m, i, shared)
        given = dict(ns)
        with_super = [m for m, kind in members if kind == 'super']
        for attempt in range(2 if again and not with_super and how == 'call' else 1):
            del log[:]
            try:
                if with_super or how == 'statement':
                    space = {'BASES': bs, 'META': meta, 'NS': ns}
                    text = ['class C%d(%s):' % (i, ', '.join(['*BASES'] + ([] if bs else ['metaclass=META'])))]
                    for m in ns:
                        if m in with_super:
                            text += ['    def %s(self, *args):' % m, '        return (%d, __class__)' % i]
                        else:
                            text.append('    %s = NS[%r]' % (m, m))
                    exec('\n'.join(text), space)
                    cls = space['C%d' % i]
                elif how == 'call':
                    cls = (type(bs[0]) if bs else meta)('C%d' % i, bs, ns)
                    ctx.check(ns == given and all(ns[k] is given[k] for k in ns), 'the namespace was changed')
                else:
                    from future.utils import with_metaclass
                    space = {'BASES': bs, 'META': meta, 'NS': ns, 'with_metaclass': with_metaclass}
                    exec('class C%d(with_metaclass(META, *BASES)):\n%s' % (i, '\n'.join('    %s = NS[%r]' % (m, m) for m in ns)), space)
                    cls = space['C%d' % i]
            except TypeError as e:
                if 'MRO' in str(e) or 'layout' in str(e) or 'method resolution' in str(e):
                    cls = None
                    break
                raise
            ctx.check(type(cls) is meta, 'the class of the class is %r', type(cls))
            ctx.eq((cls.__name__, [b for b in cls.__bases__ if b is not object]), ('C%d' % i, list(bs)), 'the class')
            # What was decorated
            seen = list(log)
            for m, many, kinds in decorators:
                calls = [c for c in seen if c[0] == m]
                if m not in given:
                    ctx.eq(calls, [], 'calls to the decorators of %s, that is not defined in the class' % m)
                    ctx.check(m not in vars(cls) or m in ('__init__', '__len__', '__call__'), '%s has appeared in the class', m)
                    continue
                ctx.eq([c[1] for c in calls], indices[m], 'calls to the decorators of %s' % m)
                current = given[m] if m not in with_super else None
                for c in calls:
                    ctx.check(current is None and c is calls[0] and m in with_super or c[2] is current, 'decorator %d of %s was given %r, expected %r', c[1], m, c[2], current)
                    current = c[3]
                if calls:
                    ctx.check(vars(cls)[m] is calls[-1][3], '%s is %r, not the result of its last decorator', m, vars(cls)[m])
                    ctx.interesting()
                    ctx.label('decorated')
            ctx.check(set(c[0] for c in seen) <= set(m for m, _, _ in decorators), 'other decorators called')
            # What was not
            decorated = set(m for m, _, kinds in decorators if kinds)
            for m, v in given.items():
                if m not in decorated and m not in with_super:
                    ctx.check(vars(cls)[m] is v, '%s is now %r', m, vars(cls)[m])
            extra = set(vars(cls)) - set(given) - {'__dict__', '__weakref__', '__doc__', '__module__', '__qualname__', '__hash__'}
            ctx.eq(extra, set(), 'new members')
            for m in with_super:
                if m not in decorated and not m.startswith('__'):
                    ctx.eq(vars(cls)[m](None), (i, cls), 'calling %s' % m)
        if cls is None:
            cls = created[-1] if created else meta('Z', (), {})
        created.append(cls)
        # Creating classes does not change previous ones: inherited members are found as in plain python
        for m in METHODS:
            owner = next((k for k in cls.__mro__ if m in vars(k)), None)
            if owner is not None and not m.startswith('__') and not hasattr(vars(owner)[m], '__get__'):
                ctx.check(getattr(cls, m) is vars(owner)[m], '%s is not that of %r', m, owner)
    ctx.check(before == dict((k, list(v) if isinstance(v, (list, tuple)) else v) for k, v in live.items()), 'the decorators were changed')
    if len(classes) > 1:
        ctx.label('hierarchy')


def member(kind, m, i, shared):
    if kind == 'function':
        def f(self, *args):
            return (m, i)
        return f
    return {'super': lambda: None, 'static': lambda: staticmethod(lambda: 3), 'classmethod': lambda: classmethod(lambda c: 3), 'property': lambda: property(lambda self: 3), 'value': lambda: 33,
            'none': lambda: None, 'class': lambda: type('Inner', (), {}), 'shared': lambda: shared, 'lambda': lambda: (lambda self: 3)}[kind]()


# --- Contracts on signatures

PARAMS = ['ids', 'a', 'b', 'self', 'x', 'args', 'continent', 'd', 'ids_']


def gen_signature(d, names=PARAMS):
    names = d.sample(names, 0, 5)
    npos = d.int(0, len(names))
    nonly = d.int(0, npos) if d.bool(0.3) else 0
    ndef = d.int(0, npos)
    params = []
    for i, n in enumerate(names):
        if i < npos:
            params.append((n, 'posonly' if i < nonly else 'pos', i >= npos - ndef))
        else:
            params.append((n, 'kwonly', d.bool()))
    return params, d.choice([None, 'more_', 'ids']) if d.bool(0.4) else None, d.choice([None, 'kws_', 'ids']) if d.bool(0.4) else None


def signature(params, var, kw):
    names = [p[0] for p in params]
    var = None if var in names else var
    kw = None if kw in names or kw == var else kw
    sig = []
    for j, (n, kind, default) in enumerate(params):
        if kind == 'kwonly' and (j == 0 or params[j - 1][1] != 'kwonly'):
            sig.append('*' + (var or ''))
        sig.append(n + ('=None' if default else ''))
        if kind == 'posonly' and (j + 1 == len(params) or params[j + 1][1] != 'posonly'):
            sig.append('/')
    if var and not any(p[1] == 'kwonly' for p in params):
        sig.append('*' + var)
    if kw:
        sig.append('**' + kw)
    return ', '.join(sig)


def gen_contract(d):
    sig = gen_signature(d)
    names = [p[0] for p in sig[0]]
    return sig, d.sample(names + ['ids', 'zz'], 0, 3), d.choice(['tuple', 'list', 'set', 'frozenset', 'twice']), d.choice(['def', 'lambda', 'method', 'generator', 'wrapped', 'closure']), \
        d.choice(['f', 'add', 'some_name'])


def judge_contract(case, ctx):
    from whatami.misc import ensure_has_positional_args, required_args
    (params, var, kw), demanded, how, kind, fname = case
    sig = signature(params, var, kw)
    ns = {}
    if kind == 'lambda':
        exec('f = lambda %s: 3' % sig, ns)
        f, fname = ns['f'], '<lambda>'
    elif kind == 'method':
        exec('class C(object):\n    def %s(%s):\n        return 3\nf = C.%s' % (fname, sig, fname), ns)
        f = ns['f']
    elif kind == 'closure':
        exec('def make(c):\n    def %s(%s):\n        return c\n    return %s\nf_ = make(3)' % (fname, sig, fname), ns)
        f = ns['f_']
    else:
        exec('def %s(%s):\n    %s 3\nf_ = %s' % (fname, sig, 'yield' if kind == 'generator' else 'return', fname), ns)
        f = ns['f_']
        if kind == 'wrapped':  # the signature is that of the wrapper
            @functools.wraps(lambda ids, a, b, x, continent: 3)
            def g():
                pass
            f.__wrapped__ = g
    required = [n for n, k, default in params if k != 'kwonly' and not default]
    ctx.eq(list(required_args(f)), required, 'the required arguments of (%s)' % sig)
    args = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset, 'twice': lambda x: list(x) * 2}[how](demanded)
    missing = sorted(set(demanded) - set(required))
    ctx.interesting(demanded)
    if missing:
        e = ctx.raises(Exception, lambda: ensure_has_positional_args(f, args), 'demanding %r of (%s)' % (demanded, sig))
        ctx.check(fname in str(e) and all(repr(m) in str(e) for m in missing), 'the error does not name %r and %r: %s', fname, missing, e)
        for m in set(demanded) & set(required):
            ctx.check(repr(m) not in str(e).replace(repr(fname), ''), 'the error names %r: %s', m, e)
        ctx.label('rejected')
    else:
        ctx.check(ensure_has_positional_args(f, args) is f, 'the function itself is not returned')
        ctx.check(ensure_has_positional_args(args=args, func=f) is f, 'the function itself is not returned')
        ctx.label('accepted')
    ctx.check(ensure_has_positional_args(f) is f, 'the function itself is not returned')


# --- Contracts on recorders

def gen_recorder(d):
    sigs = []
    for _ in range(d.int(1, 3)):
        if d.bool(0.3):
            sigs.append(None)  # inherits add
        else:
            required = d.sample(['ids', 'a', 'b'], 0, 3)
            if 'ids' not in required and d.bool(0.7):
                required.insert(d.int(0, len(required)), 'ids')
            optional = [n for n in d.sample(['ids', 'c', 'e'], 0, 2) if n not in required]
            kwonly = [n for n in d.sample(['ids', 'k'], 0, 1) if n not in required + optional]
            sigs.append((required, optional, kwonly, d.choice(['super', 'none'])))
    order = d.shuffle(['a', 'b', 'ids', 'c', 'k', 'extra', 'ids2'])
    return sigs, order, d.sample(['a', 'b', 'c', 'k', 'extra'], 0, 5), d.int(1, 3), d.choice(['positional', 'keyword'])


def judge_recorder(case, ctx):
    from whatami.registry import Recorder
    sigs, order, given, n, how = case
    cls = Recorder
    accepted = []
    for i, sig in enumerate(sigs):
        if sig is None:
            ns = {}
        else:
            required, optional, kwonly, what = sig
            text = ['self'] + required + ['%s="default %s"' % (o, o) for o in optional] + ['*'] * bool(kwonly) + ['%s="default %s"' % (k, k) for k in kwonly] + ['**columns']
            names = [x for x in required + optional + kwonly if x != 'ids']
            source = 'def add(%s):\n    return super(CELL[0], self).add(%s)' % (', '.join(text), ', '.join(['ids=ids' if 'ids' in required + optional + kwonly else 'ids=["z"]'] +
                                                                                                  ['%s=%s' % (x, x) for x in names] + ['**columns']))
            space = {'CELL': [], 'super': super}
            exec(source, space)
            ns = {'add': space['add']}
        ok = sig is None or 'ids' in sig[0]
        try:
            new = type(cls)('Recorder%d' % i, (cls,), ns)
        except Exception as e:
            ctx.check(not ok, 'add(%s) was rejected: %s', sig and text, e)
            ctx.check('ids' in str(e) and 'add' in str(e), 'the error does not name ids: %s', e)
            ctx.label('rejected')
            ctx.interesting()
            continue
        ctx.check(ok, 'add(%s) was accepted', sig and text)
        if sig is not None:
            space['CELL'].append(new)
            ctx.interesting()
            ctx.label('accepted')
            accepted.append(sig)
        cls = new
    # Subclasses keep currying and the records
    r = cls()
    columns = dict((k, 'value of ' + k) for k in given)
    for sig in accepted:
        for k in sig[0]:
            if k != 'ids':
                columns[k] = 'value of ' + k
    ids = ['id%d' % i for i in range(n)]
    expected = dict(columns)
    for sig in reversed(accepted):
        for k in sig[1] + sig[2]:
            expected.setdefault(k, 'default ' + k)
    add = r.add
    for k in order:
        if k in columns:
            add = add(**{k: columns[k]})
            ctx.check(callable(add) and not isinstance(add, dict), 'freezing %s gave %r', k, add)
            ctx.eq(len(r), 0, 'the records after freezing')
    records = add(ids=ids)
    expected_records = [dict(expected, id=i) for i in ids]
    ctx.eq(list(records.values()), expected_records, 'the records')
    ctx.eq(len(r), n, 'the number of records')
    ctx.eq([x for i in ids for x in r[i]], expected_records, 'the records in the recorder')


TESTS = [Test('metaclasses', gen, judge, quick=1500), Test('signatures', gen_contract, judge_contract, quick=1500), Test('recorders', gen_recorder, judge_recorder, quick=800)]
