import sys
from functools import partial
from engine.core import Test
from engine import ref, values, objects
from engine.values import Options, gen_value, build

RULE = ('A case is a random function or partial, a way of decorating it and a history of calls (valid or not, raising or not), what() requests, changes to the '
        'results of what() and to the original. Non-trivial: at least one call and one what() request.')
ASSUMPTIONS = ['default values are not mutated in place']

NAMES = ['a', 'b', 'c', 'what', '_p', 'x', 'obj', 'conf', 'name', 'args', 'kwargs']
O = Options(depth=1, nan=True)


def gen(d):
    names = d.sample(NAMES, 0, 4)
    ndef = d.int(0, len(names))
    params = [(n, None if i < len(names) - ndef else gen_value(d, O, 1)) for i, n in enumerate(names)]
    kind = d.choice(['def', 'def', 'lambda', 'closure', 'generator', 'var', 'helper', 'helpers', 'factory'])
    bound = d.sample(names, 0, 2) if d.bool(0.3) else None
    if kind == 'var':
        kind, bound = ('var', None)
    doc = d.choice([None, 'A doc', "it's", ''])
    how = d.choice(['plain', 'plain', 'called', 'inplace', 'whatfunc', 'twice', 'nonids', 'redecorated', 'inplace twice', 'inplace then not'])
    ops = []
    for _ in range(d.int(1, 8)):
        k = d.choice(['call', 'call', 'what', 'mutate', 'defaults', 'attrs'])
        ops.append((k, d.int(0, 4), d.sample(names + ['zz'], 0, 2), d.int(0, 3)))
    if d.bool(0.3):
        ops.insert(0, ('own', d.int(1, 2), d.sample(['units', 'tag', 'a', 'func_', '_private', 'registry'], 1, 2), 0))
    return d.choice(objects.FUNCTION_NAMES), params, kind, bound, doc, how, ops


class Boom(Exception):
    pass


def make(fname, params, kind, doc, bound):
    ns = {'Boom': Boom, 'log': [], 'raising': {'now': None}, '__name__': 'some.module'}
    sig = []
    for i, (n, default) in enumerate(params):
        if default is None:
            sig.append(n)
        else:
            ns['_d%d' % i] = build(default)
            sig.append('%s=_d%d' % (n, i))
    names = '(' + ''.join(n + ', ' for n, _ in params) + ')'
    if kind == 'var':
        sig += ['*more_', '**kws_']
        names = '(' + names + ', more_, kws_)'
    sig = ', '.join(sig)
    ns['work'] = work = lambda vals: (_ for _ in ()).throw(ns['raising']['now']) if ns['raising']['now'] is not None else (ns['log'].append(vals), vals)[1]
    if kind == 'lambda':
        exec('fun = lambda %s: work(%s)' % (sig, names), ns)
    elif kind == 'closure':
        exec('def outer(cell_):\n    def %s(%s):\n        cell_\n        return work(%s)\n    return %s\nfun = outer(3)' % (fname, sig, names, fname), ns)
    elif kind in ('helper', 'helpers', 'factory'):
        # closures over other functions; these are their own thing, not a decorated function
        cells = {'helper': ['a_cell'], 'helpers': ['a_cell', 'k_cell', 'z_cell'], 'factory': ['a_cell', 'z_cell']}[kind]
        ns['a_helper'] = lambda y=2: y
        values = {'a_cell': 'a_helper', 'k_cell': '3', 'z_cell': 'a_helper' if kind == 'helpers' else '[a_helper]'}
        exec('def outer(%s):\n    def %s(%s):\n        %s\n        return work(%s)\n    return %s\nfun = outer(%s)' % (
            ', '.join(cells), fname, sig, '; '.join(cells), names, fname, ', '.join(values[c] for c in cells)), ns)
    elif kind == 'generator':
        exec('def %s(%s):\n    yield work(%s)\n    yield 3\nfun = %s' % (fname, sig, names, fname), ns)
    else:
        exec('def %s(%s):\n    return work(%s)\nfun = %s' % (fname, sig, names, fname), ns)
    f = ns['fun']
    f.__doc__ = doc
    return f, ns


def outcome(f, kind, args, kws):
    try:
        r = f(*args, **kws)
        if kind == 'generator':
            r = list(r)
        return ('ok', r)
    except Exception as e:
        return ('raised', type(e), str(e), e if isinstance(e, Boom) else None)


def identical(a, b):
    if a[0] == 'ok' and b[0] == 'ok':
        return a[1] == b[1] or repr(a[1]) == repr(b[1])
    return a == b


def judge(case, ctx):
    from whatami import whatable, What, is_whatable
    fname, params, kind, bound, doc, how, ops = case
    f, ns = make(fname, params, kind, doc, bound)
    name = 'lambda' if kind == 'lambda' else fname
    conf = {n: build(v) for n, v in params if v is not None}
    if bound is not None:
        extra = {k: ('bound', k) for k in bound}
        f = partial(f, **extra)
        conf.update(extra)
        ctx.label('partial')
    ctx.label('kind ' + kind, 'how ' + how)
    if how == 'inplace twice' and kind == 'helper':
        # a what-decorated function with just a function in its closure is taken for a decorator (as documented)
        how = 'inplace'
    owned = {}
    for op, n, keys, _ in ops:
        if op == 'own':  # attributes that the function already had
            owned.update({k: [k, n] for k in keys})
    f.__dict__.update(owned)
    original = dict(f.__dict__)
    expected_name, expected_out, expected_nonids = name, None, None
    custom = []
    if how == 'plain':
        g = whatable(f)
    elif how == 'called':
        g = whatable()(f)
    elif how == 'inplace':
        g = whatable(f, modify_func_inplace=True)
        ctx.check(g is f, 'modify_func_inplace gives another callable')
    elif how == 'inplace twice':
        g = whatable(whatable(f, modify_func_inplace=True), modify_func_inplace=True)
        ctx.check(g is f, 'modify_func_inplace gives another callable')
    elif how == 'inplace then not':
        other = whatable(f)
        g = whatable(other, modify_func_inplace=True)
        ctx.check(g is other, 'modify_func_inplace gives another callable')
        if bound is not None:
            g = whatable(f)
    elif how == 'whatfunc':
        def whatfunc(fun):
            custom.append(fun)
            return What('custom', {'n': len(custom)}, non_id_keys=['z'], out_name='o')
        g = whatable(f, whatfunc=whatfunc, non_id_keys=['n'], excludes=('n',))
    elif how == 'twice':
        whatable(f)
        g = whatable(f)
    elif how == 'nonids':
        g = whatable(f, non_id_keys=['a', 'zz'])
        expected_nonids = {'a', 'zz'}
    else:
        g = whatable(whatable(f))
        if bound is not None:
            g = whatable(f)
    if not how.startswith('inplace') or how == 'inplace then not':
        ctx.check(g is not f, 'the original function was returned')
        ctx.check(not hasattr(f, 'what'), 'the original gained a what()')
        ctx.eq(dict(f.__dict__), original, 'attributes of the original')
    for attr in ('__name__', '__doc__', '__module__', '__qualname__'):
        if hasattr(f, attr):
            ctx.eq(getattr(g, attr), getattr(f, attr), attr)
    for k in owned:
        ctx.check(getattr(g, k, None) is owned[k], 'attribute %r of the function is lost: %r', k, getattr(g, k, None))
    ctx.check(is_whatable(g), 'not whatable')
    ctx.check(callable(g), 'not callable')
    whats, called = [], False

    def request():
        w = g.what()
        ctx.check(type(w) is What, 'what() gives %r', w)
        if how == 'whatfunc':
            ctx.check(custom[-1] is g, 'whatfunc got %r', custom[-1])
            ctx.eq((w.name, w.conf, w.non_id_keys, w.out_name), ('custom', {'n': len(custom)}, {'z'}, 'o'), 'custom what')
            return w
        ctx.eq(w.name, name, 'name')
        ctx.eq(sorted(w.conf), sorted(conf), 'parameters')
        for k in conf:
            ctx.check(type(w.conf[k]) is type(conf[k]) and repr(w.conf[k]) == repr(conf[k]), 'value of %r: %r, expected %r', k, w.conf[k], conf[k])
        ctx.eq(set(w.non_id_keys) & set(conf) - {'what'}, (expected_nonids or set()) & set(conf) - {'what'}, 'non-id parameters')
        ctx.check(all(w is not o and w.conf is not o.conf and w.non_id_keys is not o.non_id_keys for o in whats), 'configuration is not fresh')
        whats.append(w)
        return w

    request()
    for op, n, keys, m in ops:
        if op == 'call':
            called = True
            names = [p for p, _ in params]
            args = list(range(n))
            kws = {k: (k, m) for k in keys}
            if m == 3:
                kws = {k: k for k in names[n:]}
            ns['raising']['now'] = Boom('boom %d' % n) if m == 2 else None
            before = list(ns['log'])
            a = outcome(f, kind, args, kws)
            first = ns['log'][len(before):]
            b = outcome(g, kind, args, kws)
            second = ns['log'][len(before) + len(first):]
            ctx.check(identical(a, b), 'called with %r %r: decorated gives %r, original %r', args, kws, b, a)
            ctx.eq(repr(second), repr(first), 'work done')
            ctx.label('call ' + a[0])
        elif op == 'mutate':
            w = request()
            w.conf['changed'] = 1
            w.conf.pop('a', None)
            w.name, w.out_name = 'changed', 'changed'
            w.non_id_keys.add('x')
        elif op == 'defaults' and kind != 'var' and bound is None and f.__defaults__:
            f.__defaults__ = tuple('changed%d' % i for i in range(len(f.__defaults__)))
        elif op == 'attrs' and g is not f:
            f.tag = 'changed'
        request()
    ctx.interesting(called)
    if not how.startswith('inplace') or how == 'inplace then not':
        ctx.check(not hasattr(f, 'what'), 'the original gained a what()')


# --- What cannot hold a what()

class Slotted(object):
    __slots__ = ('a',)


class Frozen(object):
    def __setattr__(self, name, value):
        raise AttributeError('frozen')


REFUSED = {'len': lambda: len, 'sorted': lambda: sorted, 'append': lambda: [].append, 'int': lambda: 3, 'str': lambda: 'text', 'float': lambda: 1.5, 'tuple': lambda: (1, 2), 'list': lambda: [1], 'dict': lambda: {'a': 1},
           'object': lambda: object(), 'slots': lambda: Slotted(), 'frozen': lambda: Frozen(), 'builtin class': lambda: dict, 'bytes': lambda: b'x', 'True': lambda: True}


def gen_refused(d):
    return d.choice(sorted(REFUSED)), d.choice(['plain', 'called', 'nonids', 'whatfunc', 'inplace'])


def judge_refused(case, ctx):
    from whatami import whatable, What, is_whatable
    which, how = case
    obj = REFUSED[which]()
    error = TypeError if which in ('len', 'sorted') else Exception
    call = {'plain': lambda: whatable(obj), 'called': lambda: whatable()(obj), 'nonids': lambda: whatable(obj, non_id_keys=['a']),
            'whatfunc': lambda: whatable(obj, whatfunc=lambda x: What('Own', {})), 'inplace': lambda: whatable(obj, modify_func_inplace=True)}[how]
    ctx.raises(error, call, 'whatable of %s' % which)
    ctx.check(not hasattr(obj, 'what') and not is_whatable(obj), 'it gained a what()')
    ctx.interesting()


EX = [('f', [('a', None), ('b', ('i', 1)), ('what', ('i', 2))], k, b, 'doc', h, [('call', 1, [], 0), ('mutate', 0, [], 0), ('defaults', 0, [], 0), ('call', 2, ['a'], 2), ('what', 0, [], 0)])
      for k in ('def', 'lambda', 'closure', 'generator', 'var', 'helper', 'helpers', 'factory') for b in (None, ['b']) if not (b and k == 'var')
      for h in ('plain', 'called', 'inplace', 'whatfunc', 'twice', 'nonids', 'redecorated', 'inplace twice', 'inplace then not')]
TESTS = [Test('functions', gen, judge, quick=2500, examples=EX), Test('refused', gen_refused, judge_refused, quick=60)]
