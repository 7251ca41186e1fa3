from functools import partial
from engine.core import Test, Discard
from engine import ref, values, objects
from engine.values import Options, gen_value, build

RULE = ('A case is a function (def, lambda, closure, or a builtin, class or method; random parameters and defaults) under zero to four layers of partial and toolz.curry, each binding values by '
        'position and by name, often impossibly. The binding is really called to know what it uses. Non-trivial: at least one layer or default.')
ASSUMPTIONS = ['positional-or-keyword and keyword-only parameters; *args and **kwargs may exist but nothing is bound to them', 'identity of values decides']

PARAMS = ['a', 'b', 'c', 'x', 'y', 'data', 'mean', '_p', 'q_', 'what', 'func', 'args2', 'n_jobs', 'name', 'obj']


def gen(d):
    names = d.sample(PARAMS, 0, 5)
    ndef = d.int(0, len(names))
    default = lambda: d.int(1000, 1006) if d.bool(0.2) else d.int(100, 999)
    params = [(n, None if i < len(names) - ndef else default()) for i, n in enumerate(names)]
    nkw = d.int(0, len(names)) if d.bool(0.3) else 0  # the last ones are keyword-only
    params = params[:len(names) - nkw] + [(n, None if d.bool(0.3) else default()) for n in names[len(names) - nkw:]]
    kind = d.choice(['def', 'lambda', 'closure', 'var'])
    layers = []
    for _ in range(d.int(0, 4)):
        layers.append((d.choice(['partial', 'partial', 'curry']), d.weighted([(4, 0), (4, 1), (2, 2), (1, 3)]),
                       d.sample(names + (['zz'] if d.bool(0.12) else []), 0, 2), d.bool(0.15)))
    return d.choice(objects.FUNCTION_NAMES), params, kind, layers, nkw, d.choice(objects.FUNCTION_NAMES + ['renamed']) if d.bool(0.15) else None


def gen_many(d):
    """Many parameters, in many layers."""
    names = ['p%d' % i if i % 3 else 'q%d_' % i for i in range(d.choice([8, 17, 40, 100]))]
    ndef = d.int(0, len(names))
    params = [(n, None if i < len(names) - ndef else 100 + i) for i, n in enumerate(names)]
    nkw = d.int(0, len(names)) if d.bool(0.4) else 0
    layers = []
    left = len(names) - nkw
    for _ in range(d.choice([0, 0, 1, 3, 5, 8, 12])):
        npos = min(d.weighted([(3, 0), (4, 1), (2, 3), (1, 10)]), left)
        left -= npos
        layers.append((d.choice(['partial', 'partial', 'curry']), npos, d.sample(names[-max(1, min(len(names) // 2, left + nkw)):], 0, 6), False))
    return 'f', params, d.choice(['def', 'lambda', 'closure']), layers, nkw


class Value(object):
    """Values are compared by identity, and know how to be an id."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'V%d' % self.n

    def __eq__(self, other):
        raise Exception('values must not be compared')

    __hash__ = object.__hash__


ODD = [None, False, 0, '', (), True, 0.0]


def value(n, odd=False):
    return ODD[n % len(ODD)] if odd else Value(n)


def make(fname, params, kind, nkw):
    ns, sig = {}, []
    for i, (n, default) in enumerate(params):
        if nkw and i == len(params) - nkw:
            sig.append('*more' if kind == 'var' else '*')
        if default is None:
            sig.append(n)
        else:
            ns['_d_' + n] = value(default, default >= 1000)
            sig.append('%s=_d_%s' % (n, n))
    names = ', '.join('%r: %s' % (n, n) for n, _ in params)
    if kind == 'var':
        sig += ['**kws'] if nkw else ['*more', '**kws']
        names += (', ' if names else '') + '"*": more, "**": kws'
    sig = ', '.join(sig)
    if kind == 'lambda':
        exec('fun = lambda %s: {%s}' % (sig, names), ns)
        return ns['fun'], ns
    if kind == 'closure':
        exec('def outer(cell_):\n    def %s(%s):\n        cell_\n        return {%s}\n    return %s\nfun = outer(3)' % (fname, sig, names, fname), ns)
        return ns['fun'], ns
    exec('def %s(%s):\n    return {%s}\nfun = %s' % (fname, sig, names, fname), ns)
    return ns['fun'], ns


MISSING = Value(0)


def judge(case, ctx):
    import toolz
    from whatami import whatareyou, whatable, What, what2id
    from whatami.misc import callable2call
    fname, params, kind, layers, nkw, renamed = (case + (0, None))[:6] if len(case) == 4 else (case + (None,))[:6]
    f, _ = make(fname, params, kind, nkw)
    if nkw:
        ctx.label('keyword-only parameters')
    name = 'lambda' if kind == 'lambda' else fname
    if renamed:
        f.__name__ = name = renamed
        ctx.label('renamed')
    obj, twin = f, f
    n = 1
    for how, npos, keys, *odd in layers:
        odd = odd and odd[0]
        pos = [value(n + i, odd) for i in range(npos)]
        n += npos
        kws = {}
        for k in keys:
            kws[k] = value(n, odd)
            n += 1
        obj = partial(obj, *pos, **kws) if how == 'partial' else toolz.curry(obj, *pos, **kws)
        twin = partial(twin, *pos, **kws)
    ctx.interesting(bool(layers) or any(v is not None for _, v in params))
    ctx.label('layers %d' % len(layers))
    # what a real call uses: parameters not bound are given by name
    names = [p for p, _ in params]
    used = None
    bound = set()
    for how, npos, keys, *_ in layers:
        bound |= set(keys)
    positional = sum(l[1] for l in layers)
    bound |= set(names[:min(positional, len(names) - nkw)])
    missing = [p for p, v in params if v is None and p not in bound]
    try:
        used = twin(**{p: MISSING for p in missing})
    except TypeError:
        pass
    if used is not None and kind == 'var':
        if used.pop('*') or used.pop('**'):
            raise Discard()
    if used is None:
        ctx.label('impossible binding')
        ctx.raises(ValueError, lambda: callable2call(obj), 'callable2call')
        if layers[-1][0] == 'partial':
            ctx.raises(ValueError, lambda: whatable(obj), 'whatable')
        ctx.raises(ValueError, lambda: What('A', {'x': obj}).id(), 'id of a nested binding')
        return
    if kind == 'var' and set(k for l in layers for k in l[2]) - set(names):
        raise Discard()
    known = {p: v for p, v in used.items() if v is not MISSING}

    def same(got, exp, what):
        ctx.check(isinstance(got, dict), '%s: %r', what, got)
        ctx.eq(sorted(got), sorted(exp), '%s: parameters' % what)
        for k in exp:
            ctx.check(got[k] is exp[k], '%s: %r is %r, but the call uses %r', what, k, got[k], exp[k])

    for _ in range(2):
        got = callable2call(obj)
        ctx.eq(got[0], name, 'name')
        same(got[1], known, 'callable2call')
    trimmed = {k: v for k, v in known.items() if objects.public(k)}
    w = whatareyou(obj)
    ctx.eq(w.name, name, 'name')
    same(w.conf, trimmed, 'whatareyou')
    w = whatareyou(obj, exclude_prefix=None, exclude_postfix='', excludes=())
    same(w.conf, known, 'whatareyou without exclusions')
    w = whatareyou(obj, name_override='other', exclude_prefix='a', exclude_postfix='a', excludes=('b', 'x'))
    ctx.eq(w.name, 'other', 'name_override')
    same(w.conf, {k: v for k, v in known.items() if k[0] != 'a' and k[-1] != 'a' and k not in ('b', 'x')}, 'whatareyou with exclusions')
    if not layers or layers[-1][0] == 'partial':
        w = whatable(obj).what()
        ctx.eq(w.name, name, 'name')
        same(w.conf, known, 'whatable')
    text = lambda kv: '%s(%s)' % (name, ','.join('%s=%r' % (k, v) for k, v in sorted(kv.items())))
    ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s)' % text(known), 'id of nested')
    ctx.eq(what2id(obj), text(trimmed), 'what2id')
    # nothing was called, bound or changed
    again = twin(**{p: MISSING for p in missing})
    again.pop('*', None), again.pop('**', None)
    same({k: v for k, v in again.items() if v is not MISSING}, known, 'calling again')
    # other defaults for the same function
    if f.__defaults__ or f.__kwdefaults__:
        f.__defaults__ = tuple(value(900 + i) for i in range(len(f.__defaults__ or ()))) or None
        f.__kwdefaults__ = {k: value(950 + i) for i, k in enumerate(sorted(f.__kwdefaults__ or ()))} or None
        again = twin(**{p: MISSING for p in missing})
        again.pop('*', None), again.pop('**', None)
        now = {k: v for k, v in again.items() if v is not MISSING}
        same(callable2call(obj)[1], now, 'with other defaults')
        ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s)' % text(now), 'id of nested with other defaults')
        ctx.eq(what2id(obj), text({k: v for k, v in now.items() if objects.public(k)}), 'what2id with other defaults')
        ctx.label('defaults changed')


# --- callables whose parameters are not known: what is bound by name is what is known, and nothing can be bound by position

OPAQUE = ['max', 'sorted', 'int', 'class', 'method', 'sort', 'partial', 'dict']


def gen_opaque(d):
    names = ['a', 'b', 'key', 'reverse', 'default', 'x', 'func', 'c', 'obj', '_p', 'q_']
    layers = [(d.choice(['partial', 'partial', 'curry']), d.weighted([(12, 0), (2, 1), (1, 2)]), [(k, d.int(0, 30), d.bool(0.4)) for k in d.sample(names, 0, 3)])
              for _ in range(d.int(0, 4))]
    return d.choice(OPAQUE), layers


class Known(object):
    def __init__(self, *args, **kwargs):
        pass

    def method(self, *args, **kwargs):
        pass


def judge_opaque(case, ctx):
    import toolz
    from whatami import whatareyou, whatable, What, what2id
    from whatami.misc import callable2call
    which, layers = case
    f = {'max': max, 'sorted': sorted, 'int': int, 'class': Known, 'method': Known().method, 'sort': [2, 1].sort, 'partial': partial, 'dict': dict}[which]
    name = 'Known' if which == 'class' else which
    obj, known = f, {}
    for how, npos, kvs in layers:
        kws = {k: value(n, odd) for k, n, odd in kvs}
        known.update(kws)
        pos = list(range(npos))
        if which == 'partial' and how == 'curry':
            how = 'partial'
        if which == 'partial':
            pos = [max] + pos
        obj = toolz.curry(obj, *pos, **kws) if how == 'curry' else partial(obj, *pos, **kws)
    ctx.interesting(len(known) > 0)
    ctx.label('opaque ' + which, 'layers %d' % len(layers))
    if any(npos for _, npos, _ in layers) or which == 'partial' and layers:
        ctx.label('opaque, bound by position')  # and nobody knows to which parameters
        ctx.raises(ValueError, lambda: callable2call(obj), 'callable2call')
        if layers[-1][0] == 'partial':
            ctx.raises(ValueError, lambda: whatable(obj), 'whatable')
        ctx.raises(ValueError, lambda: What('A', {'x': obj}).id(), 'id of a nested binding')
        return
    def same(got, exp, what):
        ctx.eq(sorted(got), sorted(exp), '%s: parameters' % what)
        for k in exp:
            ctx.check(got[k] is exp[k], '%s: %r is %r, but it is bound to %r', what, k, got[k], exp[k])
    for _ in range(2):
        got = callable2call(obj)
        ctx.eq(got[0], name, 'name')
        same(got[1], known, 'callable2call')
    text = lambda kv: '%s(%s)' % (name, ','.join('%s=%r' % (k, v) for k, v in sorted(kv.items())))
    if layers and layers[-1][0] == 'partial':
        w = whatareyou(obj)
        ctx.eq(w.name, name, 'name')
        public = {k: v for k, v in known.items() if objects.public(k)}
        same(w.conf, public, 'whatareyou')
        same(whatable(obj).what().conf, known, 'whatable')
        ctx.eq(what2id(obj), text(public), 'what2id')
        ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s)' % text(known), 'id of nested')


NOT_CALLABLE = [('n',), ('i', 3), ('f', '1.5'), ('s', 'sorted'), ('l', []), ('t', [('i', 1)]), ('d', [(('s', 'a'), ('i', 1))]), ('S', []), ('b', 1), ('w', 'A', [('x', ('i', 1))], None, [])]


class NoCall(object):
    args, keywords, func = (), {}, len  # not a partial

    def __init__(self):
        self.a = 1


def gen_not_callable(d):
    return d.choice([None, d.choice(NOT_CALLABLE), values.gen_value(d, values.Options(depth=2, classes=False), 2)])


def judge_not_callable(case, ctx):
    from whatami.misc import callable2call
    v = NoCall() if case is None else values.build(case)
    ctx.raises(ValueError, lambda: callable2call(v), 'callable2call(%r)' % (case,))
    ctx.interesting()


EX = [('f', [('a', None), ('b', 100), ('c', 200)], k, l) for k in ('def', 'lambda', 'closure', 'var') for l in (
    [], [('partial', 2, [])], [('partial', 1, []), ('partial', 1, [])], [('partial', 0, ['b']), ('partial', 0, ['b'])], [('curry', 1, ['c']), ('partial', 0, ['b'])],
    [('partial', 0, ['a']), ('partial', 1, [])], [('partial', 3, ['a'])], [('partial', 2, []), ('curry', 2, [])], [('partial', 0, ['zz'])], [('curry', 3, [])])]
TESTS = [Test('bindings', gen, judge, quick=5500, examples=EX), Test('many', gen_many, judge, quick=150), Test('opaque', gen_opaque, judge_opaque, quick=800), Test('not callable', gen_not_callable, judge_not_callable, quick=60)]
