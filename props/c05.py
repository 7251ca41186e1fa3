from engine.core import Test, Discard
from engine import ref, values
from engine.values import Options, gen_what, gen_value, build

RULE = ('A case declares non-id keys at some levels of a random configuration, or in a whatable class, instance, function, partial '
        'or inspected object. Non-trivial: some declared key exists in its configuration.')
ASSUMPTIONS = ['non_id_keys is an iterable of keys, not a single string']

CONTAINERS = ['list', 'tuple', 'set', 'frozenset', 'iter', 'generator', 'dict', 'keys']


def declared(kind, keys):
    keys = list(keys)
    return {'list': lambda: keys, 'tuple': lambda: tuple(keys), 'set': lambda: set(keys), 'frozenset': lambda: frozenset(keys),
            'iter': lambda: iter(keys), 'generator': lambda: (k for k in keys), 'dict': lambda: {k: 1 for k in keys},
            'keys': lambda: {k: 1 for k in keys}.keys()}[kind]()


def hides(spec):
    return ref.contains(spec, lambda s: s[0] == 'w' and any(k in s[4] for k, _ in s[2]))


def lookalike(d, k):
    return d.choice([k + '2', k + k, '_' + k, k + '_', 'num_' + k, k + 's', k[:-1] or 'v', k[1:].lstrip('0123456789') or 'v', k.upper(), k.lower(), k.swapcase(), 'no_' + k, k + '_x', k.strip('_') or '_'])


def gen(d):
    spec = gen_what(d, Options(depth=d.int(1, 4), nonids=True, what_members=5, whats_in_sets=False), top=True)
    spec = spec[:4] + (d.sample([k for k, _ in spec[2]] + ['zz', 'verbose'], 0, 4),)
    if d.bool(0.5):  # keys that look like the declared ones, and declared keys that look like the others
        names = [k for k, _ in spec[2]]
        kvs, nonids = list(spec[2]), list(spec[4])
        for k in d.sample(names + nonids, 0, 3):
            new = lookalike(d, k)
            if d.bool(0.6):
                if new not in [n for n, _ in kvs]:
                    kvs.insert(d.int(0, len(kvs)), (new, gen_value(d, Options(depth=1), 1)))
            elif new not in nonids:
                nonids.append(new)
        spec = spec[:2] + (kvs, spec[3], nonids)
    return spec, d.seed(), d.choice(CONTAINERS)


def gen_big(d):
    """Many parameters, deep nesting."""
    def hide(s):
        if s[0] == 'w':
            kvs = [(k, hide(v)) for k, v in s[2]]
            return ('w', s[1], kvs, s[3], d.sample([k for k, _ in kvs] + ['zz'], 0, min(len(kvs), 60) if d.bool(0.7) else 1))
        return (s[0], [hide(x) for x in s[1]]) if s[0] in 'lt' else ('d', [(k, hide(v)) for k, v in s[1]]) if s[0] == 'd' else s
    return hide(values.gen_big(d, Options(depth=1, whats_in_sets=False), kinds=['parameters', 'deep'])), d.seed(), d.choice(CONTAINERS)


def respec(spec, rng, o, hidden):
    """Replaces (adds, removes) values of non-id keys everywhere; or, when not hidden, one id value at the top."""
    tag = spec[0]
    if tag in 'ltSF':
        return (tag, [respec(x, rng, o, hidden) for x in spec[1]])
    if tag == 'd':
        return (tag, [(k, respec(v, rng, o, hidden)) for k, v in spec[1]])
    if tag == 'w':
        kvs = []
        for k, v in spec[2]:
            if k in spec[4]:
                r = rng.draw(2)
                if r == 0:
                    continue
                kvs.append((k, gen_value(rng, o, 2)))
            else:
                kvs.append((k, respec(v, rng, o, hidden)))
        present = [k for k, _ in kvs]
        for k in spec[4]:
            if k not in present and rng.bool(0.4):
                kvs.insert(rng.int(0, len(kvs)), (k, gen_value(rng, o, 2)))
        return ('w', spec[1], kvs, spec[3], spec[4])
    return spec


def judge(case, ctx):
    import random
    from engine.core import D
    from whatami import What, what2id
    spec, seed, container = case
    ctx.interesting(hides(spec))
    values.value_labels(spec, ctx)
    ctx.label('declared as ' + container)
    live = build(spec)
    ctx.raises(Exception, lambda: What(spec[1], {}, non_id_keys=seed), 'a declaration that is not iterable')
    if spec[4]:
        live = What(spec[1], live.conf, declared(container, spec[4]), spec[3])
    elif container == 'list':
        live = What(spec[1], live.conf, None, spec[3])
    text, full = ref.render_what(spec), ref.render_what(spec, non_ids_too=True)
    for _ in range(2):
        ctx.eq(live.id(), text, 'id')
        ctx.eq(live.id(nonids_too=False), text, 'id(nonids_too=False)')
        ctx.eq(live.id(nonids_too=True), full, 'id(nonids_too=True)')
        ctx.eq(str(live), full, 'str')
        ctx.eq('%s' % live, full, 'format')
    ctx.eq(live.id(True), full, 'id(True)')
    ctx.eq(what2id(live), text, 'what2id')
    ctx.eq(live.copy().id(), text, 'id of a copy')
    ctx.eq(str(live.copy()), full, 'str of a copy')
    ctx.eq(live.copy(deep=True).id(), text, 'id of a deep copy')
    ctx.eq(What('Outer', {'inner': live, 'xs': [live]}).id(nonids_too=True), 'Outer(inner=%s,xs=[%s])' % (text, text), 'nested id')
    names = [k for k, _ in spec[2]]
    ctx.eq(live.keys(recursive=False), sorted(k for k in names if k not in spec[4]), 'keys')
    ctx.eq(live.keys(recursive=False, non_ids_too=True), sorted(names), 'all keys')
    # metamorphic: values of non-id keys are irrelevant
    rng = D(rng=random.Random(seed))
    other = respec(spec, rng, Options(depth=2), True)
    ctx.eq(build(other).id(), text, 'id after changing only non-id keys')
    # the rest matter
    visible = [i for i, (k, _) in enumerate(spec[2]) if k not in spec[4]]
    if visible:
        i = visible[seed % len(visible)]
        k, v = spec[2][i]
        new = gen_value(rng, Options(depth=2), 2)
        if ref.render(new) != ref.render(v):
            kvs = list(spec[2])
            kvs[i] = (k, new)
            ctx.check(build(('w', spec[1], kvs, spec[3], spec[4])).id() != text, 'changing %r does not change the id %r', k, text)


# --- whatables

NAMES = ['a', 'b', 'c', 'n_jobs', 'verbose', '_p', 'q_', 'x1', 'seed']


def gen_whatable(d):
    names = d.sample(NAMES, 1, 5)
    attrs = [(k, gen_value(d, Options(depth=1), 1)) for k in names]
    new = [(k, gen_value(d, Options(depth=1), 1)) for k in names]
    keys = d.sample(names + ['absent'], 0, 4)
    excludes = d.choice([None, ['what'], d.sample(names, 0, 2) + ['what']])
    return (d.choice(['class', 'instance', 'function', 'partial', 'lambda', 'whatareyou', 'obj2what', 'whatareyou-function', 'subclass', 'inplace']),
            attrs, new, keys, excludes, d.choice(CONTAINERS), d.bool(0.3))


def make(kind, attrs, keys, excludes, container, preset, call=True):
    """Returns a function giving a fresh configuration."""
    from functools import partial
    from whatami import whatable, whatareyou, obj2what
    from engine.objects import make_function
    kw = {'non_id_keys': declared(container, keys)}
    if excludes is not None:
        kw['excludes'] = tuple(excludes)

    class C(object):
        pass

    def instance(cls):
        obj = cls()
        for k, v in attrs:
            setattr(obj, k, build(v))
        return obj
    if kind in ('class', 'subclass'):
        W = whatable(**kw)(C) if preset else whatable(C, **kw)
        if kind == 'subclass':
            W = type('C', (W,), {})
        obj = instance(W)
        return lambda: obj.what()
    if kind == 'instance':
        obj = whatable(instance(C), **kw)
        return lambda: obj.what()
    if kind == 'whatareyou':
        obj = instance(C)
        return lambda: whatareyou(obj, **dict(kw, non_id_keys=declared(container, keys)))
    if kind == 'obj2what':
        obj = instance(C)
        return lambda: obj2what(obj, **dict(kw, non_id_keys=declared(container, keys)))
    f = make_function('C', [(k, v) for k, v in attrs], 'lambda' if kind == 'lambda' else 'def')
    if kind == 'partial':
        f = partial(make_function('C', [(k, None) for k, _ in attrs]), **{k: build(v) for k, v in attrs})
    if kind == 'whatareyou-function':
        return lambda: whatareyou(f, **dict(kw, non_id_keys=declared(container, keys)))
    if kind == 'inplace':
        kw['modify_func_inplace'] = True
    g = whatable(**kw)(f) if preset else whatable(f, **kw)
    return lambda: g.what()


def judge_whatable(case, ctx):
    kind, attrs, new, keys, excludes, container, preset = case
    ctx.label('whatable ' + kind)
    excl = ['what'] if excludes is None else excludes
    name = 'lambda' if kind == 'lambda' else 'C'
    isfun = kind in ('function', 'partial', 'lambda', 'inplace')

    def texts(vals):
        if isfun:  # functions keep everything in the configuration
            kvs = list(vals)
            non = list(keys) + list(excl)
        else:
            kvs = [(k, v) for k, v in vals if not k.startswith('_') and not k.endswith('_') and k not in excl]
            non = list(keys)
        spec = ('w', name, kvs, None, non)
        return ref.render_what(spec), ref.render_what(spec, non_ids_too=True), [k for k, _ in kvs if k in non]
    text, full, hidden = texts(attrs)
    ctx.interesting(bool(hidden))
    get = make(kind, attrs, keys, excludes, container, preset)
    for i in range(3):
        w = get()
        ctx.eq(w.id(), text, 'id of %s, request %d' % (kind, i))
        ctx.eq(str(w), full, 'str of %s, request %d' % (kind, i))
        ctx.eq(set(w.conf) & set(keys), set(k for k, _ in attrs if k in w.conf and k in keys), 'non id keys in the configuration')
    # change only the values of the non-id keys
    changed = [(k, dict(new)[k] if k in hidden else v) for k, v in attrs]
    other = make(kind, changed, keys, excludes, container, preset)()
    ctx.eq(other.id(), text, 'id of %s after changing only %r' % (kind, hidden))
    ctx.eq(str(other), texts(changed)[1], 'str of %s after changing only %r' % (kind, hidden))


# --- declarations outlive the parameters

KEYS = ['a', 'b', 'n_jobs', 'verbose', '_p', 'x']


def gen_history(d):
    o = Options(depth=2, whats_in_sets=False)
    conf = [(k, gen_value(d, o, 1)) for k in d.sample(KEYS, 0, 3)]
    ops = []
    for _ in range(d.int(1, 8)):
        ops.append((d.choice(['set', 'set', 'set copy', 'item', 'del', 'copy', 'deep', 'declare', 'forget', 'back', 'clear']), d.choice(KEYS), gen_value(d, o, 1)))
    return conf, d.sample(KEYS, 0, 3), ops, d.choice(CONTAINERS)


def judge_history(case, ctx):
    from whatami import What
    conf, keys, ops, container = case
    live = What('A', {k: build(v) for k, v in conf}, declared(container, keys))
    alive = [(live, dict(conf), set(keys))]
    ctx.label(*['op ' + op for op, _, _ in ops])
    late = False

    def check(w, model, non, op):
        spec = ('w', 'A', sorted(model.items()), None, list(non))
        ctx.eq(w.id(), ref.render_what(spec), 'id after %s' % op)
        ctx.eq(str(w), ref.render_what(spec, non_ids_too=True), 'str after %s' % op)
        ctx.eq(What('O', {'x': w}).id(), 'O(x=%s)' % ref.render_what(spec), 'nested id after %s' % op)
        ctx.eq(w.keys(recursive=False), sorted(k for k in model if k not in non), 'keys after %s' % op)
    check(*(alive[0] + ('nothing',)))
    for op, k, v in ops:
        w, model, non = alive[-1]
        if op in ('set', 'item', 'set copy'):
            late = late or (k in non and k not in model)
        if op == 'set':
            w.set(k, build(v))
            model[k] = v
        elif op == 'item':
            w.conf[k] = build(v)
            model[k] = v
        elif op == 'set copy':
            alive.append((w.set(k, build(v), copy=True), dict(model, **{k: v}), set(non)))
        elif op == 'del':
            w.conf.pop(k, None)
            model.pop(k, None)
        elif op == 'clear':
            w.conf.clear()
            model.clear()
        elif op == 'copy':
            alive.append((w.copy(), dict(model), set(non)))
        elif op == 'deep':
            alive.append((w.copy(deep=True), dict(model), set(non)))
        elif op == 'declare':
            w.non_id_keys.add(k)
            non.add(k)
        elif op == 'forget':
            w.non_id_keys.discard(k)
            non.discard(k)
        else:
            alive.insert(0, alive.pop())
        for w, model, non in alive:
            check(w, model, non, op)
    ctx.interesting(late)


i1, i2 = ('i', 1), ('i', 2)
EXH = [([], ['n_jobs'], [('set', 'n_jobs', i1), ('copy', 'a', i1), ('del', 'n_jobs', i1), ('set copy', 'n_jobs', i2), ('declare', 'a', i1), ('item', 'a', i1)], c) for c in CONTAINERS]
EX = [(('w', 'A', [('a', i1), ('b', ('w', 'B', [('a', i1), ('c', i2)], None, ['c'])), ('c', i1)], None, ['a']), s, c) for s, c in
      zip(range(8), CONTAINERS)]
TESTS = [Test('declared', gen, judge, quick=1200, examples=EX),
         Test('big', gen_big, judge, quick=60),
         Test('whatables', gen_whatable, judge_whatable, quick=1500),
         Test('histories', gen_history, judge_history, quick=400, examples=EXH)]
