from collections import Counter
from engine.core import Test, Discard
from engine import ref, values, objects
from engine.values import Options, gen_what, build

RULE = ('A case is a random nested configuration (lists, tuples, dicts with mixed keys, nested whats with non-id keys, whatable objects), flattened with '
        'every combination of the three flags, and random paths. Non-trivial: some nested configuration or addressable collection.')
ASSUMPTIONS = ['nan dict keys, negative (but those out of range), boolean and slice indices, and integer indexing into strings, and subscripts of classes are outside the domain']


from collections import namedtuple, OrderedDict, defaultdict

Pair = namedtuple('Pair', 'a b')
SUBCLASSES = {'namedtuple': lambda xs: Pair(xs, xs[0] if xs else None), 'list': lambda xs: type('Xs', (list,), {})(xs), 'tuple': lambda xs: type('Ts', (tuple,), {})(xs),
              'ordered': lambda xs: OrderedDict((repr(i), x) for i, x in enumerate(reversed(xs))), 'counter': lambda xs: Counter(['x', 'y', 'x']),
              'default': lambda xs: defaultdict(list, {'k': xs}), 'dict': lambda xs: type('Ds', (dict,), {})({'z': xs, 'a': 3})}
values.EXT_BUILD['sub'] = lambda spec, order, share: SUBCLASSES[spec[1]]([build(x, order, share) for x in spec[2]])


def gen_sub(d):
    o = Options(depth=2, nan=False)
    return ('sub', d.choice(sorted(SUBCLASSES)), d.list(lambda: values.gen_value(d, o, 1), 0, 3))


def gen(d):
    o = Options(depth=d.int(1, 4), nonids=True, nan=False, what_members=5, members=3, whats_in_sets=True)
    spec = gen_what(d, o, top=True)
    spec = spec[:4] + (d.sample([k for k, _ in spec[2]] + ['zz'], 0, 2),)
    if d.bool(0.35):
        kvs = [kv for kv in spec[2] if kv[0] != 'wo']
        wo = objects.gen_wo(d, Options(depth=1, nan=False))
        if d.bool(0.4):
            wo = d.choice([('l', [wo]), ('d', [(('s', 'k'), wo)]), ('w', 'B', [('k', wo)], None, [])])
        spec = ('w', spec[1], kvs + [('wo', wo)], spec[3], spec[4])
    if d.bool(0.3):
        # collections of other classes
        kvs = [kv for kv in spec[2] if kv[0] != 'sub']
        sub = gen_sub(d)
        if d.bool(0.4):
            sub = d.choice([('l', [sub]), ('d', [(('s', 'k'), sub)]), ('w', 'B', [('k', sub)], None, [])])
        spec = ('w', spec[1], kvs + [('sub', sub)], spec[3], spec[4])
    steps = ['a', 'x', 'zz', 'wo', 'k', 'sub', 'b', 0, 1, 2, 7, 10 ** 20, -50, None, '', 1.5, 'name', 'conf']
    paths = []
    for _ in range(6):
        paths.append((d.draw(40), d.choice(['extend', 'replace', 'cut', 'raw']), d.choice(steps), d.choice(steps)))
    return spec, paths


def gen_big(d):
    """Deep nesting, large collections."""
    spec = values.gen_big(d, Options(depth=1, nan=False), kinds=['parameters', 'deep', 'deep', 'collection'])
    paths = [(d.draw(40), d.choice(['extend', 'replace', 'cut', 'raw']), d.choice(['b', 0, 'k', 'zz', 17, 300, None]), d.choice(['b', 0, 'k', 'zz'])) for _ in range(6)]
    return spec, paths


MISSING = object()


class Undecided(Exception):
    pass


def step(v, key):
    from whatami import What
    if isinstance(v, What):
        return v.conf[key] if isinstance(key, str) and key in v.conf else MISSING
    if isinstance(v, dict):
        try:
            if key not in v and hasattr(v, '__missing__'):
                raise Undecided()  # defaultdict and the like provide their own values
            return v[key] if key in v else MISSING
        except TypeError:
            return MISSING
    if isinstance(v, (list, tuple)):
        return v[key] if type(key) is int and 0 <= key < len(v) else MISSING
    if isinstance(v, str):
        if isinstance(key, int):
            raise Undecided()
        return MISSING
    if isinstance(v, type):
        raise Undecided()  # python makes generic aliases of them, list['a']
    if type(v).__module__ not in ('builtins', 'collections', 'decimal', 'fractions', 'json.decoder') and not isinstance(v, type) and hasattr(v, 'what'):
        return v.__dict__[key] if isinstance(key, str) and key in v.__dict__ and objects.public(key) else MISSING
    return MISSING


def walk(what, key):
    if not isinstance(key, tuple):
        return step(what, key)
    v = what
    for k in key:
        v = step(v, k)
        if v is MISSING:
            return v
    return v


def expected(what, non_ids, collections, recursive):
    """[(path, value)] in no particular order."""
    from whatami import What
    out = []

    def visit(v, path):
        if isinstance(v, What):
            items = [(k, x) for k, x in v.conf.items() if non_ids or k not in v.non_id_keys]
        elif collections and isinstance(v, (list, tuple)):
            items = list(enumerate(v))
        elif collections and isinstance(v, dict):
            items = list(v.items())
        else:
            return
        for k, x in items:
            out.append((path + (k,), x))
            if recursive:
                visit(x, path + (k,))
    visit(what, ())
    return out


def judge(case, ctx):
    from whatami import What
    spec, paths = case
    what = build(spec)
    ctx.interesting(ref.contains(spec, lambda s: s is not spec and s[0] in ('l', 't', 'd', 'w', 'sub')))
    for tag, l in (('d', 'dict'), ('w', 'what'), ('wo', 'whatable'), ('sub', 'collection subclass')):
        if ref.contains(spec, lambda s: s is not spec and s[0] == tag):
            ctx.label('nested ' + l)
    every = None
    for non_ids in (False, True):
        for collections in (False, True):
            for recursive in (False, True):
                kw = dict(non_ids_too=non_ids, collections_too=collections, recursive=recursive)
                got = what.flatten(**kw)
                ctx.check(len(got) == 2 and len(got[0]) == len(got[1]), 'flatten(%r) gives %r', kw, got)
                keys, vals = list(got[0]), list(got[1])
                exp = expected(what, non_ids, collections, recursive)
                ctx.eq(len(keys), len(exp), 'number of keys with %r (%r)' % (kw, keys))
                paths_got = [k if isinstance(k, tuple) else (k,) for k in keys]
                ctx.check(all((len(p) > 1) == isinstance(k, tuple) for k, p in zip(keys, paths_got)), 'keys %r', keys)
                ctx.eq(Counter((repr(p), id(v)) for p, v in zip(paths_got, vals)), Counter((repr(p), id(v)) for p, v in exp), 'keys and values with %r' % kw)
                ctx.eq(what.keys(**kw), keys, 'keys()')
                ctx.check([id(v) for v in what.values(**kw)] == [id(v) for v in vals], 'values() %r', what.values(**kw))
                groups = {}
                for p in paths_got:
                    groups.setdefault(repr(p[:-1]), []).append(p)
                for g in groups.values():
                    parent = walk(what, g[0][:-1])
                    if isinstance(parent, What):
                        names = [p[-1] for p in g]
                        ctx.eq(names, sorted(names), 'key order in %r' % (g[0][:-1],))
                    elif isinstance(parent, (list, tuple)):
                        ctx.eq([p[-1] for p in g], list(range(len(parent))), 'indices in %r' % (g[0][:-1],))
                for k, v in zip(keys, vals):
                    ctx.check(what[k] is v, '[%r] gives %r instead of %r', k, what[k], v)
                    ctx.check(what.get(k) is v, 'get(%r) gives %r instead of %r', k, what.get(k), v)
                    ctx.check(what.get(k, MISSING) is v, 'get(%r) with default gives %r', k, what.get(k, MISSING))
                if non_ids and collections and recursive:
                    every = paths_got
    ctx.check(build(spec, lambda xs: xs[::-1]).keys(True, True) == what.keys(True, True), 'the keys depend on the order in which dictionaries are filled')
    ctx.eq(what.flatten(True, True, True)[0], what.flatten(non_ids_too=True, collections_too=True)[0], 'positional flags')
    # random paths
    for i, how, a, b in paths:
        base = every[i % len(every)] if every else ()
        if how == 'extend':
            path = base + ((a,) if i % 2 else (a, b))
        elif how == 'replace':
            path = base[:-1] + (a,)
        elif how == 'cut':
            path = base[1:] + (b,)
        else:
            path = (a, b)
        key = path[0] if len(path) == 1 and i % 3 else path
        try:
            v = walk(what, key)
        except Undecided:
            continue
        if any(isinstance(x, tuple) for x in path):
            continue
        if v is MISSING:
            ctx.label('missing path')
            ctx.raises(KeyError, lambda: what[key], '[%r]' % (key,))
            default = object()
            ctx.check(what.get(key, default) is default, 'get(%r) gives %r', key, what.get(key, default))
            ctx.check(what.get(key, default=7) == 7, 'get(%r, default=7) gives %r', key, what.get(key, 7))
            ctx.check(what.get(key) is None, 'get(%r) gives %r', key, what.get(key))
        else:
            ctx.label('other path')
            ctx.check(what[key] is v and what.get(key, default=3) is v, '[%r] gives %r instead of %r', key, what[key], v)
    # through whatable objects
    for p in every or ():
        obj = walk(what, p)
        if not isinstance(obj, (What, type)) and hasattr(obj, 'what') and hasattr(obj, '__dict__'):
            for k, v in obj.__dict__.items():
                if objects.public(k):
                    ctx.check(what[p + (k,)] is v, '[%r] gives %r', p + (k,), what[p + (k,)])
                else:
                    ctx.raises(KeyError, lambda: what[p + (k,)], '[%r]' % (p + (k,),))


i1 = ('i', 1)
EX = [(('w', 'A', [('b', ('d', [(('s', 'a'), i1), (('i', 3), ('l', [i1])), (('n',), ('t', [('w', 'B', [('z', i1), ('y', i1)], None, ['z'])]))])), ('a', i1)], None, ['a']), []),
      (('w', 'A', [('x', ('s', 'abc')), ('y', ('b', 1)), ('z', ('c', 'builtins', 'list'))], None, []), [(0, 'extend', 'a', 'b'), (1, 'extend', 'a', 'b'), (2, 'extend', 'a', None), (2, 'extend', 0, 0)])]


# --- Paths that go through anything a configuration can hold

KINDS = ['instance', 'duck', 'decorated instance', 'class', 'class with a classmethod', 'plain class', 'subclass', 'duck class', 'plain', 'function', 'decorated function', 'partial', 'foreign', 'foreign class', 'what',
         'getitem', 'number', 'flagged']
ATTRS = ['a', 'b', 'x', '_p', 'what', 'id']


def gen_through(d):
    o = Options(depth=1, nan=False)
    attrs = [(n, values.gen_value(d, o, 1)) for n in d.sample(['a', 'b', 'x', '_p'], 0, 3)]
    where = d.choice(['direct', 'list', 'dict', 'what', 'tuple'])
    return d.choice(KINDS), attrs, where, [(d.choice(ATTRS + [0, None, 'zz', -50]), d.choice([(), (), ('k',), (0,), ('zz', 'zz')])) for _ in range(4)]


def judge_through(case, ctx):
    from functools import partial
    from whatami import What, whatable
    kind, attrs, where, paths = case
    made = [(k, build(v)) for k, v in attrs]
    conf = {}  # what the path can take from the object
    cls = type('C', (object,), {})

    def fill(o):
        for k, v in made:
            setattr(o, k, v)
        return o
    public = {k: v for k, v in made if objects.public(k)}
    if kind in ('instance', 'class', 'subclass'):
        cls = whatable(cls)
        if kind == 'subclass':
            cls = type('D', (cls,), {})
        obj = cls if kind == 'class' else fill(cls())
        conf = {} if kind == 'class' else public
    elif kind in ('duck', 'duck class'):
        cls.what = lambda self: What('Duck', dict(made))
        obj = fill(cls()) if kind == 'duck' else cls
        conf = dict(made) if kind == 'duck' else {}
    elif kind == 'decorated instance':
        obj = whatable(fill(cls()))
        conf = public
    elif kind == 'class with a classmethod':
        cls.what = classmethod(lambda c: What('ClassLevel', dict(made)))
        obj, conf = cls, dict(made)
    elif kind == 'plain class':
        obj = fill(cls)
    elif kind == 'plain':
        obj = fill(cls())
    elif kind in ('function', 'decorated function', 'partial'):
        f = objects.make_function('f', attrs)
        obj = whatable(f) if kind == 'decorated function' else partial(f) if kind == 'partial' else f
        if kind == 'decorated function':
            got = obj.what().conf
            ctx.eq(sorted(got), sorted(k for k, _ in attrs if objects.public(k)) if '_p' not in got else sorted(k for k, _ in attrs), 'parameters')
            conf = dict(got)
            made = list(got.items())
    elif kind in ('foreign', 'foreign class'):
        cls.what = lambda self: dict(made)
        obj = fill(cls()) if kind == 'foreign' else cls
    elif kind == 'flagged':
        cls.what = lambda self: {'a': 1}
        cls.what.whatami = True
        obj = cls()
    elif kind == 'what':
        obj, conf = What('B', dict(made)), dict(made)
    elif kind == 'getitem':
        cls.__getitem__ = lambda self, k: dict(made)[k]
        obj, conf = fill(cls()), dict(made)
    else:
        obj = 3
    holder, path = {'direct': (obj, ()), 'list': ([1, obj], (1,)), 'dict': ({'k': obj}, ('k',)), 'what': (What('H', {'k': obj}), ('k',)), 'tuple': ((obj,), (0,))}[where]
    what = What('A', {'o': holder})
    base = ('o',) + path
    ctx.label('through ' + kind)
    ctx.interesting(bool(attrs))
    ctx.check(what[base] is obj, 'got %r', what[base])
    for k, rest in paths:
        key = base + (k,) + rest
        v = conf[k] if isinstance(k, str) and k in conf else MISSING
        try:
            for r in rest:
                v = v if v is MISSING else step(v, r)
        except Undecided:
            continue
        if v is MISSING:
            ctx.label('missing')
            ctx.raises(KeyError, lambda: what[key], '[%r]' % (key,))
            ctx.check(what.get(key, default=7) == 7 and what.get(key) is None, 'get(%r) gives %r', key, what.get(key))
        else:
            ctx.label('found')
            ctx.check(what[key] is v or type(what[key]) is type(v) and repr(what[key]) == repr(v), '[%r] gives %r, expected %r', key, what[key], v)
            ctx.check(what.get(key, MISSING) is not MISSING, 'get(%r) finds nothing', key)


# --- Dictionaries whose keys have no total order

def gen_partial_order(d):
    o = Options(depth=1, nan=False)
    scalar = lambda: d.choice([('i', 0), ('i', 1), ('i', 2), ('s', 'a'), ('c', 'builtins', 'list'), ('n',)])
    frozen = lambda: ('F', values.distinct(d.list(scalar, 0, 3)))
    key = lambda: d.weighted([(6, 'F'), (3, 'T'), (1, 's')])

    def make():
        k = key()
        return frozen() if k == 'F' else ('t', [frozen(), scalar()][:d.int(1, 2)]) if k == 'T' else scalar()
    keys = values.distinct(d.list(make, 2, 7, p=0.85))
    return keys, [d.draw(100) for _ in range(4)], d.bool(0.3)


def judge_partial_order(case, ctx):
    from random import Random
    from whatami import What
    keys, seeds, nested = case
    made = [build(k) for k in keys]
    ctx.interesting(len(made) > 2)

    def keys_of(order):
        dd = dict((made[i], i) for i in order)
        w = What('A', {'x': [dd] if nested else dd})
        ks, vs = w.flatten(collections_too=True)
        base = ('x', 0) if nested else ('x',)
        for k, v in zip(ks, vs):
            if isinstance(k, tuple) and len(k) == len(base) + 1 and k[:len(base)] == base:
                ctx.check(any(k[-1] is m for m in made) and v == dd[k[-1]] and w[k] is v, '%r gives %r', k, v)
        return [v for k, v in zip(ks, vs) if isinstance(k, tuple) and len(k) == len(base) + 1 and k[:len(base)] == base]
    order = list(range(len(made)))
    first = keys_of(order)
    ctx.eq(sorted(first), order, 'the members')
    for s in seeds:
        Random(s).shuffle(order)
        ctx.eq(keys_of(order), first, 'the order of the keys when the dictionary is filled in another order')


TESTS = [Test('flatten', gen, judge, quick=1500, examples=EX), Test('big', gen_big, judge, quick=40), Test('through', gen_through, judge_through, quick=1200), Test('order', gen_partial_order, judge_partial_order, quick=500)]
