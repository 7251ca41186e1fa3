import re
from engine.core import Test, Discard
from engine import arrays, child, fixtures
from engine.values import gen_int, gen_float, gen_str, CLASSES, get_class, orders

RULE = ('A case (of the test values) is a nested value of literals, bytes, collections, classes, functions and arrays, two insertion orders and one edit. '
        'Non-trivial: it holds a dict or set with two or more members, or repeated strings.')
ASSUMPTIONS = ['collections that appear twice are different (equal) objects; only strings and bytes are shared', 'negative zero is not told from zero']

FUNCTIONS = [('builtins', 'len'), ('builtins', 'sorted'), ('json', 'dumps'), ('json', 'loads'), ('os.path', 'join'), ('engine.fixtures', 'function_a'), ('engine.fixtures', 'function_b'),
             ('whatami.misc', 'callable2call'), ('builtins', 'repr')]


LONG = 'a long text ' * 12
BOUND = {'l': ['append', 'count'], 'd': ['get', 'pop'], 's': ['upper', 'join'], 'S': ['add', 'union'], 't': ['count'], 'o': ['method', 'other'], 'F': ['union'], 'B': ['strip'], 'i': ['bit_length']}


def gen_scalar(d):
    k = d.weighted([(5, 'i'), (6, 's'), (2, 'n'), (2, 'b'), (4, 'f'), (2, 'c'), (2, 'B'), (1, 'fn'), (1, 'j'), (1, 'long')])
    if k == 'long':  # often repeated
        return d.choice([('s', LONG), ('s', LONG), ('B', b'1234567890' * 20), ('s', 'x' * 3000), ('s', LONG[:-1])])
    if k == 'i':
        return ('i', gen_int(d))
    if k == 's':
        return ('s', gen_str(d))
    if k == 'n':
        return ('n',)
    if k == 'b':
        return ('b', d.int(0, 1))
    if k == 'f':
        f = gen_float(d)
        return ('f', '0.0' if f == '-0.0' else f)
    if k == 'c':
        return ('c',) + d.choice(CLASSES)
    if k == 'B':
        return ('B', d.choice([b'', b'a', b'ab', b'\x00', b'\xff\xfe', b'None', b'hello' * 100]))
    if k == 'fn':
        return ('fn',) + d.choice(FUNCTIONS)
    return ('j', d.choice([0, 1, 2]), d.choice([0.0, 1.0, 2.5]))


def gen_value(d, depth, hashable=False, top=False):
    if depth <= 0:
        return gen_scalar(d)
    w = 0 if hashable else 4
    k = d.weighted([(1 if top else 8, 'scalar'), (w, 'l'), (3, 't'), (w, 'd'), (w, 'S'), (3, 'F'), (w and 1, 'a'), (w and 2, 'o'), (w and 2, 'm')])
    if k == 'scalar':
        return gen_scalar(d)
    if k == 'a':
        return arrays.gen_array(d, dtypes=['f8', 'i4', '?', 'U2', 'O', 'packed'], maxdim=2, klasses=False)
    if k == 'o':  # an object with some attributes
        names = d.sample(['x', 'y', 'a', 'b', 'z_', 'xx'], 0, 3)
        return ('o', [(('s', n), gen_value(d, depth - 1)) for n in names], d.choice(['Plain', 'Methods']))
    if k == 'm':  # a bound method
        of = d.choice('llddsStoFBio')
        if of == 'o':
            x = ('o', [(('s', n), gen_value(d, 0)) for n in d.sample(['x', 'y'], 0, 2)], 'Methods')
        elif of in 'ltSF':
            x = (of, distinct([('i', gen_int(d)) for _ in range(d.int(0, 2))]))
        elif of == 'd':
            x = ('d', distinct_items([(('s', gen_str(d)), ('i', gen_int(d))) for _ in range(d.int(0, 2))]))
        else:
            x = (of, {'s': lambda: gen_str(d), 'B': lambda: d.choice([b'', b'a', b'ab']), 'i': lambda: gen_int(d)}[of]())
        return ('m', [x], d.choice(BOUND[of]))
    if k in 'lt':
        return (k, d.list(lambda: gen_value(d, depth - 1, hashable), 0, 4))
    if d.bool(0.4):  # members that are alike
        f = d.choice([lambda: ('s', gen_str(d)), lambda: ('i', gen_int(d)), lambda: ('f', d.choice(['nan', '1.0', '2.0', 'inf', '0.5'])),
                      lambda: ('F', distinct(d.list(lambda: ('i', d.int(0, 3)), 0, 3))), lambda: ('t', [('s', d.choice('ab')), ('f', d.choice(['nan', '1.0', '2.0']))])])
    else:
        f = lambda: gen_value(d, min(depth - 1, 2), True)
    members = distinct(d.list(f, 0, 5))
    if k == 'd':
        return ('d', [(m, gen_value(d, depth - 1)) for m in members])
    return (k, members)


def distinct_items(items):
    return list({repr(k): (k, v) for k, v in items}.values())


def distinct(specs):
    out, seen, live = [], set(), set()
    for s in specs:
        c, v = canon(s), build(s)
        if c not in seen and v not in live:
            seen.add(c)
            live.add(v)
            out.append(s)
    return out


def canon(s):
    tag = s[0]
    if tag in 'lt' and len(tag) == 1:
        return (tag,) + tuple(canon(x) for x in s[1])
    if tag in ('S', 'F'):
        return (tag,) + tuple(sorted((canon(x) for x in s[1]), key=repr))
    if tag == 'd':
        return (tag,) + tuple(sorted(((canon(k), canon(v)) for k, v in s[1]), key=repr))
    if tag == 'o':
        return ('o', s[2]) + tuple(sorted(((canon(k), canon(v)) for k, v in s[1]), key=repr))
    if tag == 'm':
        return ('m', canon(s[1][0]), s[2])
    if tag == 'j':
        return ('j', float(s[1]), float(s[2]))
    if tag == 'a':
        a = arrays.build(s)
        layout = 'C' if a.flags.c_contiguous else 'F' if a.flags.f_contiguous else 'C' if s[2] == 'O' else a.strides
        tuples = s[2] == 'O' and not s[3] and s[6][0] in (7, 8)  # cannot be assigned
        return ('a',) + s[1:4] + (layout, (0,) if tuples else tuple(s[6]))
    return tuple(s)


def build(s, order=None, share=None):
    tag = s[0]
    o = order or (lambda xs: xs)
    if tag == 'n':
        return None
    if tag == 'b':
        return bool(s[1])
    if tag == 'i':
        return int(s[1])
    if tag == 'f':
        return float(s[1])
    if tag == 'j':
        return complex(s[1], s[2])
    if tag in ('s', 'B'):
        if share is not None:
            return share.setdefault(s[1], s[1])
        v = s[1]
        return v[:1] + v[:0].join([v[i:i + 1] for i in range(1, len(v))])
    if tag == 'c':
        return get_class(s[1], s[2])
    if tag == 'fn':
        return get_class(s[1], s[2])
    if tag == 'a':
        return arrays.build(s, 'own' if order is None else 'copy')
    if tag == 'o':
        out = get_class('engine.fixtures', s[2])()
        for k, v in o(list(s[1])):
            setattr(out, k[1], build(v, order, share))
        return out
    if tag == 'm':
        return getattr(build(s[1][0], order, share), s[2])
    if tag == 'l':
        return [build(x, order, share) for x in s[1]]
    if tag == 't':
        return tuple([build(x, order, share) for x in s[1]])
    if tag == 'd':
        out = {}
        for k, v in o(list(s[1])):
            out[build(k, order, share)] = build(v, order, share)
        return out
    out = set()
    for x in o(list(s[1])):
        out.add(build(x, order, share))
    if tag == 'F':
        return frozenset([build(x, order, share) for x in o(list(s[1]))])
    return out


# --- Edits

def paths(s, path=(), hashable=False):
    yield path, s, hashable
    tag = s[0]
    if tag in ('l', 't', 'S', 'F', 'm'):
        for i, x in enumerate(s[1]):
            for p in paths(x, path + ((1, i),), hashable or tag in 'SF'):
                yield p
    elif tag == 'o':
        for i, (_, v) in enumerate(s[1]):
            for p in paths(v, path + ((1, i, 1),), hashable):
                yield p
    elif tag == 'd':
        for i, (k, v) in enumerate(s[1]):
            for p in paths(k, path + ((1, i, 0),), True):
                yield p
            for p in paths(v, path + ((1, i, 1),), hashable):
                yield p


def put(s, path, new):
    if not path:
        return new
    step, rest = path[0], path[1:]
    xs = list(s[1])
    if len(step) == 2:
        xs[step[1]] = put(xs[step[1]], rest, new)
    else:
        kv = list(xs[step[1]])
        kv[step[2]] = put(kv[step[2]], rest, new)
        xs[step[1]] = tuple(kv)
    return (s[0], xs) + tuple(s[2:])


def edit(d, s):
    path, node, hashable = d.choice(list(paths(s)))
    tag = node[0]
    options = ['replace', 'wrap', 'type', 'type']
    if tag in ('l', 't'):
        options += ['swap', 'add', 'remove', 'split']
    elif tag in ('S', 'F', 'd'):
        options += ['add', 'remove', 'swap']
    elif tag in ('i', 'f', 's', 'B', 'a'):
        options += ['value', 'value']
    k = d.choice(options)
    if k == 'replace':
        new = gen_value(d, 1, hashable)
    elif k == 'wrap':
        new = (d.choice('tF' if hashable or tag in ('d', 'S', 'a', 'l') and False else 'lt'), [node])
    elif k == 'type':
        swaps = {'i': [('f', repr(float(node[1] % 10 ** 6))) if tag == 'i' else None, ('s', str(node[1])) if tag == 'i' else None, ('b', 1)], 'b': [('i', node[1])] if tag == 'b' else [],
                 'f': [('s', node[1])] if tag == 'f' else [], 's': [('B', node[1].encode('utf-8', 'surrogatepass'))] if tag == 's' else [], 'B': [('s', node[1].decode('latin-1'))] if tag == 'B' else [],
                 'n': [('b', 0), ('s', 'None'), ('t', [])], 'c': [('s', node[-1])], 'fn': [('s', node[-1])], 'j': [('f', repr(float(node[1])))] if tag == 'j' else [],
                 'l': [('t', node[1])] if tag == 'l' else [], 't': [('F', node[1])] if tag == 't' else [], 'S': [('F', node[1]), ('l', node[1])] if tag == 'S' else [],
                 'F': [('t', node[1])] if tag == 'F' else [], 'd': [('l', [('t', list(kv)) for kv in node[1]])] if tag == 'd' else [], 'a': [('l', [])],
                 'o': [('o', node[1], 'Plain' if node[-1] == 'Methods' else 'Methods'), ('d', node[1])] if tag == 'o' else [], 'm': [('m', node[1], x) for x in BOUND[node[1][0][0]] if x != node[2]] + [('s', node[-1])] if tag == 'm' else []}[tag]
        new = d.choice(swaps)
    elif k == 'swap':
        xs = list(node[1])
        if len(xs) < 2:
            raise Discard()
        i, j = d.sample(range(len(xs)), 2, 2)
        if tag == 'd':
            xs[i], xs[j] = (xs[i][0], xs[j][1]), (xs[j][0], xs[i][1])
        elif tag in ('S', 'F'):
            raise Discard()
        else:
            xs[i], xs[j] = xs[j], xs[i]
        new = (tag, xs)
    elif k == 'add':
        x = gen_value(d, 1, hashable or tag not in ('l', 't'))
        xs = list(node[1])
        xs.insert(d.int(0, len(xs)), x if tag != 'd' else (x, gen_value(d, 1)))
        new = (tag, xs)
    elif k == 'remove':
        if not node[1]:
            raise Discard()
        xs = list(node[1])
        xs.pop(d.draw(len(xs) - 1))
        new = (tag, xs)
    elif k == 'split':
        xs = list(node[1])
        i = d.int(0, len(xs))
        new = (tag, xs[:i] + [(tag, xs[i:])])
    elif tag == 'i':
        new = ('i', d.choice([node[1] + 1, -node[1], node[1] + 256, node[1] - 2 ** 32]))
    elif tag == 'f':
        new = ('f', d.choice(['nan', 'inf', '-inf', repr(float(node[1]) * (1 + 2 ** -52)), '0.0']))
    elif tag == 'a':
        new = arrays.edit_array(d, node)[1]
        if new[1] != node[1]:
            raise Discard()
    else:
        v = node[1]
        i = d.int(0, len(v))
        new = (tag, d.choice([v[:i] + (v[:0] + ('x' if tag == 's' else b'x')) + v[i:], v[:i] + v[i + 1:], v[::-1], v + v, v.upper(), v.strip()]))
    out = put(s, path, new)
    if not valid(out) or canon(out) == canon(s):
        raise Discard()
    return out


def valid(s):
    for _, x, hashable in paths(s):
        if x[0] == 'm' and (x[1][0][0] not in BOUND or x[2] not in BOUND[x[1][0][0]] or x[1][0][0] == 'o' and x[1][0][2] != 'Methods'):
            return False
        if hashable and x[0] in ('l', 'd', 'S', 'a', 'o', 'm'):
            return False
        if x[0] in ('S', 'F', 'd'):
            members = x[1] if x[0] != 'd' else [k for k, _ in x[1]]
            if not all(valid_key(m) for m in members) or len(distinct(members)) < len(members):
                return False
    return True


def valid_key(s):
    return s[0] not in ('l', 'd', 'S', 'a', 'o', 'm') and (s[0] not in ('t', 'F') or all(valid_key(x) for x in s[1]))


def gen_shared(d):
    """A string, or bytes, in several places."""
    n = d.choice([1, 2, 5, 20, 63, 64, 99, 100, 101, 128, 255, 256, 300, 1000, 5000])
    x = d.choice([('s', ('text ' * n)[:n]), ('B', (b'bytes ' * n)[:n]), ('s', (u'\u00e9\u4e2d' * n)[:n]), ('B', (b'\x00\xff' * n)[:n])])
    out = []
    for _ in range(d.int(2, 4)):
        k = d.choice(['plain', 'plain', 't', 'l', 'd', 'key', 'F', 'o'])
        y = gen_value(d, 1)
        out.append(x if k == 'plain' else (k, [x, y]) if k in 'tl' else ('d', [(('s', 'k'), x)]) if k == 'd' else ('d', [(x, y)]) if k == 'key' else ('F', [x]) if k == 'F' else ('o', [(('s', 'x'), x)], 'Plain'))
    return (d.choice('lt'), out)


def gen_large(d):
    """Many members of several kinds, or deep nesting."""
    k = d.choice(['S', 'F', 'd', 'd', 'l', 'deep', 'o'])
    if k == 'deep':
        v = gen_value(d, 1)
        layers = d.list(lambda: d.choice('ltdo'), 1, 3)
        for i in range(d.choice([5, 9, 17, 33])):
            v = {'l': lambda: ('l', [v, ('i', i)]), 't': lambda: ('t', [v]), 'd': lambda: ('d', [(('s', 'k'), v), (('i', i), ('n',))]), 'o': lambda: ('o', [(('s', 'x'), v)], 'Plain')}[layers[i % len(layers)]]()
        spec = v
    else:
        n, start, step = d.choice([20, 40, 70, 130, 300]), gen_int(d) % 10 ** 9, d.choice([1, 7, 1000])
        kinds = d.choice(['s', 'is', 'ist', 'ibF', 'F', 'siBtF', 't', 'B'])
        make = {'i': lambda i: ('i', i), 's': lambda i: ('s', 'k%d' % i), 't': lambda i: ('t', [('i', i // 3), ('s', 'ab'[i % 2]), ('i', i)]), 'b': lambda i: ('f', repr(i + 0.5)),
                'F': lambda i: ('F', [('i', i), ('i', i + 1)]), 'B': lambda i: ('B', b'b%d' % i)}
        members = [make[kinds[i % len(kinds)]](start + i * step) for i in range(n)]
        if k in 'do':
            spec = ('d', [(m, ('i', i)) for i, m in enumerate(members)]) if k == 'd' else ('o', [(('s', 'a%d' % i), m) for i, m in enumerate(members)], 'Plain')
        else:
            spec = (k, members)
    if d.bool(0.3):
        spec = d.choice([('l', [spec, ('i', 1)]), ('d', [(('s', 'k'), spec)]), ('t', [spec, spec])])
    for _ in range(4):
        try:
            return spec, d.int(0, 40), d.int(0, 40), edit(d, spec)
        except Discard:
            pass
    raise Discard()


def gen(d):
    s = gen_shared(d) if d.bool(0.15) else gen_value(d, d.int(1, 4), top=True)
    one, two = d.int(0, 40), d.int(0, 40)
    for _ in range(4):
        try:
            return s, one, two, edit(d, s)
        except Discard:
            pass
    raise Discard()


def digests(item):
    from whatami.plugins import hasher
    from whatami.minijoblib import hashing
    spec, order, shared = item
    v = build(spec, orders(order), {} if shared else None)
    return hasher(v), hashing.hasher(v, hash_name='sha1')


def judge(case, ctx):
    from whatami.plugins import hasher
    from whatami.minijoblib import hashing
    spec, one, two, edited = case
    a, b, e = build(spec, orders(one)), build(spec, orders(two), {}), build(edited, orders(one))
    md5, sha1 = digests((spec, one, 0))
    ctx.check(re.match('^[0-9a-f]{32}$', md5) and re.match('^[0-9a-f]{40}$', sha1), 'unexpected digests %s, %s', md5, sha1)
    ctx.eq(hashing.hasher(a), md5, 'md5 is not the default')
    ctx.eq(hasher(a, hash_name='sha1'), sha1, 'the sha1')
    ctx.eq(hasher(a), md5, 'the digest of the same object again')
    ctx.eq((hasher(b), hasher(b, hash_name='sha1')), (md5, sha1), 'the digests of an equal value with other orders and shared strings')
    if isinstance(a, (list, set, dict)) and not (isinstance(a, (set, dict)) and 'a new one~' in a):
        if isinstance(a, list):
            a.append('a new one~')
        elif isinstance(a, set):
            a.add('a new one~')
        else:
            a['a new one~'] = 1
        changed = hasher(a), hasher(a, hash_name='sha1')
        a.pop() if isinstance(a, list) else a.remove('a new one~') if isinstance(a, set) else a.pop('a new one~')
        ctx.check(changed[0] != md5 and changed[1] != sha1, 'the digest did not change with one more in the same object')
        ctx.eq(hasher(a), md5, 'the digest without the one more')
        ctx.label('changed in place')
    ctx.check(hasher(e) != md5 and hasher(e, hash_name='sha1') != sha1, 'the digest did not change with the value')
    ctx.defer((md5, sha1, hasher(e)))
    big = any(x[0] in ('S', 'F', 'd') and len(x[1]) > 1 for _, x, _ in paths(spec))
    strings = [x[1] for _, x, _ in paths(spec) if x[0] in ('s', 'B') and len(x[1]) > 1]
    ctx.interesting(big or len(set(strings)) < len(strings))
    for _, x, _ in paths(spec):
        ctx.label('has ' + x[0])
        if x[0] in ('S', 'F', 'd') and len(x[1]) > 1:
            try:
                sorted(build(k if x[0] != 'd' else k[0]) for k in x[1])
            except TypeError:
                ctx.label('cannot be sorted')
    if len(set(strings)) < len(strings):
        ctx.label('repeated strings')


# --- arrays in memory-mapped files

def gen_mmap(d):
    while True:
        spec = arrays.gen_array(d, [x for x in arrays.DTYPES if x != 'O'], klasses=False)
        if all(spec[3]):
            break
    return spec, d.choice(['C', 'F']), d.choice(['alone', 'list', 'dict', 'view', 'scalar index']), d.bool()


def judge_mmap(case, ctx):
    import os
    import tempfile
    import numpy as np
    from whatami.minijoblib.hashing import hasher
    spec, order, form, readonly = case
    a = arrays.build(spec)
    fd, path = tempfile.mkstemp(suffix='.mmap')
    os.close(fd)
    try:
        m = np.memmap(path, dtype=a.dtype, mode='w+', shape=a.shape or (1,), order=order)
        m[...] = a
        m.flush()
        if readonly:
            m = np.memmap(path, dtype=a.dtype, mode='r', shape=m.shape, order=order)
        plain = np.array(m, order=order)
        if form == 'view':
            m, plain = m[::2], plain[::2]

        def wrap(x):
            return [x, 1] if form == 'list' else {'k': x} if form == 'dict' else x
        for hash_name in ('md5', 'sha1'):
            one = hasher(wrap(plain), hash_name)
            ctx.eq(hasher(wrap(plain), hash_name, True), one, 'coerce_mmap changes the digest of an array in memory')
            ctx.eq(hasher(wrap(m), hash_name, coerce_mmap=True), one, 'the digest of a memory-mapped array with coerce_mmap')
            other = hasher(wrap(m), hash_name)
            ctx.check(other != one and hasher(wrap(m), hash_name, coerce_mmap=False) == other, 'the digest of a memory-mapped array (class %s) is that of one in memory', type(m))
            sub = plain.view(fixtures.MyArray)
            ctx.check(hasher(wrap(sub), hash_name, coerce_mmap=True) == hasher(wrap(sub), hash_name) != one, 'coerce_mmap plays a role for other classes')
    finally:
        os.remove(path)
    ctx.interesting(plain.size > 1)
    ctx.label('mmap ' + form)


def finish(pairs):
    bad = []
    seen = {}
    for case, payload in pairs:
        for digest, spec in ((payload[0], case[0]), (payload[2], case[3])):
            c = canon(spec)
            if seen.setdefault(digest, c) != c:
                bad.append((case, 'the same digest as the different value %r' % (seen[digest],)))
    for results in child.run('c26', 'digests', [((c[0], c[2], 1), (c[0], c[1] + 1, 0)) for c, _ in pairs], ('5', '91')):
        for (case, payload), got in zip(pairs, results):
            if got != ('ok', payload[:2]):
                bad.append((case, 'another process gives %r instead of %r' % (got[1], payload[:2])))
    return bad


TESTS = [Test('values', gen, judge, quick=1300, finish=finish), Test('large', gen_large, judge, quick=60, finish=finish), Test('mmap', gen_mmap, judge_mmap, quick=60)]
