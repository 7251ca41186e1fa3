from engine.core import Test, Discard
from engine import ref, values, mutate
from engine.values import Options, gen_what, build

RULE = ('A case is a pair of configurations: one and a single random edit of it at a random place, or two independent small ones, with '
        'different content. Non-trivial: the edit is below the top level or changes a string, a type or a structure.')
ASSUMPTIONS = ['strings equal up to the documented escaping of quotes and backslashes are the same content']


def gen(d):
    o = Options(depth=d.int(1, 4))
    a = gen_what(d, o, top=True)
    for _ in range(4):
        try:
            return (a, mutate.edit(d, a, o))
        except Discard:
            pass
    raise Discard()


def gen_small(d):
    o = Options(depth=2, members=2, what_members=2, what_names=['A', 'B'], names=['a', 'b'])
    a, b = gen_what(d, o, top=True), gen_what(d, o, top=True)
    return (a, b)


def gen_text(d):
    """Two strings that look alike, in the same place."""
    s = values.gen_str(d)
    t = mutate.edit_string(d, s)
    place = d.draw(5)

    def put(x):
        v = ('s', x)
        v = [v, ('l', [v, ('s', 'b')]), ('d', [(v, ('i', 1))]), ('S', [v]), ('d', [(('s', 'k'), v)]), ('w', 'B', [('b', v)], None, [])][place]
        return ('w', 'A', [('a', v), ('b', ('s', 'z'))], None, [])
    return (put(s), put(t))


def gen_split(d):
    """The same tokens cut into values in two ways."""
    words = d.list(lambda: d.choice(["'", '\\', ',', "','", 'a', '=', ':', '\\\\', ' ', "\\'", 'b=']), 1, 6)

    def cut():
        i, j = sorted([d.int(0, len(words)), d.int(0, len(words))])
        return [('s', ''.join(words[:i])), ('s', ''.join(words[i:j])), ('s', ''.join(words[j:]))]
    place = d.draw(2)

    def put(xs):
        if place == 0:
            return ('w', 'A', [('a', ('l', xs))], None, [])
        if place == 1:
            return ('w', 'A', list(zip(('a', 'b', 'c'), xs)), None, [])
        return ('w', 'A', [('a', ('d', [(xs[0], xs[1])])), ('b', xs[2])], None, [])
    return (put(cut()), put(cut()))


def gen_large(d):
    """A large collection, and the same with a member changed, removed, added or moved far from the start."""
    o = Options(depth=1)
    tag = d.choice('ltSFdw')
    v = values.gen_many(d, o, 'd' if tag == 'w' else tag)
    xs = list(v[1])
    i = d.choice([len(xs) - 1, d.int(0, len(xs) - 1), d.int(len(xs) // 2, len(xs) - 1)])
    new = ('s', 'new')
    k = d.draw(3 if tag in 'dw' else 4)
    if k == 0:
        xs[i] = (xs[i][0], new) if tag in 'dw' else new
    elif k == 1:
        xs.pop(i)
    elif k == 2:
        xs.insert(i, (new, ('i', 0)) if tag in 'dw' else new)
    elif k == 3:
        xs[i] = (new, xs[i][1]) if tag in 'dw' else ('s', ref.render(xs[i]))
    else:
        xs[0], xs[i] = xs[i], xs[0]

    def put(ys):
        if tag == 'w':
            return ('w', 'A', [('p%d_' % j if y[0] != new else 'pnew', y[1]) for j, y in enumerate(ys)], None, [])
        return ('w', 'A', [('a', (tag, ys))], None, [])
    return put(v[1]), put(xs)


def gen_long(d):
    """Long strings (or numbers) that differ in one place."""
    n = d.choice([30, 70, 100, 129, 200, 257, 500, 1025, 5000])
    base = (gen_unit(d) * n)[:n]
    i = d.choice([0, n // 2, n - 1, d.int(0, n - 1)])
    other = base[:i] + d.choice('xY,') + base[i + d.int(0, 1):]
    if d.bool(0.2):
        n = min(n, 1025)
        i = min(i, n - 1)
        a, b = ('i', 10 ** n + 10 ** i), ('i', 10 ** n)
    else:
        a, b = ('s', base), ('s', other)
    if d.bool(0.3):
        return ('w', 'A', [('a', ('d', [(a, ('i', 1))]))], None, []), ('w', 'A', [('a', ('d', [(b, ('i', 1))]))], None, [])
    return ('w', 'A', [('a', a)], None, []), ('w', 'A', [('a', b)], None, [])


def gen_unit(d):
    return values.gen_str(d) or 'ab'


def gen_deep(d):
    """Deeply nested values that differ at the bottom, or in depth."""
    n = d.choice([5, 10, 20, 40])
    kinds = d.list(lambda: d.choice('ltwd'), 1, 3)

    def put(v, n):
        for i in range(n):
            k = kinds[i % len(kinds)]
            v = {'l': lambda: ('l', [v]), 't': lambda: ('t', [v]), 'd': lambda: ('d', [(('s', 'k'), v)]), 'w': lambda: ('w', 'B', [('b', v)], None, [])}[k]()
        return ('w', 'A', [('a', v)], None, [])
    return put(('i', 1), n), d.choice([lambda: put(('i', 2), n), lambda: put(('i', 1), n + 1), lambda: put(('s', '1'), n)])()


def judge(case, ctx):
    a, b = case
    ca, cb = ref.idcanon(a), ref.idcanon(b)
    ia, ib = build(a).id(), build(b).id()
    if ca == cb:
        ctx.label('same content')
        ctx.eq(ia, ib, 'ids of the same content')
        return
    ctx.interesting()
    values.value_labels(a, ctx)
    ctx.check(ia != ib, 'different configurations have the same id %r', ia)
    ctx.check(build(a).id(nonids_too=True) != build(b).id(nonids_too=True), 'different configurations have the same full id %r', ia)


def w(**kvs):
    return ('w', 'A', sorted(kvs.items()), None, [])


s = lambda x: ('s', x)
EX = [(w(a=s('x')), w(a=s(' x'))), (w(a=('l', [s("x','y")])), w(a=('l', [s('x'), s('y')]))), (w(a=s("\\"), b=s(',b=')), w(a=s("\\',b=\\"))),
      (w(a=('i', 1)), w(a=('b', 1))), (w(a=('i', 1)), w(a=('f', '1.0'))), (w(a=('S', [])), w(a=('F', []))), (w(a=('t', [('i', 1)])), w(a=('i', 1))),
      (w(a=s('None')), w(a=('n',))), (w(a=('l', [('l', [])])), w(a=('l', []))), (w(a=s("\\\\'")), w(a=s("\\'")))]
TESTS = [Test('edit', gen, judge, quick=4500, examples=EX), Test('small', gen_small, judge, quick=2000),
         Test('text', gen_text, judge, quick=3000), Test('split', gen_split, judge, quick=2000),
         Test('large', gen_large, judge, quick=60), Test('long', gen_long, judge, quick=250), Test('deep', gen_deep, judge, quick=60)]
