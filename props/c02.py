from engine.core import Test
from engine import ref, values, objects
from engine.values import Options, gen_what, build

RULE = ('A case is a random configuration of literals, or a random object (function, partial, whatable, object without '
        'representation, numpy scalar...) in a random position. Non-trivial: collections, nested configurations or objects.')
ASSUMPTIONS = ['the reference renderer in engine/ref.py is written from README, docstrings and tests']


def gen(d):
    return gen_what(d, Options(depth=d.int(1, 4), numeric_types=True), top=True)


def judge(spec, ctx):
    values.value_labels(spec, ctx)
    ctx.interesting(ref.contains(spec, lambda s: s is not spec and s[0] in 'ltdSFcw'))
    ctx.eq(build(spec).id(), ref.render(spec), 'id')


def gen_objects(d):
    return objects.gen_mixed(d, Options(depth=2, safe_strings=False), 2)


def judge_objects(spec, ctx):
    from whatami import What, what2id
    ctx.interesting()
    for tag in ('fn', 'pt', 'ob', 'os', 'wo', 'np', 'nt', 'c'):
        if ref.contains(spec, lambda s: s[0] == tag):
            ctx.label('object ' + tag)
    value = build(spec)
    ctx.eq(What('A', {'x': value}).id(), 'A(x=' + ref.render(spec) + ')', 'id')
    if spec[0] in ('wo', 'w'):
        ctx.eq(what2id(value), ref.render(spec), 'what2id')
    if spec[0] in ('fn', 'pt'):  # inspection leaves private names out, see whatareyou
        bound = {p: v for p, v in spec[2] if v is not None} if spec[0] == 'fn' else objects.pt_bound(spec)
        ctx.eq(what2id(value), objects.render_call(objects.fn_name(spec), {k: v for k, v in bound.items() if objects.public(k)}), 'what2id')


REFUSED = {'len': lambda: len, 'sorted': lambda: sorted, 'print': lambda: print, 'property': lambda: property(lambda self: 3), 'own property': lambda: objects_property()}


def objects_property():
    class C(object):
        @property
        def p(self):
            raise AssertionError('not to be computed')
    return C.p


def gen_refused(d):
    return d.choice(sorted(REFUSED)), d.list(lambda: d.choice('ltdkw'), 0, 4), gen_what(d, Options(depth=1), top=True)


def judge_refused(case, ctx):
    from whatami import What
    kind, places, spec = case
    ctx.interesting(bool(places))
    v = REFUSED[kind]()
    for k in places:
        other = build(spec)
        v = {'l': lambda: [other, v], 't': lambda: (v, other), 'd': lambda: {'k': v, 'o': other}, 'k': lambda: {1: {2: v}}, 'w': lambda: What('B', {'v': v, 'zz': other})}[k]()
    ctx.raises(Exception, lambda: What('A', {'a': build(spec), 'x': v}).id(), 'id of %s within %r' % (kind, places))
    live = What('A', {'a': build(spec), 'x': v}, non_id_keys=['x'])
    ctx.eq(live.id(), 'A(a=%s)' % ref.render(spec), 'id when it is under a non-id key')
    ctx.raises(Exception, lambda: str(live), 'str')
    ctx.label('refused ' + kind)


def w(name, out=None, **kvs):
    return ('w', name, sorted(kvs.items()), out, [])


i1 = ('i', 1)
EXAMPLES = [w('a', x=('s', "\\\\'")), w('a', x=('s', '\\')), w('a', x=('s', "it's")), w('a', x=('d', [(('s', 'b'), i1), (('s', 'a'), i1)])),
            w('a', b=i1, a=i1, B=i1), w('a', x=('S', [('i', 10), ('i', 9), ('s', 'a')])), w('a', x=('F', [])), w('f', out='o'),
            w('a', x=('f', '1e+22'), y=('f', '-0.0'))]
OBJ = [('fn', 'f', [('a', None), ('b', i1)], 'lambda'), ('pt', ('fn', 'f', [('a', None), ('b', i1)], 'def'), [('i', 3), ('i', 4)], [], 'partial'),
       ('wo', 'C', [('a', i1), ('_b', i1), ('c_', i1)], 'whatable'), ('ob', 'C'), ('c', 'builtins', 'int'), ('np', 'float64', '0.1')]

TESTS = [Test('literals', gen, judge, quick=6000, examples=EXAMPLES),
         Test('big', values.gen_big, judge, quick=80),
         Test('objects', gen_objects, judge_objects, quick=3000, examples=OBJ),
         Test('refused', gen_refused, judge_refused, quick=150)]
