import hashlib
from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_what, build

RULE = ('A case is a random configuration, its ids asked with maxlength at every boundary. Non-trivial: at least one parameter; every '
        'case crosses the length boundary.')
ASSUMPTIONS = []


def gen(d):
    spec = gen_what(d, Options(depth=d.int(0, 3), nonids=True, numeric_types=True), top=True)
    spec = spec[:4] + (d.sample([k for k, _ in spec[2]] + ['zz'], 0, 3),)
    return spec, [d.choice([d.int(-5, 60), d.int(-10 ** 6, 10 ** 6), 39, 40, 41]) for _ in range(3)]


def gen_big(d):
    spec = values.gen_big(d)
    return spec, [d.choice([d.int(0, 3000), 40, 255, 256, 1000, 1024, 4096]) for _ in range(3)]


def judge(case, ctx):
    spec, lengths = case
    what = build(spec)
    ctx.interesting(bool(spec[2]))
    values.value_labels(spec, ctx)
    for nonids in (False, True):
        for positional in (False, True):
            text = ref.render_what(spec, nonids, positional)
            if any(ord(c) > 127 for c in text):
                ctx.label('non-ascii')

            def ask(**kw):
                return what.positional_id(non_ids_too=nonids, **kw) if positional else what.id(nonids_too=nonids, **kw)
            ctx.eq(ask(), text, 'id (positional %r, non ids %r)' % (positional, nonids))
            n = len(text)
            sha = hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest()
            for m in [n - 1, n, n + 1, 0, -1, -n, 1, 2, n // 2, len(text.encode('utf-8', 'surrogatepass')), len(text.encode('utf-8', 'surrogatepass')) - 1, 10 ** 9] + lengths:
                expected = text if m <= 0 or n <= m else sha
                ctx.eq(ask(maxlength=m), expected, 'maxlength=%d, full length %d (positional %r, non ids %r)' % (m, n, positional, nonids))
    for whole in (what.id(), what.id(False, 0)):
        ctx.eq(whole, ref.render_what(spec), 'id')
    ctx.eq(what.positional_id(True, 1), hashlib.sha1(ref.render_what(spec, True, True).encode('utf-8', 'surrogatepass')).hexdigest(), 'positional arguments')


i1 = ('i', 1)
EX = [(('w', 'A', [('x', ('s', '\u00e9\u4e2d')), ('y', ('w', 'B', [('z', i1), ('a', ('s', 'x'))], 'o', ['z']))], 'o', ['x']), [3]),
      (('w', 'A', [], None, []), [3]), (('w', 'A', [('x', ('w', 'B', [('z', ('l', [i1])), ('y', i1)], None, [])), ('b', ('l', [i1]))], None, []), [3])]
TESTS = [Test('lengths', gen, judge, quick=2200, examples=EX), Test('big', gen_big, judge, quick=25)]
