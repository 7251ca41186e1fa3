import json

from engine.core import Test
from engine import ref, values, mutate
from engine.values import Options, gen_what, build

RULE = ('A case is a random configuration nested to depth 5, of literals or of JSON types only. Non-trivial: it has nested configurations, some of them in collections.')
ASSUMPTIONS = ['strings in the form the parser gives back (see C01)', 'members of sets and keys of dictionaries are not converted', 'no int, float or complex classes, and no '
               'nested parameterless set or frozenset']

KEYS = {'whatami_name', 'whatami_out_name', 'whatami_conf'}


def gen_json(d, depth):
    """Values of JSON types and configurations."""
    k = d.weighted([(8, 'scalar'), (3 if depth else 0, 'l'), (3 if depth else 0, 'd'), (6 if depth else 0, 'w')])
    if k == 'scalar':
        return d.choice([('n',), ('b', 1), ('b', 0), ('i', 3), ('i', -10 ** 20), ('f', '1.5'), ('f', '1e-07'), ('f', 'inf'), ('f', 'nan'), ('s', ''),
                         ('s', ref.normal(values.gen_str(d))), ('s', ref.normal(values.gen_str(d)))])
    if k == 'l':
        return ('l', d.list(lambda: gen_json(d, depth - 1), 0, 3))
    if k == 'd':
        keys = values.distinct([('s', ref.normal(values.gen_str(d))) for _ in range(d.int(0, 3))])
        return ('d', [(x, gen_json(d, depth - 1)) for x in keys])
    return gen_json_what(d, depth)


def gen_json_what(d, depth, nonids=False):
    keys = list(dict.fromkeys(d.list(lambda: values.gen_name(d), 0, 4)))
    return ('w', d.choice(['A', 'B', 'rfc', 'nanmean', 'None_']), [(k, gen_json(d, depth - 1)) for k in keys],
            values.gen_name(d) if d.bool(0.25) else None, d.sample(keys, 0, 2) if nonids and d.bool(0.5) else [])


def gen(d):
    if d.bool(0.5):
        return gen_json_what(d, d.int(2, 5), True), True
    o = Options(depth=d.int(2, 5), nonids=d.bool(0.5), safe_strings=True)
    return gen_what(d, o, top=True), False


def gen_big(d):
    return values.gen_big(d, Options(depth=1, safe_strings=True, floats=False)), False


def mirrors(got, s):
    """Is it exactly the conversion of the spec?"""
    tag = s[0]
    if tag == 'w':
        return type(got) is dict and set(got) == KEYS and got['whatami_name'] == s[1] and type(got['whatami_name']) is str and \
            got['whatami_out_name'] == s[3] and type(got['whatami_conf']) is dict and set(got['whatami_conf']) == set(k for k, _ in s[2]) and \
            all(mirrors(got['whatami_conf'][k], v) for k, v in s[2])
    if tag in 'lt':
        return type(got) is {'l': list, 't': tuple}[tag] and len(got) == len(s[1]) and all(mirrors(g, x) for g, x in zip(got, s[1]))
    if tag == 'd':
        if type(got) is not dict or len(got) != len(s[1]):
            return False
        keys = {}
        for k, x in got.items():
            keys[repr(ref.canon(values.to_spec(k)))] = x
        return all(repr(ref.canon(k)) in keys and mirrors(keys[repr(ref.canon(k))], x) for k, x in s[1])
    return values.same(got, s)


def rebuild(x):
    """The configuration a dictionary comes from."""
    from whatami import What
    if isinstance(x, dict):
        if set(x) == KEYS:
            return What(x['whatami_name'], {k: rebuild(v) for k, v in x['whatami_conf'].items()}, out_name=x['whatami_out_name'])
        return {k: rebuild(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(rebuild(v) for v in x)
    return x


def without_nonids(s):
    """Specs as they are in ids."""
    tag = s[0]
    if tag in 'ltSF':
        return (tag, [without_nonids(x) for x in s[1]])
    if tag == 'd':
        return (tag, [(without_nonids(k), without_nonids(v)) for k, v in s[1]])
    if tag == 'w':
        return ('w', s[1], [(k, without_nonids(v)) for k, v in s[2] if k not in s[4]], s[3], [])
    return s


def nested_ok(s):
    """Leaving non-id keys out must not produce texts with two readings, nor join members."""
    for p, x in mutate.nodes(s):
        if p and x[0] == 'w' and x[1] in ('set', 'frozenset') and not x[2] and x[3] is None:
            return False
        if x[0] in 'SF' and len(set(ref.render(y) for y in x[1])) < len(x[1]):
            return False
        if x[0] == 'd' and len(set(ref.render(y) for y, _ in x[1])) < len(x[1]):
            return False
    return True


def drop_all(s):
    return s[:4] + ([],)


def judge(case, ctx):
    from whatami import What, id2dict, id2what
    spec, is_json = case
    w = build(spec)
    text = repr(w)
    reduced = without_nonids(spec)
    full = ('w', spec[1], [(k, without_nonids(v)) for k, v in spec[2]], spec[3], [])
    ctx.label('json' if is_json else 'any values')
    nested = [p for p, x in mutate.nodes(spec) if p and x[0] == 'w']
    in_collections = [p for p in nested if len(p) > 1 and p[-1][0] in 'ev']
    ctx.interesting(bool(in_collections))
    ctx.label('nested %d' % min(len(nested), 3))
    for asked, exp, call in (('', reduced, lambda: w.to_dict()), ('non-ids', full, lambda: w.to_dict(nonids_too=True)),
                             ('id2dict', reduced, lambda: id2dict(w.id())), ('id2dict of str', full, lambda: id2dict(str(w)))):
        if not nested_ok(exp):
            continue
        d = call()
        ctx.check(mirrors(d, exp), 'dictionary (%s) of %r is %r, expected that of %r', asked, w, d, exp)
        again = rebuild(d)
        ctx.check(values.same(again, exp), 'rebuilt (%s) from %r: %r, expected %r', asked, d, again, exp)
        ctx.eq(again.id(), ref.render(exp), 'id of the rebuilt configuration')
        if is_json:
            back = json.loads(json.dumps(d))
            ctx.check(mirrors(back, exp), 'dictionary (%s) %r is %r after JSON', asked, d, back)
            ctx.check(values.same(rebuild(back), exp), 'rebuilt after JSON')
        # what is given does not reach the configuration
        d['whatami_conf']['another'] = 1
        ctx.eq(repr(w), text, 'the configuration after changing its dictionary')
        second = call()
        ctx.check(mirrors(second, exp), 'dictionary asked again: %r', second)


def w(name, *kvs, **kw):
    return ('w', name, list(kvs), kw.get('out'), kw.get('nonids', []))


N = w('B', ('b', ('i', 1)), out='o')
EX = [(w('A', ('a', v), ('n', ('i', 3)), nonids=['n']), j) for v, j in
      [(N, True), (('l', [N, ('i', 1)]), True), (('t', [N]), False), (('d', [(('s', 'k'), N)]), True), (('l', [('l', [('d', [(('s', ''), ('l', [N]))])])]), True),
       (('S', [('i', 1)]), False), (('F', [N]), False), (('d', [(N, ('i', 1))]), False), (w('C', ('c', w('D', ('d', ('t', [N, N])), nonids=['d']))), False),
       (w('C', ('c', N), nonids=['c']), True), (('l', []), True), (('d', []), True), (('s', "it's"), False)]]
TESTS = [Test('configurations', gen, judge, quick=800, examples=EX), Test('big', gen_big, judge, quick=50)]
