from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_what, build, same

RULE = ('A case is a random configuration (depth up to 5), or one with something long, large or deep. Non-trivial: it has at least one parameter that is a collection, '
        'a nested configuration, a class, a non-finite float or a string with quotes, backslashes or blanks.')
ASSUMPTIONS = ['parameter and configuration names are ASCII identifiers', 'nested configurations named exactly set or frozenset '
               'with no parameters are excluded (same text as the empty collections)']


def gen(d):
    depth = d.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (1, 5)])
    return gen_what(d, Options(depth=depth), top=True)


def interesting(spec):
    return ref.contains(spec, lambda s: s is not spec and (
        s[0] in 'ltdSFcw' or (s[0] == 'f' and s[1] in ('inf', '-inf', 'nan')) or
        (s[0] == 's' and any(c in s[1] for c in "'\\ \n\t\""))))


def judge(spec, ctx):
    from whatami import parse_whatid, id2what, What
    values.value_labels(spec, ctx)
    ctx.interesting(interesting(spec))
    what = build(spec)
    text = what.id()
    for parse in (parse_whatid, id2what):
        back = parse(text)
        ctx.check(type(back) is What, 'parsing gave %r', type(back))
        if not same(back, spec, strings=ref.normal):
            ctx.fail('%r parsed as %r' % (text, back))
        ctx.check(not back.non_id_keys, 'parsed configuration has non id keys %r', back.non_id_keys)
        if ref.canon(spec) == ref.canon(spec, strings=ref.normal):
            if not same(back, spec):
                ctx.fail('%r parsed as %r' % (text, back))
            if not ref.contains(spec, lambda s: s == ('f', 'nan')):
                ctx.check(back == what and what == back and not (back != what), 'parsed configuration is not equal: %r', back)
        else:
            ctx.label('string with escapes')
    again = back.id()
    ctx.check(again == text, 'id %r regenerates as %r', text, again)


def w(name, out=None, **kvs):
    return ('w', name, sorted(kvs.items()), out, [])


EXAMPLES = [
    w('a', x=('s', ' a')), w('a', x=('s', '\n')), w('a', x=('s', "it's")), w('a', x=('s', '\\')), w('a', x=('s', "\\\\'")), w('a', x=('s', "\\'")),
    w('a', x=w('nanmean')), w('a', x=w('None_')), w('a', x=w('nan', out='inf')), w('a', x=w('Trueish', y=('i', 1))), w('f', out='o'),
    w('a', x=('F', [('i', 1)])), w('a', x=('S', [('F', [])])), w('a', x=('d', [(('F', [('i', 1)]), ('n',))])),
    w('a', x=('S', [w('A')])), w('a', x=('d', [(w('A', o=('l', [])), ('i', 1))])), w('a', x=('c', 'builtins', 'list')),
    w('a', x=('t', [('t', []), ('l', []), ('d', []), ('S', [])])), w('a'), w('a', x=('d', [(('n',), ('n',)), (('b', 1), ('b', 0))])),
    w('a', x=('f', '-0.0'), y=('f', '-inf'), z=('f', 'nan')), w('a', x=('l', [('n',), ('n',)])),
]



TESTS = [Test('roundtrip', gen, judge, quick=2500, examples=EXAMPLES), Test('big', values.gen_big, judge, quick=60)]
