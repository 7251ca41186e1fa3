import re

from engine.core import Test, Discard
from engine import ref, values, mutate
from engine.values import Options, gen_what, gen_name

RULE = ('A case is an old-style id of a random configuration with random blanks, output name, spellings and edits that break it, or a text that is no id. '
        'Non-trivial: it has a nested configuration, an output name, a collection or it had to be refused.')
ASSUMPTIONS = ['old-style ids know neither frozensets, classes nor nested output names', 'strings in the form the parser gives back']


def old_options(d):
    return Options(depth=d.int(1, 4), classes=False, frozen=False, out=False, safe_strings=True)


def fix(s):
    """Nested names that are also other values are fine in old ids, as they are quoted; leave only what old ids know."""
    tag = s[0]
    if tag in 'ltS':
        return (tag, [fix(x) for x in s[1]])
    if tag == 'd':
        return (tag, [(fix(k), fix(v)) for k, v in s[1]])
    if tag == 'w':
        return ('w', s[1], [(k, fix(v)) for k, v in s[2]], None, [])
    return s


def gen(d):
    o = old_options(d)
    spec = fix(gen_what(d, o, top=True))
    out = None
    k = d.draw(3)
    if k == 1:
        out = gen_name(d)
    elif k == 2:
        out = d.choice(['a b', "it's", 'x=1', '', 'A()', 'out', '"', ' x', '\u00e9', 'acc_to_target', 'out=x', 'x=out=', 'outout', 't=', 'ou', '=a', 'tuo', 'out=out=', '==', 'out=out'])
    if out is not None:
        out = ref.normal(out)
    ambiguous = out is not None and d.bool(0.15)
    if ambiguous and 'out' not in dict(spec[2]):
        spec = ('w', spec[1], spec[2] + [('out', d.choice([('s', 'vel'), ('n',), ('i', 0), ('s', ''), ('b', 0), ('l', []), ('s', out)]))], None, [])
    if not d.bool(0.3):
        toks = spaced(tokens(spec), d)
    else:
        toks = ref.render_old_what(spec)
    quoted = d.bool(0.08)
    text = '"' + toks + '"' if quoted else toks
    return spec, out, text, d.weighted([(8, 'whole'), (2, 'broken')]), d.draw(9), d.draw(30)


def gen_big(d):
    o = Options(depth=1, classes=False, frozen=False, out=False, safe_strings=True)
    spec = fix(values.gen_big(d, o, tags='ltSd'))
    return spec, d.choice([None, 'out', 'a' * 300]), spaced(tokens(spec), d), 'whole', 0, 0


def tokens(s):
    tag = s[0]
    if tag in 'ltS' and (s[1] or tag != 'S'):
        a, b = {'l': '[]', 't': '()', 'S': '{}'}[tag]
        return [a] + join([tokens(x) for x in s[1]], ',') + [b]
    if tag == 'd':
        return ['{'] + join([tokens(k) + [':'] + tokens(v) for k, v in s[1]], ',') + ['}']
    if tag == 'w':
        return ['"'] + what_tokens(s) + ['"']
    return [ref.render(s)]


def what_tokens(s):
    return [s[1], '#'] + join([[k, '='] + tokens(v) for k, v in s[2]], '#')


def join(xs, sep):
    out = []
    for i, x in enumerate(xs):
        out += ([sep] if i else []) + x
    return out


def respelled(tok, d):
    """The same number, written in another way."""
    if not re.match(r'-?[0-9]+(\.|e|$)', tok):
        return tok
    if '.' not in tok and 'e' not in tok:
        return tok
    return {0: tok.replace('e', 'E'), 1: tok.replace('e+', 'e'), 2: tok[:-1] if tok.endswith('.0') else tok, 3: tok if 'e' in tok else tok + 'e0', 4: tok if 'e' in tok else tok + 'E+00'}[d.draw(4)]


def spaced(toks, d):
    p = d.choice([0, 0.15, 0.5])
    out = []
    q = d.choice([0, 0, 0.3])
    for t in toks[1:-1]:
        if q and d.bool(q):
            t = respelled(t, d)
        if out and d.bool(p):
            out.append(d.choice([' ', '  ', '\n', '\t']))
        out.append(t)
    return ''.join(out)


def brackets(text):
    """Is the text without its strings balanced, ([{ and double quotes?"""
    bare = re.sub(r"'(\\[\s\S]|[^'\\])*'", '', text)
    if "'" in bare:
        return False
    return all(bare.count(a) == bare.count(b) for a, b in ('()', '[]', '{}')) and bare.count('"') % 2 == 0


def broken(text, how, where):
    """A text that is certainly no old-style id."""
    if how == 0:
        return text + d_choice(where, [')', ']', '}', ',', '=', ' x', '#', '##', '#a', '#a=', ':', "'"])
    if how == 1:
        return d_choice(where, ['#', '=', '1', '-', '(', ',', "'"]) + text
    if how == 2:
        spots = [i for i, c in enumerate(text) if c in '()[]{}"']
        if not spots:
            raise Discard()
        i = spots[where % len(spots)]
        t = text[:i] + text[i + 1:]
        if brackets(t):
            raise Discard()
        return t
    if how == 3:
        return text.replace('#', '', 1) if text.count('#') == 1 else text.replace('#', ';')
    if how == 4:
        return d_choice(where, ['', ' ', 'velocity', 'A()', 'A(x=1)', "A(x='#')", 'out=', 'out=abc', 'out', 'None', "'A#x=1'", '1', 'out=A(x=1)', 'out=a#velocity', 'out=a#', '#', 'out=#',
                                'a b', '(', 'A#x', 'A#x=', 'A#=1', 'A#x=1#', '"A#x=1', "o=A(x='a#b=1')", '\u00e9#x=1', '1A#x=1', 'A#1=1', 'A#x=(1', 'A#x=1,y=2'])
    if how == 5:
        return text.replace('=', ':', 1) if '=' in text and "'" not in text else d_choice(where, ['A#x:1', 'A#x==1', 'A##x=1', 'A#x=#y=1', 'A#x=1##y=2'])
    raise Discard()


def d_choice(n, xs):
    return xs[n % len(xs)]


def judge(case, ctx):
    from whatami import oldid2what, id2whatami4, id2what
    spec, out, text, kind, how, where = case
    if kind == 'broken':
        bad = broken(text, how, where)
        ctx.label('no id')
        ctx.interesting()
        ctx.eq(id2whatami4(bad), bad, 'migrated')
        if out is not None and how in (0, 2) and '#' not in out:
            bad = 'out=%s#%s' % (out, bad)
            ctx.eq(id2whatami4(bad), bad, 'migrated')
        return
    whole = text
    exp = spec
    if out is not None:
        whole = 'out=%s#%s' % (out, text)
        if 'out' in dict(spec[2]):
            ctx.label('ambiguous output name')
            ctx.interesting()
            ctx.raises(ValueError, lambda: oldid2what(whole), 'parsing %r' % whole)
            ctx.raises(ValueError, lambda: id2whatami4(whole), 'migrating %r' % whole)
            ctx.check(values.same(oldid2what(text), spec), 'read %r', text)
            return
        ctx.label('output name')
        exp = ('w', spec[1], spec[2] + [('out', ('s', out))], None, [])
    got = oldid2what(whole)
    ctx.check(values.same(got, exp), 'old id %r reads as %r, expected %r', whole, got, exp)
    new = id2whatami4(whole)
    ctx.eq(new, ref.render(exp), 'migrated id of %r' % whole)
    nested = ref.contains(exp, lambda s: s is not exp and s[0] == 'w')
    if nested:
        ctx.label('nested')
    if any(c in text for c in ' \n\t'):
        ctx.label('blanks')
    ctx.interesting(nested or out is not None or ref.depth(exp) > 1)
    if not ref.contains(exp, lambda s: s is not exp and s[0] == 'w' and s[1] in ('set', 'frozenset') and not s[2] or s[0] == 'w' and s[1] in ('int', 'float', 'complex')):
        ctx.check(values.same(id2what(new), exp), 'migrated id %r reads as %r', new, id2what(new))
        if exp[2]:
            ctx.eq(id2whatami4(new), new, 'migrating a current id')


def w(name, *kvs):
    return ('w', name, list(kvs), None, [])


S = w('A', ('x', ('i', 1)), ('y', ('t', [('s', 'x'), ('f', '-0.1')])))
EX = [(S, o, ref.render_old_what(S), 'whole', 0, 0) for o in (None, 'o', '', "it's")] + \
     [(S, None, "A # x = 1 #\ny=( 'x' ,-0.1 )", 'whole', 0, 0), (S, None, '"A#x=1#y=(\'x\',-0.1)"', 'whole', 0, 0)] + \
     [(S, o, ref.render_old_what(S), 'broken', h, n) for o in (None, 'o') for h in (0, 1, 2, 3, 4, 5) for n in range(0, 30 if h == 4 else 12 if h < 2 else 4)]
TESTS = [Test('old', gen, judge, quick=2000, examples=EX), Test('big', gen_big, judge, quick=50)]
