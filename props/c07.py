from engine.core import Test, Discard
from engine import ref, values, texts
from engine.values import Options, gen_what, same, to_spec

RULE = ('A case is a text: of the id language with random blanks, spellings and member orders; a valid text with one to three random edits; '
        'token soup; or an id with classes that cannot be imported. Non-trivial: valid texts with parameters, and every edited text or soup that is decided (accepted or rejected) by the '
        'reference parser.')
ASSUMPTIONS = ['repeated set members or dict keys, classes that cannot be imported because of other errors and non-ASCII digits are outside the domain']


def gen(d):
    spec = gen_what(d, Options(depth=d.int(1, 4), safe_strings=True), top=True)
    return spec, texts.spaced(texts.tokens(spec, d), d, d.choice([0.0, 0.1, 0.5]))


def gen_big(d):
    spec = values.gen_big(d, Options(depth=1, safe_strings=True))
    return spec, texts.spaced(texts.tokens(spec, d), d, d.choice([0.0, 0.1, 0.5]))


def judge(case, ctx):
    from whatami import parse_whatid, id2what
    spec, text = case
    ctx.interesting(bool(spec[2]))
    values.value_labels(spec, ctx)
    back = parse_whatid(text)
    if not same(back, spec):
        ctx.fail('%r parses as %r' % (text, back))
    ctx.check(list(back.conf) == [k for k, _ in texts.meaning(text)[2]], 'parameters %r', list(back.conf))


def gen_edited(d):
    spec = gen_what(d, Options(depth=d.int(1, 3), members=3, what_members=3), top=True)
    return texts.edit_text(d, texts.spaced(texts.tokens(spec, d), d, 0.05))


def judge_text(text, ctx):
    from arpeggio import NoMatch
    from whatami import parse_whatid
    if any(text.count(c) > 14 for c in '{('):
        raise Discard()  # the parser backtracks
    try:
        spec = texts.meaning(text)
    except ref.OutOfDomain:
        raise Discard()
    ctx.interesting()
    if spec is None:
        ctx.label('rejected')
        ctx.raises(NoMatch, lambda: parse_whatid(text), 'parsing %r' % text)
        return
    ctx.label('accepted')
    back = parse_whatid(text)
    if not same(back, spec):
        ctx.fail('%r parses as %r' % (text, back))
    if ref.contains(spec, lambda s: s is not spec and s[0] == 'w' and s[1] in ('set', 'frozenset') and not s[2] and s[3] is None):
        return
    again = back.id()
    ctx.eq(again, ref.render(spec), 'id of %r' % text)
    third = parse_whatid(again)
    if not same(third, spec):
        ctx.fail('%r parses, but its id %r parses as %r' % (text, again, third))
    ctx.eq(third.id(), again, 'id')


# --- classes that cannot be imported (here, now) give their name

MISSING = ['no_such_package.C', 'no_such_package.mod.C', 'json.NoSuchClass', 'json.nothing.C', 'NoSuchBuiltin', 'collections.abc.NoSuchClass', 'engine.fixtures.NoSuchClass', 'a.b', '_.C', 'whatami.nothing.What', 'x' * 300 + '.C']


def mark(d, spec, found):
    """Some values become the class marker."""
    tag = spec[0]
    if d.bool(0.25) and tag != 'w':
        found.append(1)
        return ('d', [(('s', 'class'), ('s', d.choice(MISSING)))])
    if tag in 'lt':
        return (tag, [mark(d, x, found) for x in spec[1]])
    if tag == 'd':
        return (tag, [(k, mark(d, v, found)) for k, v in spec[1]])
    if tag == 'w':
        return ('w', spec[1], [(k, mark(d, v, found)) for k, v in spec[2]], spec[3], spec[4])
    return spec


def gen_missing(d):
    found = []
    spec = mark(d, gen_what(d, Options(depth=d.int(1, 3), safe_strings=True, members=3, what_members=3), top=True), found)
    if not found:
        raise Discard()
    return spec


def judge_missing(spec, ctx):
    from whatami import parse_whatid
    ctx.interesting()
    text = ref.render(spec)
    for fqn in MISSING:
        text = text.replace("{'class':'%s'}" % fqn, "<class '%s'>" % fqn)
    ctx.check('<class ' in text, 'not there')
    for _ in range(2):
        back = parse_whatid(text)
        if not same(back, spec):
            ctx.fail('%r parses as %r' % (text, back))


i1 = ('i', 1)
EX = [(('w', 'f', [], 'o', []), 'o=f()'), (('w', 'f', [('x', ('F', [i1]))], 'o', []), ' o = f ( x = frozenset ( { 1 } ) ) ')]
EXT = ["a(x=1", "a(x=1,)", "a(,x=1)", "a(x=1 y=2)", "a()b()", "a(x=)", "a(1)", "a(x='it's')", "a(x='\\')", "a(x='\\\\')", "a=b=c()", "a(x={})", "a(x=set())",
       "a(x=frozenset({}))", "a(x=frozenset({1}))", "a(x=frozenset)", "a(x={,})", "a(x={1:2,3})", "a(x={1,2:3})", "a(x=[1,])", "a(x=(1,))", "a(x=nane)",
       "a(x=Nonex)", "a(x=None())", "a(x=nan())", "a(x=inf=f())", "", " ", "a", "a()", "()", "a(x==1)", "a(x=1.)", "a(x=.5)", "a(x=1e)", "a(x=1e5)", "a(x=+1)",
       "a(x=--1)", "a(x=-nan)", "a(x=-inf)", "a(x=1 2)", "a(x=<class 'list'>)", "a(x=<class'list'>)", "a(x=< class 'list'>)", "a(x=list)", "1a()", "a-b()", "a(x='a''b')",
       "a(x=\"s\")", "a(x='a\nb')", "a (x=1)", "a(x=set(1))", "a(x=set({1}))", "a(x=set(y=1))", "a(x=1)#", "a#x=1", "a(x=True False)", "a(x=TrueFalse)", "a(x=1,y)",
       "a(x=0x10)", "a(x=1_000)", "a(x=1j)", "a(x=[[1],[2])", "a(x=((((1)))))", "a(x=b'x')", "a(x=u'x')", "A(x={1:{2:{3:{}}}})",
       "a(x=1,x=2)", "a(x=1,x=1)", "a(x=b(y=1,z=2,y=1))", "a(x=[b(y=1,y=2)])", "a(x={[1]})", "a(x={{}:1})", "a(x=frozenset({[]}))", "a(x={([],):1})", "a(x={{1}})",
       "a(x={frozenset({1}):frozenset()})"]
TESTS = [Test('grammar', gen, judge, quick=1500, examples=EX), Test('big', gen_big, judge, quick=50),
         Test('edits', gen_edited, judge_text, quick=3500, examples=EXT),
         Test('soup', texts.soup, judge_text, quick=3500), Test('missing classes', gen_missing, judge_missing, quick=250)]
