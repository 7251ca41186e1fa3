from collections import Counter, OrderedDict, defaultdict, namedtuple
from functools import partial

from engine.core import Test, Discard
from engine import ref, values, mutate
from engine.values import Options, gen_value, build

RULE = ('A case is a collection (of one of 25 classes) with random elements, maybe other collections, in one of eight places, together with one random edit of it '
        'and other insertion orders. Non-trivial: it holds a collection of a class other than the five basic ones, or a basic one asked about directly, not empty.')
ASSUMPTIONS = ['attributes of instances of collection classes are not elements', 'classes with the same name are not told apart']


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class MyOrdered(OrderedDict):
    pass


class MyCounter(Counter):
    pass


class MyDefault(defaultdict):
    pass


class SubList(MyList):
    """Two levels below list, with its own representation."""

    def __repr__(self):
        return 'SubList'


Pair = namedtuple('Pair', 'first second')
Triple = namedtuple('Triple', ['x', '_1', '_2'], rename=True)


WithSeq = namedtuple('WithSeq', 'other seq')


class ListWithSeq(list):
    """An attribute that has nothing to do with the elements."""

    def __init__(self, *args):
        super(ListWithSeq, self).__init__(*args)
        self.seq = 'not the elements'


class DictWithSeq(dict):
    seq = ()


class SetWithSeq(set):
    def __init__(self, *args):
        super(SetWithSeq, self).__init__(*args)
        self.seq = self


Many = namedtuple('Many', 'zeta eta theta alpha beta gamma delta l k j i h')


class SubPair(Pair):
    __slots__ = ()

    def __str__(self):
        return 'pair'


def dict_of(cls, *args):
    def make(kvs):
        out = cls(*args)
        for k, v in kvs:
            out[k] = v
        return out
    return make


# A What with one of these names and one parameter "seq" of the right kind stands for a collection of the class
KINDS = {'MyList': ('l', MyList), 'MyTuple': ('t', MyTuple), 'MyDict': ('d', dict_of(MyDict)), 'MySet': ('S', MySet), 'MyFrozen': ('S', MyFrozen),
         'OrderedDict': ('o', dict_of(OrderedDict)), 'MyOrdered': ('o', dict_of(MyOrdered)), 'defaultdict': ('d', dict_of(defaultdict, list)),
         'Counter': ('d', dict_of(Counter)), 'MyCounter': ('d', dict_of(MyCounter)), 'MyDefault': ('d', dict_of(MyDefault, None)),
         'SubList': ('l', SubList), 'Pair': (2, lambda xs: Pair(*xs)), 'Triple': (3, lambda xs: Triple(*xs)), 'SubPair': (2, lambda xs: SubPair(*xs)), 'WithSeq': (2, lambda xs: WithSeq(*xs)),
         'ListWithSeq': ('l', ListWithSeq), 'DictWithSeq': ('d', dict_of(DictWithSeq)), 'SetWithSeq': ('S', SetWithSeq), 'Many': (12, lambda xs: Many(*xs))}
SIZES = (2, 3, 12)
BASIC = {'list': 'l', 'tuple': 't', 'dict': 'd', 'set': 'S', 'frozenset': 'F'}


def has_kind(spec):
    return ref.contains(spec, lambda s: s[0] == 'w' and s[1] in KINDS)


def kind_of(spec):
    """The kind the spec stands for, or None (an ordinary What)."""
    if spec[0] != 'w' or spec[1] not in KINDS or spec[3] is not None or [k for k, _ in spec[2]] != ['seq']:
        return None
    shape, _ = KINDS[spec[1]]
    seq = spec[2][0][1]
    if shape in SIZES:
        return spec[1] if seq[0] == 't' and len(seq[1]) == shape else None
    if shape == 'o':
        if seq[0] != 'l' or not all(x[0] == 't' and len(x[1]) == 2 for x in seq[1]):
            return None
        keys = [x[1][0] for x in seq[1]]
        return spec[1] if all(ref.hashable(k) and not has_kind(k) for k in keys) and len(set(ref.eqkey(k) for k in keys)) == len(keys) else None
    return spec[1] if seq[0] == shape else None


def ok(spec):
    """Nothing that compares equal to something else is used as key."""
    keys = []
    for _, s in mutate.nodes(spec):
        if s[0] == 'd':
            keys += [k for k, _ in s[1]]
        elif s[0] in 'SF':
            keys += s[1]
    return not any(has_kind(k) for k in keys)


def live(s, order=None):
    o = order if order is not None else (lambda xs: xs)
    tag = s[0]
    if tag in 'lt':
        return {'l': list, 't': tuple}[tag](live(x, order) for x in s[1])
    if tag == 'd':
        return dict_of(dict)([(build(k, order), live(x, order)) for k, x in o(list(s[1]))])
    if tag != 'w':
        return build(s, order)
    kind = kind_of(s)
    if kind is None:
        from whatami import What
        return What(s[1], {k: live(x, order) for k, x in o(list(s[2]))}, out_name=s[3])
    shape, make = KINDS[kind]
    seq = s[2][0][1]
    if shape == 'd':
        return make([(build(k, order), live(x, order)) for k, x in o(list(seq[1]))])
    if shape == 'o':
        return make([(build(x[1][0], order), live(x[1][1], order)) for x in seq[1]])
    return make([live(x, order) for x in (o(list(seq[1])) if shape == 'S' else seq[1])])


def gen_col(d, o, depth):
    name = d.choice(sorted(KINDS) + sorted(BASIC))
    shape = KINDS[name][0] if name in KINDS else BASIC[name]

    def member():
        return gen_col(d, o, depth - 1) if depth > 1 and d.bool(0.35) else gen_value(d, o, 1)
    if shape in SIZES:
        seq = ('t', [member() for _ in range(shape)])
    elif shape in ('l', 't'):
        seq = (shape, d.list(member, 0, 4) if not d.bool(0.1) else d.list(lambda: gen_value(d, o, 0), 5, 15, p=0.9))
    elif shape in 'SF':
        seq = (shape, values.distinct(d.list(lambda: gen_value(d, o, 1, True), 0, 4)))
    else:
        keys = values.distinct(d.list(lambda: gen_value(d, o, 1, True), 0, 4) if not d.bool(0.1) else d.list(lambda: gen_value(d, o, 0, True), 5, 15, p=0.9))
        kvs = [(k, member() if not (shape == 'd' and 'Counter' in name and d.bool(0.8)) else ('i', d.int(0, 3))) for k in keys]
        seq = ('d', kvs) if shape == 'd' else ('l', [('t', [k, v]) for k, v in kvs])
    return ('w', name, [('seq', seq)], None, []) if name in KINDS else seq


def gen_big(d):
    """Many elements, or deep nesting."""
    name = d.choice([n for n in sorted(KINDS) + sorted(BASIC) if (KINDS[n][0] if n in KINDS else BASIC[n]) not in SIZES])
    shape = KINDS[name][0] if name in KINDS else BASIC[name]
    o = Options(depth=1, floats=False, safe_strings=True)
    if shape in 'lt' and d.bool(0.4):
        spec = gen_value(d, o, 0)
        for i in range(d.int(4, 9)):
            spec = (shape, [spec])
            spec = ('w', name, [('seq', spec)], None, []) if name in KINDS else spec
        other = mutate.edit(d, ('w', 'N', [('x', spec)], None, []), o)[2]
        other = other[0][1] if len(other) == 1 and other[0][0] == 'x' else spec
    else:
        many = values.gen_many(d, o, shape if shape in 'ltS' else 'd', sizes=(17, 40, 130, 300))
        if shape == 'o':
            many = ('l', [('t', [k, v]) for k, v in many[1]])
        i = d.int(0, len(many[1]) - 1)
        less = (many[0], many[1][:i] + many[1][i + 1:])
        spec, other = [('w', name, [('seq', x)], None, []) if name in KINDS else x for x in (many, less)]
    if not ok(spec) or not ok(other):
        raise Discard()
    return spec, other, d.choice(PLACES), d.draw(30)


class Twin(object):
    """Hashed by identity: two with the same id are two elements."""

    def __init__(self, x):
        self.x = x

    def what(self):
        from whatami import What
        return What('Twin', {'x': self.x})


TWINS = {'set': set, 'frozenset': frozenset, 'MySet': MySet, 'MyFrozen': MyFrozen, 'keys': lambda xs: {x: 1 for x in xs}, 'OrderedDict': lambda xs: MyOrdered((x, 1) for x in xs),
         'counter': Counter, 'list': list, 'tuple': tuple}


def gen_twins(d):
    one = d.list(lambda: d.int(0, 2), 1, 5)
    two = list(one)
    for _ in range(d.int(0, 2)):
        i = d.int(0, len(two))
        k = d.draw(3)
        if k == 0:
            two.insert(i, d.choice(one))
        elif k == 1 and i < len(two):
            two.pop(i)
        elif k == 2 and i < len(two):
            two[i] = d.int(0, 2)
        else:
            two = two[i:] + two[:i]
    return d.choice(sorted(TWINS)), one, two, d.choice(PLACES)


def judge_twins(case, ctx):
    which, one, two, place = case
    key = list if which in ('list', 'tuple', 'OrderedDict') else sorted
    ids = [put(TWINS[which]([Twin(x) for x in xs]), place) for xs in (one, two)]
    ctx.check((ids[0] == ids[1]) == (key(one) == key(two)), 'a %s of %r has id %r, one of %r has %r', which, one, ids[0], two, ids[1])
    ctx.label('twins in ' + which)
    ctx.interesting(len(set(one)) < len(one) or len(set(two)) < len(two))


PLACES = ['param', 'direct', 'list', 'dict', 'what', 'default', 'partial', 'attribute']


def gen(d):
    o = Options(depth=2, members=3, what_members=2, safe_strings=d.bool(0.6), numeric_types=False)
    spec = gen_col(d, o, d.int(1, 3))
    if spec[0] == 'F' and d.bool(0.5):
        raise Discard()
    other = spec
    k = d.draw(4)
    if k == 0 and spec[0] == 'w':
        name = d.choice([n for n in sorted(KINDS) if n != spec[1]])
        other = ('w', name, spec[2], None, [])
    elif k == 1 and spec[0] == 'w' and spec[2][0][1][0] in 'ltSd':
        seq = spec[2][0][1]
        xs = list(seq[1])
        i = d.int(0, max(0, len(xs) - 1))
        if not xs:
            raise Discard()
        what = d.draw(2)
        if what == 0:
            xs.pop(i)
        elif what == 1:
            xs = xs[i + 1:] + xs[:i + 1]
        else:
            xs = xs[::-1]
        other = ('w', spec[1], [('seq', (seq[0], xs))], None, [])
    else:
        for _ in range(4):
            try:
                other = mutate.edit(d, ('w', 'N', [('x', spec)], None, []), o)
                if other[1] == 'N' and [k for k, _ in other[2]] == ['x'] and other[3] is None and not other[4]:
                    other = other[2][0][1]
                    break
            except Discard:
                pass
            other = spec
    if not ok(spec) or not ok(other):
        raise Discard()
    return spec, other, d.choice(PLACES), d.draw(30)


def put(v, place):
    """The id of the value in a place."""
    from whatami import What, what2id, whatareyou, whatable
    if place == 'param':
        return What('N', {'x': v}).id()
    if place == 'direct':
        return what2id(v)
    if place == 'list':
        return What('N', {'x': [0, v]}).id()
    if place == 'dict':
        return What('N', {'x': {'k': v}}).id()
    if place == 'what':
        return What('N', {'x': What('M', {'y': v})}).id()

    def f(a, x=v):
        pass
    if place == 'default':
        return what2id(f)
    if place == 'partial':
        return what2id(partial(f, x=0, a=v))

    @whatable
    class C(object):
        def __init__(self):
            self.x = v
    return C().what().id()


WRAP = {'param': lambda s: ('w', 'N', [('x', s)], None, []), 'list': lambda s: ('w', 'N', [('x', ('l', [('i', 0), s]))], None, []),
        'dict': lambda s: ('w', 'N', [('x', ('d', [(('s', 'k'), s)]))], None, []),
        'what': lambda s: ('w', 'N', [('x', ('w', 'M', [('y', s)], None, []))], None, []), 'default': lambda s: ('w', 'f', [('x', s)], None, []),
        'partial': lambda s: ('w', 'f', [('x', ('i', 0)), ('a', s)], None, []), 'attribute': lambda s: ('w', 'C', [('x', s)], None, [])}


def mirrors(v, s):
    """Does what was read from an id hold all of the spec? (collections may say more than their elements)"""
    from whatami import What
    if s[0] in 'lt':
        return type(v) is {'l': list, 't': tuple}[s[0]] and len(v) == len(s[1]) and all(mirrors(a, b) for a, b in zip(v, s[1]))
    if s[0] == 'd' and type(v) is dict:
        ks = [(ref.canon(values.to_spec(k)), x) for k, x in v.items()]
        es = [(ref.canon(k), x) for k, x in s[1]]
        return len(ks) == len(es) and all(any(k == e and mirrors(a, b) for k, a in ks) for e, b in es)
    if s[0] == 'w':
        if type(v) is not What or v.name != s[1] or v.out_name != s[3]:
            return False
        if not (set(v.conf) >= {'seq'} if kind_of(s) else set(v.conf) == {k for k, _ in s[2]}):
            return False
        return all(mirrors(v.conf[k], x) for k, x in s[2])
    return values.same(v, s)


def safe(spec):
    return not ref.contains(spec, lambda s: s[0] == 's' and ref.normal(s[1]) != s[1])


def judge(case, ctx):
    from whatami import whatareyou, id2what
    spec, other, place, seed = case
    kinds = [kind_of(s) for _, s in mutate.nodes(spec)]
    ctx.label('place ' + place, *['class ' + k for k in kinds if k])
    v = live(spec)
    text = put(v, place)
    ctx.check(isinstance(text, str), 'the id is %r', text)
    again = live(spec, values.orders(seed))
    ctx.eq(put(again, place), text, 'id after building it again in another order')
    ctx.interesting(any(kinds) or place == 'direct')
    # ids follow changes in place, back and forth
    new = 'a new one~'
    if isinstance(v, list):
        v.append(new)
        undo = v.pop
    elif isinstance(v, dict) and new not in v:
        v[new] = 1
        undo = lambda: v.pop(new)
    elif isinstance(v, set) and new not in v:
        v.add(new)
        undo = lambda: v.remove(new)
    else:
        undo = None
    if undo is not None:
        changed = put(v, place)
        undo()
        ctx.check(changed != text, '%r has the id %r also with one more', v, text)
        ctx.eq(put(v, place), text, 'the id without the one more')
        ctx.label('changed in place')

    def tell_apart(a, b, what):
        if ref.idcanon(a) == ref.idcanon(b):
            ctx.label('same content')
            return
        ctx.label('different content')
        u = live(b)
        ctx.check(put(u, place) != text, '%s: %r and %r have the same id %r', what, v, u, text)
    if place != 'direct':
        tell_apart(spec, other, 'edit')
        if safe(spec):
            ctx.label('parsed back')
            ctx.check(mirrors(id2what(text), WRAP[place](spec)), 'id %r of %r reads as %r', text, v, id2what(text))
        for k in set(kinds) - {None}:
            ctx.check(k + '(' in text, 'class name %s is not in %r', k, text)
    elif kind_of(spec) or spec[0] in 'ltdSF':
        name = kind_of(spec) or {t: n for n, t in BASIC.items()}[spec[0]]
        content = spec[2][0][1] if spec[0] == 'w' else spec
        if other[0] in 'ltdSF' or kind_of(other):
            tell_apart(spec, other, 'edit')
        w = whatareyou(v)
        for way, t in (('what2id', text), ('whatareyou', w.id())):
            ctx.check(t.startswith(name + '('), '%s of a %s gives %r', way, name, t)
            if safe(spec):
                p = id2what(t)
                ctx.eq(p.name, name, 'name by ' + way)
                seq = p.conf['seq']
                ctx.check(mirrors(seq, content), '%s: elements of %r read as %r', way, v, seq)


X = [('i', 1), ('s', 'a'), ('l', [('n',)])]
KV = [(('s', 'a'), ('i', 1)), (('s', 'b'), ('i', 2))]
EX = []
for _place in PLACES:
    for _name, (_shape, _) in sorted(KINDS.items()):
        _seq = ('t', (X * 3)[:_shape]) if _shape in SIZES else ('l', [('t', list(kv)) for kv in KV]) if _shape == 'o' else ('d', KV) if _shape == 'd' else \
            (_shape, X) if _shape != 'S' else ('S', X[:2])
        _other = (_seq[0], _seq[1][::-1])
        EX.append((('w', _name, [('seq', _seq)], None, []), ('w', _name, [('seq', _other)], None, []), _place, 1))
        EX.append((('w', _name, [('seq', _seq)], None, []), ('w', _name, [('seq', (_seq[0], _seq[1][1:] + _seq[1][:1] * 0))], None, []), _place, 1))
        EX.append((('w', _name, [('seq', (_seq[0], []))], None, []), ('w', _name, [('seq', _seq)], None, []), _place, 0))
    for _t in 'ltSd':
        EX.append(((_t, KV if _t == 'd' else X[:2]), (_t, (KV if _t == 'd' else X[:2])[:1]), _place, 1))
TESTS = [Test('collections', gen, judge, quick=1600, examples=EX), Test('big', gen_big, judge, quick=60), Test('twins', gen_twins, judge_twins, quick=200)]
