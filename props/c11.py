from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_value, build, same

RULE = ('A case is a class hierarchy (one to three levels; instance dictionary or slots, properties, class members, methods, overrides), an instance with '
        'random state, a way of whatamising it, flags and exclusions, and a history of state changes. Non-trivial: the configuration holds something, and '
        'something else is left out.')
ASSUMPTIONS = ['"what" is always excluded', "python's own dunder names are not compared", 'properties do not raise']

NAMES = ['a', 'b', 'c', 'aa', 'ab', 'x_', '_p', '_q', 'y1', 'z_y', 'p_', '__x__y', 'abc', 'cab', 'name', 'conf', 'state', 'item', '__version__', '__tag__', '__x_']
DUNDER = ('__version__', '__tag__')  # those of the generated classes; python's own are left out
CLASSES = ['C', 'Company', 'Base', '_Private', 'Nan', 'X9']
O = Options(depth=2, nan=True)


def gen(d):
    levels = []
    style = d.choice(['dict', 'slots', 'mixed'])
    for i in range(d.int(1, 3)):
        slotted = style == 'slots' or (style == 'mixed' and d.bool(0.5))
        used = set()

        def fresh(lo, hi):
            out = []
            for n in d.list(lambda: d.choice(NAMES), lo, hi):
                if n not in used and (not n.startswith('__') or n in DUNDER):
                    used.add(n)
                    out.append(n)
            return out
        slots = fresh(0, 3) if slotted else None
        props = [(n, d.choice(['const', 'private', 'const', 'private', 'kind', 'data']), gen_value(d, O, 1)) for n in fresh(0, 2)]
        members = [(n, gen_value(d, O, 1)) for n in fresh(0, 2)]
        methods = fresh(0, 1)
        levels.append((d.choice(CLASSES), slots, props, members, methods))
    attrs = [(n, gen_value(d, O, 2)) for n in d.sample(NAMES, 0, 6)]
    changes = [(d.choice(NAMES + ['hidden']), d.choice(['set', 'set', 'del']), gen_value(d, O, 1)) for _ in range(d.int(0, 4))]
    flags = tuple(d.bool(p) for p in (0.8, 0.8, 0.8, 0.25))
    prefix = d.choice(['_', '_', '', None, 'a', 'ab', '__', 'z_'])
    postfix = d.choice(['_', '_', '', None, 'b', 'c', '__', 'name'])
    excludes = ['what'] + d.sample(NAMES, 0, 3)
    return (levels, attrs, changes, flags, prefix, postfix, excludes, d.choice(['class', 'decorator', 'instance', 'whatareyou', 'pieces', 'obj2what', 'subclass', 'inspect']),
            d.choice(['tuple', 'list', 'set', 'iter']), d.bool(0.3), d.bool(0.2))


class KindOfProperty(property):
    pass


class Data(object):
    """A data descriptor that is no property."""

    def __init__(self, value):
        self.value = value

    def __get__(self, instance, owner=None):
        return self if instance is None else self.value

    def __set__(self, instance, value):
        raise AttributeError('read only')


def make_class(levels, callable_):
    base = object
    for i, (name, slots, props, members, methods) in enumerate(levels):
        ns = {}
        if slots is not None:
            ns['__slots__'] = tuple(slots) + (('hidden',) if False else ())
        for n, kind, v in props:
            value = build(v)
            if kind == 'const':
                ns[n] = property(lambda self, value=value: value)
            elif kind == 'kind':
                ns[n] = KindOfProperty(lambda self, value=value: value)
            elif kind == 'data':
                ns[n] = Data(value)
            else:
                ns[n] = property(lambda self: STATE.get(id(self)))
        for n, v in members:
            ns[n] = build(v)
        for n in methods:
            ns[n] = lambda self: None
        if callable_ and i == 0:
            ns['__call__'] = lambda self, x=1: x
        base = type(name, (base,), ns)
    return base


def gen_many(d):
    """Many attributes, slots, properties or levels."""
    case = gen(d)
    style = d.choice(['dict', 'slots', 'props', 'levels'])
    n = d.choice([12, 33, 70, 150])
    name = lambda i: ('_' if i % 7 == 0 else '') + d.choice(['a', 'b', 'zz', 'n_']) + str(i) + ('_' if i % 11 == 0 else '')
    many = [name(i) for i in range(n)]
    attrs = [(k, gen_value(d, O, 0)) for k in many]
    if style == 'dict':
        levels = [('C', None, [], [], [])]
    elif style == 'slots':
        levels = [('C', many[:n // 2], [], [], []), ('D', many[n // 2:], [], [], [])]
    elif style == 'props':
        levels = [('C', None, [(k, d.choice(['const', 'private', 'const', 'private', 'kind', 'data']), v) for k, v in attrs], [], [])]
        attrs = []
    else:
        levels = [('L%d' % i, [k] if i % 2 else None, [], [], []) for i, k in enumerate(many[:30])]
    return (levels, attrs) + case[2:]


STATE = {}


def pythons(name):
    return name.startswith('__') and name.endswith('__') and name not in DUNDER


def resolution(levels, name):
    """What the class says about a name: slot, prop, member, method or None."""
    for _, slots, props, members, methods in reversed(levels):
        if slots is not None and name in slots:
            return 'slot'
        for n, kind, v in props:
            if n == name:
                return ('prop', kind, v)
        if name in [n for n, _ in members]:
            return 'member'
        if name in methods:
            return 'method'
    return None


def judge(case, ctx):
    from whatami import whatable, whatareyou, obj2what
    from whatami.misc import config_dict_for_object, trim_dict
    levels, attrs, changes, flags, prefix, postfix, excludes, how, container, callable_, swap = case
    cls = make_class(levels, callable_)
    has_dict = any(l[1] is None for l in levels)
    name = levels[-1][0]
    inspect = how == 'inspect'  # the options of the request are the ones used, whatever those of the class
    if inspect:
        how = 'obj2what'
        cls = whatable(cls)
    if how == 'obj2what':
        flags = flags[:3] + (False,)
    make = {'tuple': tuple, 'list': list, 'set': set, 'iter': iter}[container]

    def options(trim_only=False, dict_only=False):
        kw = {}
        if not trim_only:
            kw.update(add_dict=flags[0], add_slots=flags[1], add_properties=flags[2])
            if how != 'obj2what':
                kw['add_class'] = flags[3]
        if not dict_only:
            kw.update(exclude_prefix=prefix, exclude_postfix=postfix, excludes=make(excludes))
        return kw

    if how == 'class':
        cls = whatable(cls, **options())
    elif how == 'decorator':
        cls = whatable(**options())(cls)
    elif how == 'subclass':
        cls = type('Sub', (whatable(cls, **options()),), {} if has_dict else {'__slots__': ()})
        name = 'Sub'
    obj = cls()
    if how == 'instance' and has_dict:
        obj = whatable(obj, **options())
        ctx.check(type(obj) is cls, 'whatable changes the class')
    elif how == 'instance':
        how = 'whatareyou'
    ctx.label('how ' + how, 'callable' if callable_ else 'not callable', 'dict' if has_dict else 'slots only')
    state = {'slots': {}, 'dict': {}}
    hidden = ['private0']
    STATE.clear()
    STATE[id(obj)] = hidden[0]

    def assign(n, v):
        r = resolution(levels, n)
        if r == 'slot':
            setattr(obj, n, v)
            state['slots'][n] = v
        elif has_dict:
            obj.__dict__[n] = v
            state['dict'][n] = v

    for n, v in attrs:
        assign(n, build(v))

    def expected():
        cd = {}
        add_dict, add_slots, add_props, add_class = flags
        if add_class:
            for n in dir(cls):
                if not pythons(n):
                    cd[n] = getattr(cls, n)
        if add_dict:
            cd.update(state['dict'])
        if add_slots:
            cd.update(state['slots'])
        if add_props:
            for n in set(n for l in levels for n, _, _ in l[2]):
                r = resolution(levels, n)
                if isinstance(r, tuple):
                    cd[n] = hidden[0] if r[1] == 'private' else build(r[2])
        kept = {k: v for k, v in cd.items()
                if not (prefix and k[:len(prefix)] == prefix) and not (postfix and k[-len(postfix):] == postfix) and k not in excludes}
        ctx.interesting(bool(kept) and len(cd) > len(kept))
        return kept

    def actual():
        if how == 'whatareyou':
            w = whatareyou(obj, **options())
        elif how == 'obj2what':
            w = obj2what(obj, **dict(options(), **({'force_inspect': True} if inspect else {})))
        elif how == 'pieces':
            return trim_dict(config_dict_for_object(obj, **options(dict_only=True)), **options(trim_only=True))
        else:
            w = obj.what()
        ctx.eq(w.name, name, 'name')
        if how in ('whatareyou', 'obj2what'):
            other = (whatareyou if how == 'whatareyou' else obj2what)(obj, name_override='Other', **dict(options(), **({'force_inspect': True} if inspect else {})))
            ctx.eq(other.name, 'Other', 'name override')
            ctx.eq(sorted(other.conf), sorted(w.conf), 'keys with another name')
        ctx.check(w.out_name is None, 'out name %r', w.out_name)
        ctx.check(not w.non_id_keys, 'non id keys %r', w.non_id_keys)
        return w.conf

    def compare(when):
        got, exp = dict(actual()), expected()
        if how == 'instance':
            got.pop('what', None)
        got = {k: v for k, v in got.items() if not pythons(k)}
        ctx.eq(sorted(got), sorted(exp), 'keys %s' % when)
        for k in exp:
            g, e = got[k], exp[k]
            ctx.check(g is e or (type(g) is type(e) and repr(g) == repr(e)), 'value of %r %s: got %r, expected %r', k, when, g, e)

    compare('at first')
    compare('again')
    for i, (n, op, v) in enumerate(changes):
        if n == 'hidden':
            hidden[0] = 'private%d' % (i + 1)
            STATE[id(obj)] = hidden[0]
        elif op == 'set':
            assign(n, build(v))
        elif n in state['slots']:
            delattr(obj, n)
            del state['slots'][n]
        elif n in state['dict']:
            del obj.__dict__[n]
            del state['dict'][n]
        compare('after change %d' % i)
    # results are not shared with the object
    conf = actual()
    conf['other'] = 1
    conf.pop('a', None)
    compare('after changing the result')


def gen_trim(d):
    keys = d.sample(NAMES + ['', '_', '__', 'what', 'aaa', 'a_a'], 0, 8)
    fix = lambda: d.choice(['_', '', None, 'a', 'ab', 'b', 'abc', 'what', '__', 'x_'])
    return keys, fix(), fix(), d.sample(keys + ['what', 'zz'], 0, 4), d.choice(['tuple', 'list', 'set', 'iter', 'dict', 'str-free'])


def judge_trim(case, ctx):
    from whatami.misc import trim_dict
    keys, prefix, postfix, excludes, container = case
    cd = {k: i for i, k in enumerate(keys)}
    before = dict(cd)
    make = {'tuple': tuple, 'list': list, 'set': set, 'iter': iter, 'dict': dict.fromkeys, 'str-free': frozenset}[container]
    got = trim_dict(cd, exclude_prefix=prefix, exclude_postfix=postfix, excludes=make(excludes))
    exp = {}
    for k, v in before.items():
        out = k in excludes
        if prefix not in (None, '') and k[:len(prefix)] == prefix:
            out = True
        if postfix not in (None, '') and k[len(k) - len(postfix):] == postfix and len(k) >= len(postfix):
            out = True
        if not out:
            exp[k] = v
    ctx.interesting(0 < len(exp) < len(before))
    ctx.eq(got, exp, 'trimmed')
    ctx.eq(cd, before, 'the argument')
    ctx.check(got is not cd, 'not a copy')
    if prefix == '_' and postfix == '_' and excludes == ['what']:
        ctx.eq(trim_dict(cd), exp, 'defaults')


# --- Objects whose members look like something else

TRICKY = ['func', 'args', 'keywords', 'conf', 'name', 'id', 'keys', 'non_id_keys', 'out_name', 'values', 'get', 'module', 'seq', 'x', 'self', 'obj', 'shape', 'dtype', 'data', 'func_name', 'whatami']
SPECIAL = {'falsy': {'__bool__': lambda self: False}, 'empty': {'__len__': lambda self: 0}, 'nobool': {'__bool__': lambda self: 1 // 0}, 'noeq': {'__eq__': lambda self, other: 1 // 0, '__hash__': None},
           'eq': {'__eq__': lambda self, other: True, '__hash__': lambda self: 1}, 'iterable': {'__iter__': lambda self: iter(())}, 'items': {'__getitem__': lambda self, i: i}, 'missing': {'__getitem__': lambda self, i: {}[i]},
           'str': {'__repr__': lambda self: 'What(x=1)'}, 'norepr': {'__repr__': lambda self: 1 // 0}, 'contains': {'__contains__': lambda self, x: 1 // 0}, 'context': {'__enter__': lambda self: 3, '__exit__': lambda *args: True},
           'self': {'__repr__': lambda self: self.what().id(), '__str__': lambda self: str(self.what())}, 'getattr': {'__getattr__': lambda self, name: anything(name)},
           'hash': {'__hash__': lambda self: hash(self.what().id()), '__eq__': lambda self, other: self.what() == other.what()},
           'int': {'__int__': lambda self: 3, '__index__': lambda self: 3, '__float__': lambda self: 3.}, 'plain': {}}


def anything(name):
    if name.startswith('__') or name == 'what':
        raise AttributeError(name)
    return 3


def gen_tricky(d):
    kinds = ['fn', 'cls', 'tuple', 'dict', 'what', 'lit', 'partial', 'str', 'obj']
    attrs = [(n, d.choice(kinds), gen_value(d, O, 1)) for n in d.sample(TRICKY, 0, 6)]
    if d.bool(0.4):
        attrs = [a for a in attrs if a[0] not in ('func', 'args', 'keywords')] + [('func', d.choice(['fn', 'fn', 'cls', 'lit', 'partial']), ('i', 1)), ('args', d.choice(['tuple', 'tuple', 'what', 'lit']), ('i', 2)),
                                                                              ('keywords', d.choice(['dict', 'dict', 'what', 'lit']), ('i', 3))]
    return d.choice(CLASSES), attrs, d.sample(sorted(SPECIAL), 1, 2), d.choice(['whatareyou', 'class', 'instance', 'obj2what', 'in whatareyou'])


def judge_tricky(case, ctx):
    from functools import partial
    from whatami import What, whatable, whatareyou, obj2what, what2id, is_whatable
    name, attrs, special, how = case
    ns = {}
    for s in special:
        ns.update(SPECIAL[s])
    cls = type(name, (object,), ns)
    if how == 'class':
        cls = whatable(cls)
    obj = cls()
    made = {}
    for n, kind, v in attrs:
        v = build(v)
        made[n] = {'fn': lambda: (lambda a=1, b=2: a), 'cls': lambda: dict, 'tuple': lambda: (v,), 'dict': lambda: {'b': v}, 'what': lambda: What('W', {'x': v}), 'lit': lambda: v,
                   'partial': lambda: partial(int, base=3), 'str': lambda: n, 'obj': lambda: type('Other', (object,), {})()}[kind]()
        setattr(obj, n, made[n])
    if how == 'instance':
        obj = whatable(obj)
    w = whatareyou(obj) if how in ('whatareyou', 'in whatareyou') else obj2what(obj) if how == 'obj2what' else obj.what()
    ctx.check(type(w) is What, 'not a What: %r', type(w))
    ctx.eq(w.name, name, 'name')
    conf = {k: v for k, v in w.conf.items() if k != 'what'}
    ctx.eq(sorted(conf), sorted(made), 'keys')
    ctx.check(all(conf[k] is made[k] for k in made), 'values: %r, expected %r', conf, made)
    ctx.interesting(len(attrs) > 1)
    ctx.label('how ' + how, *['special ' + s for s in special])
    if how in ('class', 'instance'):
        ctx.check(is_whatable(obj), 'not whatable')
        ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s)' % w.id(), 'id of something with it')
        ctx.eq(what2id(obj), w.id(), 'what2id')
    elif how == 'in whatareyou':
        ctx.check(whatareyou(lambda x=obj: x).conf['x'] is obj, 'default of a function')


i1, i2 = ('i', 1), ('i', 2)
EX = [([('C', None, [('b', 'const', i1)], [], []), ('X9', ['a', '_q'], [('b', 'private', i1)], [], [])], [('a', i1), ('c', i2), ('_q', i1)],
       [('hidden', 'set', i1), ('a', 'del', i1), ('c', 'set', i1)], (True, True, True, False), '_', '_', ['what'], h, 'iter', False, False)
      for h in ('class', 'decorator', 'instance', 'whatareyou', 'pieces', 'obj2what', 'subclass', 'inspect')]
TESTS = [Test('hierarchies', gen, judge, quick=2000, examples=EX), Test('many', gen_many, judge, quick=60), Test('trimming', gen_trim, judge_trim, quick=3000), Test('tricky', gen_tricky, judge_tricky, quick=800)]
