"""Generators of value specs, and conversion between specs and live values."""
import importlib

from engine import ref

# --- Names

NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'A', 'B', 'aa', 'ab', 'x1', 'x_y', '_p', 'p_', 'Z9', 'name', 'conf', 'out', 'seq', 'nan',
         'inf', 'nanmean', 'information', 'None_', 'NoneType', 'Trueish', 'False2', 'set1', 'frozenset_', 'settings', 'what', 'self', 'lambda',
         'class_', 'n_jobs', 'verbose', 'e5', 'E', 'Inf', 'NaN', 'ids', 'default']
WHAT_NAMES = ['A', 'B', 'rfc', 'f', 'lambda', 'nanmean', 'information', 'None_', 'NoneType', 'Trueish', 'Falsey', 'nan', 'inf', 'None',
              'settings', 'set_', 'frozensets', 'int', 'str', '_', '_x', 'x9', 'OrderedDict', 'class_', 'A1', 'kmeans']


def gen_name(d, pool=NAMES):
    if d.bool(0.12):
        first = d.choice('abcxyzABC_')
        return first + ''.join(d.list(lambda: d.choice('abXY_019'), 0, 5))
    return d.choice(pool)


# --- Strings

WORDS = ['a', 'b', "'", '\\', '"', ' ', '\n', '\t', '(', ')', '[', ']', '{', '}', ',', '=', ':', '#', '<', '>', '.', '-', '_', '0', '7',
         'None', 'True', 'nan', 'inf', 'set()', 'frozenset({', '})', "<class '", "'>", 'a=1', "\\'", "\\\\", "\\\\'", "''", "',b='", ' at 0x', '\r',
         'f(x=1)', '\u00e9', '\u4e2d', '\U0001f600', '\u2028', '\x00', '\\n', '%s', '{}', "')", '*-*NoNeNoDe*-*', '"A#b=1"', '\xa0', '\x0c', '/', '@', '$',
         'e\u0301', '\ufb01', '\u212b', '\u0130', '\u00df', '\u200b', '\ufeff', '\x85', '\u202e', '\uff07', '\udce9', '\x1b', '\r\n', '  ', '\u0660', '\u2019', '\xad', '\u3000']


def gen_str(d):
    k = d.weighted([(4, 'simple'), (7, 'words'), (1, 'empty')])
    if k == 'empty':
        return ''
    if k == 'simple':
        return ''.join(d.list(lambda: d.choice('abcxyz019_ '), 0, 6))
    return ''.join(d.list(lambda: d.choice(WORDS), 1, 6))


# --- Numbers

def gen_int(d):
    k = d.draw(9)
    if k < 6:
        v = d.int(0, 12)
    elif k < 8:
        v = d.choice([255, 256, 1000, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 64, 10 ** 20, 10 ** 40])
    else:
        v = d.draw(10 ** 6)
    return -v if d.bool(0.3) else v


FLOATS = ['0.0', '1.0', '0.5', '-0.0', 'inf', '-inf', 'nan', '0.1', '1e-07', '1e+22', '1.5e+300', '-2.5', '5e-324', '1.7976931348623157e+308',
          '100000.0', '1e16', '123456789012345680.0', '3.141592653589793', '-1e-05', '2.0', '1e15']


def gen_float(d):
    if d.bool(0.25):
        return repr((d.draw(2000000) - 1000000) / float(d.choice([1, 3, 7, 1000, 10 ** 9])))
    return repr(float(d.choice(FLOATS)))


CLASSES = [('builtins', 'list'), ('builtins', 'dict'), ('builtins', 'str'), ('builtins', 'object'), ('builtins', 'bool'), ('builtins', 'tuple'),
           ('builtins', 'set'), ('builtins', 'ValueError'), ('collections', 'OrderedDict'), ('decimal', 'Decimal'), ('fractions', 'Fraction'),
           ('whatami.what', 'What'), ('whatami.registry', 'Recorder'), ('json.decoder', 'JSONDecoder'), ('engine.fixtures', 'Plain'),
           ('engine.fixtures', 'WithWhat'), ('builtins', 'type'), ('engine.fixtures', 'Nan'), ('engine.MixedCase', 'lower_UPPER'), ('engine.MixedCase', '_Private')]


def get_class(module, name):
    return getattr(importlib.import_module(module), name)


# --- Values

class Options(object):
    def __init__(self, classes=True, sets=True, dicts=True, whats=True, nonids=False, nan=True, floats=True, frozen=True,
                 strings=True, depth=4, out=True, members=4, what_members=4, whats_in_sets=True, numeric_types=False, safe_strings=False,
                 what_names=WHAT_NAMES, names=NAMES, json=False, long=0.04):
        self.__dict__.update(locals())
        del self.__dict__['self']


def gen_string_value(d, o):
    s = gen_str(d)
    return ref.normal(s) if o.safe_strings else s


def gen_scalar(d, o):
    k = d.weighted([(5, 'i'), (6, 's'), (2, 'n'), (2, 'b'), (4 if o.floats else 0, 'f'), (2 if o.classes else 0, 'c')])
    if k == 'i':
        return ('i', gen_int(d))
    if k == 's':
        return ('s', gen_string_value(d, o))
    if k == 'n':
        return ('n',)
    if k == 'b':
        return ('b', d.int(0, 1))
    if k == 'f':
        f = gen_float(d)
        if f == 'nan' and not o.nan:
            f = '0.25'
        return ('f', f)
    if o.numeric_types and d.bool(0.3):
        return ('c', 'builtins', d.choice(['int', 'float', 'complex']))
    return ('c',) + d.choice(CLASSES)


def distinct(specs):
    """Drops members equal to (or with the same rendering as) previous ones."""
    out, seen, texts = [], set(), set()
    for s in specs:
        e, t = ref.eqkey(s), ref.render(s)
        if e not in seen and t not in texts:
            seen.add(e)
            texts.add(t)
            out.append(s)
    return out


def related(d, text):
    """A string sharing a part of another."""
    cut = text[:d.int(0, len(text))] if d.bool(0.6) else text
    sep = d.choice([':', ',', '=', ' ', '.', "'", '\\', '', "':", '1', '-', '_'])
    return d.choice([lambda: cut + sep + gen_str(d), lambda: gen_str(d) + sep + cut, lambda: cut + sep, lambda: sep + cut])()


def gen_members(d, o, depth):
    """Distinct hashable members of a set, or keys of a dict; some strings look alike."""
    if d.bool(o.long):
        xs = d.list(lambda: gen_value(d, o, 0, True), 5, 15, p=0.9)
    else:
        xs = d.list(lambda: gen_value(d, o, depth, True), 0, o.members)
    texts = [x[1] for x in xs if x[0] == 's']
    if texts and d.bool(0.25):
        more = [related(d, d.choice(texts))]
        if d.bool(0.6):  # several with the same start
            start = d.choice(texts) + d.choice([':', ',', '=', ' ', '.', "'", '_'])
            more = [start + gen_str(d), start + gen_str(d), start]
        for t in more:
            xs.insert(d.int(0, len(xs)), ('s', ref.normal(t) if o.safe_strings else t))
    return distinct(xs)


def gen_many(d, o, tag, sizes=(5, 9, 17, 33, 65, 100, 129, 257, 300, 513, 1030)):
    """A large collection of distinct scalars, of few kinds."""
    n = d.choice(sizes)
    start, step = gen_int(d) % 10 ** 12, d.choice([1, 2, -1, 7, 1000])
    kinds = [('i',), ('s',), ('i', 's')] + ([('i', 's', 'f', 't')] if o.floats else [])
    kinds = d.choice(kinds)
    xs = []
    for i in range(n):
        v = start + i * step
        k = kinds[i % len(kinds)]
        xs.append({'i': lambda: ('i', v), 's': lambda: ('s', 'k%d' % v), 'f': lambda: ('f', repr(v + 0.5)), 't': lambda: ('t', [('i', v), ('s', 'a')])}[k]())
    if tag == 'd':
        return ('d', [(x, ('i', i)) for i, x in enumerate(xs)])
    return (tag, xs)


def gen_big(d, o=None, tags='ltSFd', kinds=('string', 'collection', 'parameters', 'deep', 'name', 'number')):
    """Long strings and numbers, large collections, many parameters and deep nesting."""
    o = o or Options(depth=1)
    k = d.choice(kinds)
    if k == 'string':
        n = d.choice([100, 255, 256, 257, 1000, 1025, 4096, 20000])
        text = ((gen_str(d) or 'ab') * n)[:n]
        i = d.int(0, n)
        text = text[:i] + gen_str(d) + text[i:]
        v = ('s', ref.normal(text) if o.safe_strings else text)
    elif k == 'number':
        v = ('i', d.choice([1, -1]) * (10 ** d.choice([17, 25, 100, 400, 1500]) + gen_int(d)))
    elif k == 'collection':
        v = gen_many(d, o, d.choice(tags), sizes=(17, 65, 130, 300))
    elif k == 'parameters':
        many = gen_many(d, o, 'l', sizes=(17, 65, 130, 300))
        v = ('w', 'B', [('k%d' % i, x) for i, x in enumerate(many[1])], None, [])
        if d.bool(0.4):  # at the top
            return ('w', 'A') + v[2:]
    elif k == 'deep':
        v = gen_scalar(d, o)
        layers = d.list(lambda: d.choice('ltwdW' if o.out else 'ltwd'), 1, 3)
        for i in range(d.int(6, 16)):
            v = {'l': lambda: ('l', [v]), 't': lambda: ('t', [v]), 'd': lambda: ('d', [(('s', 'k'), v)]), 'w': lambda: ('w', 'B', [('b', v)], None, []),
                 'W': lambda: ('w', 'C', [('b', v)], 'o', [])}[layers[i % len(layers)]]()
    else:
        v = ('w', 'N' + 'ab_9' * d.choice([10, 64, 200]), [('p' * d.choice([30, 256, 1000]), ('i', 1))], 'o' * d.choice([1, 64, 300]) if o.out else None, [])
    return ('w', 'A', [('a', v), ('b', ('s', 'end'))], None, [])


def gen_value(d, o, depth=None, hashable=False):
    depth = o.depth if depth is None else depth
    if depth <= 0:
        return gen_scalar(d, o)
    wl = 4 if not hashable else 0
    k = d.weighted([(14 if depth < 3 else 7, 'scalar'), (wl, 'l'), (3, 't'), (wl if o.dicts else 0, 'd'), (wl - 1 if o.sets and not hashable else 0, 'S'),
                    (2 if o.frozen else 0, 'F'),
                    ((6 if not hashable else (1 if o.whats_in_sets else 0)) if o.whats else 0, 'w')])
    if k == 'scalar':
        return gen_scalar(d, o)
    if k in 'lt':
        if d.bool(o.long):  # more than ten: positions have two digits
            return (k, d.list(lambda: gen_value(d, o, 0, hashable), 5, 15, p=0.9))
        return (k, d.list(lambda: gen_value(d, o, depth - 1, hashable), 0, o.members))
    if k == 'd':
        keys = gen_members(d, o, min(depth - 1, 2))
        return ('d', [(key, gen_value(d, o, depth - 1)) for key in keys])
    if k in 'SF':
        return (k, gen_members(d, o, min(depth - 1, 2)))
    return gen_what(d, o, depth)


def gen_what(d, o, depth=None, top=False):
    depth = o.depth if depth is None else depth
    name = gen_name(d, o.what_names)
    out = gen_name(d) if o.out and d.bool(0.15) else None
    keys = []
    many = d.bool(o.long)
    for k in d.list(lambda: gen_name(d, o.names), 1 if top and not d.bool(0.06) else 0, o.what_members if not many else 15, p=0.9 if many else None):
        if k not in keys:
            keys.append(k)
    kvs = [(k, gen_value(d, o, depth - 1 if not many else 0)) for k in keys]
    if not top and not kvs and out is None and name in ('set', 'frozenset'):
        name = 'A'
    nonids = []
    if o.nonids and d.bool(0.4):
        nonids = d.sample(keys + ['zz'], 0, 3)
    return ('w', name, kvs, out, nonids)


# --- Live values

EXT_BUILD = {}  # tag -> function(spec, order, share)


def build(spec, order=None, share=None):
    """Makes the live value. order: function(list) -> list permuting insertion orders; share: {} to reuse equal parts."""
    from whatami import What
    if share is not None:
        key = repr(spec)
        if key in share:
            return share[key]
    tag = spec[0]
    o = order if order is not None else (lambda xs: xs)
    if tag == 'n':
        v = None
    elif tag == 'b':
        v = bool(spec[1])
    elif tag == 'i':
        v = int(spec[1])
    elif tag == 'f':
        v = float(spec[1])
    elif tag == 's':
        v = spec[1]
        if order is not None and len(v) > 1:
            v = v[:1] + ''.join(list(v[1:]))  # an equal but different object
    elif tag == 'c':
        v = get_class(spec[1], spec[2])
    elif tag == 'l':
        v = [build(x, order, share) for x in spec[1]]
    elif tag == 't':
        v = tuple([build(x, order, share) for x in spec[1]])
    elif tag == 'd':
        v = {}
        for k, x in o(list(spec[1])):
            v[build(k, order, share)] = build(x, order, share)
    elif tag == 'S':
        v = set()
        for x in o(list(spec[1])):
            v.add(build(x, order, share))
    elif tag == 'F':
        v = frozenset([build(x, order, share) for x in o(list(spec[1]))])
    elif tag == 'w':
        conf = {}
        for k, x in o(list(spec[2])):
            conf[k] = build(x, order, share)
        v = What(spec[1], conf, non_id_keys=o(list(spec[4])), out_name=spec[3])
    elif tag in EXT_BUILD:
        v = EXT_BUILD[tag](spec, order, share)
    else:
        raise ValueError(spec)
    if share is not None:
        share[key] = v
    return v


class NotALiteral(Exception):
    pass


def to_spec(v):
    """Spec of a live value, exact on types; raises NotALiteral for anything else."""
    from whatami import What
    t = type(v)
    if v is None:
        return ('n',)
    if t is bool:
        return ('b', int(v))
    if t is int:
        return ('i', v)
    if t is float:
        return ('f', repr(v))
    if t is str:
        return ('s', v)
    if t is list:
        return ('l', [to_spec(x) for x in v])
    if t is tuple:
        return ('t', [to_spec(x) for x in v])
    if t is dict:
        return ('d', [(to_spec(k), to_spec(x)) for k, x in v.items()])
    if t is set:
        return ('S', [to_spec(x) for x in v])
    if t is frozenset:
        return ('F', [to_spec(x) for x in v])
    if isinstance(v, type):
        return ('c', v.__module__, v.__qualname__)
    if t is What:
        if type(v.conf) is not dict or not isinstance(v.name, str) or not (v.out_name is None or isinstance(v.out_name, str)):
            raise NotALiteral('odd What: %r' % (v,))
        return ('w', v.name, [(k, to_spec(x)) for k, x in v.conf.items()], v.out_name, sorted(v.non_id_keys))
    raise NotALiteral('%s: %r' % (t, v))


def same(live, spec, **kw):
    """Is the live value exactly (types included) the one described by spec?"""
    try:
        return ref.canon(to_spec(live), **kw) == ref.canon(spec, **kw)
    except NotALiteral:
        return False


def orders(seed):
    """A deterministic family of insertion orders."""
    if seed == 0:
        return lambda xs: xs
    if seed == 1:
        return lambda xs: xs[::-1]

    def rotate(xs):
        n = seed % max(1, len(xs))
        ys = xs[n:] + xs[:n]
        return ys[::2] + ys[1::2] if (seed // 7) % 2 else ys[::-1]
    return rotate


def value_labels(spec, ctx):
    """Classifies a case for the evidence."""
    ctx.label('depth %d' % min(ref.depth(spec), 6))
    for tag, label in (('S', 'set'), ('F', 'frozenset'), ('d', 'dict'), ('c', 'class'), ('f', 'float')):
        if ref.contains(spec, lambda s: s[0] == tag):
            ctx.label('has ' + label)
    if ref.contains(spec, lambda s: s[0] == 's' and ("'" in s[1] or '\\' in s[1])):
        ctx.label('has quotes or backslashes')
    if ref.contains(spec, lambda s: s is not spec and s[0] == 'w'):
        ctx.label('has nested what')
    if ref.contains(spec, lambda s: s is not spec and s[0] == 'w' and s[3] is not None):
        ctx.label('has nested out name')
    if ref.contains(spec, lambda s: s[0] == 's' and s[1][:1] in (' ', '\n', '\t', '\r')):
        ctx.label('has leading blank')
