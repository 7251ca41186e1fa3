"""Specs beyond literals (functions, partials, objects), with their live values and their reference rendering.

  ('fn', name, [(param, default spec | None)], kind)   kind: 'def' | 'lambda' | 'closure'
  ('pt', inner, [positional specs], [(key, spec)], kind)  kind: 'partial' | 'curry'
  ('ob', class name)                 object whose only representation has its memory address
  ('os', text)                       object with its own str
  ('wo', class name, [(attr, spec)], kind)   whatable object; kind: 'whatable' | 'duck' | 'instance'
  ('np', dtype, literal)             numpy scalar
  ('nt', type, literal)              other python numbers and the like, rendered by str
  ('col', kind, class name, content) collections and subclasses, see props/c16.py
"""
import keyword

from engine import ref, values

PARAMS = [n for n in values.NAMES if not keyword.iskeyword(n)] + ['data', 'mean', 'std', 'func', 'args', 'keywords', 'fname']
PARAMS.remove('lambda') if 'lambda' in PARAMS else None
FUNCTION_NAMES = ['f', 'g', 'normalize', 'mola', '_hidden', 'nanmean', 'lambda_', 'None_', 'inf2', 'Fun', 'f9']
CLASS_NAMES = ['C', 'Company', 'Nanny', 'Info', '_Private', 'NoneLike', 'Rfc', 'X9']


# --- Functions

def make_function(name, params, kind='def', order=None, share=None, body='return locals()'):
    ns = {}
    sig = []
    for i, (p, default) in enumerate(params):
        if default is None:
            sig.append(p)
        else:
            ns['_d%d' % i] = values.build(default, order, share)
            sig.append('%s=_d%d' % (p, i))
    sig = ', '.join(sig)
    if kind == 'lambda':
        src = 'fun = lambda %s: None' % sig
        exec(src, ns)
        return ns['fun']
    if kind == 'closure':
        src = 'def outer(cell_):\n    def %s(%s):\n        cell_\n        %s\n    return %s\n' % (name, sig, body, name)
        exec(src, ns)
        return ns['outer'](3)
    exec('def %s(%s):\n    %s\n' % (name, sig, body), ns)
    return ns[name]


def gen_params(d, o, lo=0, hi=4):
    names = []
    for n in d.list(lambda: d.choice(PARAMS), lo, hi):
        if n not in names:
            names.append(n)
    ndef = d.int(0, len(names))
    return [(n, None if i < len(names) - ndef else values.gen_value(d, o, min(o.depth, 2))) for i, n in enumerate(names)]


def gen_fn(d, o):
    kind = d.weighted([(5, 'def'), (2, 'lambda'), (1, 'closure')])
    return ('fn', d.choice(FUNCTION_NAMES), gen_params(d, o), kind)


def build_fn(spec, order, share):
    return make_function(spec[1], spec[2], spec[3], order, share)


def fn_name(spec):
    while spec[0] == 'pt':
        spec = spec[1]
    return 'lambda' if spec[3] == 'lambda' else spec[1]


def render_call(name, bound):
    return name + '(' + ','.join(k + '=' + ref.render(v) for k, v in sorted(bound.items())) + ')'


def render_fn(spec):
    return render_call(fn_name(spec), {p: v for p, v in spec[2] if v is not None})


# --- Partials (valid ones: see props/c12.py for the others)

def gen_pt(d, o):
    inner = gen_fn(d, o)
    params = [p for p, _ in inner[2]]
    npos, named = 0, set()
    spec = inner
    for _ in range(d.int(1, 3)):
        # positions can grow while they do not run into parameters given by name
        free = 0
        while npos + free < len(params) and params[npos + free] not in named:
            free += 1
        n = d.int(0, min(free, 2))
        pos = [values.gen_value(d, o, 1) for _ in range(n)]
        npos += n
        keys = d.sample(params[npos:], 0, 2)
        named |= set(keys)
        kws = [(k, values.gen_value(d, o, 1)) for k in keys]
        # the innermost curry of a function with no required arguments would call it
        spec = ('pt', spec, pos, kws, 'partial')
    return spec


def pt_bound(spec):
    """{param: spec} bound by defaults, names and positions."""
    layers = []
    while spec[0] == 'pt':
        layers.append(spec)
        spec = spec[1]
    params = spec[2]
    bound = {p: v for p, v in params if v is not None}
    pos = []
    for layer in reversed(layers):  # innermost first
        pos += layer[2]
        bound.update(dict(layer[3]))
    for (p, _), v in zip(params, pos):
        bound[p] = v
    return bound


def render_pt(spec):
    return render_call(fn_name(spec), pt_bound(spec))


def build_pt(spec, order, share):
    from functools import partial
    inner = values.build(spec[1], order, share)
    return partial(inner, *[values.build(x, order, share) for x in spec[2]],
                   **{k: values.build(x, order, share) for k, x in (order(list(spec[3])) if order else spec[3])})


# --- Objects

def build_ob(spec, order, share):
    return type(spec[1], (object,), {})()


class OwnStr(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def build_wo(spec, order, share):
    from whatami import whatable, What
    _, name, attrs, kind = spec
    items = [(k, values.build(v, order, share)) for k, v in (order(list(attrs)) if order else attrs)]
    cls = type(name, (object,), {})
    if kind == 'whatable':
        cls = whatable(cls)
    elif kind == 'duck':
        cls.what = lambda self: What(name, {k: v for k, v in self.__dict__.items() if not k.startswith('_') and not k.endswith('_') and k != 'what'})
    obj = cls()
    for k, v in items:
        setattr(obj, k, v)
    if kind == 'instance':
        obj = whatable(obj)
    return obj


def public(k):
    return not k.startswith('_') and not k.endswith('_') and k != 'what'


def render_wo(spec):
    return render_call(spec[1], {k: v for k, v in spec[2] if public(k)})


def gen_wo(d, o):
    names = []
    for k in d.list(lambda: d.choice(PARAMS + ['_private', 'fitted_', '__x']), 0, 4):
        if k not in names and k != 'what':
            names.append(k)
    return ('wo', d.choice(CLASS_NAMES), [(k, values.gen_value(d, o, 2)) for k in names],
            d.choice(['whatable', 'duck', 'instance']))


def build_np(spec, order, share):
    import numpy as np
    return getattr(np, spec[1])(spec[2] if spec[1] != 'float64' else float(spec[2]))


def render_np(spec):
    if spec[1] == 'bool_':
        return 'True' if spec[2] else 'False'
    if spec[1] == 'float64':
        return repr(float(spec[2]))
    if spec[1] == 'str_':
        return ref.render(('s', spec[2]))
    return '%d' % spec[2]


def build_nt(spec, order, share):
    import decimal
    import fractions
    if spec[1] == 'complex':
        return complex(spec[2])
    if spec[1] == 'Decimal':
        return decimal.Decimal(spec[2])
    if spec[1] == 'Fraction':
        return fractions.Fraction(spec[2])
    raise ValueError(spec)


def gen_other(d, o):
    """A value beyond literals."""
    k = d.weighted([(4, 'fn'), (3, 'pt'), (2, 'ob'), (1, 'os'), (4, 'wo'), (2, 'np'), (1, 'nt'), (1, 'numtype')])
    if k == 'fn':
        return gen_fn(d, o)
    if k == 'pt':
        return gen_pt(d, o)
    if k == 'ob':
        return ('ob', d.choice(CLASS_NAMES))
    if k == 'os':
        return ('os', d.choice(['custom', 'a b', "it's", '1', '', '<x>', 'own(x=1)']))
    if k == 'wo':
        return gen_wo(d, o)
    if k == 'np':
        t = d.choice(['int64', 'int8', 'uint16', 'float64', 'bool_', 'str_'])
        if t == 'float64':
            return ('np', t, values.gen_float(d))
        if t == 'bool_':
            return ('np', t, d.int(0, 1))
        if t == 'str_':
            return ('np', t, d.choice(['a', "it's", 'x y']))
        return ('np', t, d.int(0, 100))
    if k == 'nt':
        return d.choice([('nt', 'complex', '(1+2j)'), ('nt', 'Decimal', '1.50'), ('nt', 'Fraction', '1/3')])
    return ('c', 'builtins', d.choice(['int', 'float', 'complex']))


def gen_mixed(d, o, depth=2):
    """A value with something beyond literals somewhere inside."""
    if depth <= 0 or d.bool(0.5):
        return gen_other(d, o)
    k = d.choice(['l', 't', 'd', 'w'])
    if k in 'lt':
        xs = d.list(lambda: values.gen_value(d, o, 1), 0, 2)
        xs.insert(d.int(0, len(xs)), gen_mixed(d, o, depth - 1))
        return (k, xs)
    if k == 'd':
        keys = values.distinct(d.list(lambda: values.gen_scalar(d, o), 1, 3))
        return ('d', [(key, gen_mixed(d, o, depth - 1)) for key in keys])
    names = []
    for n in d.list(lambda: values.gen_name(d), 1, 3):
        if n not in names:
            names.append(n)
    return ('w', values.gen_name(d, values.WHAT_NAMES), [(n, gen_mixed(d, o, depth - 1)) for n in names], None, [])


values.EXT_BUILD.update({'fn': build_fn, 'pt': build_pt, 'ob': build_ob, 'os': lambda s, o, sh: OwnStr(s[1]), 'wo': build_wo, 'np': build_np, 'nt': build_nt})
ref.EXT_RENDER.update({'fn': render_fn, 'pt': render_pt, 'ob': lambda s: s[1] + '()', 'os': lambda s: s[1], 'wo': render_wo, 'np': render_np,
                       'nt': lambda s: s[2]})
