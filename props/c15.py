from functools import partial
from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_value, gen_what, build

RULE = ('A case is a history of 3 to 15 operations on the plugin chain (insert at any place, drop, reset, impossible ones too) over ten custom plugins (functions, partials, callable objects, bound methods) and the '
        'default ones, each followed by rendering a few fixed values. Non-trivial: the chain differs from the default when something is rendered.')
ASSUMPTIONS = []
PARTIALS, OBJECTS, METHODS = ('str', 'none'), ('bigint', 'all'), ('dict', 'empty')  # plugins without a name, and methods, that are not the same object twice

CUSTOM = ['int', 'bigint', 'str', 'list', 'what', 'never', 'all', 'empty', 'none', 'dict']
DEFAULTS = ['what_plugin', 'whatable_plugin', 'numeric_type_plugin', 'string_plugin', 'tuple_plugin', 'list_plugin', 'dict_plugin', 'set_plugin',
            'partial_plugin', 'anyobject0x_plugin', 'anyobject_plugin', 'rng_plugin', 'numpy_plugin', 'builtin_plugin']


def gen(d):
    o = Options(depth=3, members=3, what_members=3, classes=False)
    vals = [gen_value(d, o) for _ in range(d.int(1, 2))] + [gen_what(d, o, top=True)]
    ops = []
    for _ in range(d.int(3, 15)):
        k = d.weighted([(6, 'insert'), (4, 'drop'), (1, 'reset'), (1, 'drop many')])
        if k == 'insert':
            ops.append((k, d.choice(CUSTOM + ['list_plugin']), d.choice(['(default)', '(default)', None] + CUSTOM + DEFAULTS)))
        elif k == 'drop':
            ops.append((k, d.choice(CUSTOM + CUSTOM + DEFAULTS)))
        elif k == 'drop many':  # all but so many, from one side or both
            ops.append((k, d.choice([0, 0, 1, 2, 5]), d.list(lambda: d.draw(2), 1, 4)))
        else:
            ops.append((k,))
    return vals, ops


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, v):
        return self.f(v)

    def method(self, v):
        return self.f(v)


class Undecided(Exception):
    """The model does not say."""


# custom plugin -> function(spec, render) giving text or None
def m_int(s, r):
    return 'INT%d' % s[1] if s[0] == 'i' else None


MODEL = {'int': m_int,
         'bigint': lambda s, r: "'BIG'" if s[0] == 'i' and s[1] > 5 else None,
         'str': lambda s, r: '"%d"' % len(s[1]) if s[0] == 's' else None,
         'list': lambda s, r: 'L<%s>' % '|'.join(r(x) for x in s[1]) if s[0] == 'l' else None,
         'what': lambda s, r: 'W<%s>' % s[1] if s[0] == 'w' else None,
         'never': lambda s, r: None,
         'all': lambda s, r: 'ANY',
         'empty': lambda s, r: '' if s[0] == 's' and not s[1] else None,
         'none': lambda s, r: 'NULL' if s[0] == 'n' else None,
         'dict': lambda s, r: 'D%d' % len(s[1]) if s[0] == 'd' else None}
TAKES = {'what_plugin': 'w', 'string_plugin': 's', 'tuple_plugin': 't', 'list_plugin': 'l', 'dict_plugin': 'd', 'set_plugin': 'SF'}


def judge(case, ctx):
    from whatami import What
    from whatami import plugins as P
    M = P.WhatamiPluginManager
    vals, ops = case

    def make(name):
        def plugin(v):
            if name == 'int':
                return 'INT%d' % v if type(v) is int else None
            if name == 'bigint':
                return "'BIG'" if type(v) is int and v > 5 else None
            if name == 'str':
                return '"%d"' % len(v) if isinstance(v, str) else None
            if name == 'list':
                return 'L<%s>' % '|'.join('%s' % M.build_string(x) for x in v) if type(v) is list else None
            if name == 'what':
                return 'W<%s>' % v.name if isinstance(v, What) else None
            if name == 'never':
                return None
            if name == 'all':
                return 'ANY'
            if name == 'empty':
                return '' if v is not None and isinstance(v, str) and v == '' else None
            if name == 'none':
                return 'NULL' if v is None else None
            return 'D%d' % len(v) if isinstance(v, dict) else None
        plugin.__name__ = {'bigint': 'int', 'none': 'list_plugin', 'all': 'plugin', 'empty': 'plugin'}.get(name, name)  # names are not unique
        if name in PARTIALS:
            return partial(plugin)
        if name in OBJECTS:
            return Callable(plugin)
        if name in METHODS:
            return Callable(plugin).method
        return plugin
    funs = {n: make(n) for n in CUSTOM}
    funs.update({n: getattr(P, n) for n in DEFAULTS})
    plug = lambda name: funs[name].__self__.method if name in METHODS else funs[name]
    names = {}
    for n, f in funs.items():
        names[f] = n
    M.reset()
    default = list(M.plugins())
    ctx.eq([p.__name__ for p in default if p in names], [n for n in [p.__name__ for p in default] if n in DEFAULTS], 'default chain')
    chain = list(default)
    objs = [build(v) for v in vals]

    def render(s):
        """What the chain makes of a value; Undecided when it gets to a plugin that is not modelled for it."""
        for p in chain:
            n = names.get(p)
            if n in MODEL:
                t = MODEL[n](s, render)
                if t is not None:
                    return t
            elif n in TAKES and s[0] in TAKES[n]:
                if n == 'what_plugin':
                    return what(s)
                if n == 'string_plugin':
                    return ref.render(s)
                if s[0] in 'lt':
                    return '[('['lt'.index(s[0])] + ','.join(render(x) for x in s[1]) + '])'['lt'.index(s[0])]
                if s[0] == 'd':
                    return '{' + ','.join(sorted('%s:%s' % (render(k), render(v)) for k, v in s[1])) + '}'
                xs = sorted(render(x) for x in s[1])
                if s[0] == 'S':
                    return '{' + ','.join(xs) + '}' if xs else 'set()'
                return 'frozenset({' + ','.join(xs) + '})' if xs else 'frozenset()'
            elif n == 'anyobject_plugin' and s[0] in 'nbif':
                return ref.render(s)
            elif n in ('anyobject0x_plugin', 'anyobject_plugin') and s[0] not in 'nbif':
                raise Undecided()  # a collection, string or What whose plugin is gone: python decides
        raise Undecided()

    def what(s):
        t = s[1] + '(' + ','.join('%s=%s' % (k, render(v)) for k, v in sorted(s[2], key=lambda kv: kv[0])) + ')'
        return t if s[3] is None else s[3] + '=' + t

    def same_chain(when):
        got = M.plugins()
        ctx.check(isinstance(got, tuple), 'plugins() gives %r', got)
        ctx.check(len(got) == len(chain) and all(a is b or a == b and names.get(a) in METHODS for a, b in zip(got, chain)), '%s the chain is %r, expected %r', when,
                  [getattr(p, '__name__', p) for p in got], [getattr(p, '__name__', p) for p in chain])

    try:
        for n, op in enumerate(ops):
            when = 'after %r' % (ops[:n + 1],)
            if op[0] == 'insert':
                p = plug(op[1])
                before = P.anyobject0x_plugin if op[2] == '(default)' else None if op[2] is None else plug(op[2])
                call = (lambda: M.insert(p)) if op[2] == '(default)' else (lambda: M.insert(p, before)) if n % 2 else (lambda: M.insert(p, before=before))
                if p in chain or (before is not None and before not in chain):
                    ctx.label('impossible insert')
                    ctx.raises(ValueError, call, 'inserting %r' % (op,))
                else:
                    call()
                    chain.insert(len(chain) if before is None else chain.index(before), p)
            elif op[0] == 'drop':
                p = plug(op[1])
                if p in chain:
                    M.drop(p)
                    chain.remove(p)
                else:
                    ctx.label('impossible drop')
                    ctx.raises(ValueError, lambda: M.drop(p), 'dropping %r' % (op,))
            elif op[0] == 'drop many':
                i = 0
                while len(chain) > op[1]:
                    p = chain.pop({0: 0, 1: -1, 2: len(chain) // 2}[op[2][i % len(op[2])]])
                    M.drop(p)
                    same_chain(when)
                    i += 1
            else:
                M.reset()
                chain = list(default)
            same_chain(when)
            ctx.interesting(chain != default)
            for v, o in zip(vals, objs):
                try:
                    exp = render(v)
                except Undecided:
                    ctx.label('undecided')
                    continue
                ctx.eq(M.build_string(o), exp, '%s, string of %r' % (when, v))
                ctx.label('rendered')
                if P.what_plugin in chain and not any(names.get(p) in ('all', 'what') for p in chain[:chain.index(P.what_plugin)]):
                    ctx.eq(M.build_string(What('N', {'x': o})), 'N(x=%s)' % exp, '%s, string of a What with it' % when)
                ctx.eq(What('N', {'x': o}).id(), 'N(x=%s)' % exp, '%s, nested' % when)
            for v, o in zip(vals, objs):
                if v[0] == 'w':
                    try:
                        exp = what(v)
                    except Undecided:
                        continue
                    ctx.eq(o.id(), exp, '%s, id' % when)
    finally:
        M.reset()
    chain = list(default)
    same_chain('after the final reset')


EX = [([('l', [('i', 7), ('s', ''), ('n',)]), ('w', 'A', [('x', ('l', [('i', 3)])), ('y', ('d', [(('s', 'k'), ('i', 9))]))], 'o', [])],
       [('insert', a, b), ('insert', 'list', 'list_plugin'), ('insert', a, None), ('drop', a), ('drop', a), ('reset',), ('insert', b, '(default)')])
      for a in CUSTOM[:6] for b in CUSTOM[5:] + ['what_plugin']  if b in CUSTOM] + [
    ([('i', 7)], [('insert', 'int', 'never'), ('insert', 'never', 'int'), ('insert', 'int', 'what_plugin'), ('insert', 'bigint', 'int'), ('drop', 'int')])]
TESTS = [Test('histories', gen, judge, quick=1500, examples=EX)]
