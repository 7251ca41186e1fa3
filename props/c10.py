import copy as copymod
from engine.core import Test
from engine import ref, values
from engine.values import Options, gen_what, gen_value, build, to_spec

RULE = ('A case is a pool of two or three configurations (also near copies) and a history of 2 to 12 operations: shallow and deep copies, set on the object or on a '
        'copy, whatadd, in-place changes to nested values and to the non-id keys. After each one every configuration in the pool is compared with a model. '
        'Non-trivial: some change happens after some copy.')
ASSUMPTIONS = ['nan values are left out, as they make python containers unequal to their copies']
O = Options(depth=3, nonids=True, nan=False, what_members=3, members=3)
KEYS = ['a', 'b', 'x', 'new', 'zz', 'name', 'conf', 'non_id_keys', 'out']


class Fake(object):
    def __init__(self, **members):
        self.__dict__.update(members)


class M(object):
    """Model of a configuration."""

    def __init__(self, name, conf, nonids, out):
        self.name, self.conf, self.nonids, self.out = name, conf, nonids, out

    def __eq__(self, other):
        return isinstance(other, M) and (self.name, self.out, self.conf) == (other.name, other.out, other.conf)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.name)


def mirror(spec):
    """Same as values.build with M instead of What."""
    tag = spec[0]
    if tag == 'l':
        return [mirror(x) for x in spec[1]]
    if tag == 't':
        return tuple([mirror(x) for x in spec[1]])
    if tag == 'd':
        return {mirror(k): mirror(v) for k, v in spec[1]}
    if tag == 'S':
        return {mirror(x) for x in spec[1]}
    if tag == 'F':
        return frozenset([mirror(x) for x in spec[1]])
    if tag == 'w':
        return M(spec[1], {k: mirror(v) for k, v in spec[2]}, set(spec[4]), spec[3])
    return build(spec)


def mspec(v):
    if isinstance(v, M):
        return ('w', v.name, [(k, mspec(x)) for k, x in v.conf.items()], v.out, sorted(v.nonids))
    if isinstance(v, list):
        return ('l', [mspec(x) for x in v])
    if isinstance(v, tuple):
        return ('t', [mspec(x) for x in v])
    if isinstance(v, dict):
        return ('d', [(mspec(k), mspec(x)) for k, x in v.items()])
    if isinstance(v, frozenset):
        return ('F', [mspec(x) for x in v])
    if isinstance(v, set):
        return ('S', [mspec(x) for x in v])
    return to_spec(v)


def nested(v, isw, out):
    """Mutable containers within, in a deterministic order."""
    if isw(v):
        for k in sorted(v.conf):
            x = v.conf[k]
            if isinstance(x, (list, dict)) or isw(x) or (isinstance(x, set)):
                out.append(x)
            nested(x, isw, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            if isinstance(x, (list, dict)) or isw(x) or (isinstance(x, set)):
                out.append(x)
            nested(x, isw, out)
    elif isinstance(v, dict):
        for x in v.values():
            if isinstance(x, (list, dict)) or isw(x) or (isinstance(x, set)):
                out.append(x)
            nested(x, isw, out)
    return out


def change(x, value, key):
    if isinstance(x, list):
        if key in ('a', 'b') and x:
            x.pop()
        else:
            x.append(value)
    elif isinstance(x, dict):
        x['changed'] = value
    elif isinstance(x, set):
        x.add('changed')
    else:
        x.conf[key] = value


def gen_big(d):
    first = values.gen_big(d, Options(depth=1, nan=False), kinds=['deep', 'collection'])
    if d.bool(0.7):
        n = d.choice([20, 45, 90])
        first = first[:2] + ([('k%d' % i, ('i', i)) for i in range(n)],) + first[3:]
    return gen(d, first[:2] + (first[2] + [('changing', gen_value(d, O, 2)), ('list', ('l', [('d', []), ('l', [])]))],) + first[3:])


def gen(d, first=None):
    pool = [first or gen_what(d, O, top=True)]
    for _ in range(d.int(1, 2)):
        base = pool[0]
        k = d.choice(['same', 'nonids', 'name', 'out', 'value', 'key', 'other', 'order'])
        if k == 'other':
            base = gen_what(d, O, top=True)
        elif k == 'order':
            base = base[:2] + (base[2][::-1],) + base[3:]
        elif k == 'nonids':
            base = base[:4] + (d.sample([n for n, _ in base[2]] + ['zz'], 0, 3),)
        elif k == 'name':
            base = ('w', d.choice(['A', 'B', 'f'])) + base[2:]
        elif k == 'out':
            base = base[:3] + (d.choice([None, 'out', 'o', '']), base[4])
        elif k == 'value' and base[2]:
            kvs = list(base[2])
            i = d.int(0, len(kvs) - 1)
            kvs[i] = (kvs[i][0], gen_value(d, O, 1))
            base = base[:2] + (kvs,) + base[3:]
        elif k == 'key' and base[2]:
            base = base[:2] + (base[2][1:],) + base[3:]
        pool.append(base)
    ops = []
    for _ in range(d.int(2, 12)):
        k = d.weighted([(4, 'copy'), (5, 'set'), (5, 'nested'), (1, 'nonid'), (2, 'add')])
        i = d.draw(9)
        if k == 'copy':
            ops.append((k, i, d.bool(0.5)))
        elif k == 'set':
            ops.append((k, i, d.choice(KEYS), gen_value(d, O, 2), d.choice([None, False, True])))
        elif k == 'nested':
            ops.append((k, i, d.draw(9), d.choice(KEYS), gen_value(d, O, 1)))
        elif k == 'nonid':
            ops.append((k, i, d.choice(KEYS)))
        else:
            ops.append((k, i, d.choice(KEYS), d.list(lambda: gen_value(d, O, 1), 0, 3) if not d.bool(0.15) else d.list(lambda: gen_value(d, O, 0), 4, 30, p=0.9)))
    return pool, ops


def judge(case, ctx):
    from whatami import What
    from whatami.whatutils import whatadd
    pool, ops = case
    live = [build(s) for s in pool]
    model = [mirror(s) for s in pool]
    copied = []

    def compare(after):
        for i, (w, m) in enumerate(zip(live, model)):
            s = mspec(m)
            ctx.check(ref.canon(to_spec(w)) == ref.canon(s), 'after %r, configuration %d is %r, expected %r', after, i, w, s)
            ctx.eq(set(w.non_id_keys), set(m.nonids), 'non id keys of %d after %r' % (i, after))
            ctx.eq(w.id(), ref.render(s), 'id of %d after %r' % (i, after))
            ctx.eq(str(w), ref.render_what(s, non_ids_too=True), 'str of %d after %r' % (i, after))
        for i in range(len(live)):
            for j in range(i, len(live)):
                e = model[i] == model[j]
                ctx.check((live[i] == live[j]) is e and (live[j] == live[i]) is e, '%r == %r should be %r', live[i], live[j], e)
                ctx.check((live[i] != live[j]) is (not e) and (live[j] != live[i]) is (not e), '%r != %r should be %r', live[i], live[j], not e)
                if e:
                    ctx.check(hash(live[i]) == hash(live[j]), 'equal configurations with different hash')
                    if i != j:
                        ctx.label('equal pair')
        partial = [Fake(**{k: getattr(live[0], k) for k in ('name', 'conf', 'out_name') if k != missing}) for missing in ('name', 'conf', 'out_name')]
        for other in [None, 3, 'A', (), {}, object(), What] + partial:
            ctx.check(not (live[0] == other) and live[0] != other and not (other == live[0]), '%r == %r', live[0], other)

    compare([])
    for n, op in enumerate(ops):
        after = ops[:n + 1]
        i = op[1] % len(live)
        w, m = live[i], model[i]
        if op[0] == 'copy' and len(live) < 8:
            c = w.copy(deep=op[2]) if op[2] else (w.copy() if n % 2 else w.copy(deep=False))
            ctx.check(c is not w and type(c) is What and c.conf is not w.conf, 'copy is the same object')
            ctx.check(c == w and not (c != w), 'copy %r is not equal to %r', c, w)
            ctx.eq(c.id(), w.id(), 'id of the copy')
            live.append(c)
            model.append(M(m.name, copymod.deepcopy(m.conf) if op[2] else dict(m.conf), set(m.nonids), m.out))
            copied.append(i)
            ctx.label('deep copy' if op[2] else 'shallow copy')
        elif op[0] == 'set':
            ctx.interesting(bool(copied))
            value, mvalue = build(op[3]), mirror(op[3])
            r = w.set(op[2], value) if op[4] is None else w.set(op[2], value, copy=op[4])
            if op[4]:
                ctx.check(type(r) is What and r is not w, 'set(copy=True) returned %r', r)
                if len(live) < 8:
                    live.append(r)
                    model.append(M(m.name, dict(m.conf, **{op[2]: mvalue}), set(m.nonids), m.out))
            else:
                ctx.check(r is w, 'set returned %r', r)
                m.conf[op[2]] = mvalue
        elif op[0] == 'nested':
            xs, ys = nested(w, lambda v: isinstance(v, What), []), nested(m, lambda v: isinstance(v, M), [])
            if xs and len(xs) == len(ys):
                ctx.interesting(bool(copied))
                ctx.label('nested change')
                ctx.eq(w.id(), ref.render(mspec(m)), 'id before the change')
                change(xs[op[2] % len(xs)], build(op[4]), op[3])
                change(ys[op[2] % len(ys)], mirror(op[4]), op[3])
                ctx.eq(w.id(), ref.render(mspec(m)), 'id right after the change %r' % (op,))
        elif op[0] == 'nonid':
            w.non_id_keys.add(op[2])
            m.nonids.add(op[2])
        elif op[0] == 'add':
            vals = [build(v) for v in op[3]]
            if op[2] in m.conf:
                ctx.raises(ValueError, lambda: whatadd(w, op[2], vals), 'whatadd of an existing key')
            else:
                s = mspec(m)
                exp = [ref.render(s[:2] + (s[2] + [(op[2], v)],) + s[3:]) for v in op[3]]
                ctx.eq(list(whatadd(w, op[2], vals)), exp, 'whatadd')
                ctx.label('whatadd')
        compare(after)


EX = [([('w', 'A', [('x', ('l', [('d', [])])), ('y', ('w', 'B', [('z', ('l', []))], None, []))], None, ['x'])] * 2,
       [('copy', 0, False), ('copy', 0, True), ('nested', 0, k, 'zz', ('i', 1)), ('set', 0, 'x', ('i', 1), True), ('set', 2, 'x', ('i', 2), None), ('add', 0, 'new', [('i', 1), ('i', 2)])]) for k in range(4)]
TESTS = [Test('histories', gen, judge, quick=500, examples=EX), Test('big', gen_big, judge, quick=60)]
