import copy
import pickle
from engine.core import Test
from engine import child

RULE = ('A case is two random histories (draws of many kinds, seeding, copies, pickles, state transfers) of two generators. The state decides whether the ids must be equal. '
        'Non-trivial: the histories are different.')
ASSUMPTIONS = ['numpy RandomState (on any bit generator)', 'the state is what get_state(legacy=False) gives']

DRAWS = ['r.rand()', 'r.rand(2)', 'r.rand(5)', 'r.randn()', 'r.randn(2)', 'r.randn(3)', 'r.randint(10)', 'r.randint(2 ** 31 - 1)', 'r.randint(0, 2 ** 40, dtype="int64")', 'r.permutation(5)', 'r.shuffle([1, 2, 3])',
         'r.choice(5, 2)', 'r.normal()', 'r.gamma(2.)', 'r.binomial(10, .5)', 'r.poisson(3)', 'r.bytes(3)', 'r.random_sample(700)', 'r.standard_normal(1)', 'r.rand(0)', 'r.randint(10, size=0)',
         'r.multivariate_normal([0, 0], [[1, 0], [0, 1]])', 'r.tomaxint()', 'r.uniform(-1, 1)']
KEEP = ['pickle', 'deepcopy', 'copy', 'transfer', 'legacy', 'ids']
SEEDS = [0, 1, 2, 42, 2 ** 32 - 1, [0], [1, 2, 3], [0, 0], [1]]


def gen_history(d):
    bit = d.weighted([(8, 'RandomState'), (1, 'PCG64'), (1, 'Philox'), (1, 'SFC64'), (1, 'MT19937'), (1, 'sub'), (1, 'named')])
    ops = d.list(lambda: d.choice(DRAWS[:d.choice([3, 6, len(DRAWS)])]) if not d.bool(0.25) else d.choice(KEEP) if not d.bool(0.2) else 'seed %r' % (d.choice(SEEDS),), 0, 6)
    return bit, d.choice(SEEDS), ops


def gen(d):
    one = gen_history(d)
    k = d.draw(4)
    if k == 0:
        two = gen_history(d)
    else:  # a small variation
        ops = list(one[2])
        for _ in range(d.int(0, 2)):
            i = d.int(0, len(ops))
            what = d.draw(5)
            if what == 0:
                ops.insert(i, d.choice(KEEP))
            elif what == 1:
                ops.insert(i, d.choice(['r.rand(0)', 'r.rand()', 'r.randn()', 'r.randn(2)']))
            elif what == 2 and ops:
                ops.pop(min(i, len(ops) - 1))
            elif what == 3:
                ops = [x for o in ops for x in {'r.rand(2)': ['r.rand()'] * 2, 'r.randn(2)': ['r.randn()'] * 2, 'r.randn(3)': ['r.randn()', 'r.randn(2)'], 'r.rand(5)': ['r.rand(2)', 'r.rand(3)']}.get(o, [o])]
            elif what == 4:
                ops += ['seed %r' % (one[1],)] + ops
            else:
                ops = ops[:i] + ['seed %r' % (one[1],)] + ops
        two = (one[0], one[1] if not d.bool(0.15) else d.choice(SEEDS), ops)
    return one, two, d.draw(len(DRAWS) - 1)


def start(bit, seed):
    import numpy as np
    if bit == 'RandomState':
        return np.random.RandomState(seed)
    if bit == 'sub':
        class RandomState(np.random.RandomState):
            pass
        return RandomState(seed)
    if bit == 'named':
        class MyRandom(np.random.RandomState):
            pass
        return MyRandom(seed)
    if bit == 'MT19937':
        return np.random.RandomState(np.random.MT19937(np.random.SeedSequence(seed)))
    return np.random.RandomState(getattr(np.random, bit)(seed))


def plain(x):
    import numpy as np
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.tobytes())
    return x if not isinstance(x, float) else repr(float(x))


def state(r):
    return plain(r.get_state(legacy=False))


def the_id(r):
    from whatami import What
    return What('A', {'r': r}).id()


def apply(r, op, check=None):
    import numpy as np
    from whatami import whatareyou
    if op.startswith('r.'):
        eval(op, {'r': r})
        return r
    if op.startswith('seed '):
        try:
            r.seed(eval(op[5:]))
        except TypeError:  # only for the Mersenne twister
            pass
        return r
    if type(r) is not np.random.RandomState:
        return r
    if op == 'pickle':
        return pickle.loads(pickle.dumps(r))
    if op == 'deepcopy':
        return copy.deepcopy(r)
    if op == 'copy':
        return copy.copy(r)
    if op == 'transfer':
        s = r.get_state(legacy=False)
        if s['bit_generator'] != 'MT19937':
            return r
        other = np.random.RandomState(77)
        other.randn()
        other.set_state(s)
        return other
    if op == 'legacy':
        s = r.get_state(legacy=False)
        if s['bit_generator'] == 'MT19937':
            r.set_state(r.get_state())
        return r
    the_id(r)
    repr(whatareyou(r))
    return r


def run(history):
    bit, seed, ops = history
    r = start(bit, seed)
    for op in ops:
        r = apply(r, op)
    return r


def compute(history):
    return the_id(run(history))


def judge(case, ctx):
    one, two, draw = case
    a, b = run(one), run(two)
    before = state(a)
    i, j = the_id(a), the_id(b)
    ctx.check(state(a) == before, 'taking the id changed the state')
    ctx.check(i.startswith('A(r=%s(' % type(a).__name__), 'unexpected id %s', i)
    ctx.eq(the_id(a), i, 'the id of the same generator again')
    same = state(a) == state(b) and type(a).__name__ == type(b).__name__
    ctx.check((i == j) == same, 'the states are %s, but the ids are %s and %s', 'the same' if same else 'different', i, j)
    # draws are not affected by ids
    c = run((one[0], one[1], [o for o in one[2] if o != 'ids']))
    ctx.check(state(c) == before, 'asking for ids in the history changed the state')
    op = DRAWS[draw]
    x, y = eval(op, {'r': a}), eval(op, {'r': c})
    ctx.check(str(x) == str(y), 'asking for ids changed the next draw of %s: %s is not %s', op, x, y)
    after = the_id(a)
    ctx.check((after == i) == (state(a) == before), 'the id did not follow the state after %s', op)
    ctx.eq(after, the_id(c), 'ids after the same draw')
    ctx.defer((i, type(a).__name__ + repr(before)))
    ctx.interesting(one != two)
    ctx.label('same state' if same else 'different states', one[0], 'gauss cached' if before['has_gauss'] else 'no gauss cached')


def finish(pairs):
    bad, seen = [], {}
    for case, (i, key) in pairs:
        if seen.setdefault(i, key) != key:
            bad.append((case, 'the same id %s for the state of another case' % i))
    for results in child.run('c27', 'compute', [(case[0],) for case, _ in pairs], ('99',)):
        for (case, i), got in zip(pairs, results):
            i = i[0]
            if got != ('ok', i):
                bad.append((case, 'another process gives %r instead of %r' % (got[1], i)))
    return bad


TESTS = [Test('histories', gen, judge, quick=200, finish=finish)]
