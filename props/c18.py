import copy

from engine.core import Test
from engine.recorders import Model, Failure, BAD, with_tokens, extractor, live_pp, make, same_record

RULE = ('A case is a history of 2 to 14 adds (single or in batch, of ids new, repeated or known, with clashing columns, broken iterables and postprocessors that raise '
        'at a random record), with changes of defaults and postprocessors between them, on a recorder with random options; all queries are compared with a model '
        'after each one. Non-trivial: an add had to fail with records in the recorder.')
ASSUMPTIONS = ['postprocessors do not modify records already added', 'ids are strings, numbers (no booleans) and tuples']

STR_IDS = ['a', 'b', 'c', 'd', 'e', '', 'a b', '1', "it's", '\u00e9', 'None', 'A(x=1)', 'id']
NUM_IDS = [1, 2, 3, 0, -1, 2.5, 10 ** 12]
ODD_IDS = [('a', 1), ('b',), (), ('a', ('b', 2))]  # only in batches: alone they are batches
COLUMNS = ['x', 'y', 'z', 'a column', 'self_', 'func', 'name', 'args', 'keywords', 'class', 'age']
LITERALS = [0, 1, -5, 2.5, 'text', '', None, True, False, 1000, '<token>']


def gen_value(d, ids, extract_name):
    k = d.weighted([(5, 'v'), (5, 'list'), (1, 'tuple'), (2, 'gen'), (1, 'range'), (1, 'bytes'), (1, 'iterobj'), (1, 'getitem'), (1, 'map'), (4, 'dict')])
    if k == 'v':
        return ('v', d.choice(LITERALS))
    if k == 'dict':
        keys = d.sample(ids + ['zz'], 0, 4)
        if extract_name == 'str':
            keys = [str(x) for x in keys]
        elif extract_name == 'prefix':
            keys = ['id:%s' % (x,) for x in keys]
        elif extract_name == 'counter':
            keys = d.sample([1, 2, 3, 4, 5, 6], 0, 4)
        return ('dict', [(x, d.choice(LITERALS + [[1], {'k': 1}])) for x in dict.fromkeys(keys)])
    n = max(0, len(ids) + d.int(-1, 1)) if d.bool(0.8) else d.int(0, 4)
    if k in ('range', 'bytes'):
        return (k, list(range(n)))
    return (k, [d.choice(LITERALS + [('t', 1)]) for _ in range(n)])


def gen_pp(d, fail=True):
    k = d.weighted([(3, 'order'), (2, 'tag'), (1, 'copy'), (1, 'drop'), (1 if d.bool(0.3) else 0, 'empty'), (4 if fail else 0, 'fail')])
    if k == 'order':
        return (k, d.int(0, 9))
    if k in ('tag', 'drop'):
        return (k, d.choice(['x', 'y', 'tag']))
    if k == 'fail':
        return (k, d.int(0, 6), d.choice(BAD))
    return (k,)


def gen_pps(d, fail=True):
    pps = d.list(lambda: gen_pp(d, fail), 0, 2)
    return pps + pps[:1] if d.bool(0.15) else pps


def gen_ids(d, extract_name):
    pool = STR_IDS[:d.choice([4, 8, len(STR_IDS)])] + (NUM_IDS if d.bool(0.4) else [])
    if d.bool(0.35):
        return ('one', d.choice(pool))
    kind = d.weighted([(6, 'list'), (2, 'tuple'), (2, 'gen'), (1, 'keys'), (1, 'iterobj'), (1, 'map'), (1, 'broken')])
    ids = d.sample(pool + (ODD_IDS if d.bool(0.15) else []), 0, 4)
    if ids and kind != 'keys' and d.bool(0.12):
        ids.insert(d.int(0, len(ids)), d.choice(ids))
    return (kind, ids)


def gen(d):
    ext = d.weighted([(4, 'str'), (2, 'none'), (2, 'prefix'), (2, 'counter')])
    idcol = d.choice(['id', 'id', 'the id', 'x'])
    columns = [c for c in COLUMNS if c != idcol]
    defaults = {c: d.choice(LITERALS) for c in d.sample(columns[1:4] + ['name2', idcol], 0, 2)}
    pps = gen_pps(d)
    ops = []
    for _ in range(d.int(2, 14)):
        k = d.weighted([(14, 'add'), (1, 'defaults'), (1, 'undefault'), (1, 'pp'), (1, 'override')])
        if k == 'add':
            ids = gen_ids(d, ext)
            xs = [ids[1]] if ids[0] == 'one' else ids[1]
            cols = {c: gen_value(d, xs, ext) for c in d.sample(columns[:d.choice([3, len(columns)])], 0, 3)}
            if d.bool(0.08) and xs:
                cols[idcol] = d.choice([('v', 'clash'), ('list', list(range(len(xs))))])
            if xs and d.bool(0.06):
                cols['y'] = ('broken', [0] * d.int(0, max(0, len(xs) - 1)))
            ops.append((k, ids, cols, not d.bool(0.2), gen_pps(d) if d.bool(0.3) else None, d.bool(0.3)))
        elif k == 'defaults':
            ops.append((k, {c: d.choice(LITERALS) for c in d.sample(columns[:4], 0, 2)}))
        elif k == 'undefault':
            ops.append((k, d.sample(columns[:4], 0, 3)))
        else:
            ops.append((k, gen_pps(d)))
    return ext, idcol, defaults, pps, ops


def gen_large(d):
    """Batches of tens of records, with something wrong far from the start."""
    ext = d.weighted([(4, 'str'), (2, 'none'), (2, 'prefix')])
    defaults = {c: 1 for c in d.sample(COLUMNS[:3], 0, 1)}
    ops = []
    start = 0
    for _ in range(d.int(1, 3)):
        n = d.choice([5, 8, 9, 12, 16, 17, 20, 32, 33, 40, 64, 65, 100, 101, 128, 130, 257] + ([600, 1001, 1030, 2050] if d.bool(0.2) else []))
        names = ['n%d' % (start + i) for i in range(n)]
        wrong = d.choice([None, 'fail', 'fail', 'duplicate', 'broken', 'known'])
        at = n - 1 - d.int(0, min(4, n - 1)) if d.bool(0.7) else d.int(0, n - 1)
        pps, cols = None, {c: (d.choice(['list', 'gen', 'map', 'tuple']), list(range(n + d.int(-1, 1)))) for c in d.sample(['x', 'y'], 0, 2)}
        if wrong == 'fail':
            pps = [('tag', 'z'), ('fail', names[at], d.choice(BAD))]
        elif wrong == 'duplicate':
            names[at] = names[d.int(0, n - 1)]
        elif wrong == 'known' and start:
            names[at] = 'n%d' % d.int(0, start - 1)
        elif wrong == 'broken':
            cols['z'] = ('broken', [0] * at)
        ops.append(('add', (d.choice(['list', 'tuple', 'gen', 'iterobj']), names), cols, True, pps, False))
        start += n
    return ext, 'id', defaults, d.list(lambda: gen_pp(d, False), 0, 1), ops + [
        ('add', ('list', ['n%d' % i for i in range(start, start + 3)]), {c: ('v', 'new') for c in d.sample(['late', 'name'], 0, 2)}, True, None, False)]


def null(x):
    return x is None or x != x


def same_df(rec, records, ctx, when):
    df = rec.to_df()
    ctx.eq(list(df.index), [i for i, _ in records], when + ', rows of to_df')
    if records:
        ctx.eq(sorted(map(repr, df.columns)), sorted(map(repr, {c for _, r in records for c in r})), when + ', columns of to_df')
    for c in df.columns:
        for (i, r), got in zip(records, list(df[c])):
            exp = r.get(c)
            if isinstance(got, (list, dict, tuple)) or isinstance(exp, (list, dict, tuple)):
                ctx.check(type(got) is type(exp) and got == exp, '%s, to_df has %r for %r in %r, expected %r', when, got, c, i, exp)
            elif not (null(got) and null(exp)):
                ctx.check(not null(got) and not null(exp) and got == exp and isinstance(got, str) == isinstance(exp, str),
                          '%s, to_df has %r for %r in %r, expected %r', when, got, c, i, exp)


def judge(case, ctx):
    from whatami.registry import Recorder
    ext, idcol, defaults, pps, ops = with_tokens(case)
    live_ext, model_ext = extractor(ext)
    m = Model(idcol, model_ext, defaults, pps)
    init = dict(defaults)
    for name in (None, 3, ('id',)):
        ctx.raises(ValueError, lambda: Recorder(id_column_name=name), 'a recorder with id column %r' % (name,))
    given = chain = [live_pp(p) for p in pps]  # the list of the caller, also given to other recorders
    sibling = Recorder(record_postprocessors=chain)
    rec = Recorder(id_column_name=idcol, id_extractor=live_ext, record_postprocessors=chain or None, **init)
    sibling.add_record_postprocessors(len)
    ctx.eq(chain, [live_pp(p) for p in pps], 'the list of postprocessors given to the recorders')
    n_full = [0]
    snapshots = []  # (id, deep copy, live)

    def same(when, full):
        ctx.eq(len(rec), len(m.records), when + ', len')
        ids = [i for i, _ in m.records]
        got = rec.get(*ids)
        ctx.check(type(got) is list and len(got) == len(ids), '%s, get gives %r', when, got)
        got, taken = list(got), got
        del taken[:]  # what is returned belongs to the caller
        for (i, e), g, (_, snap, _) in zip(m.records, got, snapshots):
            ctx.check(same_record(g, snap, list(snap.values())), '%s, the record of %r changed from %r to %r', when, i, snap, g)
        if not full:
            return
        for i, e in m.records:
            one = rec[i]
            ctx.check(type(one) is list and len(one) == 1 and same_record(one[0], rec.get(i)[0], list(one[0].values())), '%s, [%r] gives %r', when, i, one)
        ctx.eq(rec.get('no such id'), [], when + ', get of an absent id')
        ctx.eq(len(rec.get(*(ids[::-1] + ['no such id'] + ids[:1]))), len(ids) + len(ids[:1]), when + ', get in another order')
        for g, (i, sn, _) in zip(rec.get(*(ids[::-1] + ['no such id'])), snapshots[::-1]):
            ctx.check(same_record(g, sn, list(sn.values())), '%s, get in another order gives %r for %r', when, g, i)
        snap = [(i, s) for i, s, _ in snapshots]
        for c in sorted({c for _, r in snap for c in r} | {'nowhere'}):
            vals = [r[c] for _, r in snap if c in r]
            try:
                exp = set(vals)
            except TypeError:
                continue
            u = rec.unique(c)
            ctx.check(isinstance(u, (set, frozenset)) and u == exp, '%s, unique(%r) is %r, expected %r', when, c, u, exp)
            if isinstance(u, set):
                u.add('<changed by the caller>')
                u = rec.unique(c)
                ctx.check(u == exp, '%s, unique(%r) is %r the second time, expected %r', when, c, u, exp)
        if all(not hasattr(v, '__next__') and type(v).__name__ not in ('IterObj', 'GetItem', 'range', 'bytes') for _, r in snap for v in r.values()):
            ctx.label('to_df')
            same_df(rec, snap, ctx, when)
            if n_full[0] % 3 == 0:
                df = rec.to_df()
                df['<changed by the caller>'] = 0
                same_df(rec, snap, ctx, when + ' and after changing the data frame')
            n_full[0] += 1

    for n, op in enumerate(ops):
        when = 'after operation %d' % n
        stop = False
        if op[0] == 'add':
            _, ids, cols, unbox, call_pps, override = op
            kwargs = {c: make(v) for c, v in cols.items()}
            originals = list(kwargs.values())
            if not unbox or n % 3 == 0:
                kwargs['unbox_iterables'] = unbox
            model_pps = None
            if call_pps is not None:
                model_pps = [m.pp(p) for p in call_pps]
                kwargs['record_postprocessors'] = [live_pp(p) for p in call_pps]
                kwargs['override_postprocessors'] = override
            before = list(m.records)
            try:
                exp = m.add(ids, cols, unbox, model_pps, override)
            except Failure as f:
                ctx.label('refused: %s' % f)
                ctx.interesting(bool(before))
                stop = ext == 'counter'  # how many times it was called is not specified
                m.records = before
                live_ids = make(ids)
                try:
                    r = rec.add(live_ids, **kwargs)
                except BaseException as e:
                    if isinstance(e, (MemoryError, RecursionError)):
                        raise
                    ctx.check(str(f) != 'duplicate' or not isinstance(e, TypeError), '%s, a repeated id was not refused but broke: %r', when, e)
                else:
                    ctx.fail('%s, add(%r, %r) gives %r instead of failing because of a %s' % (when, ids, cols, r, f))
            else:
                got = rec.add(make(ids), **kwargs) if n % 2 else rec.add(ids=make(ids), **kwargs)
                ctx.eq(list(got), [i for i, _ in exp], when + ', ids returned by add')
                for i, e in exp:
                    ctx.check(type(i) is type([k for k in got if k == i][0]), '%s, type of id %r', when, i)
                    ctx.check(same_record(got[i], e, originals), '%s, add(%r, %r) made %r, expected %r', when, ids, cols, got[i], e)
                    snapshots.append((i, copy.copy(got[i]), got[i]))
                    stored = rec.get(i)
                    ctx.check(len(stored) == 1 and same_record(stored[0], got[i], list(got[i].values())), '%s, stored %r, returned %r', when, stored, got[i])
                ctx.label('added %s' % ('none' if not exp else 'one' if len(exp) == 1 else 'several'))
        elif op[0] == 'defaults':
            rec.add_column_defaults(**op[1])
            m.defaults.update(op[1])
        elif op[0] == 'undefault':
            rec.remove_column_defaults(*op[1])
            for c in op[1]:
                m.defaults.pop(c, None)
        elif op[0] == 'pp':
            rec.add_record_postprocessors(*[live_pp(p) for p in op[1]])
            m.pps = m.pps + [m.pp(p) for p in op[1]]
        else:
            rec.override_record_postprocessors(*[live_pp(p) for p in op[1]])
            m.pps = [m.pp(p) for p in op[1]]
        ctx.eq(rec.column_defaults, m.defaults, when + ', defaults')
        chain = rec.record_postprocessors()
        ctx.eq(list(chain), [live_pp(p) for p in m.pps], when + ', postprocessors')
        rec.column_defaults['leaked'] = 1  # these are copies
        if isinstance(chain, list):
            chain.append(None)
        same(when, stop or n == len(ops) - 1 or n % 4 == 3)
        if stop:
            break
    ctx.eq(init, defaults, 'the defaults given')
    ctx.eq(given, [live_pp(p) for p in pps], 'the postprocessors given')
    ctx.eq(list(sibling.record_postprocessors()), [live_pp(p) for p in pps] + [len], 'the postprocessors of another recorder')
    ctx.eq(len(sibling), 0, 'the length of another recorder')


# --- Postprocessors that add records themselves

def gen_adding(d):
    ids = ['a', 'b', 'c', 'd', 'e', 'f']
    ops = []
    for _ in range(d.int(1, 4)):
        batch = d.sample(ids, 1, 3)
        adds = [(t, d.sample(ids + ['parent'], 1, 2)) for t in d.sample(batch, 0, 2)]
        ops.append((batch, adds, d.bool(0.4)))
    return ops, d.choice(['call', 'recorder'])


def judge_adding(case, ctx):
    from whatami.registry import Recorder
    ops, where = case
    rec = Recorder()
    records = []  # (id, record)
    for n, (batch, adds, careful) in enumerate(ops):
        def pp(an_id, record, recorder):
            for other in dict(adds).get(an_id, ()):
                try:
                    recorder.add(other, record_postprocessors=[], override_postprocessors=True, of=an_id, n=n)
                except Exception:
                    if not careful:
                        raise
            return record
        fails = False
        out = []
        for an_id in batch:
            if an_id in dict(records):
                fails = True
                break
            for other in dict(adds).get(an_id, ()):
                if other not in dict(records):
                    records.append((other, {'id': other, 'of': an_id, 'n': n}))
                elif not careful:
                    fails = True
                    break
            if fails:
                break
            out.append((an_id, {'id': an_id, 'x': n}))
        if any(an_id in dict(records) for an_id, _ in out):
            ctx.interesting(True)
            ctx.label('the record is there when its own add commits')
            fails = True
        if where == 'recorder':
            rec.override_record_postprocessors(pp)
            kwargs = {}
        else:
            kwargs = {'record_postprocessors': [pp]}
        if fails:
            ctx.raises(Exception, lambda: rec.add(batch, x=n, **kwargs), 'add number %d' % n)
        else:
            ctx.eq(list(rec.add(batch, x=n, **kwargs).items()), out, 'returned by add number %d' % n)
            records += out
        ctx.eq(rec.get(*[i for i, _ in records]), [r for _, r in records], 'records after add number %d' % n)
        ctx.eq(len(rec), len(records), 'len after add number %d' % n)
        ctx.eq(list(rec.to_df().index), [i for i, _ in records], 'rows of to_df after add number %d' % n)


A = lambda ids, cols={}, unbox=True, pps=None, over=False: ('add', ids, cols, unbox, pps, over)
EX = [('str', 'id', {'y': 1}, [('order', 1)], [A(('list', ['a', 'b']), {'x': ('list', [1])}), A(('list', ['c', 'a'])), A(('list', ['c', 'c'])), A(('list', ['d', 'e']), {'id': ('v', 1)}),
                                               A(('list', ['c', 'd', 'e']), {}, True, [('fail', 3, 'TypeError'), ('fail', 4, 'TypeError'), ('fail', 0, 'TypeError')]), A(('list', ['c', 'd', 'e']), {}, True, [('fail', n, 'KeyError') for n in range(7)], True),
                                               ('defaults', {'z': 3}), A(('gen', ['c', 'd']), {'x': ('gen', [1, 2])}), ('override', []), A(('one', 5))])]
EX_ADDING = [([(['a', 'b'], [('b', ['a'])], False), (['c'], [('c', ['c'])], True), (['d'], [('d', ['parent'])], False)], w) for w in ('call', 'recorder')]
TESTS = [Test('histories', gen, judge, quick=1000, examples=EX), Test('large', gen_large, judge, quick=60),
         Test('adding', gen_adding, judge_adding, quick=400, examples=EX_ADDING)]
