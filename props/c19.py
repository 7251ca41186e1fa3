from functools import partial

from engine.core import Test
from engine.recorders import Model, Failure, extractor, live_pp, with_tokens, make, same_record, elements
from props.c18 import gen_value, gen_pps, COLUMNS, STR_IDS, NUM_IDS, ODD_IDS, LITERALS

RULE = ('A case is the options of a recorder and 1 to 4 additions; the arguments of each are given at once or split at random over up to three frozen calls '
        '(curried add, padd or functools.partial, possibly refining frozen values, with defaults changing in between) on a Recorder or one of three subclasses. '
        'Non-trivial: arguments were split, or a column is not a scalar.')
ASSUMPTIONS = ['no column is named as a parameter of add or self', 'ids are strings, numbers (no booleans) and tuples', 'one-shot iterators are frozen for one addition only']


def gen(d):
    ext = d.weighted([(4, 'str'), (2, 'none'), (2, 'prefix'), (2, 'counter')])
    idcol = d.choice(['id', 'id', 'the id', 'x'])
    columns = [c for c in COLUMNS if c != idcol]
    defaults = {c: d.choice(LITERALS) for c in d.sample(columns[1:4] + [idcol], 0, 2)}
    pps = gen_pps(d, False)
    pool = STR_IDS + NUM_IDS
    seen = []
    adds = []
    for _ in range(d.int(1, 4)):
        free = [x for x in pool if str(x) not in map(str, seen)]
        kind = d.weighted([(4, 'one'), (6, 'list'), (2, 'tuple'), (2, 'gen'), (1, 'keys'), (1, 'iterobj'), (1, 'map'), (1, 'getitem')])
        ids = d.sample(free, 1, 1) if kind == 'one' else d.sample(free + ([x for x in ODD_IDS if str(x) not in map(str, seen)] if d.bool(0.15) else []), 0, 4)
        # '1' and 1 have the same name
        ids = [x for i, x in enumerate(ids) if str(x) not in [str(y) for y in ids[:i]]]
        seen += ids
        cols = {c: gen_value(d, ids, ext) for c in d.sample(columns[:d.choice([4, len(columns)])], 0, 4)}
        unbox = not d.bool(0.25)
        call_pps = gen_pps(d, False) if d.bool(0.3) else None
        override = d.bool(0.4)
        # how each argument is given: 0 at the end, 1.. in a frozen stage
        stages = [d.weighted([(3, 'curry'), (2, 'padd'), (1, 'partial')]) for _ in range(d.weighted([(2, 0), (3, 1), (2, 2), (1, 3)]))]
        where = {k: d.int(0, len(stages)) for k in list(cols) + ['#unbox', '#pps', '#override']}
        refined = {c: d.choice(LITERALS) for c in cols if where[c] != 1 and stages and d.bool(0.2)}  # an earlier value, to be replaced
        change = {c: d.choice(LITERALS) for c in d.sample(columns[:4], 0, 2)} if d.bool(0.3) else None
        undo = d.sample(columns[:4], 0, 2) if d.bool(0.2) else None
        newpps = (d.bool(0.5), gen_pps(d, False)) if d.bool(0.2) else None
        adds.append(((kind, ids[0] if kind == 'one' else ids), cols, unbox, call_pps, override, stages, where, refined, change, undo, newpps, d.bool(0.4)))
    return ext, idcol, defaults, pps, d.choice(['Recorder', 'Recorder', 'required', 'override', 'sub']), adds


def classes():
    from whatami.registry import Recorder

    class Plain(Recorder):
        pass

    class Required(Recorder):
        def add(self, ids, y='the y', **columns):
            return super(Required, self).add(ids, y=y, **columns)

    class Override(Required):
        """Adds a column computed from others."""

        def add(self, ids, **columns):
            return super(Override, self).add(ids, made=1000, **columns)
    return {'Recorder': Recorder, 'sub': Plain, 'required': Required, 'override': Override}


def judge(case, ctx):
    ext, idcol, defaults, pps, cls, adds = with_tokens(case)
    live_ext, model_ext = extractor(ext)
    m = Model(idcol, model_ext, defaults, pps)
    rec = classes()[cls](id_column_name=idcol, id_extractor=live_ext, record_postprocessors=[live_pp(p) for p in pps] or None, **dict(defaults))
    ctx.label('class ' + cls, 'extractor ' + ext)
    for n, (ids, cols, unbox, call_pps, override, stages, where, refined, change, undo, newpps, positional) in enumerate(adds):
        when = 'addition %d' % n
        args = {c: make(v) for c, v in cols.items()}
        originals = list(args.values())
        steps = [dict() for _ in range(len(stages) + 1)]  # the last one has the ids

        def put(key, name, value):
            steps[(where[key] - 1) % len(steps)][name] = value
        for c, v in args.items():
            put(c, c, v)
        if not unbox or positional:
            put('#unbox', 'unbox_iterables', unbox)
        if call_pps is not None:
            put('#pps', 'record_postprocessors', tuple(live_pp(p) for p in call_pps) if positional else [live_pp(p) for p in call_pps])
        if call_pps is not None or positional:
            put('#override', 'override_postprocessors', override)
        for c, v in refined.items():
            if stages and c not in steps[0]:
                steps[0][c] = v
                ctx.label('refined')
        f = rec.add
        frozen = []
        for how, kwargs in zip(stages, steps):
            ctx.label('frozen by ' + how)
            if how == 'curry' and f is rec.add or how == 'curry' and kwargs:
                g = f(**kwargs)
            elif how == 'padd':
                g = rec.padd(**kwargs) if f == rec.add or f is rec.add else rec.padd(add=f, **kwargs)
            else:
                g = partial(f, **kwargs)
            # refining must not change what it is made from
            if how == 'curry' and not callable(g):
                ctx.fail('%s: freezing %r gives %r' % (when, sorted(kwargs), g))
            f = g
            frozen.append(f)
        if stages:
            ctx.eq(len(rec), len(m.records), when + ', records after freezing')
        if change is not None:
            rec.add_column_defaults(**change)
            m.defaults.update(change)
            ctx.label('defaults changed after freezing')
        if undo is not None:
            rec.remove_column_defaults(*undo)
            for c in undo:
                m.defaults.pop(c, None)
        if newpps is not None:
            (rec.override_record_postprocessors if newpps[0] else rec.add_record_postprocessors)(*[live_pp(p) for p in newpps[1]])
            m.pps = [m.pp(p) for p in newpps[1]] if newpps[0] else m.pps + [m.pp(p) for p in newpps[1]]
        kwargs = steps[-1]
        live_ids = make(ids)
        if positional and not stages and cls in ('Recorder', 'sub'):
            got = f(live_ids, kwargs.pop('unbox_iterables'), kwargs.pop('record_postprocessors', None), kwargs.pop('override_postprocessors', False), **kwargs)
        else:
            got = f(live_ids, **kwargs) if n % 2 else f(ids=live_ids, **kwargs)
        model_cols = dict(cols)
        if cls in ('required', 'override'):
            model_cols.setdefault('y', ('v', 'the y'))
        if cls == 'override':
            model_cols['made'] = ('v', 1000)
        if idcol in model_cols:
            return
        exp = m.add(ids, model_cols, unbox, None if call_pps is None else [m.pp(p) for p in call_pps], override)
        ctx.eq(list(got), [i for i, _ in exp], when + ', ids')
        for i, e in exp:
            ctx.check(same_record(got[i], e, originals), '%s, add(%r, %r, unbox=%r) made %r, expected %r', when, ids, model_cols, unbox, got[i], e)
            ctx.check(same_record(rec.get(i)[0], got[i], list(got[i].values())), '%s, stored %r, returned %r', when, rec.get(i), got[i])
        ctx.eq(len(rec), len(m.records), when + ', number of records')
        ctx.eq(rec.column_defaults, m.defaults, when + ', defaults')
        rec.column_defaults['leaked'] = 1  # a copy
        chain = rec.record_postprocessors()
        ctx.eq(list(chain), [live_pp(p) for p in m.pps], when + ', postprocessors')
        if isinstance(chain, list):
            chain.append(None)
        # every frozen function can be used again, with what was frozen in it and nothing else
        for k, g in enumerate(frozen):
            if all(v[0] in ('v', 'list', 'tuple', 'dict', 'range', 'bytes', 'iterobj', 'getitem') for v in cols.values()) and ext != 'counter':
                again = 'again %d %d' % (n, k)
                known, opts = {}, {}
                for step in steps[:k + 1]:
                    for name, value in step.items():
                        if name in ('unbox_iterables', 'record_postprocessors', 'override_postprocessors'):
                            opts[name] = value
                        else:
                            known[name] = cols[name] if name in args and value is args[name] else ('v', value)
                if cls in ('required', 'override'):
                    known.setdefault('y', ('v', 'the y'))
                if cls == 'override':
                    known['made'] = ('v', 1000)
                got = g(again)
                exp = m.add(('one', again), known, opts.get('unbox_iterables', True),
                            [m.pp(p) for p in call_pps] if 'record_postprocessors' in opts else None, opts.get('override_postprocessors', False))
                ctx.label('frozen used again')
                ctx.check(len(got) == 1 and list(got) == [exp[0][0]] and same_record(got[exp[0][0]], exp[0][1], originals), '%s, frozen call %d used again made %r, expected %r',
                          when, k, got, exp)
        ctx.interesting(bool(stages) or any(v[0] != 'v' for v in cols.values()))
        for v in cols.values():
            ctx.label('column ' + v[0] + ('' if unbox or v[0] in ('v', 'dict') else ' verbatim'))


EX = []
for _stages in ([], ['curry'], ['padd'], ['partial'], ['curry', 'padd'], ['curry', 'curry', 'curry']):
    for _unbox in (True, False):
        _cols = {'y': ('list', [1, 2, 3]), 'z': ('dict', [('a', 7)]), 'age': ('v', 'text'), 'func': ('gen', [1])}
        _where = {'y': 1, 'z': 2, 'age': 0, 'func': 1, '#unbox': 1, '#pps': 1, '#override': 0}
        EX.append(('str', 'id', {'z': 0, 'x': 'd'}, [('order', 1)], 'required',
                   [(('list', ['a', 'b']), _cols, _unbox, [('order', 2)], False, _stages, _where, {'age': 'old'} if _stages else {}, {'x': 'new'}, None, None, False),
                    (('one', 'c'), _cols, _unbox, [('order', 2)], True, _stages, _where, {}, None, ['z'], None, True)]))
TESTS = [Test('additions', gen, judge, quick=1800, examples=EX)]
