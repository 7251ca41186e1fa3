"""Everything but the support of numpy, pandas and scikit-learn objects works, and works the same, where these libraries are not installed."""
import os
import warnings

from engine import child, objects, recorders, ref, texts, values
from engine.core import Test
from engine.values import Options
from props import c26

RULE = ('A case is a configuration, an object, a text, a value to hash, a history of a recorder or a list of ids to use, computed with all the libraries and then in '
        'processes where none, one or several of numpy, pandas and scikit-learn can be imported. Non-trivial: the result is not a failure.')
ASSUMPTIONS = ['a missing library is one whose import raises ImportError', 'objects made by these libraries are not in the domain, as they cannot exist without them']

BLOCKED = ('pandas', 'numpy', 'sklearn', 'pandas,sklearn', 'numpy,pandas,sklearn')


# --- what is computed everywhere

def compute(case):
    kind = case[0]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return globals()['compute_' + kind](*case[1:])


def attempt(f):
    try:
        return f()
    except Exception as e:
        return 'raised %s' % type(e).__name__


def compute_what(spec):
    from whatami import id2what, what2id
    w = values.build(spec)
    out = [attempt(lambda: w.id()), attempt(lambda: w.id(nonids_too=True)), attempt(lambda: w.id(maxlength=20)), attempt(lambda: type(repr(w)).__name__), attempt(lambda: str(w)),
           attempt(lambda: what2id(w)), attempt(lambda: id2what(w.id()).id()), attempt(lambda: w.copy() == w), attempt(lambda: sorted(map(str, w.keys()))),
           attempt(lambda: [(len(k), type(v).__name__) for k, v in zip(*w.flatten())])]
    return out


def compute_object(spec):
    """Whatever what() or whatareyou accept."""
    from whatami import what2id, whatareyou, whatable, What, obj2what
    v = values.build(spec)
    return [attempt(lambda: what2id(v)), attempt(lambda: obj2what(v).id()), attempt(lambda: whatareyou(v).id()), attempt(lambda: whatable(v).what().id()), attempt(lambda: What('A', {'x': v}).id()),
            attempt(lambda: What('A', {'x': [v, {1: v}]}, ('y',)).id(nonids_too=True))]


def compute_text(text):
    from whatami import id2what, id2dict
    return [attempt(lambda: id2what(text).id(nonids_too=True)), attempt(lambda: repr(sorted(map(repr, id2dict(text).items()))))]


def compute_hash(spec, name):
    from whatami.minijoblib.hashing import hasher
    return hasher(c26.build(spec), name)


def compute_record(idcol, defaults, adds):
    from whatami.registry import Recorder
    r = Recorder(id_column_name=idcol, **dict(defaults))
    out = []
    for ids, columns, unbox in adds:
        out.append(attempt(lambda: r.add(recorders.make(ids), unbox_iterables=unbox, **{k: recorders.make(v) for k, v in columns}) is not None))
        out.append([attempt(lambda: repr(sorted(x.items()))) for x in r.get()])
        out.append([attempt(lambda: sorted(map(repr, r.unique(c)))) for c in ('a', 'c', idcol)])
        out.append((len(r), attempt(lambda: r['a'] is r.get('a'))))
    try:
        df = r.to_df()
    except ImportError as e:
        out.append(('no pandas', 'pandas' in str(e)))
    else:
        out.append((len(df), sorted(df.columns)))
    return out


def compute_ids(ids, keys, template):
    from whatami.whatutils import sort_whatids, match_whatids
    return [attempt(lambda: list(map(str, sort_whatids(ids, *keys)[0]))), attempt(lambda: [str(x) for x in match_whatids(ids, template, keys)])]


def compute_nick(pairs):
    from whatami.registry import WhatamiRegistry
    r = WhatamiRegistry()
    return [attempt(lambda: type(r.register(i, n)).__name__) for i, n in pairs] + [attempt(lambda: r.id2nick(i)) for i, _ in pairs] + [attempt(lambda: r.nick2id(n)) for _, n in pairs]


def compute_libs():
    from whatami import maybe_import, plugins

    def missing(name):
        try:
            return bool(maybe_import(name, 'pip').__name__ != name)
        except ImportError as e:
            return 'pip install ' + name in str(e)
    return [plugins.has_numpy(), plugins.has_pandas(), missing('numpy'), missing('pandas'), missing('sklearn')]


# --- generation

def clean(spec):
    """Without objects of the libraries."""
    if isinstance(spec, (list, tuple)):
        if len(spec) == 3 and spec[0] == 'np' and isinstance(spec[1], str):
            return ('i', spec[2]) if isinstance(spec[2], int) else ('s', str(spec[2]))
        return type(spec)(clean(x) for x in spec)
    return spec


def gen(d):
    k = d.weighted([(8, 'what'), (8, 'object'), (3, 'text'), (5, 'hash'), (3, 'record'), (2, 'ids'), (1, 'nick'), (1, 'libs')])
    o = Options(depth=d.int(1, 3))
    if k == 'what':
        return ('what', values.gen_what(d, o, top=True) if d.bool(0.4) else ('w', 'A', [('a', clean(objects.gen_mixed(d, o))), ('b', values.gen_value(d, o, 1))], None, d.choice([[], ['b']])))
    if k == 'object':
        return ('object', clean(objects.gen_mixed(d, o, d.choice([0, 0, 0, 1]))))
    if k == 'text':
        text = ref.render(values.gen_what(d, o, top=True))
        return ('text', texts.soup(d) if d.bool(0.1) else texts.edit_text(d, text) if d.bool(0.3) else text)
    if k == 'hash':
        return ('hash', no_arrays(c26.gen_value(d, d.int(1, 3), top=True)), d.choice(['md5', 'md5', 'sha1']))
    if k == 'record':
        ids = lambda: d.choice([('one', d.choice('abc')), ('list', d.sample('abcdef', 0, 4)), ('gen', d.sample('abcdef', 0, 3))])
        unbox = d.bool(0.8)
        value = lambda: d.choice([('v', d.int(0, 5)), ('v', 'text'), ('v', None), ('list', [1, 'x', 2.5]), ('tuple', [1, 2]), ('dict', [('a', 1), ('b', 'x')]), ('map', [1, 2, 3]) if unbox else ('range', [0, 0])])
        return ('record', d.choice(['id', 'name']), [('c', 0)] if d.bool() else [],
                d.list(lambda: (ids(), [(c, value()) for c in d.sample(['a', 'b', 'c', 'id'], 0, 3)], unbox), 1, 4))
    if k == 'ids':
        o = Options(depth=1, members=2, what_members=3, what_names=['A', 'B'], names=['a', 'b', 'c'])
        ids = d.list(lambda: 'A(a=%d,b=%s,c=%s)' % (d.int(0, 2), d.choice(['1', "'x'", '[1,2]']), ref.render(values.gen_value(d, o))), 1, 5)
        return ('ids', ids, d.sample(['a', 'b', 'c'], 0, 2), d.choice(ids))
    if k == 'nick':
        return ('nick', [('A(x=%d)' % d.int(0, 3), d.choice('pqr')) for _ in range(d.int(1, 4))])
    return ('libs',)


def no_arrays(spec):
    if isinstance(spec, (list, tuple)):
        if spec and spec[0] == 'a' and isinstance(spec, tuple) and len(spec) == 7:
            return ('s', 'array')
        return type(spec)(no_arrays(x) for x in spec)
    return spec


def judge(case, ctx):
    result = compute(case)
    if case[0] == 'libs':
        ctx.eq(result, [True, True, False, False, False], 'what is installed')
    ctx.defer(result)
    ctx.interesting(case[0] == 'libs' or not str(result[0]).startswith('raised'))
    ctx.label(case[0])


def expected(case, result, blocked):
    if case[0] == 'libs':
        gone = set(blocked.split(','))
        gone |= {'pandas', 'sklearn'} if 'numpy' in gone else set()  # they need numpy
        return ['numpy' not in gone, 'pandas' not in gone, 'numpy' in gone, 'pandas' in gone, 'sklearn' in gone]
    if case[0] == 'record' and ('pandas' in blocked or 'numpy' in blocked):
        return result[:-1] + [('no pandas', True)]
    return result


def finish(pairs):
    bad = []
    runs = child.run('c33', 'compute', [(case,) * len(BLOCKED) for case, _ in pairs], ['7'] * len(BLOCKED), [{'VERIF_BLOCKED': b} for b in BLOCKED])
    for blocked, results in zip(BLOCKED, runs):
        for (case, result), got in zip(pairs, results):
            e = ('ok', expected(case, result, blocked))
            if got != e:
                bad.append((case, 'without %s: %r instead of %r' % (blocked.replace(',', ', '), got[1], e[1])))
    return bad


EXAMPLES = [('libs',), ('object', ('i', 1)), ('object', ('nt', 'complex', '(1+2j)')), ('record', 'id', [], [(('one', 'a'), [('a', ('v', 1))], True)])]
TESTS = [Test('missing', gen, judge, quick=900, examples=EXAMPLES, finish=finish)]
