import json
import os
import sys
import warnings
from engine.core import Test, Discard
from engine import values, ref, fixtures
from engine.values import Options, gen_name

RULE = ('A case is a scikit-learn estimator, kernel or splitter, or a user-defined subclass, with random parameters, estimators nested in any of them, and one change. '
        'Non-trivial: some parameter is not the default.')
ASSUMPTIONS = ['the declarations of irrelevant parameters and short names at the pinned commit (engine/sklearn_table.json)', 'parameters with a fixed value: not generators without a seed']

TABLE = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine', 'sklearn_table.json')))
CLASSES = sorted(k for k in TABLE if not k.startswith('_') and k not in ('BaseEstimator', 'SparseCoder'))  # SparseCoder does not keep its dictionary
SPECIAL = ['function', 'array', 'RandomState', 'float64', 'partial', 'lambda']
O = Options(depth=2)


def lit(v):
    return ('v', values.to_spec(v))


def est(name, *params):
    return ('e', name, list(params), None)


REQUIRED = {
    'ColumnTransformer': lambda g: [('transformers', ('t', g, ['a', 'cols']))],
    'VotingClassifier': lambda g: [('estimators', ('t', g, ['a', None]))],
    'SelectFromModel': lambda g: [('estimator', g())], 'RFE': lambda g: [('estimator', g())], 'RFECV': lambda g: [('estimator', g())],
    'CompoundKernel': lambda g: [('kernels', ('k', [g('kernel'), g('kernel')]))], 'Exponentiation': lambda g: [('kernel', g('kernel')), ('exponent', lit(2))],
    'Product': lambda g: [('k1', g('kernel')), ('k2', g('kernel'))], 'Sum': lambda g: [('k1', g('kernel')), ('k2', g('kernel'))],
    'GridSearchCV': lambda g: [('estimator', g()), ('param_grid', lit({'C': [1, 2]}))], 'RandomizedSearchCV': lambda g: [('estimator', g()), ('param_distributions', lit({'C': [1, 2]}))],
    'LeavePGroupsOut': lambda g: [('n_groups', lit(2))], 'LeavePOut': lambda g: [('p', lit(2))], 'PredefinedSplit': lambda g: [('test_fold', lit([0, 1, 1, -1]))],
    'OneVsOneClassifier': lambda g: [('estimator', g())], 'OneVsRestClassifier': lambda g: [('estimator', g())], 'OutputCodeClassifier': lambda g: [('estimator', g())],
    'ClassifierChain': lambda g: [('base_estimator', g())], 'MultiOutputClassifier': lambda g: [('estimator', g())], 'MultiOutputRegressor': lambda g: [('estimator', g())],
    'RegressorChain': lambda g: [('base_estimator', g())], 'FeatureUnion': lambda g: [('transformer_list', ('t', g, ['a', None]))], 'Pipeline': lambda g: [('steps', ('t', g, ['a', None]))]}
COMPOUND = [n for n in sorted(REQUIRED) if n in CLASSES and TABLE[n][1] == 'estimator']
TRANSFORMERS = ['StandardScaler', 'MinMaxScaler', 'PCA', 'Normalizer', 'TruncatedSVD', 'SelectKBest', 'VarianceThreshold', 'CountVectorizer', 'NMF', 'FastICA', 'Binarizer', 'PolynomialFeatures', 'OneHotEncoder',
                'KBinsDiscretizer', 'QuantileTransformer', 'LinearDiscriminantAnalysis', 'KMeans', 'RandomTreesEmbedding', 'Isomap', 'FunctionTransformer']
_params = {}


def load(name):
    import importlib
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return getattr(importlib.import_module(TABLE[name][0]), name)


def setup():
    if 'done' not in _params:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import logging
            import sklearn
            assert sklearn
            warnings.simplefilter('ignore')  # over the filters of sklearn
            logging.getLogger('whatami.wrappers').setLevel(logging.ERROR)
            from whatami.wrappers.what_sklearn import whatamize_sklearn
            whatamize_sklearn()
        _params['done'] = True


def param_names(name):
    """The parameters that can be set."""
    if name not in _params:
        setup()
        x = make(('e', name, fill(None, name), None))
        _params[name] = sorted(x.get_params(deep=False)) if hasattr(x, 'get_params') else [k for k in sorted(x.__dict__) if k not in ('cv', 'cvargs')]
    return _params[name]


def fill(d, name, depth=0):
    if name not in REQUIRED:
        return []

    def g(kind='estimator'):
        if d is None:
            return est({'estimator': 'LinearRegression', 'kernel': 'RBF', 'transformer': 'StandardScaler'}[kind])
        return gen_est(d, depth - 1, kind)
    out = []
    for k, v in REQUIRED[name](g):
        if v[0] == 't':
            n = 1 if d is None else d.int(0 if name != 'Pipeline' else 1, 3)
            names = ['a', 'b', 'a_b', 'A'] if d is None else d.shuffle(['a', 'b', 'clf', 'x1', 'A'])
            v = ('steps', [(names[i], g('transformer'), v[2][1]) for i in range(n)])
        out.append((k, v))
    return out


def gen_est(d, depth, kind='estimator'):
    if kind == 'transformer' and d.bool(0.7):
        name = d.choice(TRANSFORMERS)
    elif kind in ('estimator', 'transformer') and depth > 0 and d.bool(0.5):
        name = d.choice(COMPOUND)
    elif kind == 'kernel':
        name = d.choice([n for n in CLASSES if TABLE[n][1] == 'kernel' and (depth > 0 or n not in REQUIRED)])
    else:
        name = d.choice([n for n in CLASSES if (kind == 'any' or TABLE[n][1] == ('splitter' if kind == 'splitter' else 'estimator')) and (depth > 0 or n not in REQUIRED or n == 'LeavePOut')])
    params = fill(d, name, depth)
    given = set(k for k, _ in params)
    irrelevant = [k for k in TABLE[name][3] if k in param_names(name)]
    for k in d.sample([k for k in param_names(name) if k not in given], 0, 4):
        params.append((k, gen_param(d, depth, k)))
    for k in irrelevant:
        if k not in dict(params) and d.bool(0.3):
            params.append((k, gen_param(d, depth, k)))
    return ('e', name, params, d.weighted([(7, None), (1, 'inherit'), (1, 'extra'), (1, 'namesake'), (1, 'shadow')]) if TABLE[name][1] == 'estimator' else d.weighted([(8, None), (1, 'inherit'), (1, 'shadow')]))


def gen_param(d, depth, k):
    if depth > 0 and d.bool(0.3):
        return gen_est(d, depth - 1, 'any')
    if d.bool(0.1):
        return ('x', d.choice(SPECIAL))
    return ('v', values.gen_value(d, O, d.int(0, 2)))


def gen(d):
    setup()
    x = gen_est(d, d.int(0, 2), d.weighted([(6, 'any'), (2, 'splitter'), (2, 'kernel')]))
    return x, d.choice(['irrelevant', 'relevant', 'relevant', 'nested', 'sub']), d.draw(50), gen_param(d, 0, 'x'), d.bool(0.1)


# --- Live objects

def own_keys(name, how):
    """The parameters of a class of the user; a namesake has the name of a class of sklearn, and parameters that are irrelevant for that one."""
    keys = ['alpha', 'beta', 'n_jobs', 'what_is']
    return keys if how == 'extra' else (TABLE[name][3] + [k for k in keys if k not in TABLE[name][3]])[:4]


def subclass(cls, how):
    if how == 'inherit':
        return type('Mine' + cls.__name__, (cls,), {})
    if how == 'shadow':  # a class of the user with the name of the one it inherits from
        return type(cls.__name__, (cls,), {})
    ns = {}
    from sklearn.base import BaseEstimator
    keys = own_keys(cls.__name__, how)
    exec('def __init__(self, %s=1, %s="x", %s=None, %s=None):\n    %s = %s\n' % (tuple(keys) + (', '.join('self.' + k for k in keys), ', '.join(keys))), ns)
    return type('Own' + cls.__name__ if how == 'extra' else cls.__name__, (BaseEstimator,), {'__init__': ns['__init__']})


def special(name):
    import functools
    import numpy as np
    return {'function': lambda: fixtures.function_a, 'array': lambda: np.array([[1., 2.], [3., 4.]]), 'RandomState': lambda: np.random.RandomState(0), 'float64': lambda: np.float64(1.5),
            'partial': lambda: functools.partial(fixtures.function_a, x=3), 'lambda': lambda: LAMBDA}[name]()


LAMBDA = lambda y=2: y


def make_value(v):
    if v[0] == 'v':
        return values.build(v[1])
    if v[0] == 'x':
        return special(v[1])
    if v[0] == 'steps':
        return [(n, make(e)) if more is None else (n, make(e), [0]) for n, e, more in v[1]]
    if v[0] == 'k':
        return [make(e) for e in v[1]]
    return make(v)


def make(spec):
    _, name, params, sub = spec
    setup()
    cls = load(name)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if sub in ('extra', 'namesake'):
            x = subclass(cls, sub)()
            for i, (k, v) in enumerate(params):
                setattr(x, own_keys(name, sub)[i % 4], make_value(v))
            return x
        if sub in ('inherit', 'shadow'):
            cls = subclass(cls, sub)
        first = dict(REQUIRED[name](lambda kind=0: None)) if name in REQUIRED else {}
        live = [(k, make_value(v)) for k, v in params]
        steps = [k for k, v in params if v[0] == 'steps']  # these are validated
        x = cls(**dict((k, v if k not in steps else [('a', load('StandardScaler')())]) for k, v in live if k in first))
        for k, v in live:
            setattr(x, k, v)
        return x


# --- The model

def expected_params(spec, x):
    """{parameter: text}, from the spec for what was set and from the object for defaults."""
    from whatami.plugins import WhatamiPluginManager
    _, name, params, sub = spec
    if sub in ('extra', 'namesake'):
        keys = own_keys(name, sub)
        params = [(keys[i % 4], v) for i, (k, v) in enumerate(params)]
    else:
        keys = param_names(name) + (['cv', 'cvargs'] if name.startswith('Repeated') else [])
    out = {}
    params = dict(params)
    for k in keys:
        if k in params:
            out[k] = text(params[k])
        else:
            v = getattr(x, k)
            out[k] = WhatamiPluginManager.build_string(v)
    return out


def text(v):
    from whatami.plugins import WhatamiPluginManager
    if v[0] == 'v':
        return ref.render(v[1])
    if v[0] == 'x':
        return WhatamiPluginManager.build_string(special(v[1]))
    if v[0] == 'steps':
        return '[%s]' % ','.join("(%s)" % ','.join([ref.render(('s', n)), model(e)] + ([] if more is None else ['[0]'])) for n, e, more in v[1])
    if v[0] == 'k':
        return '[%s]' % ','.join(model(e) for e in v[1])
    return model(v)


def declared(spec):
    _, name, _, sub = spec
    if sub == 'inherit':
        return 'Mine' + name, []
    if sub == 'extra':
        return 'Own' + name, []
    if sub in ('namesake', 'shadow'):
        return name, []
    return TABLE[name][2], TABLE[name][3]


def model(spec, all_params=False, use_short=True):
    name, irrelevant = declared(spec)
    if not use_short and spec[3] is None:
        name = spec[1]
    texts = expected_params(spec, make(spec))
    return '%s(%s)' % (name, ','.join('%s=%s' % (k, texts[k]) for k in sorted(texts) if all_params or k not in irrelevant))


def has_repr(spec):
    try:
        repr(make(spec))
        return True
    except Exception:  # some kernels cannot be shown with odd parameters
        return False


def judge(case, ctx):
    from whatami import id2what, What
    x, change, n, new, again = case
    a = make(x)
    try:
        w = a.what()
        w.id()
    except Exception:
        if has_repr(x):
            raise
        raise Discard('the parameters break the repr of the estimator')
    ctx.check(type(w) is What, 'what() gives a %s', type(w))
    i = w.id()
    ctx.eq(i, model(x), 'the id')
    if not any(v[0] != 'v' or v[1][0] == 'w' for _, v in x[2]):
        ctx.eq(w.id(nonids_too=True), model(x, all_params=True), 'the id with all the parameters')
    ctx.eq(sorted(w.conf), sorted(expected_params(x, a)), 'the parameters of the configuration')
    ctx.eq(a.what(use_short=False).id(), model(x, use_short=False), 'the id with long names')
    back = id2what(i)
    ctx.eq(back.id(), i, 'the parsed id')
    ctx.eq((back.name, sorted(back.conf)), (declared(x)[0], sorted(k for k in expected_params(x, a) if k not in declared(x)[1])), 'the parsed configuration')
    if hasattr(a, 'get_params') or x[3] is None:
        from sklearn.base import clone
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = clone(a, safe=False)
        except Exception:  # sklearn cannot clone these parameters
            ctx.label('cannot be cloned')
        else:
            ctx.eq(c.what().id(), i, 'the id of a clone')
    ctx.eq(What('E', {'m': a, 'ms': [a]}).id(), 'E(m=%s,ms=[%s])' % (i, i), 'the id inside another configuration')
    if again:
        from sklearn.base import BaseEstimator
        from whatami.wrappers.what_sklearn import whatamize_sklearn
        before = BaseEstimator.what
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            whatamize_sklearn()
            if 'sklearn.tests.test_base' not in sys.modules and 'checked' not in _params:  # these have improper estimators
                whatamize_sklearn(check=True, log=True)
                _params['checked'] = True
        ctx.check(BaseEstimator.what is before, 'whatamizing again changed what()')
        ctx.eq(a.what().id(), i, 'the id after whatamizing again')
    y = changed(x, change, n, new)
    if y is not None and has_repr(y):
        j = make(y).what().id()
        ctx.eq(j, model(y), 'the id after the change')
        if change in ('relevant', 'irrelevant'):
            for k, v in y[2]:
                setattr(a, k, make_value(v))
            ctx.eq(a.what().id(), j, 'the id of the same object after the change')
        if change == 'irrelevant':
            ctx.eq(j, i, 'the id after changing an irrelevant parameter')
        ctx.label('change ' + change)
    ctx.eq(make(x).what().id(), i, 'the id of an equal object')
    ctx.interesting(x[2])
    ctx.label(TABLE[x[1]][1], x[3] or 'own class')
    if any(v[0] in ('e', 'steps', 'k') for _, v in x[2]):
        ctx.label('nested estimators')


def changed(x, change, n, new):
    _, name, params, sub = x
    if sub in ('extra', 'namesake'):
        return None
    required = [k for k, _ in fill(None, name)]
    irrelevant = declared(x)[1]
    if change in ('irrelevant', 'relevant'):
        keys = [k for k in param_names(name) if (k in irrelevant) == (change == 'irrelevant') and k not in required]
        if not keys:
            return None
        k = keys[n % len(keys)]
        return ('e', name, [p for p in params if p[0] != k] + [(k, new)], sub)
    if change == 'nested':
        nested = [k for k, v in params if v[0] == 'e']
        if not nested:
            return None
        k = nested[n % len(nested)]
        inner = dict(params)[k]
        keys = param_names(inner[1])
        keys = [p for p in keys if p not in [q for q, _ in fill(None, inner[1])]]
        if not keys or inner[3] in ('extra', 'namesake'):
            return None
        p = keys[n % len(keys)]
        inner = ('e', inner[1], [q for q in inner[2] if q[0] != p] + [(p, new)], inner[3])
        return ('e', name, [(q, inner if q == k else v) for q, v in params], sub)
    return ('e', name, params, 'inherit' if sub is None else None) if sub != 'shadow' else None


# --- Every parameter of every class

def gen_class(d):
    return d.choice(CLASSES), d.choice([('v', ('s', 'a text')), ('v', ('i', 12345)), ('v', ('n',)), ('v', ('l', [('i', 1)]))])


def judge_class(case, ctx):
    name, value = case
    setup()
    x = ('e', name, fill(None, name), None)
    required = [k for k, _ in x[2]]
    if not has_repr(x):
        raise Discard()
    i = make(x).what().id()
    ctx.eq(i, model(x), 'the id of %s' % name)
    for k in param_names(name):
        y = ('e', name, x[2] + [(k, value)], None)
        if k in required or not has_repr(y):
            continue
        w = make(y).what()
        ctx.eq(w.id(), model(y), 'the id with another %s' % k)
        ctx.check(k in w.conf, '%s is not in the configuration of %s', k, name)
        if k in declared(x)[1]:
            ctx.eq(w.id(), i, 'the id with another %s, that is irrelevant' % k)
    ctx.interesting(len(param_names(name)) > 1)


# --- The tools

def gen_report(d):
    names = [n for n in CLASSES if TABLE[n][1] == 'estimator']
    return [(d.choice(['Mine', 'A', 'Zz', 'own_']) + 'X%d' % i, d.choice(names), d.choice(['mine', 'a.b', 'sklearn.mine'])) for i in range(d.int(1, 4))], d.bool(0.5)


def judge_report(case, ctx):
    import sklearn
    setup()
    from whatami.wrappers import what_sklearn
    classes, chained = case

    def quiet(f, *args, **kwargs):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(*args, **kwargs)
    live = []
    for name, base, module in classes:
        live.append(type(name, (live[-1] if chained and live else load(base),), {'__module__': module}))
    report = quiet(what_sklearn.sklearn_parameters_report)
    ctx.eq(report['sklearn_version'], sklearn.__version__, 'version of scikit-learn')
    missing = report['unwhatamized']
    ctx.check(list(missing) == sorted(set(missing)), 'not sorted or repeated: %r', missing)
    for name, _, module in classes:
        ctx.check(module + '.' + name in missing, '%s.%s is not declared, but is not in %r', module, name, missing)
        ctx.check(name not in [x for m in missing for x in [m] if '.' not in m], 'not the full name')
    known, reachable = set(), set()
    for name in CLASSES:
        cls = load(name)
        if TABLE[name][2] != name or TABLE[name][3]:
            known.add(cls.__module__ + '.' + cls.__name__)
        if TABLE[name][1] == 'estimator':
            reachable.add(cls.__module__ + '.' + cls.__name__)
    ctx.check(not known & set(missing), 'declared classes reported: %r', sorted(known & set(missing)))
    ctx.check(len(known) > 50, 'few known classes')

    def below(cls, found):
        for sub in type.__subclasses__(cls):
            if sub not in found:
                found.add(sub)
                below(sub, found)
        return found
    import importlib
    found = set()
    for base in ('sklearn.base.BaseEstimator', 'sklearn.gaussian_process.kernels.Kernel', 'sklearn.model_selection.BaseCrossValidator',
                 'sklearn.model_selection._split.BaseShuffleSplit', 'sklearn.model_selection._split._RepeatedSplits'):
        module, _, member = base.rpartition('.')
        below(getattr(importlib.import_module(module), member), found)
    everything = set(c.__module__ + '.' + c.__qualname__ for c in found)
    ctx.check(set(missing) <= everything, 'reports what is not below the whatamized classes: %r', sorted(set(missing) - everything))
    for cls in live:
        try:
            w = quiet(lambda: cls().what())
        except TypeError:  # required parameters
            continue
        ctx.eq(w.name, cls.__name__, 'name of an own class')
    ctx.interesting(True)


TESTS = [Test('estimators', gen, judge, quick=300), Test('classes', gen_class, judge_class, quick=20, examples=[(n, ('v', ('s', 'a text'))) for n in CLASSES]), Test('report', gen_report, judge_report, quick=3)]
