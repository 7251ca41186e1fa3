import threading
from engine.core import Test
from engine import values, ref
from engine.values import Options, gen_value, build

RULE = ('A case is a chain of one to four generated functions calling each other, the last one inspecting a random caller in the chain, with random changes to the local variables '
        'before and after. Non-trivial: the inspected caller has some parameter or local variable.')
ASSUMPTIONS = ['parameters with ASCII identifiers as name; extra keywords kept in a dictionary', 'variables of enclosing functions may or may not be reported']

KINDS = ['def', 'def', 'def', 'method', 'classmethod', 'static', 'lambda', 'closure', 'captured', 'generator', 'try']
NAMES = ['a', 'b', 'x', 'y', 'n_jobs', 'depth', 'ignores', 'overrides', 'ignore_varargs', 'self', 'cls', '_p', 'over_overrides', 'frame', 'args', 'kwargs', 'name', 'what', 'non_id_keys', 'conf', '__n__', '__']
VARS = ['a', 'x', 'tmp', 'z1', '_q', 'y', 'conf_dict', 'frame_locals', 'kw', 'R', '__n__', '__']
KEYS = ['k1', 'a', 'self', 'cls', 'depth', 'odd key', 'x', '_e', 'overrides', 'zz']
FUNCTIONS = ['f', 'call_dict', 'what', 'lambda_', '__init__', 'do_it', '_private']
FREE = ['free1', 'free2']
O = Options(depth=1)
NV = 8


def gen_frame(d):
    kind = d.choice(KINDS)
    names = d.sample(NAMES, 0, 5)
    first = None
    if kind in ('method', 'classmethod'):
        first = d.choice(['self', 'cls', 'this']) if kind == 'method' else d.choice(['cls', 'self', 'klass'])
        names = [n for n in names if n != first]
    params = []  # (name, kind, default)
    npos = d.int(0, len(names))
    nonly = d.int(0, npos) if d.bool(0.2) else 0
    ndef = d.int(0, npos)
    for i, n in enumerate(names):
        if i < npos:
            params.append((n, 'posonly' if i < nonly else 'pos', d.draw(NV - 1) if i >= npos - ndef else None))
        else:
            params.append((n, 'kwonly', d.draw(NV - 1) if d.bool() else None))
    var = d.choice([None, 'args', 'more', 'ignores']) if d.bool(0.5) else None
    kw = d.choice([None, 'kwargs', 'kws', 'overrides']) if d.bool(0.5) else None
    taken = names + [first]
    var = None if var in taken else var
    kw = None if kw in taken or kw == var else kw
    # The call
    pos, kws = [], []
    positional = [p for p in params if p[1] != 'kwonly']
    for p in positional:
        if len(pos) == positional.index(p) and (p[1] == 'posonly' and p[2] is None or d.bool(0.4)):
            pos.append(d.draw(NV - 1))
        elif p[1] == 'posonly':
            if p[2] is None:
                raise AssertionError
        elif p[2] is None or d.bool(0.4):
            kws.append((p[0], d.draw(NV - 1)))
    if var is not None and len(pos) == len(positional):
        pos += [d.draw(NV - 1) for _ in range(d.int(0, 2))]
    for p in params:
        if p[1] == 'kwonly' and (p[2] is None or d.bool()):
            kws.append((p[0], d.draw(NV - 1)))
    if kw is not None:
        posonly = [p[0] for p in params if p[1] == 'posonly']
        for k in d.sample([k for k in KEYS if k == first or k not in taken or k in posonly], 0, 3):
            if k != first:
                kws.append((k, d.draw(NV - 1)))
    kws = d.shuffle(kws)
    known = [n for n in taken if n] + [v for v in (var, kw) if v]
    return kind, d.choice(FUNCTIONS), first, params, var, kw, pos, kws, gen_statements(d, known, kw, var), gen_statements(d, known, kw, var)


def gen_statements(d, known, kw, var):
    out = []
    for _ in range(d.int(0, 3) if d.bool(0.6) else 0):
        what = d.choice(['set', 'set', 'del', 'key', 'delkey'])
        if what in ('set', 'del'):
            name = d.choice(known) if known and d.bool(0.6) else d.choice(VARS)
            out.append((what, name, d.draw(NV - 1)))
        elif kw is not None:
            out.append((what, d.choice(KEYS), d.draw(NV - 1)))
    return out


def gen(d):
    frames = [gen_frame(d) for _ in range(d.int(1, 4))]
    if d.bool(0.06):  # long chains of callers
        frames = [d.choice(frames) for _ in range(d.int(5, 30))]
    target = len(frames) - 1 - d.int(0, 2) if len(frames) > 4 and d.bool(0.7) else d.int(0, len(frames) - 1)
    some = [p[0] for p in frames[-1 - target][3]] + KEYS + VARS
    if d.bool(0.6):
        api = ('call_dict', d.choice([None, None, []]) if d.bool(0.6) else d.sample(some, 0, 3), d.bool(), [(k, d.draw(NV - 1)) for k in d.sample(some, 0, 2)] if d.bool(0.4) else None,
               [(k, d.draw(NV - 1)) for k in d.sample([k for k in some if k not in ('depth', 'ignores', 'overrides', 'ignore_varargs')], 0, 2)] if d.bool(0.4) else None)
    else:
        api = ('call2what', None if d.bool() else d.sample(some + ['absent'], 0, 4), d.choice(['list', 'tuple', 'set', 'frozenset']))
    return frames, target, api, [gen_value(d, O, 1) for _ in range(NV)], d.bool(0.1), d.bool(0.4)


# --- The programs

def lines_for(i, frames):
    """The source of a frame, and how to call it."""
    kind, name, first, params, var, kw, pos, kws, before, after = frames[i]
    sig = [first] if first else []
    for j, p in enumerate(params):
        if p[1] == 'kwonly' and (j == 0 or params[j - 1][1] != 'kwonly') and not var:
            sig.append('*')
        if p[1] == 'kwonly' and (j == 0 or params[j - 1][1] != 'kwonly') and var:
            sig.append('*' + var)
        sig.append(p[0] if p[2] is None else '%s=VALUES_[%d]' % (p[0], p[2]))
        if p[1] == 'posonly' and (j + 1 == len(params) or params[j + 1][1] != 'posonly'):
            sig.append('/')
    if var and not any(p[1] == 'kwonly' for p in params):
        sig.append('*' + var)
    if kw:
        sig.append('**' + kw)
    sig = ', '.join(sig)
    inner = 'INSPECT_(**OPTIONS_)' if i == len(frames) - 1 else call(i + 1, frames)
    if kind == 'lambda':
        return ['F_%d = lambda %s: %s' % (i, sig, inner)]

    def body(statements):
        out = []
        for what, k, v in statements:
            if what == 'set':
                out.append('%s = VALUES_[%d]' % (k, v))
            elif what == 'del':
                out.append('del %s' % k)
            elif what == 'key':
                out.append('%s[%r] = VALUES_[%d]' % (kw, k, v))
            else:
                out.append('%s.pop(%r, None)' % (kw, k))
        return out
    _, before, after, _, _ = simulate(frames[i])
    lines = body(before)
    if kind == 'captured':
        for p in params:
            lines.insert(0, '(lambda: %s)' % p[0])
    if kind == 'closure':
        lines.insert(0, ', '.join(FREE))
    lines.append('RESULTS_.append(%s)' % inner)
    lines.append('CHECKS_.append((%d, dict(LOCALS_())))' % i)
    lines += body(after)
    lines.append('LOCALS_()')  # this refreshes the dictionary of locals of the frame
    lines.append('yield' if kind == 'generator' else 'return')
    if kind == 'try':
        lines = ['for LOOP_ in [0]:', '    try:', '        with CONTEXT_():'] + ['            ' + l for l in lines] + ['    finally:', '        pass']
        lines[0] = 'while True:'
    define = ['def %s(%s):' % (name, sig)] + ['    ' + l for l in lines]
    if kind == 'closure':
        return ['def make_%d(%s):' % (i, ', '.join(FREE))] + ['    ' + l for l in define] + ['    return %s' % name, 'F_%d = make_%d(VALUES_[0], VALUES_[1])' % (i, i)]
    if kind in ('method', 'classmethod', 'static'):
        return ['class C_%d(object):' % i] + {'method': [], 'classmethod': ['    @classmethod'], 'static': ['    @staticmethod']}[kind] + ['    ' + l for l in define] + \
            ['O_%d = object.__new__(C_%d)' % (i, i), 'FIRST_[%d] = %s' % (i, 'C_%d' % i if kind == 'classmethod' else 'O_%d' % i), 'F_%d = O_%d.%s' % (i, i, name)]
    return define + ['F_%d = %s' % (i, name)]


def call(i, frames):
    kind, name, first, params, var, kw, pos, kws, _, _ = frames[i]
    args = ['VALUES_[%d]' % v for v in pos]
    args.append('**{%s}' % ', '.join('%r: VALUES_[%d]' % kv for kv in kws))
    c = 'F_%d(%s)' % (i, ', '.join(args))
    return 'list(%s)' % c if kind == 'generator' else c


def simulate(frame):
    """({variable: value}, statements before, after, ...) as value indices; statements which cannot be run are left out."""
    kind, name, first, params, var, kw, pos, kws, before, after = frame
    env = {}
    if first:
        env[first] = ('first',)
    positional = [p for p in params if p[1] != 'kwonly']
    given = dict(kws)
    for j, p in enumerate(positional):
        if j < len(pos):
            env[p[0]] = pos[j]
        elif p[1] != 'posonly' and p[0] in given:
            env[p[0]] = given.pop(p[0])
        else:
            env[p[0]] = p[2]
    for p in params:
        if p[1] == 'kwonly':
            env[p[0]] = given.pop(p[0]) if p[0] in given else p[2]
    if var:
        env[var] = ('args', tuple(pos[len(positional):]))
    if kw:
        env[kw] = ('kwargs', dict(given))

    special = [n for n in (var, kw) if n]

    def run(statements):
        ok = []
        for what, k, v in statements:
            if kind == 'lambda':
                continue
            if what == 'set':
                if k in special:
                    continue  # these stay tuples and dictionaries
                env[k] = v
            elif what == 'del':
                if k not in env:
                    continue
                del env[k]
            else:
                if kw not in env:
                    continue
                env[kw] = ('kwargs', dict(env[kw][1]))
                if what == 'key':
                    env[kw][1][k] = v
                else:
                    env[kw][1].pop(k, None)
            ok.append((what, k, v))
        return ok
    before = run(before)
    at = dict(env)
    after = run(after)
    return at, before, after, env, set(p[0] for p in params) | set([first] if first else [])


class Context(object):
    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False


def judge(case, ctx):
    from whatami import What
    from whatami.misc import call_dict
    from whatami.whatutils import call2what
    frames, target, api, value_specs, in_thread, fresh = case
    if api[0] == 'call2what':  # the configuration keeps references, changing the dictionary itself is seen
        frames = [f[:9] + ([s for s in f[9] if s[0] in ('set', 'del')],) for f in frames]
    vals = [build(v) for v in value_specs]
    index = len(frames) - 1 - target
    options = {'depth': target + 1}
    if target == 0 and fresh:
        options = {}
    if api[0] == 'call_dict':
        _, ignores, ignore_varargs, overrides, more = api
        if ignores is not None:
            options['ignores'] = tuple(ignores)
        if ignore_varargs:
            options['ignore_varargs'] = True
        if overrides is not None:
            options['overrides'] = dict((k, vals[v]) for k, v in overrides)
        for k, v in more or ():
            options[k] = vals[v]
    elif api[1] is not None:
        options['non_id_keys'] = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}[api[2]](api[1])
    ns = {'VALUES_': vals, 'RESULTS_': [], 'CHECKS_': [], 'OPTIONS_': options, 'INSPECT_': call_dict if api[0] == 'call_dict' else call2what, 'FIRST_': {}, 'CONTEXT_': Context,
          'LOCALS_': locals, '__name__': 'generated'}
    source = '\n'.join('\n'.join(lines_for(i, frames)) for i in reversed(range(len(frames)))) + '\ndef RUN_():\n    RESULTS_.append(%s)\n' % call(0, frames)
    try:
        exec(source, ns)
    except SyntaxError as e:
        raise AssertionError('%s\n%s' % (e, source))
    outcome = []

    def run():
        try:
            ns['RUN_']()
            outcome.append(None)
        except Exception as e:
            outcome.append(e)
    if in_thread:
        t = threading.Thread(target=run)
        t.start()
        t.join()
    else:
        run()
    at, _, _, _, own = simulate(frames[index])
    kind, name, first, params, var, kw = frames[index][:6]

    def live(v):
        if isinstance(v, tuple):
            return ns['FIRST_'][index] if v[0] == 'first' else (tuple(vals[i] for i in v[1]) if v[0] == 'args' else dict((k, vals[i]) for k, i in v[1].items()))
        return vals[v]

    def agree(got, expected, text):
        ctx.check(set(got) == set(expected), '%s: the names are %r, expected %r\n%s', text, sorted(got), sorted(expected), source)
        for k, v in expected.items():
            x = live(v)
            same = (got[k] == x or repr(got[k]) == repr(x)) if isinstance(v, tuple) and v[0] != 'first' else got[k] is x
            ctx.check(same, '%s: %r is %r, expected %r\n%s', text, k, got[k], x, source)

    ctx.interesting(at)
    ctx.label(api[0], 'kind ' + kind, 'depth %s' % (target + 1 if target < 5 else '> 5'))
    if api[0] == 'call_dict':
        refused = var in at and var is not None and at[var][1] and not ignore_varargs
        if refused:
            ctx.check(type(outcome[0]) is ValueError, 'varargs are not refused: %r\n%s', outcome[0], source)
            ctx.label('refused')
            return
        ctx.check(outcome[0] is None, 'raised %r\n%s', outcome[0], source)
        r = ns['RESULTS_'][0]
        ctx.check(type(r) is dict, 'returned a %s', type(r))
        expected = dict((k, v) for k, v in at.items() if k in own)
        if kw in at and kw is not None:
            expected.update(at[kw][1])
        for k in ('cls', 'self') if ignores is None else ignores:
            expected.pop(k, None)
        expected.update(dict(overrides or ()))
        expected.update(dict(more or ()))
        agree(r, expected, 'the call')
        ctx.check(overrides is None or options['overrides'] == dict((k, vals[v]) for k, v in overrides), 'the overrides were changed')
    else:
        ctx.check(outcome[0] is None, 'raised %r\n%s', outcome[0], source)
        w = ns['RESULTS_'][0]
        ctx.check(type(w) is What, 'returned a %s', type(w))
        ctx.eq(w.name, 'lambda' if kind == 'lambda' else name, 'the name')
        agree(dict((k, v) for k, v in w.conf.items() if k not in FREE), at, 'the locals')
        ctx.eq(set(w.non_id_keys or ()), set(api[1] or ()), 'the non id keys')
        ids = sorted(k for k in at if k not in (api[1] or ()))
        if not any(isinstance(at[k], tuple) and at[k][0] != 'args' for k in ids) and kind != 'closure':
            def text(v):
                return ref.render(('t', [value_specs[i] for i in v[1]])) if isinstance(v, tuple) else ref.render(value_specs[v])
            ctx.eq(w.id(), '%s(%s)' % (w.name, ','.join('%s=%s' % (k, text(at[k])) for k in ids)), 'the id')
    # Nothing else changed
    checks = dict(ns['CHECKS_'])
    ctx.eq(set(checks), set(i for i in range(len(frames)) if frames[i][0] != 'lambda'), 'the functions that went on')
    for i, got in checks.items():
        now = simulate(frames[i])[0]
        got = dict((k, v) for k, v in got.items() if k not in FREE)
        ctx.check(set(got) == set(now), 'inspecting changed the locals of a caller: %r, expected %r\n%s', sorted(got), sorted(now), source)
        for k, v in now.items():
            if not isinstance(v, tuple):
                ctx.check(got[k] is vals[v], 'inspecting changed the locals of a caller\n%s', source)
    if index != len(frames) - 1:
        ctx.label('outer caller')
    if frames[index][8]:
        ctx.label('changed before')
    if frames[index][9]:
        ctx.label('changed after')


# --- Comprehensions and generator expressions are callers too

COMPS = {'listcomp': '[%s for %s in %s%s]', 'setcomp': '{%s for %s in %s%s}', 'dictcomp': '{1: %s for %s in %s%s}', 'genexpr': 'list(%s for %s in %s%s)'}


def gen_comp(d):
    kind = d.choice(sorted(COMPS))
    names = d.sample([n for n in NAMES if n not in ('self', 'cls')], 1, 3)
    return kind, names, [d.draw(NV - 1) for _ in names], d.bool(0.3), d.bool(0.3), d.int(0, 2), [values.gen_value(d, O, 1) for _ in range(NV)], d.choice([None, 'list', 'tuple'])


def judge_comp(case, ctx):
    from whatami import What, id2what
    from whatami.whatutils import call2what
    kind, names, which, condition, uses, deeper, specs, nonids = case
    vals = [build(v) for v in specs]
    out = []
    options = {'depth': deeper + 2}
    if nonids:
        options['non_id_keys'] = {'list': list, 'tuple': tuple}[nonids](names[:1])
    source = 'def inspect_%d_():\n    OUT_.append(CALL_(**OPTIONS_))\n    return 1\n' % deeper
    for i in reversed(range(deeper)):
        source += 'def inspect_%d_():\n    return inspect_%d_()\n' % (i, i + 1)
    element = 'inspect_0_()' if not uses else 'inspect_0_() + len(str(enclosing_))'
    target = names[0] if len(names) == 1 else '(%s)' % ', '.join(names)
    source += 'def run_(enclosing_, items_):\n    other_ = 1\n    return ' + COMPS[kind] % (element, target, 'items_', ' if %s is not OUT_' % names[0] if condition else '')
    ns = {'OUT_': out, 'CALL_': call2what, 'OPTIONS_': options}
    exec(source, ns)
    ns['run_'](3, [vals[which[0]] if len(names) == 1 else tuple(vals[i] for i in which)])
    ctx.label(kind)
    ctx.interesting()
    ctx.eq(len(out), 1, 'inspections')
    w = out[0]
    ctx.check(type(w) is What, 'returned a %s', type(w))
    ctx.eq(w.name, kind, 'the name')
    conf = {k: v for k, v in w.conf.items() if k != 'enclosing_'}  # variables of enclosing functions may or may not be reported
    ctx.eq(sorted(conf), sorted(names), 'the locals\n' + source)
    for n, i in zip(names, which):
        ctx.check(conf[n] is vals[i], '%s is %r, expected %r', n, conf[n], vals[i])
    ctx.eq(set(w.non_id_keys or ()), set(names[:1] if nonids else ()), 'the non id keys')
    ids = sorted((n, i) for n, i in zip(names, which) if not nonids or n != names[0])
    if 'enclosing_' not in w.conf:
        ctx.eq(w.id(), '%s(%s)' % (kind, ','.join('%s=%s' % (n, ref.render(specs[i])) for n, i in ids)), 'the id')


TESTS = [Test('callers', gen, judge, quick=500), Test('comprehensions', gen_comp, judge_comp, quick=120)]
