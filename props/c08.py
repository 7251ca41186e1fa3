from engine.core import Test, Discard
from engine import ref, values, texts
from engine.values import Options, gen_what, same, to_spec

RULE = ('A case is a history of 3 to 14 operations: parses of a small pool of texts (good ones repeated, malformed ones), wrongly typed inputs, parses with '
        'custom parsers and visitors (also failing ones), old-style parses, conversions to dictionaries and in-place changes to earlier results. '
        'Non-trivial: some text is parsed again after something else happened.')
ASSUMPTIONS = []

TYPES = ['None', '3', "b'a(x=1)'", '[]', "['a(x=1)']", '()', '{}', '1.5', 'object', "[b'(']", 'True', 'bytearray', 'What']


def gen(d):
    o = Options(depth=2, members=3, what_members=3, safe_strings=True)
    pool = []
    for _ in range(d.int(2, 4)):
        spec = gen_what(d, o, top=True)
        pool.append(texts.spaced(texts.tokens(spec, d), d, 0.03))
    bad = [texts.edit_text(d, pool[0]), texts.soup(d), d.choice(['', 'a(', 'A(x=1,,y=2)', "A(x='", 'A(x=B(y=C(z=1)', 'A(x=1', 'A(x={1:2,3})'])]
    old = ["A#x=1#y='z'", "A#x=\"B#y=2\"", "out=o#A#x=1", 'A#', 'no', 'A#x=[1,2]#x=', 'A(x=1)']
    ops = []
    for _ in range(d.int(3, 14)):
        k = d.weighted([(7, 'parse'), (3, 'bad'), (2, 'type'), (3, 'mutate'), (2, 'parser'), (2, 'visitor'), (1, 'old'), (1, 'dict'), (1, 'id')])
        if k == 'parse' or k in ('dict', 'id'):
            ops.append((k, d.int(0, len(pool) - 1)))
        elif k == 'bad':
            ops.append((k, d.choice(bad), d.choice(['default', 'custom'])))
        elif k == 'type':
            ops.append((k, d.choice(TYPES), d.choice(['default', 'default', 'custom'])))
        elif k == 'mutate':
            ops.append((k, d.draw(20), d.choice(['set', 'clear', 'deep', 'name', 'nonid'])))
        elif k == 'parser':
            ops.append((k, d.int(0, len(pool) - 1), d.choice(['shared', 'fresh', 'reduced', 'old'])))
        elif k == 'visitor':
            ops.append((k, d.int(0, len(pool) - 1), d.choice(['strings', 'raising', 'typeerror', 'nomatch', 'keep', 'plain'])))
        elif k == 'old':
            ops.append((k, d.choice(old)))
    ops.append(('parse', d.int(0, len(pool) - 1)))
    return pool, ops


def mutables(v, out):
    from whatami import What
    if isinstance(v, What):
        out.append(v)
        out.append(v.conf)
        out.append(v.non_id_keys)
        for x in v.conf.values():
            mutables(x, out)
    elif isinstance(v, dict):
        out.append(v)
        for k, x in v.items():
            mutables(k, out)
            mutables(x, out)
    elif isinstance(v, (list, tuple, set, frozenset)):
        if isinstance(v, (list, set)):
            out.append(v)
        for x in v:
            mutables(x, out)
    return out


def wrong(t):
    if t == 'object':
        return object()
    if t == 'bytearray':
        return bytearray(b'a(x=1)')
    if t == 'What':
        from whatami import What
        return What('A', {'x': 1})
    return eval(t)


def judge(case, ctx):
    from arpeggio import NoMatch, PTNodeVisitor
    from whatami import parse_whatid, id2what, What
    from whatami.parsers import build_whatami_parser, build_oldwhatami_parser, WhatamiTreeVisitor
    from whatami.whatutils import oldid2what, id2dict
    pool, ops = case
    try:
        specs = [texts.meaning(t) for t in pool]
    except ref.OutOfDomain:
        raise Discard()
    custom = []
    results = []  # (what, snapshot)
    parsed = []

    def parser(kind='shared'):
        if kind == 'old':
            return build_oldwhatami_parser()
        if kind == 'reduced' or kind == 'fresh':
            return build_whatami_parser()
        if not custom:
            custom.append(build_whatami_parser())
        return custom[0]

    def keep(what, text, spec):
        if not same(what, spec):
            ctx.fail('after %r, %r parses as %r' % (ops, text, what))
        ctx.check(what.non_id_keys == set(), 'non id keys %r', what.non_id_keys)
        seen = set(id(x) for w, _ in results for x in mutables(w, []))
        mine = mutables(what, [])
        ctx.check(not any(id(x) in seen for x in mine), 'the result of parsing %r shares state with a previous one', text)
        ctx.check(len(set(id(x) for x in mine)) == len(mine), 'the result of parsing %r shares state with itself', text)
        results.append((what, to_spec(what)))

    class Everything(PTNodeVisitor):
        """Same action for all the rules, whatever their names."""

        def __init__(self, action):
            super(Everything, self).__init__(defaults=True)
            self.__dict__['action'] = action

        def __getattr__(self, name):
            if name.startswith('visit_'):
                return self.__dict__['action']
            raise AttributeError(name)

    class Plain(WhatamiTreeVisitor):
        pass

    def raiser(e):
        def action(node, children):
            raise e
        return Everything(action)

    for n, op in enumerate(ops):
        k = op[0]
        ctx.label('op ' + k)
        if k == 'parse':
            text, spec = pool[op[1]], specs[op[1]]
            ctx.interesting(text in parsed and n > parsed.index(text) + 1)
            parsed.append(text)
            keep((parse_whatid if n % 2 else id2what)(text), text, spec)
        elif k == 'bad':
            text = op[1]
            try:
                spec = texts.meaning(text)
            except ref.OutOfDomain:
                continue
            if any(text.count(c) > 12 for c in '{('):
                continue
            if spec is None:
                ctx.raises(NoMatch, lambda: parse_whatid(text, parser=parser() if op[2] == 'custom' else None), 'after %r, parsing %r' % (ops[:n], text))
            else:
                keep(parse_whatid(text), text, spec)
        elif k == 'type':
            try:
                parse_whatid(wrong(op[1]), parser=parser('fresh') if op[2] == 'custom' else None)
            except Exception:
                pass
        elif k == 'mutate' and results:
            i = op[1] % len(results)
            what = results[i][0]
            if op[2] == 'set':
                what.set('new', 33)
            elif op[2] == 'clear':
                what.conf.clear()
            elif op[2] == 'name':
                what.name, what.out_name = 'changed', 'changed'
            elif op[2] == 'nonid':
                what.non_id_keys.add('x')
                what.non_id_keys.add('a')
                what.set('x', 1)
            else:
                for x in mutables(what, [])[3:]:
                    if isinstance(x, list):
                        x.append('changed')
                    elif isinstance(x, dict):
                        x['changed'] = 1
                    elif isinstance(x, set):
                        x.add('changed')
            results[i] = (what, to_spec(what))
        elif k == 'parser':
            text, spec = pool[op[1]], specs[op[1]]
            if op[2] == 'old':
                try:
                    parse_whatid(text, parser=parser('old'))
                except NoMatch:
                    pass
            else:
                keep(parse_whatid(text, parser=parser(op[2])), text, spec)
        elif k == 'visitor':
            text, spec = pool[op[1]], specs[op[1]]
            if op[2] == 'strings':
                ctx.eq(parse_whatid(text, visitor=Everything(lambda node, children: 'mine')), 'mine', 'custom visitor')
            elif op[2] == 'keep':
                n1 = parse_whatid(text, visitor=Everything(lambda node, children: node.flat_str()))
                ctx.eq(n1.replace(' ', ''), parse_whatid(text, visitor=Everything(lambda node, children: node.flat_str())).replace(' ', ''), 'custom visitor')
            elif op[2] == 'plain':
                keep(parse_whatid(text, visitor=Plain()), text, spec)
            else:
                e = {'raising': ValueError('mine'), 'typeerror': TypeError('mine'), 'nomatch': KeyError('mine')}[op[2]]
                got = ctx.raises(type(e), lambda: parse_whatid(text, visitor=raiser(e)), 'custom visitor')
                ctx.check(got is e, 'another exception: %r', got)
        elif k == 'old':
            try:
                w = oldid2what(op[1])
            except (NoMatch, ValueError):
                ctx.check(op[1] in ('no', 'A#x=[1,2]#x=', 'A(x=1)'), 'old id %r rejected', op[1])
            else:
                ctx.eq(w.name, 'A', 'old id')
                ctx.check(op[1] not in ('no', 'A#x=[1,2]#x=', 'A(x=1)'), 'old id %r accepted', op[1])
        elif k == 'dict':
            dd = id2dict(pool[op[1]])
            ctx.eq(dd['whatami_name'], specs[op[1]][1], 'id2dict')
            dd['whatami_conf'].clear()
            dd['whatami_name'] = 'x'
        elif k == 'id':
            ctx.eq(parse_whatid(parse_whatid(pool[op[1]]).id()).id(), ref.render(specs[op[1]]), 'id')
        for w, snapshot in results:
            ctx.eq(to_spec(w), snapshot, 'an earlier result after %r' % (ops[:n + 1],))


EX = [(['A(x=1,y=[1,2])', 'B(x=A(y={}),z=set())'], [('parse', 0), ('type', t, 'default'), ('parse', 0), ('mutate', 0, 'deep'), ('parse', 0), ('parse', 1), ('mutate', 2, 'nonid'),
                                                      ('bad', 'A(x=1', 'default'), ('parse', 1), ('visitor', 0, 'typeerror'), ('parse', 0)]) for t in TYPES]
# --- Classes are those that can be found now, whatever was found before

def gen_classes(d):
    names = ['K', 'L', 'list', 'What']
    ops = []
    for _ in range(d.int(2, 8)):
        k = d.weighted([(5, 'parse'), (2, 'define'), (1, 'undefine'), (1, 'unload'), (1, 'load')])
        ops.append((k, d.choice(names), d.int(0, 1), d.choice(['A(x=<class \'%s\'>)', 'A(x=[1,<class \'%s\'>])', 'A(x=B(y={1:<class \'%s\'>}))'])))
    return ops + [('parse', d.choice(names), d.int(0, 1), 'A(x=<class \'%s\'>)')]


_modules = [0]


def judge_classes(case, ctx):
    import sys
    import types
    from whatami import parse_whatid
    _modules[0] += 1
    names = ['c08_module_%d' % _modules[0], 'c08_module_%d_b' % _modules[0]]
    modules = [types.ModuleType(n) for n in names]
    sys.modules[names[0]] = modules[0]
    asked = set()
    try:
        for n, (k, name, i, text) in enumerate(case):
            if k == 'define':
                setattr(modules[i], name, type(name, (object,), {'__module__': names[i]}))
            elif k == 'undefine':
                modules[i].__dict__.pop(name, None)
            elif k == 'unload':
                sys.modules.pop(names[i], None)
            elif k == 'load':
                sys.modules[names[i]] = modules[i]
            else:
                full = names[i] + '.' + name
                ctx.interesting(full in asked)
                asked.add(full)
                x = parse_whatid(text % full).conf['x']
                x = x[1] if type(x) is list else x.conf['y'][1] if not isinstance(x, (type, dict)) else x
                there = names[i] in sys.modules and name in modules[i].__dict__
                ctx.label('found' if there else 'not found')
                if there:
                    ctx.check(x is getattr(modules[i], name), 'operation %d: %s is %r, expected %r', n, full, x, getattr(modules[i], name))
                else:
                    ctx.eq(x, {'class': full}, 'operation %d: a class that is not there' % n)
                    x['changed'] = 1
    finally:
        for n in names:
            sys.modules.pop(n, None)


EX_CLASSES = [[(k, 'K', 0, "A(x=<class '%s'>)") for k in ('parse', 'define', 'parse', 'define', 'parse', 'undefine', 'parse', 'define', 'unload', 'parse', 'load', 'parse')]]
TESTS = [Test('classes', gen_classes, judge_classes, quick=200, examples=EX_CLASSES), Test('histories', gen, judge, quick=700, examples=EX)]
