"""Identification and parsing give the same results when several threads do them at the same time."""
import os

from engine import objects, ref, texts, threads, values
from engine.core import Test, Discard
from engine.values import Options
from props import c26

RULE = ('A case is two or three threads, each with a few things to do (parsing, making ids, hashing and so on, sometimes of the very same objects), and the schedule with which they take turns, '
        'line by line. Non-trivial: the turn changed at least twice while something was under way.')
ASSUMPTIONS = ['objects shared by the threads are only read', 'threads can only be interrupted between lines of python code']

OPS = ['parse', 'old', 'id', 'full', 'short', 'object', 'flat', 'dict', 'hash', 'match', 'sort', 'call', 'equal']
WHAT_OPS = ['id', 'full', 'short', 'flat', 'dict', 'equal', 'get', 'what2id']
SCOPES = {'both': ('whatami', 'arpeggio'), 'whatami': ('whatami',), 'arpeggio': ('arpeggio',)}


def gen(d, ops=None):
    o = Options(depth=d.int(1, 2))
    things = [gen_thing(d, o, d.choice(ops or OPS)) for _ in range(d.choice([1, 2, 2, 3, 4]))]
    n = d.int(2, 3)

    def plan():
        out = []
        for _ in range(d.int(1, 2)):
            i = d.draw(len(things) - 1)
            out.append((i, d.choice(WHAT_OPS) if things[i][0] in WHAT_OPS else things[i][0]))
        return out
    plans = [plan() for _ in range(n)]
    scope = d.choice(['both', 'whatami', 'arpeggio'])
    steps = d.choice([(1, 8), (1, 60), (20, 400), (1, 3)] if scope != 'whatami' else [(1, 5), (1, 2), (1, 30)])
    schedule = [(d.draw(n - 1), d.int(*steps)) for _ in range(d.choice([3, 8, 14] if scope != 'whatami' else [5, 14, 40, 80]))]
    return things, plans, schedule, d.bool(0.9), scope


def gen_parse(d):
    return gen(d, ['parse', 'parse', 'parse', 'old'])


def gen_alike(d):
    """The same thing done in each thread with alike values, almost in step."""
    o = Options(depth=d.int(1, 2), members=4)
    n = d.int(2, 3)
    op = d.choice(['parse', 'parse', 'old', 'id', 'object', 'hash', 'flat', 'what2id', 'dict'])
    if op == 'hash':
        specs = [c26.gen_value(d, 2, top=True)] * n
    elif op == 'old':
        specs = ["A#x=[1,%d,'a%d']#y={'a':(%d,2)}" % (i, i, i) for i in range(n)]
    else:
        spec = ('w', 'A', [(k, (d.choice('lltdS') if op != 'object' else d.choice('ltd'), [])) for k in d.sample(['a', 'b', 'c'], 1, 3)], None, [])
        specs = []
        for i in range(n):
            members = [values.gen_value(d, o, 1, hashable=True) for _ in range(d.int(1, 3))] + [('i', 100 + i)]
            specs.append(spec[:2] + ([(k, (t, [(('i', j), v) for j, v in enumerate(members)] if t == 'd' else values.distinct(members) if t == 'S' else members)) for k, (t, _) in spec[2]],) + spec[3:])
        if op == 'parse':
            specs = [ref.render(x) for x in specs]
    things = [(op, x) for x in specs]
    k = d.choice([1, 1, 2, 3])
    schedule = [(i % n, k if d.bool(0.85) else d.int(1, 12)) for i in range(d.choice([20, 60, 200, 400]))]
    return things, [[(i, op)] for i in range(n)], schedule, d.bool(0.95), d.choice(['whatami', 'whatami', 'both'])


def gen_thing(d, o, op):
    if op == 'parse':
        text = ref.render(values.gen_what(d, o, top=True))
        return ('parse', texts.edit_text(d, text) if d.bool(0.2) else text)
    if op == 'old':
        return ('old', d.choice(["A#x=%d" % d.int(0, 9), "A#a='x'#b=\"B#c=%d\"" % d.int(0, 9), "out=o#A#x=(%d, 2)" % d.int(0, 9), "A#x", "A#x=[1,%d]#y={'a':1}" % d.int(0, 9)]))
    if op in WHAT_OPS:
        w = values.gen_what(d, o, top=True)
        if w[2] and d.bool():
            w = w[:4] + ([d.choice(w[2])[0]],)
        return (op, w)
    if op == 'object':
        return (op, objects.gen_mixed(d, o, 1))
    if op == 'hash':
        return (op, c26.gen_value(d, 2, top=True))
    if op in ('match', 'sort'):
        return (op, ['A(a=%d,b=%s)' % (d.int(0, 2), d.choice(['1', "'x'", '[1,2]'])) for _ in range(d.int(1, 3))])
    return ('call', d.int(0, 5), d.choice(['x', 'text']))


def shared(thing):
    """The object that all the threads use."""
    op, x = thing[:2]
    if op in WHAT_OPS or op == 'object':
        return values.build(x)
    return c26.build(x) if op == 'hash' else x


def caller(number, text, other=None):
    from whatami import call2what
    local = number + 1
    return call2what(non_id_keys=('other',)).id()


def do(op, thing, v):
    from whatami import id2what, id2dict, what2id, whatareyou, What
    from whatami.whatutils import oldid2what, match_whatids, sort_whatids
    from whatami.minijoblib.hashing import hasher
    try:
        if op == 'parse':
            w = id2what(v)
            return w.id(nonids_too=True), sorted(map(str, w.keys()))
        if op == 'old':
            return oldid2what(v).id()
        if op == 'id':
            return v.id(), str(v)
        if op == 'full':
            return v.id(nonids_too=True), v.id()
        if op == 'short':
            return v.id(maxlength=10), v.positional_id()
        if op == 'object':
            return what2id(What('A', {'x': v})), attempt(lambda: whatareyou(v).id(nonids_too=True))
        if op == 'flat':
            return [str(k) for k in v.flatten(non_ids_too=True, collections_too=True)[0]]
        if op == 'dict':
            return str(sorted(map(str, v.to_dict()))), attempt(lambda: sorted(id2dict(v.id())))
        if op == 'equal':
            return v == v.copy(), v != v.copy(), hash(v) if v.__hash__ else None
        if op == 'get':
            return [str(type(v[k])) for k in v.flatten(non_ids_too=True)[0]], sorted(map(str, v.keys(non_ids_too=True)))
        if op == 'what2id':
            return what2id(v), what2id([v]), What('B', {'x': [v]}).id(nonids_too=True)
        if op == 'hash':
            return hasher(v)
        if op == 'match':
            return list(map(str, match_whatids(v, v[0], ignored_keys=('a',))))
        if op == 'sort':
            return list(map(str, sort_whatids(v, 'a')[0]))
        return caller(thing[1], thing[2])
    except Exception as e:
        return 'raised', type(e).__name__


def attempt(f):
    try:
        return f()
    except Exception as e:
        return 'raised ' + type(e).__name__


def warm_up():
    do('parse', None, 'A(x=1)')
    do('old', None, 'A#x=1')


def judge(case, ctx):
    things, plans, schedule, warm, scope = case
    paths = [os.sep + x + os.sep for x in SCOPES[scope]]
    live = [shared(t) for t in things]
    todo = sorted({p for plan in plans for p in plan})
    alone = {(i, op): do(op, things[i], live[i]) for i, op in todo}
    results, switches = threads.run([lambda plan=plan: [do(op, things[i], live[i]) for i, op in plan] for plan in plans], schedule, lambda name: any(x in name for x in paths), warm_up if warm else None)
    for plan, r in zip(plans, results):
        ctx.eq(r[0], 'ok', 'a thread')
        for p, got in zip(plan, r[1]):
            ctx.eq(got, alone[p], '%s with other threads at work' % p[1])
    for i, op in todo:
        ctx.eq(do(op, things[i], live[i]), alone[i, op], '%s after the threads' % op)
    ctx.interesting(switches > 1)
    ctx.label('%d threads' % len(plans), 'warm' if warm else 'cold', 'switches in ' + scope, *[op for _, op in todo])
    if any(i in {j for j, _ in q} for p in plans for q in plans if p is not q for i, _ in p):
        ctx.label('the same object in several threads')


TESTS = [Test('alike', gen_alike, judge, quick=150), Test('schedules', gen, judge, quick=250), Test('parsing', gen_parse, judge, quick=150)]
