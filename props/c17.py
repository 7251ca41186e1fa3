from engine.core import Test
from engine import ref
from engine.values import build

RULE = ('A case is a history of 3 to 30 operations over small pools of nicknames and of ids (as strings, configurations, whatable objects and functions), valid or not, '
        'all the lookups being compared with a model after each one. Non-trivial: at least one operation had to fail with entries in the registry.')
ASSUMPTIONS = ['nicknames are strings']

NICKS = ['a', 'b', 'c', '', 'A(x=1)', 'None', "it's \u00e9", ' a', 'a ', 'A', '\n', 'e\u0301']
IDS = ['A(x=1)', 'A(x=2)', "B(x='s')", 'f(y=3)', 'W(z=1)', 'a', '', 'some text', 'A( x=1 )', 'A(x=1,y=2)', "o=A(x=1)"]
# other ways to refer to an id
WAYS = {'A(x=1)': ['what', 'nonid'], 'A(x=2)': ['what'], "B(x='s')": ['what'], 'f(y=3)': ['function', 'partial'], 'W(z=1)': ['whatable'], 'o=A(x=1)': ['what']}


def thing(i, way):
    from whatami import What, whatable
    from functools import partial
    text = IDS[i]
    ways = WAYS.get(text, [])
    way = 'string' if not ways or way == 0 else ways[(way - 1) % len(ways)]
    if way == 'string':
        return ''.join(list(text))
    if way == 'what':
        name, conf = {'A(x=1)': ('A', {'x': 1}), 'A(x=2)': ('A', {'x': 2}), "B(x='s')": ('B', {'x': 's'}), 'o=A(x=1)': ('A', {'x': 1})}[text]
        return What(name, conf, out_name='o' if text.startswith('o=') else None)
    if way == 'nonid':
        return What('A', {'x': 1, 'n': 7}, non_id_keys=['n'])

    def f(x, y=3):
        return x
    if way == 'function':
        return f
    if way == 'partial':
        def f(y):  # noqa
            return y
        return partial(f, 3)

    @whatable
    class W(object):
        def __init__(self):
            self.z = 1
    return W()


def gen(d):
    ops = []
    for _ in range(d.int(3, 30)):
        k = d.weighted([(10, 'register'), (5, 'remove'), (4, 'nick_or_id'), (1, 'reset')])
        nick = d.choice(NICKS[:d.choice([3, len(NICKS)])])
        i = d.int(0, d.choice([4, len(IDS) - 1]))
        way = d.int(0, 2)
        none = d.weighted([(14, 'no'), (1, 'nick'), (1, 'what'), (1, 'both')])
        if k == 'remove':
            none = d.weighted([(4, 'nick'), (4, 'what'), (5, 'no'), (1, 'both')])
        ops.append((k, nick, i, way, none))
    return ops


def judge(ops, ctx):
    from whatami.registry import WhatamiRegistry
    from whatami import What
    r = WhatamiRegistry(name='test')
    bystander = WhatamiRegistry()
    bystander.register('kept', 'k')
    n2i = {}

    def same(when):
        i2n = {i: n for n, i in n2i.items()}
        ctx.check(len(i2n) == len(n2i), 'model')
        for n in NICKS:
            ctx.eq(r.nick2id(n), n2i.get(n), '%s, id of nickname %r' % (when, n))
        for i in IDS:
            ctx.eq(r.id2nick(i), i2n.get(i), '%s, nickname of id %r' % (when, i))
            ctx.eq(r.nick_or_id(i), i2n.get(i, i), '%s, nick_or_id of %r' % (when, i))
        got = r.list()
        ctx.check(type(got) is list, 'list() gives %r', got)
        ctx.eq(got, sorted(n2i.items()), '%s, list' % when)

    same('at first')
    for n, (op, nick, i, way, none) in enumerate(ops):
        when = 'after %r' % (ops[:n + 1],)
        nick = ''.join(list(nick))
        text, what = IDS[i], thing(i, way)
        if none in ('what', 'both'):
            what, text = None, None
        if none in ('nick', 'both'):
            nick = None
        i2n = {v: k for k, v in n2i.items()}
        ctx.label(op)
        fails = None
        if op == 'register':
            if none != 'no':
                fails = ValueError
            elif n2i.get(nick, text) != text or i2n.get(text, nick) != nick:
                fails = Exception
            else:
                if nick in n2i:
                    ctx.label('same again')
                ret = r.register(what, nick) if n % 2 else r.register(what=what, nickname=nick)
                ctx.check(ret is what, 'register gives %r back', ret)
                n2i[nick] = text
            if fails:
                ctx.raises(fails, lambda: r.register(what, nick), '%s, register' % when)
        elif op == 'remove':
            if none == 'both':
                fails = ValueError
            elif nick is not None and nick not in n2i or text is not None and text not in i2n or none == 'no' and n2i[nick] != text:
                fails = Exception
            else:
                if none == 'what':
                    r.remove(nick) if n % 2 else r.remove(nickname=nick)
                elif none == 'nick':
                    r.remove(what=what)
                else:
                    r.remove(nick, what) if n % 2 else r.remove(what=what, nickname=nick)
                n2i.pop(nick if nick is not None else i2n[text])
            if fails:
                ctx.raises(fails, lambda: r.remove(nickname=nick, what=what), '%s, remove' % when)
        elif op == 'nick_or_id':
            w = thing(i, way)
            ctx.eq(r.nick_or_id(w), i2n.get(IDS[i], IDS[i]), '%s, nick_or_id' % when)
        else:
            r.reset()
            n2i = {}
        if fails:
            ctx.label('refused ' + op)
            ctx.interesting(bool(n2i))
        same(when)
    ctx.eq(bystander.list(), [('k', 'kept')], 'another registry')


def gen_large(d):
    n = d.choice([20, 65, 130, 300, 1100])
    ops = [(d.weighted([(5, 'register'), (3, 'remove'), (2, 'again'), (2, 'clash')]), d.draw(10 ** 6), d.bool(0.5)) for _ in range(d.int(5, 40))]
    return n, d.choice(['n%d', 'n%05d', '%d', 'A(x=%d)']), d.choice([1, 7, 11]), ops


def judge_large(case, ctx):
    """Registries with many entries."""
    from whatami.registry import WhatamiRegistry
    from whatami import What
    n, fmt, step, ops = case
    r, n2i = WhatamiRegistry(), {}
    step = step if n % step else 1

    def put(i, as_what):
        nick, text = fmt % i, 'A(x=%d)' % (i + 1)
        r.register(What('A', {'x': i + 1}) if as_what else text, nick)
        n2i[nick] = text
    for i in range(n):
        put(i * step % n, i % 3 == 0)
    for op, i, flag in ops:
        ctx.label(op)
        nicks = sorted(n2i)
        nick = nicks[i % len(nicks)]
        other = nicks[(i + 1) % len(nicks)]
        if op == 'register':
            put(n + len(ops) + i, flag)
        elif op == 'remove' and len(n2i) > 2:
            r.remove(nickname=nick) if flag else r.remove(what=n2i[nick])
            n2i.pop(nick)
            ctx.raises(Exception, lambda: r.remove(nickname=nick), 'removing again')
        elif op == 'again':
            r.register(n2i[nick], nick)
        elif op == 'clash' and nick != other:
            ctx.raises(Exception, lambda: r.register(n2i[nick], other), 'registering %r with the nickname of another' % n2i[nick])
            ctx.raises(Exception, lambda: r.register('B(y=1)', other), 'registering another id with %r' % other)
            ctx.raises(Exception, lambda: r.register(n2i[nick], 'another nickname'), 'registering %r with another nickname' % n2i[nick])
            ctx.raises(Exception, lambda: r.remove(nickname=nick, what=n2i[other]), 'removing what does not match')
            ctx.interesting()
        ctx.eq(r.nick2id(nick), n2i.get(nick), 'id of %r' % nick)
        ctx.eq(r.nick_or_id('B(y=1)'), 'B(y=1)', 'nickname of an unknown id')
        ctx.eq(r.list(), sorted(n2i.items()), 'list')
    i2n = {v: k for k, v in n2i.items()}
    for nick, text in n2i.items():
        ctx.eq((r.nick2id(nick), r.id2nick(text), r.nick_or_id(text)), (text, nick, nick), 'lookups of %r' % nick)
    for i in range(n):
        ctx.eq(r.id2nick('A(x=%d)' % (i + 1)), i2n.get('A(x=%d)' % (i + 1)), 'nickname of an id')


EX = [[('register', 'a', 0, 0, 'no'), ('register', 'a', 0, 1, 'no'), ('register', 'a', 1, 1, 'no'), ('register', 'b', 0, 2, 'no'), ('remove', 'a', 1, 1, 'no'),
       ('remove', 'a', 0, 1, 'no'), ('register', 'b', 0, 2, 'no'), ('register', 'A(x=1)', 5, 0, 'no'), ('register', '', 6, 0, 'no'), ('remove', '', 6, 0, 'what'),
       ('register', '', 6, 0, 'no'), ('remove', 'a', 6, 0, 'nick'), ('register', 'c', 8, 0, 'no'), ('reset', 'a', 0, 0, 'no'), ('register', 'b', 1, 1, 'no')]]
TESTS = [Test('histories', gen, judge, quick=2500, examples=EX), Test('large', gen_large, judge_large, quick=40)]
