from engine.core import Test, Discard
from engine import ref, values, objects
from engine.values import Options, gen_value, build, gen_what

RULE = ('A case is an object of one of 36 kinds (whatables, ducks, also ones that are collections, objects with foreign what attributes or methods, with id methods or attributes, classes of '
        'all of them, functions, whats, collections, strings, function-likes) with random public state. Non-trivial: the object has some state or a what of its own.')
ASSUMPTIONS = ['what() methods do not raise AttributeError or TypeError themselves', 'what is not a property']

O = Options(depth=1, nan=True)
FOREIGN = ['what-value', 'what-args', 'what-str', 'what-none', 'what-raises', 'what-dict', 'what-static']
KINDS = ['none', 'str', 'strsub', 'what', 'collection', 'plain', 'whatable', 'duck', 'instance', 'subclass', 'own-what-attr', 'id-method', 'id-value', 'duck+id', 'foreign+id',
         'foreign+idvalue', 'fn', 'fn-decorated', 'partial-decorated', 'functionlike', 'classmethod', 'ownstr', 'instance-foreign', 'instance-foreign+id', 'coll-id', 'coll-duck', 'coll-whatable', 'flagged', 'flagged+id'] + FOREIGN


def gen(d):
    kind = d.choice(KINDS)
    names = d.sample(['a', 'b', 'c', '_p', 'q_', 'x1', 'conf', 'non'], 0, 4)
    attrs = [(n, gen_value(d, O, 1)) for n in names]
    extra = None
    if kind == 'what':
        extra = gen_what(d, Options(depth=2, nonids=True), top=True)
    elif kind in ('str', 'strsub'):
        extra = values.gen_str(d)
    elif kind == 'collection':
        extra = (d.choice('ltdSF'), [])
        extra = (extra[0], [(('s', 'k'), ('i', 1))] if extra[0] == 'd' and d.bool() else values.distinct(d.list(lambda: values.gen_scalar(d, O), 0, 3)) if extra[0] != 'd' else [])
    elif kind.startswith('coll-'):
        t = d.choice('ltdS')
        extra = (t, [(('s', 'k'), ('i', 1))] if t == 'd' and d.bool() else values.distinct(d.list(lambda: values.gen_scalar(d, O), 0, 3)) if t != 'd' else [])
    elif kind.startswith('flagged'):
        extra = d.choice(['str', 'none', 'dict'])
    elif kind.startswith('instance-foreign'):
        extra = d.choice(['value', 'args', 'str', 'none', 'dict', 'truthy'])
    elif kind.startswith('foreign'):
        extra = d.choice([k for k in FOREIGN if k not in ('what-raises', 'what-static')])
    return kind, d.choice(objects.CLASS_NAMES), attrs, extra


class Foreign(object):
    pass


def add_foreign(cls, how):
    if how == 'what-value':
        cls.what = 3
    elif how == 'what-args':
        cls.what = lambda self, x: x
    elif how == 'what-str':
        cls.what = lambda self: 'a string'
    elif how == 'what-none':
        cls.what = lambda self: None
    elif how == 'what-dict':
        cls.what = lambda self: {'id': 3}
    elif how == 'what-raises':
        def what(self):
            raise ValueError('mine')
        cls.what = what
    elif how == 'what-static':
        cls.what = staticmethod(lambda: 'static')


def odd_class(n):
    """Members that make the objects false, or impossible to compare."""
    def broken(self, *args):
        raise ValueError('cannot be compared')
    return [{}, {}, {'__bool__': lambda self: False}, {'__len__': lambda self: 0}, {'__eq__': broken, '__ne__': broken, '__hash__': object.__hash__}, {'__bool__': broken}][n % 6]


def judge(case, ctx):
    from functools import partial
    from whatami import What, what2id, obj2what, is_whatable, whatable, id2what
    from whatami.whatutils import FunctionLike
    from whatami.misc import mlexp_info_helper
    kind, cname, attrs, extra = case
    ctx.label('kind ' + kind)
    ctx.interesting(bool(attrs) or kind in FOREIGN)
    cls = type(cname, (object,), odd_class(len(attrs) + len(kind)))
    public = {k: v for k, v in attrs if objects.public(k)}
    inspected = objects.render_call(cname, public)
    obj = None
    whatable_instance = False
    nested = None  # None: cname()
    o2w = None
    cls_whatable, cls_id, cls_nested = False, cname + '()', "<class '%s.%s'>" % (cls.__module__, cname)
    expected = inspected
    no_class = False

    def fill(o):
        for k, v in attrs:
            setattr(o, k, build(v))
        return o

    if kind in ('none', 'str', 'strsub', 'what', 'collection', 'fn', 'fn-decorated', 'partial-decorated'):
        no_class = True
    if kind == 'none':
        expected, nested = None, 'None'
        obj = None
    elif kind == 'str':
        obj, expected, nested = extra, extra, ref.render(('s', extra))
    elif kind == 'strsub':
        obj = type(cname, (str,), {})(extra)
        expected, nested = extra, ref.render(('s', extra))
    elif kind == 'what':
        obj = build(extra)
        expected = nested = ref.render(extra)
    elif kind == 'collection':
        obj = build(extra)
        # frozensets are described by their elements
        expected = '%s(seq=%s)' % (type(obj).__name__, ref.render(extra))
        nested = ref.render(extra)
        if extra[0] == 'F':
            expected = what2id(obj)
            ctx.check(all(ref.render(x) in expected for x in extra[1]), 'elements of %r', expected)
    elif kind in ('fn', 'fn-decorated', 'partial-decorated'):
        params = [(k, v) for k, v in attrs]
        f = objects.make_function('f', params)
        if kind == 'fn':
            obj, expected, nested = f, objects.render_call('f', public), objects.render_call('f', dict(params))
        else:
            if kind == 'partial-decorated':
                f = partial(f, **{k: build(v) for k, v in attrs[:1]})
            obj = whatable(f)
            whatable_instance = True
            expected = objects.render_call('f', dict(params))
    elif kind == 'plain':
        obj = fill(cls())
    elif kind in ('whatable', 'subclass'):
        cls = whatable(cls)
        if kind == 'subclass':
            cls = type(cname, (cls,), {})
        obj = fill(cls())
        whatable_instance = cls_whatable = True
        ctx.check(is_whatable(cls), 'whatable classes are whatable')
    elif kind in ('duck', 'duck+id'):
        cls.what = lambda self: What('Duck', {'state': sorted(k for k, _ in attrs)}, out_name='quack')
        expected = 'quack=Duck(state=[%s])' % ','.join(sorted("'%s'" % k for k, _ in attrs))
        if kind == 'duck+id':
            cls.id = lambda self: 'wrong'
        obj = fill(cls())
        whatable_instance = True
    elif kind == 'instance':
        obj = whatable(fill(cls()))
        whatable_instance = True
    elif kind == 'own-what-attr':
        obj = fill(cls())
        obj.what = lambda: What('Attr', {'n': len(attrs)})
        expected = 'Attr(n=%d)' % len(attrs)
        ctx.eq(what2id(obj), expected, 'what2id')
        return  # an unbound function: cannot be told from a foreign one
    elif kind == 'id-method':
        cls.id = lambda self: 'my id %d' % len(attrs)
        obj = fill(cls())
        expected, o2w = 'my id %d' % len(attrs), inspected
    elif kind == 'id-value':
        cls.id = 7
        obj = fill(cls())
    elif kind in ('foreign+id', 'foreign+idvalue'):
        add_foreign(cls, extra)
        cls.id = (lambda self: 'my id') if kind == 'foreign+id' else 'value'
        obj = fill(cls())
        if kind == 'foreign+id':
            expected, o2w = 'my id', inspected
    elif kind in FOREIGN:
        add_foreign(cls, kind)
        obj = fill(cls())
    elif kind.startswith('instance-foreign'):
        if kind.endswith('id'):
            cls.id = lambda self: 'my id'
            expected, o2w = 'my id', inspected
        obj = fill(cls())
        obj.what = {'value': 3, 'args': lambda x: x, 'str': lambda: 'a string', 'none': lambda: None, 'dict': lambda: {'id': 3}, 'truthy': [1]}[extra]
    elif kind.startswith('coll-'):
        base = {'l': list, 't': tuple, 'd': dict, 'S': set}[extra[0]]
        members = {'id': (lambda self: 'my id')} if kind == 'coll-id' else {'what': lambda self: What('Duck', {'n': len(self)})} if kind == 'coll-duck' else {}
        cls = type(cname, (base,), members)
        if kind == 'coll-whatable':
            cls = whatable(cls)
            cls_whatable = True
        obj = cls(build(extra))
        no_class = True
        described = '%s(seq=%s)' % (cname, ref.render(extra))
        if kind == 'coll-id':
            expected, o2w, nested = 'my id', described, described
        else:
            whatable_instance = True
            expected = 'Duck(n=%d)' % len(extra[1]) if kind == 'coll-duck' else described
        ctx.eq(what2id(cls), cname + '()', 'what2id of the class')
    elif kind.startswith('flagged'):  # says it is whatami's, but gives no configuration
        cls.what = {'str': lambda self: 'a string', 'none': lambda self: None, 'dict': lambda self: {'id': 3}}[extra]
        cls.what.whatami = True
        if kind == 'flagged+id':
            cls.id = lambda self: 'my id'
            expected, o2w = 'my id', inspected
        obj = fill(cls())
        no_class = True
    elif kind == 'functionlike':
        cls = type(cname, (FunctionLike,), {'__call__': lambda self: 3})
        obj = fill(cls())
        obj.changed = 0  # and then it changes
        what2id(obj), obj.what().id(), is_whatable(obj), obj.what().conf.clear()
        obj.changed = 1
        ctx.eq(obj.what().conf.get('changed'), 1, 'a changed attribute')
        del obj.changed
        whatable_instance = True
        no_class = True
    elif kind == 'classmethod':
        cls.what = classmethod(lambda c: What('ClassLevel', {'name': c.__name__}))
        obj = fill(cls())
        expected = "ClassLevel(name='%s')" % cname
        whatable_instance = cls_whatable = True
        cls_id = cls_nested = expected
    elif kind == 'ownstr':
        nested = ['own text', ' own text ', '\town', 'own\n', '', 'A(x=1)', "o'w'n", 'own  text'][len(attrs) + 4 * (cname > 'D') if len(attrs) < 4 else 0]
        cls.__str__ = lambda self: nested
        obj = fill(cls())
    if kind == 'what-raises':  # what() is believed to be right
        ctx.check(is_whatable(obj) is False and is_whatable(cls) is False, 'taken for whatable')
        ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s())' % cname, 'nested')
        ctx.eq(obj2what(obj).id(), inspected, 'obj2what')
    else:
        if whatable_instance:
            nested = expected
            ctx.eq(obj.what().id(), expected, 'what()')
        for _ in range(2):
            ctx.eq(what2id(obj), expected, 'what2id')
            ctx.check(is_whatable(obj) is whatable_instance, 'is_whatable is %r', is_whatable(obj))
            ctx.eq(What('A', {'x': obj}).id(), 'A(x=%s)' % (nested if nested is not None else cname + '()'), 'nested')
            if kind not in ('none', 'str', 'strsub', 'what'):
                ctx.eq(obj2what(obj).id(), o2w or expected, 'obj2what')
        info = mlexp_info_helper('T', data_setup=obj, model_setup='model', eval_setup=None, comments=kind, itime=lambda: 'now')
        ctx.eq((info['title'], info['data_setup'], info['model_setup'], info['eval_setup'], info['comments'], info['idate'], info['fsource']),
               ('T', expected, 'model', None, kind, 'now', None), 'experiment info')
        info = mlexp_info_helper('T', None, obj, obj)
        ctx.eq((info['data_setup'], info['model_setup'], info['eval_setup'], info['idate']), (None, expected, expected, None), 'experiment info')
        ctx.eq(list(info), ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments'], 'experiment info keys')
    if not no_class:
        ctx.check(is_whatable(cls) is cls_whatable, 'is_whatable(class) is %r', is_whatable(cls))
        if kind != 'what-static':
            ctx.eq(what2id(cls), cls_id, 'what2id of the class')
        ctx.eq(obj2what(cls).id(), cls_id, 'obj2what of the class')
        ctx.eq(What('A', {'x': cls}).id(), 'A(x=%s)' % cls_nested, 'class as a value')
    if kind.startswith('instance-foreign'):
        before, keys = obj.what, set(obj.__dict__)
        try:
            whatable(obj)
        except Exception as e:
            ctx.check('what' in str(e), 'odd exception %r', e)
        else:
            ctx.fail('an instance with its own foreign what was decorated over')
        ctx.check(obj.what is before and set(obj.__dict__) == keys, 'the foreign what of the instance was replaced')
        ctx.check('what' not in cls.__dict__, 'the class was changed')
    if kind in FOREIGN or kind.startswith('foreign'):
        before = cls.__dict__['what']
        for target in (obj, cls):
            try:
                whatable(target)
            except Exception as e:
                ctx.check('what' in str(e), 'odd exception %r', e)
            else:
                ctx.fail('%s with a foreign what was decorated over' % ('instance' if target is obj else 'class'))
        ctx.check(cls.__dict__['what'] is before and 'what' not in obj.__dict__, 'foreign what was replaced')
        if kind in ('what-str', 'what-args', 'what-none', 'what-dict'):
            got = whatable(cls, force_flag_as_whatami=True)
            ctx.check(got is cls and cls.__dict__['what'] is before, 'flagging changes the class')
            ctx.check(is_whatable(cls) is True, 'flagged but not whatable')


# --- whatamize_object

def gen_whatamize(d):
    return d.choice(['class', 'object', 'fqn', 'no module', 'no member']), d.choice(['none', 'foreign', 'whatable', 'inherited']), d.bool(), d.bool()


def judge_whatamize(case, ctx):
    from whatami import What, whatable
    from whatami.whatutils import whatamize_object
    from engine import fixtures
    target, has, force, fail = case
    ctx.interesting()
    wf = lambda self: What('given', {})
    if target in ('no module', 'no member'):
        name = 'nomodule_xyz.C' if target == 'no module' else 'engine.fixtures.Nope'
        if target == 'no member':
            raise Discard()
        call = lambda: whatamize_object(name, wf, fail_on_import_error=fail, force=force)
        if fail:
            ctx.raises(ImportError, call, 'whatamize_object')
        else:
            ctx.check(call() is None, 'returned something')
        return
    base = type('Base', (object,), {})
    cls = type('C', (base,), {})
    own = {'foreign': lambda self: 3, 'whatable': lambda self: What('own', {}), 'inherited': lambda self: What('base', {})}.get(has)
    if has == 'inherited':
        base.what = own
    elif own is not None:
        cls.what = own
    if target == 'fqn':
        fixtures.Target = cls
        t = 'engine.fixtures.Target'
    else:
        t = cls if target == 'class' else cls()
    try:
        whatamize_object(t, wf, fail_on_import_error=fail, force=force)
    finally:
        if target == 'fqn':
            del fixtures.Target
    holder = t if target == 'object' else cls
    if force or has == 'none':
        ctx.check(holder.__dict__.get('what') is wf, 'not whatamized')
        if target != 'object':
            ctx.eq(cls().what().id(), 'given()', 'what of instances')
    else:
        ctx.check(getattr(cls, 'what') is own and (holder is cls or 'what' not in holder.__dict__), 'an existing what was replaced')
    ctx.check(has == 'inherited' or 'what' not in base.__dict__, 'base changed')


EX = [(k, 'C', [('a', ('i', 1)), ('_p', ('i', 2))], {'str': 'x', 'strsub': "it's", 'what': ('w', 'A', [('x', ('i', 1))], 'o', []), 'collection': ('l', [('i', 1)]),
                                                     'foreign+id': 'what-value', 'foreign+idvalue': 'what-args', 'instance-foreign': 'value', 'instance-foreign+id': 'str', 'coll-id': ('d', [(('s', 'k'), ('i', 1))]), 'coll-duck': ('l', [('i', 1)]),
                                                     'coll-whatable': ('S', [('i', 1)]), 'flagged': 'str', 'flagged+id': 'none'}.get(k)) for k in KINDS]
TESTS = [Test('kinds', gen, judge, quick=1700, examples=EX), Test('whatamize', gen_whatamize, judge_whatamize, quick=300)]
