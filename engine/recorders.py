"""A model of whatami.registry.Recorder over literal descriptions of values, ids, postprocessors and calls.

Values:  ('v', literal)            a scalar: goes to all the records
         (kind, [literals])        an iterable, kind: list tuple gen range bytes set1 np iterobj
         ('dict', [(id, literal)]) by id
Ids:     ('one', literal) | (kind, [literals]) with kind: list tuple gen dict iterobj
Postprocessors: ('tag', column), ('copy',), ('order', n), ('drop', column), ('fail', n, exception): raises for about one of seven ids, ('ident',)
"""

import functools
import zlib

BAD = ('Exception', 'ValueError', 'TypeError', 'KeyError', 'StopIteration', 'KeyboardInterrupt')


class IterObj(object):
    """Iterable without length."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))


class Token(object):
    """Equal to nothing else."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'TOKEN%d' % self.n


TOKEN = Token(1)


def with_tokens(case):
    """Cases are literals, '<token>' stands for TOKEN."""
    if isinstance(case, (tuple, list)):
        return type(case)(with_tokens(x) for x in case)
    if isinstance(case, dict):
        return {k: with_tokens(v) for k, v in case.items()}
    return TOKEN if case == '<token>' else case


class GetItem(object):
    """Iterable by the old protocol."""

    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


def broken(xs):
    for x in xs:
        yield x
    raise ValueError('broken iterable')


def make(v):
    kind, x = v
    if kind in ('v', 'one'):
        return x
    if kind == 'dict':
        return dict(x)
    if kind == 'keys':
        return {k: None for k in x}
    return {'list': list, 'tuple': tuple, 'gen': lambda xs: (y for y in xs), 'range': lambda xs: range(len(xs)), 'bytes': lambda xs: bytes(bytearray(xs)),
            'iterobj': IterObj, 'getitem': GetItem, 'map': lambda xs: map(lambda y: y, xs), 'broken': broken}[kind](x)


def elements(v):
    return list(range(len(v[1]))) if v[0] == 'range' else list(v[1])


def extractor(name):
    """(live extractor, model of the extractor) sharing no state."""
    if name == 'str':
        return str, str
    if name == 'none':
        return None, lambda x: x
    if name == 'prefix':
        return (lambda x: 'id:%s' % (x,)), (lambda x: 'id:%s' % (x,))

    def counter():
        n = [0]

        def f(_):
            n[0] += 1
            return n[0]
        return f
    return counter(), counter()


class Failure(Exception):
    """The model says that add must raise."""


def unlucky(p, an_id):
    if isinstance(p[1], str):
        return p[1] == an_id or an_id == 'id:' + p[1]
    return zlib.crc32(repr(an_id).encode('utf-8', 'surrogatepass')) % 7 == p[1]


@functools.lru_cache(maxsize=None)
def live_pp(p):
    """The same for the same description: a chain can have it twice."""
    kind = p[0]
    if kind == 'tag':
        def f(an_id, record, recorder):
            record[p[1]] = ('tag', an_id, sorted(map(repr, record)))
            return record
    elif kind == 'copy':
        def f(an_id, record, recorder):
            return {k: v for k, v in record.items()}
    elif kind == 'order':
        def f(an_id, record, recorder):
            return dict(record, order=record.get('order', ()) + (p[1],))
    elif kind == 'drop':
        def f(an_id, record, recorder):
            record.pop(p[1], None)
            return record
    elif kind == 'empty':
        def f(an_id, record, recorder):
            return {}
    elif kind == 'ident':
        def f(an_id, record, recorder):
            return record
    else:
        def f(an_id, record, recorder):
            if unlucky(p, an_id):
                raise {n: t for n, t in ((n, getattr(__import__('builtins'), n)) for n in BAD)}[p[2]]('bad record')
            record['touched'] = True
            return record
    form = zlib.crc32(repr(p).encode('utf-8', 'surrogatepass'))
    f.__name__ = 'zmaq'[form % 4] + kind
    if form // 4 % 5 == 0:
        return functools.partial(lambda first, *args: f(*args), 'first')
    if form // 4 % 5 == 1:
        return Callable(f)
    return Callable(f).method if form // 4 % 5 == 2 else f


class Callable(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


class Model(object):
    def __init__(self, idcol, extract, defaults, pps):
        self.idcol = idcol
        self.extract = extract
        self.defaults = dict(defaults)
        self.pps = [self.pp(p) for p in pps]
        self.records = []  # [(id, record)]

    def pp(self, p):
        return p

    def run(self, p, an_id, record):
        if p[0] == 'tag':
            return dict(record, **{p[1]: ('tag', an_id, sorted(map(repr, record)))})
        if p[0] == 'order':
            return dict(record, order=record.get('order', ()) + (p[1],))
        if p[0] == 'drop':
            return {k: v for k, v in record.items() if k != p[1]}
        if p[0] == 'empty':
            return {}
        if p[0] == 'fail':
            if unlucky(p, an_id):
                raise Failure('postprocessor')
            return dict(record, touched=True)
        return dict(record)

    def add(self, ids, columns, unbox=True, pps=None, override=False):
        """The records, or Failure; pps are made by pp()."""
        if ids[0] == 'broken':
            raise Failure('broken iterable')
        if unbox and any(v[0] == 'broken' and len(v[1]) < len(elements(ids) if ids[0] != 'one' else [0]) for v in columns.values()):
            raise Failure('broken iterable')
        return self._add([self.extract(x) for x in ([ids[1]] if ids[0] == 'one' else elements(ids))], ids, columns, unbox, pps, override)

    def _add(self, names, ids, columns, unbox, pps, override):
        out = []
        chain = self.pps if pps is None else pps if override else self.pps + pps
        for i, an_id in enumerate(names):
            if any(an_id == n for n, _ in self.records + out):
                raise Failure('duplicate')
            record = {}
            for column, v in columns.items():
                if v[0] == 'v':
                    record[column] = v[1]
                elif v[0] == 'dict':
                    if an_id in dict(v[1]):
                        record[column] = dict(v[1])[an_id]
                elif unbox:
                    xs = elements(v)
                    record[column] = xs[i] if i < len(xs) else None
                else:
                    record[column] = Verbatim(v)
            if self.idcol in record:
                raise Failure('clash')
            record[self.idcol] = an_id
            for column, default in self.defaults.items():
                record.setdefault(column, default)
            for pp in chain:
                record = self.run(pp, an_id, record)
            out.append((an_id, record))
        self.records += out
        return out


class Verbatim(object):
    """The very object given, or an equal one."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Verbatim(%r)' % (self.v,)


def same_value(got, expected, originals=()):
    if isinstance(expected, Verbatim):
        v = expected.v
        if any(got is o for o in originals):
            return True
        m = make(v)
        return type(got) is type(m) and v[0] in ('list', 'tuple', 'range', 'bytes') and got == m
    return type(got) is type(expected) and (got == expected or got != got and expected != expected)


def same_record(got, expected, originals=()):
    return isinstance(got, dict) and set(got) == set(expected) and all(same_value(got[k], expected[k], originals) for k in expected)
