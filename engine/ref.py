"""Independent reference renderer and parser of whatami ids, over value specs. Never calls whatami.

Specs (plain literals):
  ('n',)  ('b', 0|1)  ('i', int)  ('f', 'repr')  ('s', str)  ('c', module, qualname)
  ('l', [..])  ('t', [..])  ('d', [(k, v)])  ('S', [..])  ('F', [..])
  ('w', name, [(key, value)], out_name | None, [non id keys])
"""
import re

NUMERIC_TYPES = ('int', 'float', 'complex')
BLANKS = ' \t\n\r'


# --- Strings

def escape(s):
    """Unescaped single quotes get a backslash, a dangling backslash gets its pair; everything else is kept."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if i + 1 < len(s):
                out.append(s[i:i + 2])
                i += 2
                continue
            out.append('\\\\')
        elif c == "'":
            out.append("\\'")
        else:
            out.append(c)
        i += 1
    return ''.join(out)


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            out.append("'" if s[i + 1] == "'" else s[i:i + 2])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def normal(s):
    """The string all strings identified with s parse to."""
    return unescape(escape(s))


# --- Rendering

def render(spec):
    tag = spec[0]
    if tag == 'n':
        return 'None'
    if tag == 'b':
        return 'True' if spec[1] else 'False'
    if tag == 'i':
        return '%d' % spec[1]
    if tag == 'f':
        return repr(float(spec[1]))
    if tag == 's':
        return "'" + escape(spec[1]) + "'"
    if tag == 'c':
        if spec[1] == 'builtins':
            if spec[2] in NUMERIC_TYPES:
                return spec[2] + '()'
            return "<class '%s'>" % spec[2]
        return "<class '%s.%s'>" % (spec[1], spec[2])
    if tag == 'l':
        return '[' + ','.join([render(x) for x in spec[1]]) + ']'
    if tag == 't':
        return '(' + ','.join([render(x) for x in spec[1]]) + ')'
    if tag == 'd':
        return '{' + ','.join(sorted(render(k) + ':' + render(v) for k, v in spec[1])) + '}'
    if tag == 'S':
        return '{' + ','.join(sorted(render(x) for x in spec[1])) + '}' if spec[1] else 'set()'
    if tag == 'F':
        return 'frozenset({' + ','.join(sorted(render(x) for x in spec[1])) + '})' if spec[1] else 'frozenset()'
    if tag == 'w':
        return render_what(spec)
    if tag in EXT_RENDER:
        return EXT_RENDER[tag](spec)
    raise ValueError(spec)


EXT_RENDER = {}  # tag -> function(spec)


def render_what(spec, non_ids_too=False, positional=False):
    _, name, kvs, out, nonids = spec
    parts = []
    for k, v in sorted(kvs, key=lambda kv: kv[0]):
        if non_ids_too or k not in nonids:
            parts.append(render(v) if positional else k + '=' + render(v))
    text = name + '(' + ','.join(parts) + ')'
    return text if out is None else out + '=' + text


# --- Old style

def render_old(spec):
    """Value in old-style ids; nested configurations are double quoted."""
    tag = spec[0]
    if tag == 'l':
        return '[' + ', '.join(render_old(x) for x in spec[1]) + ']'
    if tag == 't':
        return '(' + ', '.join(render_old(x) for x in spec[1]) + ')'
    if tag == 'd':
        return '{' + ', '.join(render_old(k) + ': ' + render_old(v) for k, v in spec[1]) + '}'
    if tag == 'S':
        return '{' + ', '.join(render_old(x) for x in spec[1]) + '}' if spec[1] else 'set()'
    if tag == 'w':
        return '"' + render_old_what(spec) + '"'
    return render(spec)


def render_old_what(spec):
    return spec[1] + '#' + '#'.join(k + '=' + render_old(v) for k, v in spec[2])


# --- Canonical specs: two values are the same value of the same type iff their canonical specs are equal

def canon(spec, strings=lambda s: s, drop_nonids=False):
    tag = spec[0]
    if tag in 'nbic':
        return tuple(spec)
    if tag == 'f':
        return ('f', repr(float(spec[1])))
    if tag == 's':
        return ('s', strings(spec[1]))
    if tag in 'lt':
        return (tag, [canon(x, strings, drop_nonids) for x in spec[1]])
    if tag == 'd':
        return ('d', sorted([(canon(k, strings, drop_nonids), canon(v, strings, drop_nonids)) for k, v in spec[1]], key=repr))
    if tag in 'SF':
        return (tag, sorted([canon(x, strings, drop_nonids) for x in spec[1]], key=repr))
    if tag == 'w':
        _, name, kvs, out, nonids = spec
        return ('w', name,
                sorted([(k, canon(v, strings, drop_nonids)) for k, v in kvs if not (drop_nonids and k in nonids)], key=repr),
                out)
    raise ValueError(spec)


def idcanon(spec):
    """Content that is part of the id, up to the documented identification of strings."""
    return canon(spec, strings=normal, drop_nonids=True)


def eqkey(spec):
    """Two values are == in python iff their eqkeys are equal (nan equals nan here)."""
    tag = spec[0]
    if tag == 'n':
        return ('n',)
    if tag in 'bi':
        return ('num', spec[1] + 0)
    if tag == 'f':
        x = float(spec[1])
        if x != x:
            return ('nan',)
        if x in (float('inf'), float('-inf')):
            return ('inf', x > 0)
        return ('num', int(x)) if x == int(x) else ('num', x)
    if tag == 's':
        return ('s', spec[1])
    if tag in ('c', 'c?'):
        return tuple(spec)
    if tag in 'lt':
        return (tag, tuple(eqkey(x) for x in spec[1]))
    if tag == 'd':
        return ('d', frozenset((eqkey(k), eqkey(v)) for k, v in spec[1]))
    if tag in 'SF':
        return ('S', frozenset(eqkey(x) for x in spec[1]))
    if tag == 'w':
        return ('w', spec[1], frozenset((k, eqkey(v)) for k, v in spec[2]), spec[3])
    raise ValueError(spec)


def contains(spec, pred):
    if pred(spec):
        return True
    tag = spec[0]
    if tag in 'ltSF':
        return any(contains(x, pred) for x in spec[1])
    if tag == 'd':
        return any(contains(k, pred) or contains(v, pred) for k, v in spec[1])
    if tag == 'w':
        return any(contains(v, pred) for _, v in spec[2])
    return False


def depth(spec):
    tag = spec[0]
    if tag in 'ltSF':
        return 1 + max([depth(x) for x in spec[1]] or [0])
    if tag == 'd':
        return 1 + max([max(depth(k), depth(v)) for k, v in spec[1]] or [0])
    if tag == 'w':
        return 1 + max([depth(v) for _, v in spec[2]] or [0])
    return 0


# --- Reference parser of the id language

class Reject(Exception):
    pass


class OutOfDomain(Exception):
    """Accepted text whose value is not covered by the property (repeated parameters, unhashable members...)."""


_ID = re.compile(r'[_A-Za-z][_a-zA-Z0-9]*')
_NUM = re.compile(r'-?[0-9]+((\.[0-9]*)?((e|E)(\+|-)?[0-9]+)?)?')


class Parser(object):

    def __init__(self, text):
        self.t = text
        self.i = 0

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in BLANKS:
            self.i += 1

    def peek(self, lit):
        self.ws()
        return self.t.startswith(lit, self.i)

    def eat(self, lit):
        if not self.peek(lit):
            raise Reject(self.i)
        self.i += len(lit)

    def maybe(self, lit):
        if self.peek(lit):
            self.i += len(lit)
            return True
        return False

    def name(self):
        self.ws()
        m = _ID.match(self.t, self.i)
        if m is None:
            raise Reject(self.i)
        self.i = m.end()
        return m.group()

    def string(self):
        self.ws()
        t, i = self.t, self.i
        if i >= len(t) or t[i] != "'":
            raise Reject(i)
        i += 1
        start = i
        while True:
            if i >= len(t):
                raise Reject(i)
            if t[i] == '\\':
                i += 2
            elif t[i] == "'":
                break
            else:
                i += 1
        if i >= len(t):
            raise Reject(i)
        self.i = i + 1
        return unescape(t[start:i])

    def top(self):
        w = self.what()
        self.ws()
        if self.i != len(self.t):
            raise Reject(self.i)
        return w

    def what(self):
        name, out = self.name(), None
        if self.maybe('='):
            out, name = name, self.name()
        self.eat('(')
        kvs = []
        if not self.peek(')'):
            while True:
                k = self.name()
                self.eat('=')
                kvs.append((k, self.value()))
                if not self.maybe(','):
                    break
        self.eat(')')
        if len(set(k for k, _ in kvs)) < len(kvs):
            raise Reject(self.i)
        return ('w', name, kvs, out, [])

    def elements(self, close):
        out = []
        if not self.peek(close):
            while True:
                out.append(self.value())
                if not self.maybe(','):
                    break
        self.eat(close)
        return out

    @staticmethod
    def distinct(specs):
        for s in specs:
            if not hashable(s):
                raise Reject(None)
        if len(set(eqkey(s) for s in specs)) < len(specs):
            raise OutOfDomain('repeated member')
        return specs

    def value(self):
        self.ws()
        c = self.t[self.i:self.i + 1]
        if c == "'":
            return ('s', self.string())
        if c == '(':
            self.i += 1
            return ('t', self.elements(')'))
        if c == '[':
            self.i += 1
            return ('l', self.elements(']'))
        if c == '{':
            self.i += 1
            if self.maybe('}'):
                return ('d', [])
            first = self.value()
            if self.maybe(':'):
                kvs = [(first, self.value())]
                while self.maybe(','):
                    k = self.value()
                    self.eat(':')
                    kvs.append((k, self.value()))
                self.eat('}')
                self.distinct([k for k, _ in kvs])
                return ('d', kvs)
            xs = [first]
            while self.maybe(','):
                xs.append(self.value())
            self.eat('}')
            return ('S', self.distinct(xs))
        if c == '<':
            if not self.t.startswith('<class ', self.i):
                raise Reject(self.i)
            self.i += len('<class ')
            fqn = self.string()
            self.eat('>')
            return ('c?', fqn)
        if c and (c.isdigit() or c == '-'):
            m = _NUM.match(self.t, self.i)
            if m is None:
                if self.t.startswith('-inf', self.i):
                    self.i += 4
                    return ('f', '-inf')
                raise Reject(self.i)
            self.i = m.end()
            text = m.group()
            return ('i', int(text)) if re.match(r'-?[0-9]+$', text) else ('f', repr(float(text)))
        # starts with a name, or rejected
        start = self.i
        name = self.name()
        after = self.i
        if self.peek('(') or self.peek('='):
            if name in ('set', 'frozenset') and self.maybe('('):
                if name == 'set' and self.maybe(')'):
                    return ('S', [])
                if name == 'frozenset':
                    if self.maybe(')'):
                        return ('F', [])
                    if self.maybe('{'):
                        xs = self.elements('}')
                        if not xs:
                            raise Reject(self.i)
                        self.eat(')')
                        return ('F', self.distinct(xs))
            self.i = start
            return self.what()
        self.i = after
        if name == 'None':
            return ('n',)
        if name in ('True', 'False'):
            return ('b', int(name == 'True'))
        if name in ('inf', 'nan'):
            return ('f', name)
        raise Reject(start)


def hashable(spec):
    tag = spec[0]
    if tag in 'ldS':
        return False
    if tag == 't':
        return all(hashable(x) for x in spec[1])
    return True


def parse(text):
    """Spec of the configuration denoted by text; raises Reject or OutOfDomain. Classes come as ('c?', fqn)."""
    return Parser(text).top()
