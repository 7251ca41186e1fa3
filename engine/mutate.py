"""Single edits of specs."""
import unicodedata

from engine import ref, values
from engine.core import Discard


def nodes(spec, path=()):
    """All (path, node); a path is a tuple of steps to rebuild."""
    yield path, spec
    tag = spec[0]
    if tag in 'ltSF':
        for i, x in enumerate(spec[1]):
            for n in nodes(x, path + (('e', i),)):
                yield n
    elif tag == 'd':
        for i, (k, v) in enumerate(spec[1]):
            for n in nodes(k, path + (('k', i),)):
                yield n
            for n in nodes(v, path + (('v', i),)):
                yield n
    elif tag == 'w':
        for i, (k, v) in enumerate(spec[2]):
            for n in nodes(v, path + (('p', i),)):
                yield n


def replace(spec, path, new):
    if not path:
        return new
    (kind, i), rest = path[0], path[1:]
    if kind == 'e':
        xs = list(spec[1])
        xs[i] = replace(xs[i], rest, new)
        return (spec[0], xs)
    if kind == 'k':
        xs = list(spec[1])
        xs[i] = (replace(xs[i][0], rest, new), xs[i][1])
        return (spec[0], xs)
    if kind == 'v':
        xs = list(spec[1])
        xs[i] = (xs[i][0], replace(xs[i][1], rest, new))
        return (spec[0], xs)
    xs = list(spec[2])
    xs[i] = (xs[i][0], replace(xs[i][1], rest, new))
    return ('w', spec[1], xs, spec[3], spec[4])


CONFUSABLES = [['\n', '\r\n', '\r', '\x0b', '\x0c', '\x85', '\u2028', '\\n', '\n\n'], [' ', '\t', '\xa0', '  ', '        ', '\u3000', '\n', ''],
               ["'", '"', '\u2019', '`', "''", '\uff07'], ['\xe9', 'e\u0301', 'e', '\udce9', '\\xe9', '&eacute;', '?'], ['\xdf', 'ss', '\u1e9e', 'SS'],
               ['\x00', '', '\\0', '\\x00'], ['\ufeff', '\u200b', '\xad', ''], ['\\', '/', '\\\\'], ['\ufb01', 'fi'], ['\u212b', '\xc5', 'A\u030a'], ['0', 'O', '\u0660', ''],
               ['-', '_', '\u2013', ''], ['%', '%%'], ['{', '{{'], ['\U0001f600', '\ud83d\ude00', '\ud83d', '?'], ['i', '\u0131', 'I', '\u0130'], ['a', '\u0430', 'A'], [',', ';', ', ']]
TRANSFORMS = [str.casefold, str.upper, str.lower, str.title, str.strip, str.lstrip, str.rstrip, str.expandtabs, lambda s: ' '.join(s.split()), lambda s: '\n'.join(s.splitlines()),
              lambda s: unicodedata.normalize('NFC', s), lambda s: unicodedata.normalize('NFD', s), lambda s: unicodedata.normalize('NFKC', s),
              lambda s: s.encode('ascii', 'ignore').decode('ascii'), lambda s: s.encode('ascii', 'replace').decode('ascii'), lambda s: s.encode('ascii', 'backslashreplace').decode('ascii'),
              lambda s: s.encode('utf-8', 'replace').decode('utf-8'), lambda s: s.encode('unicode_escape').decode('ascii'), lambda s: repr(s)[1:-1], lambda s: s.split('\x00')[0],
              lambda s: s[::-1], lambda s: s.replace('\n', ''), lambda s: s + '\n', lambda s: ' ' + s, lambda s: s + s, lambda s: s.strip("'"), lambda s: s.strip('"')]


def edit_string(d, s):
    """A string that looks like s."""
    k = d.weighted([(6, 'edit'), (3, 'confuse'), (2, 'transform')])
    if k == 'confuse':
        group = d.choice(CONFUSABLES)
        found = [c for c in group if c and c in s]
        if found:
            return s.replace(d.choice(found), d.choice(group), d.choice([1, -1]))
    if k == 'transform':
        t = d.choice(TRANSFORMS)(s)
        if t != s:
            return t
    k = d.draw(5)
    i = d.int(0, len(s))
    c = d.choice(["'", '\\', ' ', 'a', ',', '\n', '"', '(', "\\'"])
    if k == 0 or not s:
        return s[:i] + c + s[i:]
    i = min(i, len(s) - 1)
    if k == 1:
        return s[:i] + s[i + 1:]
    if k == 2:
        return s[:i] + c + s[i + 1:]
    if k == 3:
        return s.swapcase()
    if k == 4:
        return s.strip() if s.strip() != s else s + ' '
    return "'" + s + "'"


def valid(spec):
    """Members of sets and dict keys are distinct and hashable; parameters distinct."""
    def bad(s):
        if s[0] in 'SF':
            return any(not ref.hashable(x) for x in s[1]) or len(values.distinct(s[1])) < len(s[1])
        if s[0] == 'd':
            keys = [k for k, _ in s[1]]
            return any(not ref.hashable(x) for x in keys) or len(values.distinct(keys)) < len(keys)
        if s[0] == 'w':
            return len(set(k for k, _ in s[2])) < len(s[2])
        return False
    return not ref.contains(spec, bad)


def looks(spec):
    """Different specs with the same documented text, by design: excluded from edits."""
    return ref.contains(spec, lambda s: s[0] == 'w' and s[1] in ('set', 'frozenset', 'int', 'float', 'complex'))


def other_kind(d, s):
    """Something of another kind that could be taken for s when described carelessly."""
    tag = s[0]
    text = lambda t: ('s', t)
    if tag == 'c':
        empty = {'list': ('l', []), 'dict': ('d', []), 'tuple': ('t', []), 'set': ('S', []), 'frozenset': ('F', [])}
        return d.choice([text(s[2]), text(s[1] + '.' + s[2]), ('w', s[2], [], None, []), empty.get(s[2], ('l', [])), ('d', [(text('class'), text(s[1] + '.' + s[2]))])])
    if tag in 'ltSFd':
        name = {'l': 'list', 't': 'tuple', 'S': 'set', 'F': 'frozenset', 'd': 'dict'}[tag]
        out = [('c', 'builtins', name), text(name), ('w', name, [('seq', s)], None, [])]
        if tag == 'd':
            out += [('l', [('t', [k, v]) for k, v in s[1]]), ('t', [k for k, _ in s[1]])]
            if all(k[0] == 's' and k[1].isidentifier() and k[1].isascii() for k, _ in s[1]):
                out += [('w', 'dict', [(k[1], v) for k, v in s[1]], None, [])]
        return d.choice(out)
    pair = [text(s[1]), ('n',) if s[3] is None else text(s[3])]
    conf = ('d', [(text(k), v) for k, v in s[2]])
    out = [('t', pair), ('t', pair[:1]), text(s[1]), conf, ('t', pair[:1] + [conf]), ('d', [(text('whatami_name'), pair[0]), (text('whatami_conf'), conf), (text('whatami_out_name'), pair[1])])]
    return d.choice(out)


def edit_node(d, s, o):
    tag = s[0]
    options = ['replace', 'wrap']
    if tag == 'i':
        options += ['number', 'totype']
    elif tag == 'f':
        options += ['number', 'totype']
    elif tag == 'b':
        options += ['flip', 'totype']
    elif tag == 'n':
        options += ['totype']
    elif tag == 's':
        options += ['text', 'text', 'totype']
    elif tag in 'lt':
        options += ['add', 'remove', 'swap', 'totype', 'dup']
    elif tag in 'SF':
        options += ['add', 'remove', 'totype']
    elif tag == 'd':
        options += ['add', 'remove', 'swapvalues', 'rename']
    elif tag == 'w':
        options += ['name', 'out', 'rename', 'addkey', 'removekey', 'swapvalues', 'name', 'inline']
    if tag in 'ltSFdwc':
        options += ['kind']
    k = d.choice(options)
    if k == 'kind':
        return other_kind(d, s)
    if k == 'replace':
        return values.gen_value(d, o, 2)
    if k == 'wrap':
        return d.choice([('l', [s]), ('t', [s]), ('w', 'A', [('a', s)], None, []), ('s', ref.render(s)), ('d', [(('s', 'a'), s)]),
                         ('F', [s]), ('S', [s])])
    if k == 'number':
        if tag == 'i':
            return ('i', d.choice([s[1] + 1, -s[1], s[1] * 10, s[1] - 1]))
        return ('f', d.choice(['nan', 'inf', '-inf', repr(-float(s[1])), repr(float(s[1]) + 1), repr(float(s[1]) * (1 + 2 ** -52))]))
    if k == 'flip':
        return ('b', 1 - s[1])
    if k == 'totype':
        if tag in 'ltSF':
            return (d.choice([t for t in 'ltSF' if t != tag]), s[1])
        return ('s', ref.render(s)) if tag != 's' else d.choice([('n',), ('b', 1), ('i', 0), ('f', 'nan'), ('f', '0.0'), ('l', []), ('S', [])]) \
            if d.bool(0.5) else {'i': lambda: ('f', repr(float(s[1] % 10 ** 9))), 'b': lambda: ('i', s[1]), 'f': lambda: ('s', s[1]),
                                 'n': lambda: ('s', 'None'), 's': lambda: ('t', [s])}[tag]()
    if k == 'text':
        return ('s', edit_string(d, s[1]))
    if k == 'add':
        xs = list(s[1])
        i = d.int(0, len(xs))
        new = values.gen_value(d, o, 1, hashable=tag in 'SFd')
        xs.insert(i, new if tag != 'd' else (new, values.gen_value(d, o, 1)))
        return (tag, xs)
    if k in ('remove', 'dup', 'swap', 'swapvalues', 'rename', 'removekey') and not (s[2] if tag == 'w' else s[1]):
        raise Discard()
    if k == 'remove':
        xs = list(s[1])
        xs.pop(d.int(0, len(xs) - 1))
        return (tag, xs)
    if k == 'dup':
        xs = list(s[1])
        i = d.int(0, len(xs) - 1)
        xs.insert(i, xs[i])
        return (tag, xs)
    if k == 'swap':
        xs = list(s[1])
        i, j = d.int(0, len(xs) - 1), d.int(0, len(xs) - 1)
        xs[i], xs[j] = xs[j], xs[i]
        return (tag, xs)
    if k == 'swapvalues':
        kvs = list(s[2] if tag == 'w' else s[1])
        i, j = d.int(0, len(kvs) - 1), d.int(0, len(kvs) - 1)
        kvs[i], kvs[j] = (kvs[i][0], kvs[j][1]), (kvs[j][0], kvs[i][1])
        return ('w', s[1], kvs, s[3], s[4]) if tag == 'w' else (tag, kvs)
    if k == 'rename':
        kvs = list(s[2] if tag == 'w' else s[1])
        i = d.int(0, len(kvs) - 1)
        new = values.gen_name(d) if tag == 'w' else values.gen_value(d, o, 1, hashable=True)
        kvs[i] = (new, kvs[i][1])
        return ('w', s[1], kvs, s[3], s[4]) if tag == 'w' else (tag, kvs)
    if k == 'name':
        return ('w', values.gen_name(d, values.WHAT_NAMES), s[2], s[3], s[4])
    if k == 'out':
        return ('w', s[1], s[2], None if s[3] is not None and d.bool(0.5) else values.gen_name(d), s[4])
    if k == 'addkey':
        return ('w', s[1], s[2] + [(values.gen_name(d), values.gen_value(d, o, 1))], s[3], s[4])
    if k == 'removekey':
        kvs = list(s[2])
        kvs.pop(d.int(0, len(kvs) - 1))
        return ('w', s[1], kvs, s[3], s[4])
    if k == 'inline':  # the parameters of a nested configuration move up
        nested = [i for i, (_, v) in enumerate(s[2]) if v[0] == 'w']
        if not nested:
            raise Discard()
        i = d.choice(nested)
        return ('w', s[1], s[2][:i] + s[2][i][1][2] + s[2][i + 1:], s[3], s[4])
    raise ValueError(k)


def edit(d, spec, o):
    """One edit at a random place; the result has different content."""
    all_nodes = list(nodes(spec))
    path, node = all_nodes[d.draw(len(all_nodes) - 1)]
    new = edit_node(d, node, o)
    if not path and new[0] != 'w':
        raise Discard()
    out = replace(spec, path, new)
    if not valid(out) or looks(out):
        raise Discard()
    return out
