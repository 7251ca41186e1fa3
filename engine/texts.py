"""Texts around the id language: token rendering with blanks, edits, token soup."""
from engine import mutate, ref


def tokens(spec, d):
    """Tokens of a text denoting the spec; alternative spellings and member orders are drawn from d."""
    tag = spec[0]
    if tag == 's':
        return ["'" + ref.escape(spec[1]) + "'"]
    if tag == 'c':
        text = spec[2] if spec[1] == 'builtins' and d.bool(0.7) else spec[1] + '.' + spec[2]
        return ['<class ', "'" + text + "'", '>']
    if tag in 'ltS' and spec[1]:
        o, c = {'l': '[]', 't': '()', 'S': '{}'}[tag]
        return [o] + join([tokens(x, d) for x in (d.shuffle(spec[1]) if tag == 'S' else spec[1])]) + [c]
    if tag == 'l':
        return ['[', ']']
    if tag == 't':
        return ['(', ')']
    if tag == 'S':
        return ['set', '(', ')']
    if tag == 'F':
        if not spec[1]:
            return ['frozenset', '(', ')']
        return ['frozenset', '(', '{'] + join([tokens(x, d) for x in d.shuffle(spec[1])]) + ['}', ')']
    if tag == 'd':
        return ['{'] + join([tokens(k, d) + [':'] + tokens(v, d) for k, v in d.shuffle(spec[1])]) + ['}']
    if tag == 'w':
        out = [] if spec[3] is None else [spec[3], '=']
        return out + [spec[1], '('] + join([[k, '='] + tokens(v, d) for k, v in d.shuffle(spec[2])]) + [')']
    if tag == 'i' and d.bool(0.1):
        return ['%s0%d' % ('-' if spec[1] < 0 else '', abs(spec[1]))]
    if tag == 'f' and d.bool(0.3):
        f = float(spec[1])
        alternatives = [t for t in ('%e' % f, '%E' % f, '%.1f' % f, '%.20g' % f, '%g' % f) if 'n' not in t.lower() and float(t) == f and
                        any(c in t for c in '.eE')]
        if f == int(f if abs(f) < 1e10 else 0):
            alternatives.append('%d.' % f if f or not spec[1].startswith('-') else '-0.')
        if alternatives:
            return [d.choice(alternatives)]
    return [ref.render(spec)]


def join(xs):
    out = []
    for i, x in enumerate(xs):
        out += ([','] if i else []) + x
    return out


def spaced(toks, d, p=0.2):
    out = []
    for t in toks:
        if d.bool(p):
            out.append(''.join(d.list(lambda: d.choice(' \n\t\r'), 1, 3)))
        out.append(t)
    if d.bool(p):
        out.append(d.choice([' ', '\n', '  ']))
    return ''.join(out)


PIECES = list("()[]{}=,:'\\\"<>#.-+eE01 \n_aAx") + ['None', 'True', 'False', 'inf', '-inf', 'nan', 'set()', 'set', 'frozenset', 'frozenset({', '})',
          "<class '", "'>", 'a=1', ',b=2', '1.5', "'s'", 'f(', 'o=', "\\'", ',,', '()', '[]', '{}', ', ', ' = ', 'A', '=', ',', '(', ')']


def edit_text(d, s):
    for _ in range(d.weighted([(6, 1), (3, 2), (1, 3)])):
        k = d.draw(6)
        i = d.int(0, len(s))
        j = min(len(s), i + d.weighted([(5, 1), (2, 2), (1, 5)]))
        if k == 0:
            s = s[:i] + d.choice(PIECES) + s[i:]
        elif k == 1:
            s = s[:i] + s[j:]
        elif k == 2:
            s = s[:i] + d.choice(PIECES) + s[j:]
        elif k == 3:
            s = s[:i] + s[i:j] + s[i:]
        elif k == 4:
            s = s[:i]
        elif k == 5:
            m = d.int(0, len(s))
            s = s[:i] + s[m:m + 4] + s[i:]
        elif k == 6 and j < len(s):
            s = s[:i] + s[j] + s[i + 1:j] + s[i:i + 1] + s[j + 1:]
    return s


def soup(d):
    body = ''.join(d.list(lambda: d.choice(PIECES), 0, 9))
    k = d.draw(3)
    return body if k == 0 else 'A(' + body + ')' if k == 1 else 'A(x=' + body + ')' if k == 2 else 'A(x=1,' + body + ',y=2)'


def resolve(spec):
    """Replaces ('c?', fqn) by the importable class; raises ref.OutOfDomain otherwise."""
    import builtins
    import importlib
    tag = spec[0]
    if tag == 'c?':
        module, _, name = spec[1].rpartition('.')
        if not name or (module == '' and '.' in spec[1]) or module.startswith('.'):
            raise ref.OutOfDomain('odd class')
        try:
            c = getattr(importlib.import_module(module) if module else builtins, name)
        except Exception:
            raise ref.OutOfDomain('unimportable class')
        if not isinstance(c, type) or c.__module__ != (module or 'builtins') or c.__qualname__ != name or \
                (c in (int, float, complex)):
            raise ref.OutOfDomain('not a class of that name')
        return ('c', c.__module__, c.__qualname__)
    if tag in 'ltSF':
        return (tag, [resolve(x) for x in spec[1]])
    if tag == 'd':
        return ('d', [(resolve(k), resolve(v)) for k, v in spec[1]])
    if tag == 'w':
        return ('w', spec[1], [(k, resolve(v)) for k, v in spec[2]], spec[3], spec[4])
    return spec


def meaning(text):
    """Spec denoted by the text, or None if it is not in the language; raises ref.OutOfDomain."""
    try:
        spec = resolve(ref.parse(text))
    except ref.Reject:
        # a text can be both unparseable and full of repeated parameters: rejection wins
        return None
    if not mutate.valid(spec):
        raise ref.OutOfDomain('repeated members')
    return spec
