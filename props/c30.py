import contextlib
import importlib
import os
import shutil
import sys
import tempfile
from engine.core import Test

RULE = ('A case is a package tree written to a scratch folder, with modules broken in several ways at random places, or a list of present, absent and broken variants of a library. '
        'Non-trivial: some module below the package, or some variant.')
ASSUMPTIONS = ['regular packages (with an __init__.py, in one or two folders); SystemExit and the like are not caught', 'lazily imported libraries fail with ImportError; "use" is accessing an attribute', 'the member is in the module if it can be imported']

NAMES = ['alpha', 'beta', 'json', 'os', 'tests', '_private', '__main__', 'with-dash', 'Upper', 'x', 'numpy', 'whatami']
BROKEN = ['absent', 'ImportError', 'ModuleNotFoundError', 'ValueError', 'syntax', 'AttributeError', 'KeyError', 'from', 'parent', 'absent deep']
ERRORS = {'absent': ImportError, 'ImportError': ImportError, 'ModuleNotFoundError': ImportError, 'ValueError': ValueError, 'syntax': SyntaxError, 'AttributeError': AttributeError,
          'KeyError': KeyError, 'from': ImportError, 'parent': ImportError, 'absent deep': ImportError}
CODE = {None: '', 'absent': 'import c30_not_there', 'ImportError': 'raise ImportError("no luck")', 'ModuleNotFoundError': 'raise ModuleNotFoundError("no luck")', 'ValueError': 'raise ValueError("no luck")',
        'syntax': 'x = = 3', 'AttributeError': 'import sys; sys.not_there', 'KeyError': '{}["x"]', 'from': 'from sys import not_there', 'parent': 'from . import not_there',
        'absent deep': 'from .not_there.at_all import x'}
_counter = [0]


def gen_broken(d, p):
    return d.choice(BROKEN) if d.bool(p) else None


def gen_children(d, depth, p):
    out = []
    for name in d.sample(NAMES, 0, 4 if depth > 1 else 3):
        kind = d.weighted([(4, 'module'), (4, 'package'), (1, 'folder')] if depth > 0 else [(4, 'module'), (1, 'folder')])
        if name == '__main__':
            kind = 'module'
        children = gen_children(d, depth - 1, p) if kind == 'package' else []
        eager = None
        if children and d.bool(0.2):
            candidates = [c[0] for c in children if c[1] != 'folder' and c[0].isidentifier()]
            eager = d.choice(candidates) if candidates else None
        out.append((name, kind, gen_broken(d, p), children, eager, bool(children) and d.bool(0.15)))
    return out


def gen(d):
    p = d.choice([0.0, 0.15, 0.4])
    return gen_children(d, d.int(0, 3), p), gen_broken(d, p * 0.3), d.bool(0.7), d.bool(0.6), d.choice(['string', 'module']), d.bool(0.2)


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix='c30')
    sys.path.insert(0, folder)
    before = set(sys.modules)
    sys.c30_log = []
    try:
        yield folder
    finally:
        sys.path.remove(folder)
        for name in set(sys.modules) - before:
            if name.startswith('c30_'):
                del sys.modules[name]
        sys.path_importer_cache.pop(folder, None)
        del sys.c30_log
        shutil.rmtree(folder)


def write(path, broken, mark, extra=''):
    with open(path, 'w') as f:
        f.write('import sys\nsys.c30_log.append(__name__)\n%s\n%s\nMARK = %r\n' % (extra, CODE[broken], mark))


def write_children(folder, name, children):
    for child, kind, broken, more, eager, split in children:
        full = name + '.' + child
        path = os.path.join(folder, child)
        if kind == 'module':
            write(path + '.py', broken, full)
            continue
        os.mkdir(path)
        if kind == 'package':
            write(os.path.join(path, '__init__.py'), broken, full, ('__path__.append(__file__.replace("__init__.py", "+more"))\n' if split else '') + ('from . import %s' % eager if eager else ''))
            n = len(more) // 2 if split else len(more)
            write_children(path, full, more[:n])
            if split:  # in two folders
                path = os.path.join(path, '+more')
                os.mkdir(path)
                write_children(path, full, more[n:])
        else:
            write(os.path.join(path, 'inside.py'), None, full + '.inside')


def status(node):
    """The set of errors importing it could raise."""
    name, kind, broken, children, eager, _ = node
    if eager is not None:
        for c in children:
            if c[0] == eager and status(c):
                return status(c) | {ImportError, ERRORS.get(broken, ImportError)}
    return {ERRORS[broken]} if broken else set()


def expected(name, children, recurse, found, errors):
    for c in children:
        if c[1] == 'folder':
            continue
        bad = status(c)
        errors |= bad
        if bad:
            continue
        found.append(name + '.' + c[0])
        if recurse and c[1] == 'package':
            expected(name + '.' + c[0], c[3], recurse, found, errors)


def judge(case, ctx):
    from whatami.misc import import_submodules
    children, broken, recurse, ignore, how, again = case
    _counter[0] += 1
    name = 'c30_%d' % _counter[0]
    with scratch() as folder:
        os.mkdir(os.path.join(folder, name))
        write(os.path.join(folder, name, '__init__.py'), broken, name)
        write_children(os.path.join(folder, name), name, children)
        importlib.invalidate_caches()
        found, errors = [], set()
        if broken:
            errors = {ERRORS[broken]}
        else:
            found.append(name)
            expected(name, children, recurse, found, errors)
        package = name
        if how == 'module' and not broken:
            package = importlib.import_module(name)
        kws = {}
        if not recurse:
            kws['recurse_packages'] = False
        if not ignore:
            kws['ignore_errors'] = False
        ctx.interesting(children)
        ctx.label('recursive' if recurse else 'first level', 'ignoring' if ignore else 'raising', 'broken' if errors else 'healthy')
        for _ in range(2 if again else 1):
            try:
                r = import_submodules(package, **kws)
            except Exception as e:
                ctx.check(not ignore, 'errors are to be ignored, but it raised %r', e)
                ctx.check(isinstance(e, tuple(errors)), 'raised %s(%s), expected one of %r', type(e).__name__, e, errors)
                ctx.label('raised')
                continue
            ctx.check(ignore or not errors, 'there are errors to raise (%r), but it returned %r', errors, sorted(r))
            ctx.eq(sorted(r), sorted(found), 'the modules')
            for k, m in r.items():
                ctx.check(m is sys.modules[k] and m.MARK == k, '%s is %r', k, m)
            if not errors and not any(c[4] for c in nodes(children)):
                ctx.eq(sorted(sys.c30_log), sorted(found), 'the modules that were executed')


def nodes(children):
    for c in children:
        yield c
        for x in nodes(c[3]):
            yield x


# --- Lazy imports

VARIANTS = {'c30_ok': None, 'c30_other': None, 'c30_pkg': None, 'c30_pkg.sub': None, 'c30_broken': 'ImportError', 'c30_broken2': 'absent', 'c30_pkg.broken': 'from', 'c30_badpkg': 'ModuleNotFoundError',
            'c30_badpkg.sub': None, 'c30_absent': 'x', 'c30_absent.deep': 'x', 'c30_ok.sub': 'x', 'c30_pkg.absent': 'x'}
MEMBERS = ['MARK', 'member', 'module', '_module', '_variants', '__doc__', '_errors', '_library_name', 'name', '__class__', '_install_msg', 'MARK', 'real_name', 'with_underscore_', '__name__', '__version__', '__file__', '__path__', '__dict__', '__all__']


def usable(v):
    return VARIANTS[v] is None and not v.startswith('c30_badpkg')


def gen_lazy(d):
    lib = d.choice(sorted(VARIANTS)) if d.bool(0.7) else d.choice(['a library', 'numpy', 'c30 lib'])
    variants = d.sample(sorted(VARIANTS), 0 if lib in VARIANTS else 1, 4)
    if d.bool(0.3) and all(not usable(v) for v in variants):
        variants = [v for v in variants if not usable(v)]
    return lib, d.choice([None, 'pip', 'conda', 'apt install it', '100% sure', '']), variants, [d.choice(MEMBERS) for _ in range(d.int(1, 3))], d.choice(['import', 'import', 'member', 'member or none']), \
        d.bool(0.1)


def judge_lazy(case, ctx):
    from whatami.misc import maybe_import, maybe_import_member
    lib, msg, variants, members, how, twice = case
    if lib not in VARIANTS and not variants:
        return
    with scratch() as folder:
        os.mkdir(os.path.join(folder, 'c30_pkg'))
        os.mkdir(os.path.join(folder, 'c30_badpkg'))
        for v, broken in VARIANTS.items():
            if broken != 'x':
                path = os.path.join(folder, *v.split('.'))
                write(os.path.join(path, '__init__.py') if v in ('c30_pkg', 'c30_badpkg') else path + '.py', broken, v,
                      '\n'.join('%s = %r' % (m, v + '!' + m) for m in MEMBERS if not m.startswith('__') and m != 'MARK'))
        importlib.invalidate_caches()
        tried = list(variants) or [lib]
        winner = next((v for v in tried if usable(v)), None)
        failed = tried if winner is None else tried[:tried.index(winner)]
        ctx.interesting()
        ctx.label(how, 'found' if winner else 'not found')

        def check_error(e, member):
            text = str(e)
            for s in [lib if how == 'import' or '.' not in lib else lib, member] + tried:
                ctx.check(s in text, 'the error does not name %r: %s', s, text)
            if msg in ('pip', 'conda'):
                ctx.check('%s install %s' % (msg, tried[0]) in text, 'the error does not say how to install it: %s', text)
            elif msg:
                ctx.check(msg in text, 'the error does not say how to install it: %s', text)

        for _ in range(2 if twice else 1):
            if how == 'import':
                m = maybe_import(lib, msg, *variants)
                if winner is not None:
                    ctx.check(m is sys.modules.get(winner), 'got %r, expected %s', m, winner)
                else:
                    for member in members:
                        if member.startswith('_') and not member.startswith('__'):
                            continue
                        e = ctx.raises(ImportError, lambda: getattr(m, member), 'using a library that cannot be imported (%s)' % member)
                        check_error(e, member)
            else:
                for member in members:
                    if member.startswith('_'):
                        continue
                    fail = how == 'member'
                    if winner is not None:
                        expected = getattr(importlib.import_module(winner), member)
                        ctx.check(maybe_import_member(lib + '.' + member, fail, msg, *variants) is expected, 'the member is not that of %s', winner)
                        ctx.eq(expected, winner if member == 'MARK' else winner + '!' + member, 'the member')
                    elif fail:
                        e = ctx.raises(ImportError, lambda: maybe_import_member(lib + '.' + member, fail, msg, *variants), 'importing a member of an absent module')
                        check_error(e, member)
                        if not variants:
                            ctx.raises(ImportError, lambda: maybe_import_member(lib + '.' + member), 'by default')
                    else:
                        r = maybe_import_member(lib + '.' + member, fail, msg, *variants)
                        ctx.check(r is None, 'the member of an absent module is %s', type(r))
                    ctx.raises(ValueError, lambda: maybe_import_member(member, fail, msg, *variants), 'a name without module')
        executed = [n for n in sys.c30_log]
        allowed = set()
        for v in failed + ([winner] if winner else []):
            allowed |= {v, v.split('.')[0]}
        ctx.check(set(executed) <= allowed, 'too many modules were imported: %r, expected at most %r', executed, allowed)


# --- What can be imported changes between calls

def gen_changes(d):
    p = d.choice([0.0, 0.3, 0.5])
    children = gen_children(d, d.int(0, 2), p)
    changes = []
    for _ in range(d.int(1, 4)):
        changes.append((d.choice(['add', 'add', 'fix', 'nothing', 'lazy']), d.int(0, 9), 'm%d' % d.int(0, 3), d.bool(0.7), d.bool(0.6), d.bool(0.5)))
    return children, changes


def judge_changes(case, ctx):
    from whatami.misc import import_submodules, maybe_import
    children, changes = case
    _counter[0] += 1
    name = 'c30_%d' % _counter[0]
    live = [list(c) for c in children]
    with scratch() as folder:
        top = os.path.join(folder, name)
        os.mkdir(top)
        write(os.path.join(top, '__init__.py'), None, name)
        write_children(top, name, children)
        for n, (kind, i, new, recurse, text, lib) in enumerate([('nothing', 0, '', True, True, True)] + changes):
            if kind == 'add' and all(c[0] != new for c in live):
                write(os.path.join(top, new + '.py'), None, name + '.' + new)
                live.append([new, 'module', None, [], None, False])
                ctx.interesting()
            elif kind == 'fix':
                bad = [c for c in live if c[1] == 'module' and c[2]]
                if bad:
                    c = bad[i % len(bad)]
                    path = os.path.join(top, c[0] + '.py')
                    os.remove(path)
                    shutil.rmtree(os.path.join(top, '__pycache__'), ignore_errors=True)
                    write(path, None, name + '.' + c[0])
                    c[2] = None
                    ctx.interesting()
            elif kind == 'lazy':  # a library that is looked for before and after it is installed, and another one that gives itself the same name
                library = name + '_lib%d' % n
                proxy = maybe_import('lib' if lib else library, 'pip', library)
                ctx.raises(ImportError, lambda: proxy.MARK, 'using a library that is not there')
                write(os.path.join(folder, library + '.py'), None, library)
                importlib.invalidate_caches()
                m = maybe_import('lib' if lib else library, 'pip', library)
                ctx.check(m is sys.modules.get(library) and m.MARK == library, 'got %s for the library now that it is there', type(m))
                other = maybe_import('lib', 'pip', library + '_other', name)
                ctx.check(other is sys.modules.get(name), 'got %s for another library with the same name', type(other))
                ctx.label('lazy')
                ctx.interesting()
            importlib.invalidate_caches()
            found = [name]
            expected(name, [tuple(c) for c in live], recurse, found, set())
            r = import_submodules(name if text else importlib.import_module(name), recurse_packages=recurse)
            ctx.eq(sorted(r), sorted(found), 'the modules after change %d (%s)' % (n, kind))
            for k, m in r.items():
                ctx.check(m is sys.modules[k] and m.MARK == k, '%s is %r', k, m)
            r['changed by the caller'] = None
            ctx.label(kind)


TESTS = [Test('submodules', gen, judge, quick=700), Test('lazy', gen_lazy, judge_lazy, quick=700), Test('changes', gen_changes, judge_changes, quick=300)]
