"""Recomputes results in another interpreter: python -m engine.child MODULE FUNCTION < list literal > list literal.

Each item is passed to props.MODULE.FUNCTION(item), which returns a literal.
"""
import ast
import importlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(module, function, items, hash_seeds=('0', '1', '20'), envs=None):
    """Runs the items in one process per hash seed (concurrently); returns one list of results per process.

    envs: for each process, more environment variables; those with VERIF_BLOCKED=a,b cannot import these libraries.
    """
    procs = []
    for i, hs in enumerate(hash_seeds):
        env = dict(os.environ, PYTHONHASHSEED=hs, **(envs[i] if envs else {}))
        procs.append(subprocess.Popen([sys.executable, '-m', 'engine.child', module, function], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT, env=env))
    import threading
    outs = [None] * len(procs)

    def talk(i):
        outs[i] = procs[i].communicate(repr([x[i] for x in items]).encode('utf-8', 'surrogatepass'))
    threads = [threading.Thread(target=talk, args=(i,)) for i in range(len(procs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    results = []
    for p, (out, err) in zip(procs, outs):
        line = [l for l in out.decode('utf-8', 'surrogatepass').splitlines() if l.startswith('RESULTS ')]
        if p.returncode != 0 or not line:
            raise RuntimeError('child failed: %s' % err.decode('utf-8', 'replace')[-3000:])
        results.append(ast.literal_eval(line[-1][8:]))
    return results


class Blocker(object):
    """Makes libraries not importable."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ImportError('No module named %s' % name)


def main():
    if os.environ.get('VERIF_BLOCKED'):
        sys.meta_path.insert(0, Blocker(os.environ['VERIF_BLOCKED'].split(',')))
    mod = importlib.import_module('props.' + sys.argv[1])
    f = getattr(mod, sys.argv[2])
    items = ast.literal_eval(sys.stdin.buffer.read().decode('utf-8', 'surrogatepass'))
    out = []
    for item in items:
        try:
            result = f(item)
            if ascii(result) != ascii(ast.literal_eval(ascii(result))):
                raise ValueError('not a literal: %s' % ascii(result)[:2000])
            out.append(('ok', result))
        except Exception as e:
            out.append(('raised', '%s: %s' % (type(e).__name__, e)))
    sys.stdout.buffer.write(('\nRESULTS ' + ascii(out) + '\n').encode())


if __name__ == '__main__':
    sys.path.insert(0, '/repo')
    main()
    sys.stdout.flush()
    os._exit(0)
