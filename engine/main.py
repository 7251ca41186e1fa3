"""Command line: python -m engine.main CNN [--tier quick|thorough] [--replay FILE] [--scale X]."""
import argparse
import ast
import importlib
import json
import os
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def die(msg, code=2):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(code)


def load(prop):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, '/repo')
    try:
        import whatami
    except Exception:
        raise
    if not os.path.abspath(whatami.__file__).startswith('/repo/'):
        die('whatami imported from %s' % whatami.__file__)
    return importlib.import_module('props.' + prop.lower())


def write_replay(prop, bad):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, bad['test'].replace(' ', '-')))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'test': bad['test'], 'case': repr(bad.get('case')), 'message': bad['message'],
                   'from': bad['from'], 'choices': bad.get('choices')}, f, indent=1)
        f.write('\n')
    return path


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2].strip())
    except IOError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', default=None)
    ap.add_argument('--worker', type=int, default=None)
    ap.add_argument('--workers', type=int, default=8)
    args = ap.parse_args()
    prop = args.prop.upper()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    signal.signal(signal.SIGALRM, lambda *_: die('time-out: inconclusive'))
    signal.alarm(820 if args.tier == 'quick' else 6 * 3600)
    sys.setrecursionlimit(5000)
    t0 = time.time()
    try:
        mod = load(prop)
    except Exception:
        # The tree cannot even be imported: this is not an answer about the property
        import traceback
        traceback.print_exc()
        die('cannot import the code or the check')
    from engine import core

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        test = [t for t in mod.TESTS if t.name == rep['test']][0]
        if rep['case'] == 'None' and rep.get('choices'):
            try:
                case = core.generate(test, core.D(prefix=rep['choices']))
            except core.Violation as v:
                print(v)
                print('VIOLATION property=%s replay=%s' % (prop, args.replay))
                return 1
        else:
            case = ast.literal_eval(rep['case'])
        msg, ctx = core.evaluate(test, case)
        if msg is None and test.finish is not None:
            bad = test.finish([(case, p) for p in ctx.deferred]) if ctx.deferred else []
            msg = bad[0][1] if bad else None
        if msg is not None:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            return 1
        print('replay: property holds for the case')
        return 0

    stats = core.Stats()
    bad = None
    tests = [t for t in mod.TESTS if args.only is None or t.name == args.only]

    def run(worker, nworkers):
        b = None
        for test in tests:
            n = test.quick if args.tier == 'quick' else test.thorough
            n = int(max(1, n * args.scale / nworkers))
            b = core.run_test(test, prop, seed, worker, n, stats, with_examples=worker == 0)
            if b is not None:
                break
        return b

    try:
        if args.worker is not None:  # child of a thorough run
            bad = run(args.worker, args.workers)
            out = {'stats': stats.dump(), 'bad': None if bad is None else {k: (repr(v) if k in ('case', 'original') else v)
                                                                           for k, v in bad.items()}}
            sys.stdout.write('\nRESULT ' + json.dumps(out) + '\n')
            return 0
        if args.tier == 'quick':
            bad = run(0, 1)
        else:
            procs = []
            for w in range(args.workers):
                cmd = [sys.executable, '-m', 'engine.main', prop, '--tier', args.tier, '--scale', str(args.scale),
                       '--worker', str(w), '--workers', str(args.workers)]
                if args.only:
                    cmd += ['--only', args.only]
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, cwd=ROOT, env=os.environ.copy()))
            for p in procs:
                out = p.communicate()[0].decode('utf-8', 'replace')
                line = [l for l in out.splitlines() if l.startswith('RESULT ')]
                if p.returncode != 0 or not line:
                    print(out[-3000:])
                    die('worker failed')
                res = json.loads(line[-1][7:])
                stats.merge(res['stats'])
                if res['bad'] is not None and bad is None:
                    bad = res['bad']
                    bad['case'] = ast.literal_eval(bad['case'])
    except core.GeneratorError as e:
        print(e)
        die('generator failed')
    except Exception:
        import traceback
        traceback.print_exc()
        die('harness error')

    known = known_findings(prop)
    seen_samples, samples = {}, []
    for s in stats.samples:
        if seen_samples.setdefault(s['test'], 0) < 3:
            seen_samples[s['test']] += 1
            samples.append(s)
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': stats.evaluations,
                     'distinct_nontrivial': len(stats.nontrivial_hashes),
                     'rule': mod.RULE,
                     'samples': samples,
                     'cases_by_test': dict(stats.generated_by_test),
                     'discarded': stats.discarded,
                     'labels': dict(sorted(stats.labels.items()))},
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0 if bad is None else 1}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if bad is not None:
        path = write_replay(prop, bad)
        print('test %s (%s) fails for %s' % (bad['test'], bad['from'], core._short(bad.get('case'), 2000)))
        print(bad['message'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s' % (
        prop, args.tier, seed, stats.evaluations, len(stats.nontrivial_hashes), stats.discarded, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
