"""A small property-based testing engine: choice sequences, fixed budgets, shrinking, replay files.

A *case* is a plain python literal made by ``gen(d)`` from a choice sequence. ``judge(case, ctx)`` decides it.
Nothing here reads a clock or any source of randomness other than the seed.
"""
import ast
import hashlib
import random
import sys
import traceback
from collections import Counter


class Violation(Exception):
    """The property does not hold for the case."""


class Discard(Exception):
    """The case is outside the domain of the property."""


class GeneratorError(Exception):
    """The harness itself failed (never reported as a violation)."""


class D(object):
    """Source of choices; the simplest choice is always 0."""

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []

    def draw(self, n):
        """An integer in [0, n]."""
        i = len(self.choices)
        if self.prefix is not None and i < len(self.prefix):
            v = min(self.prefix[i], n)
        elif self.rng is not None:
            v = self.rng.randint(0, n)
        else:
            v = 0
        self.choices.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def bool(self, p=0.5):
        """True with probability p; False is simplest."""
        return self.draw(999) >= 1000 - int(round(1000 * p))

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.draw(total - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def list(self, gen, lo=0, hi=5, p=None):
        out = []
        if p is None:
            avg = lo + (hi - lo) * 0.45
            p = 1 - 1.0 / (1 + max(avg - lo, 0.3))
        while len(out) < hi:
            if len(out) >= lo and not self.bool(p):
                break
            out.append(gen())
        return out

    def sample(self, seq, lo=0, hi=None):
        """A subsequence (no repetitions) of seq, in random order."""
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        n = self.int(min(lo, hi), hi)
        out = []
        for _ in range(n):
            out.append(seq.pop(self.draw(len(seq) - 1)))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq) - 1)))
        return out

    def seed(self):
        return self.draw(2 ** 30)


class Ctx(object):
    """What a judge uses to report; one per evaluation."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.deferred = []

    def label(self, *labels):
        self.labels.update(labels)

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True

    def defer(self, payload):
        self.deferred.append(payload)

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    @staticmethod
    def check(cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @staticmethod
    def eq(got, expected, what):
        if not (got == expected):
            raise Violation('%s: got %s, expected %s' % (what, _short(got), _short(expected)))

    @staticmethod
    def raises(exceptions, f, what):
        try:
            r = f()
        except exceptions as e:
            return e
        except Exception as e:
            raise Violation('%s: raised %s(%s) instead of %s' % (what, type(e).__name__, e, exceptions))
        raise Violation('%s: returned %s instead of raising %s' % (what, _short(r), exceptions))


def _short(x, n=400):
    try:
        r = repr(x)
    except Exception as e:
        r = '<repr failed: %r>' % e
    return r if len(r) < n else r[:n] + '...'


class Test(object):
    def __init__(self, name, gen, judge, quick=500, examples=(), finish=None, thorough=None):
        self.name = name
        self.gen = gen
        self.judge = judge
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.examples = list(examples)
        self.finish = finish  # finish([(case, payload)]) -> [(case, message)]


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.generated_by_test = Counter()
        self.nontrivial_hashes = set()
        self.labels = Counter()
        self.samples = []

    def merge(self, other):
        self.evaluations += other['evaluations']
        self.discarded += other['discarded']
        self.generated_by_test.update(other['by_test'])
        self.nontrivial_hashes.update(other['hashes'])
        self.labels.update(other['labels'])
        self.samples += other['samples']

    def dump(self):
        return {'evaluations': self.evaluations, 'discarded': self.discarded,
                'by_test': dict(self.generated_by_test), 'hashes': sorted(self.nontrivial_hashes),
                'labels': dict(self.labels), 'samples': self.samples}


def evaluate(test, case, stats=None, sample=True):
    """Returns (message or None, ctx). Message is not None when the property is violated."""
    ctx = Ctx()
    msg = None
    try:
        test.judge(case, ctx)
    except Discard:
        if stats is not None:
            stats.discarded += 1
        return None, ctx
    except Violation as v:
        msg = str(v)
    except MemoryError:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not e.args:  # an actual one
            raise
        tb = traceback.format_exc()
        msg = 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-3000:])
    if stats is not None:
        stats.evaluations += 1
        stats.generated_by_test[test.name] += 1
        for l in ctx.labels:
            stats.labels[l] += 1
        if ctx.nontrivial:
            h = hashlib.md5((test.name + repr(case)).encode('utf-8', 'surrogatepass')).hexdigest()[:16]
            new = h not in stats.nontrivial_hashes
            stats.nontrivial_hashes.add(h)
            n = sum(1 for s in stats.samples if s['test'] == test.name)
            if new and sample and n < 3 and len(repr(case)) < 1500:
                stats.samples.append({'test': test.name, 'case': repr(case)})
    return msg, ctx


def generate(test, d):
    try:
        return test.gen(d)
    except Discard:
        raise
    except Exception as e:
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith('/repo/') for f in files):
            raise Violation('exception while preparing a case: %s' % traceback.format_exc()[-3000:])
        raise GeneratorError(traceback.format_exc())


def shrink(test, choices, budget=1500):
    """Returns (choices, case, message) of a minimal failing case."""
    spent = [0]
    seen = {}

    def attempt(cs):
        key = tuple(cs)
        if key in seen:
            return seen[key]
        if spent[0] >= budget:
            return None
        spent[0] += 1
        d = D(prefix=list(cs))
        try:
            case = generate(test, d)
        except (Discard, GeneratorError, Violation):
            seen[key] = None
            return None
        msg, _ = evaluate(test, case)
        res = (list(d.choices), case, msg) if msg is not None else None
        seen[key] = res
        return res

    best = attempt(choices)
    if best is None:
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)

    improved = True
    while improved and spent[0] < budget:
        improved = False
        # delete blocks
        size = max(1, len(best[0]) // 2)
        while size >= 1:
            i = 0
            while i < len(best[0]):
                cs = best[0][:i] + best[0][i + size:]
                r = attempt(cs)
                if r is not None and better(r[0], best[0]):
                    best = r
                    improved = True
                else:
                    i += max(1, size // 2) if size > 4 else 1
                if spent[0] >= budget:
                    break
            size //= 2
        # lower values
        i = 0
        while i < len(best[0]):
            v = best[0][i]
            for nv in sorted({0, 1, v // 2, v - 1}):
                if 0 <= nv < v:
                    cs = list(best[0])
                    cs[i] = nv
                    r = attempt(cs)
                    if r is not None and better(r[0], best[0]):
                        best = r
                        improved = True
                        break
            i += 1
            if spent[0] >= budget:
                break
    return best


def is_literal(case):
    try:
        return ast.literal_eval(repr(case)) == case
    except Exception:
        return False


def run_test(test, prop, seed, worker, count, stats, with_examples=True):
    """Runs one test; returns None or a dict describing the violation."""
    deferred = []
    if with_examples:
        for case in test.examples:
            msg, ctx = evaluate(test, case, stats, sample=count == 0)
            if msg is not None:
                return {'test': test.name, 'case': case, 'message': msg, 'from': 'example'}
            deferred += [(case, p) for p in ctx.deferred]
    for index in range(count):
        h = hashlib.sha256(('%s/%s/%d/%d/%d' % (prop, test.name, seed, worker, index)).encode()).digest()
        d = D(rng=random.Random(int.from_bytes(h[:8], 'big')))
        try:
            case = generate(test, d)
        except Discard:
            stats.discarded += 1
            continue
        except Violation as v:
            return {'test': test.name, 'case': None, 'choices': d.choices, 'message': str(v), 'from': 'generator'}
        if index < 20 and not is_literal(case):
            raise GeneratorError('case is not a literal: %r' % (case,))
        msg, ctx = evaluate(test, case, stats)
        if msg is not None:
            small = shrink(test, d.choices)
            if small is not None:
                return {'test': test.name, 'case': small[1], 'message': small[2], 'from': 'random', 'original': case}
            return {'test': test.name, 'case': case, 'message': msg, 'from': 'random (does not shrink)'}
        deferred += [(case, p) for p in ctx.deferred]
    if test.finish is not None and deferred:
        bad = test.finish(deferred)
        if bad:
            bad = sorted(bad, key=lambda cm: len(repr(cm[0])))
            return {'test': test.name, 'case': bad[0][0], 'message': bad[0][1], 'from': 'batch'}
    return None
