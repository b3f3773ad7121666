"""Concrete interpreter of contracts: runs under the project's own interpreter on the
unmodified /repo code.  Reads JSON requests on stdin, one per line."""
import json
import math
import os
import random
import shutil
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Skip(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


TOL = 1e-7


class S(object):
    symbolic = False

    def __init__(self, values, rng):
        self.values = values
        self.rng = rng
        self.prefix = ''
        self.used = {}
        self.checks = 0
        self.labels = {}
        self.replay = values is not None
        self.dir = None

    def _get(self, name, gen):
        name = self.prefix + name
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, **kw):
        def gen():
            r = self.rng
            a = -100.0 if lo is None else float(lo)
            b = 100.0 if hi is None else float(hi)
            if lo is not None and hi is None:
                b = a + 100.0
            if hi is not None and lo is None:
                a = b - 100.0
            k = r.random()
            if k < 0.15:
                c = [x for x in (0.0, 1.0, -1.0, 0.5, a, b, 2.0, 10.0, 0.1, 0.0001, -0.25) if a <= x <= b]
                return r.choice(c)
            if k < 0.5:
                return min(b, max(a, round(r.uniform(a, b), r.choice([0, 1, 2, 3]))))
            if k < 0.8:
                return r.uniform(a, b)
            s = 10 ** r.uniform(-4, math.log10(max(abs(a), abs(b), 1e-3)))
            return min(b, max(a, r.choice([-1, 1]) * s))
        return float(self._get(name, gen))

    def int(self, name, lo=None, hi=None):
        def gen():
            a = -50 if lo is None else lo
            b = a + 100 if hi is None else hi
            if self.rng.random() < 0.2:
                return self.rng.choice([a, b])
            return self.rng.randint(a, b)
        return int(self._get(name, gen))

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, lambda: self.rng.randrange(len(options)))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def digits(self, name, n):
        return str(self._get(name, lambda: ''.join(self.rng.choice('0001234567899') for _ in range(n))))

    def text(self, name, n, alphabet=None, lo=32, hi=126, exclude=''):
        def gen():
            al = alphabet or ''.join(chr(c) for c in range(lo, hi + 1) if chr(c) not in exclude)
            return ''.join(self.rng.choice(al) for _ in range(n))
        return str(self._get(name, gen))

    def named(self, xs, witnesses):
        return [v for v in xs if any(v is w for w in witnesses)]

    def alist(self, name, factory, witness=None, witnesses=None):
        def run(seg):
            pre = '%s%s.%s[' % (self.prefix, name, seg)
            if self.values is not None:
                ks = [int(k[len(pre):].split(']')[0]) for k in self.values if k.startswith(pre)]
                n = max(ks) + 1 if ks else 0
            else:
                n = self.rng.choice([0, 0, 1, 1, 2, 3])
            out = []
            for i in range(n):
                old = self.prefix
                self.prefix = '%s%d].' % (pre, i)
                out.append(factory())
                self.prefix = old
            return out
        a = run('A')
        if witnesses is not None:
            for i, w in enumerate(witnesses):
                a = a + [w] + run('BCDE'[i])
            return a
        if witness is None:
            return a
        return a + [witness] + run('B')

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=''):
        self.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            raise Failed(label, detail)
        return True

    def cover(self, label):
        pass

    def eq(self, a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if _n(a) and _n(b):
            return _close(a, b)
        return a == b

    def exact(self, a, b):
        return a == b

    def near(self, a, b, tol):
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(self.near(x, y, tol) for x, y in zip(a, b))
        return abs(a - b) <= tol * (1 + 1e-9) + 1e-12

    def le(self, a, b):
        return a <= b or _close(a, b)

    def ge(self, a, b):
        return a >= b or _close(a, b)

    def lt(self, a, b):
        return a < b

    def gt(self, a, b):
        return a > b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def min(self, *a):
        return min(*a)

    def max(self, *a):
        return max(*a)

    def abs(self, a):
        return abs(a)

    def decide(self, c):
        return bool(c)

    def num(self, x):
        return float(x)

    def cos(self, a):
        return math.cos(a)

    def sin(self, a):
        return math.sin(a)

    def asin(self, a):
        return math.asin(max(-1.0, min(1.0, a)))

    def radians(self, a):
        return math.radians(a)

    def hypot(self, a, b):
        return math.hypot(a, b)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else 0.0

    pi = math.pi

    def div(self, a, b):
        return a / b

    def call(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def float_of(self, t):
        return float(t)

    def int_of(self, t):
        return int(t)

    def concat(self, *parts):
        return ''.join(parts)

    def lemma_cos_mono(self, a, b):
        pass

    def path(self, name, text=None):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix='vt-')
        p = os.path.join(self.dir, name)
        if text is not None:
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'w') as fh:
                fh.write(text)
        return p

    def written(self, path):
        with open(path) as fh:
            return [fh.read()]

    def close(self):
        if self.dir is not None:
            shutil.rmtree(self.dir, ignore_errors=True)

    def lazy_numbers(self):
        pass

    def explicit_digits(self):
        pass

    def lemma_trig_order(self, a, b):
        pass

    def lemma_polar(self, r, a, y, x):
        pass

    def lemma_acute(self, y1, x1, y2, x2):
        pass

    def lemma_congruence(self):
        pass

    def lemma_angle_add(self, a, b):
        pass

    def lemma_period(self, a, k):
        pass

    def axiom(self, c):
        pass


def _n(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _close(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def describe(v):
    return repr(v)[:400]


def run_one(sp, p, values, rng):
    s = S(values, rng)
    try:
        sp.fn(s, p)
        return {'status': 'ok', 'checks': s.checks, 'labels': s.labels}
    except Skip:
        return {'status': 'skip'}
    except Failed as f:
        return {'status': 'fail', 'label': f.label, 'detail': f.detail, 'values': s.used}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        from engine import reg
        if reg.interface_change(sp, e):
            return {'status': 'skip'}
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ['%s:%d %s' % (os.path.basename(t[0]), t[1], t[2]) for t in tb][-4:]
        return {'status': 'exc', 'label': 'no unexpected exception', 'exc': type(e).__name__,
                'detail': '%s: %s at %s' % (type(e).__name__, str(e)[:200], ' < '.join(reversed(where))),
                'values': s.used}
    finally:
        s.close()


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    from engine import reg
    specs = {}
    for line in sys.stdin:
        req = json.loads(line)
        prop = req['prop']
        if prop not in specs:
            try:
                specs[prop] = {s.name: s for s in reg.load(prop)}
            except BaseException as e:
                out.write(json.dumps({'status': 'loaderror', 'detail': '%s: %s' % (type(e).__name__, e)}) + '\n')
                out.flush()
                continue
        sp = specs[prop][req['spec']]
        p = sp.param_list(req.get('tier', 'quick'))[req['param']]
        if 'values' in req:
            rng = random.Random(req.get('seed', 1))
            res = run_one(sp, p, req['values'], rng)
        else:
            import time
            rng = random.Random(req['seed'] * 7919 + req['param'])
            ok = skip = checks = 0
            res = None
            t_end = time.time() + req.get('wall', 20)
            labels = {}
            for _ in range(req['n']):
                r = run_one(sp, p, None, rng)
                if r['status'] == 'ok':
                    ok += 1
                    checks += r['checks']
                    for k, v in r['labels'].items():
                        labels[k] = labels.get(k, 0) + v
                elif r['status'] == 'skip':
                    skip += 1
                else:
                    res = r
                    break
                if time.time() > t_end:
                    break
            if res is None:
                res = {'status': 'ok'}
            res.update({'n_ok': ok, 'n_skip': skip, 'n_checks': checks})
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
