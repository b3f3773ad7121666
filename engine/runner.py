"""Decides one property: verifies every contract, replays counterexamples, writes evidence.

usage: runner.py <property> [quick|thorough]
"""
import hashlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE = os.environ.get('VERIF_NATIVE', '/opt/venv-pypy/bin/python')

from engine import loader, reg  # noqa: E402


class Native(object):
    """The project's interpreter running contracts on the unmodified code."""

    def __init__(self):
        self.p = None

    def ask(self, req, timeout=60):
        if self.p is None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            self.p = subprocess.Popen([NATIVE, '-W', 'ignore', os.path.join(VERIF, 'engine', 'concrete.py')],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                      cwd=REPO, stderr=subprocess.DEVNULL)
        try:
            self.p.stdin.write((json.dumps(req) + '\n').encode())
            self.p.stdin.flush()
        except (BrokenPipeError, ValueError):
            self.p = None
            return {'status': 'dead'}
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p = None
            return {'status': 'timeout'}
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {'status': 'dead'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def verify_job(sp, pidx, tier, budget):
    """Symbolic verification of one contract instance (runs in a forked child)."""
    from engine import sym, symapi
    p = sp.param_list(tier)[pidx]
    ex = sym.Explorer(max_paths=sp.opts.get('max_paths', 6000), timeout_ms=sp.opts.get('timeout_ms', 15000),
                      max_decisions=sp.opts.get('max_decisions', 900),
                      wall_s=min(budget, sp.opts.get('wall_s', 240) * (3 if tier == 'thorough' else 1)),
                      crosscheck=(tier == 'thorough'))
    out = {'spec': sp.name, 'param': pidx, 'unsupported': None, 'excs': []}
    completed = [0]

    def path():
        from engine import shadow
        S = symapi.S(ex)
        try:
            sp.fn(S, p)
            completed[0] += 1
        except (sym.PathEnd, sym.Restart, sym.Unsupported):
            raise
        except RecursionError:
            raise sym.Unsupported('recursion limit')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.basename(t.filename), t.lineno, t.name) for t in tb][-4:]
            if reg.interface_change(sp, e):
                raise sym.Unsupported('private interface changed: %s' % e)
            if type(e).__module__.startswith('z3'):
                raise sym.Unsupported('solver interface: %s at %s' % (e, where))
            m = ex.path_model()
            if m == 'infeasible':
                return
            ob = sym.Obligation('no unexpected exception', 'failed', 'z3', 0.0, model=m,
                                detail='%s: %s at %s' % (type(e).__name__, str(e)[:200], ' < '.join(reversed(where))))
            ex.obligations.append(ob)
    t = time.time()
    try:
        ex.run_all(path)
    except sym.Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (os.path.basename(t_.filename), t_.lineno) for t_ in tb if '/gerber/' in t_.filename
                 or '/specs/' in t_.filename]
        out['unsupported'] = '%s: %s (%s)' % (type(e).__name__, e, ' '.join(where[-2:]))
    except Exception as e:
        out['unsupported'] = 'engine error %s: %s at %s' % (
            type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])
    obs = ex.obligations
    out.update({
        'wall': time.time() - t, 'paths': ex.paths, 'completed': completed[0], 'queries': ex.queries,
        'solver_time': ex.solver_time, 'restarts': ex.restarts,
        'discharged': len([o for o in obs if o.status == 'discharged']),
        'obligations': len(obs),
        'by_backend': {}, 'labels': {}, 'failed': [], 'covers': sorted(ex.covers),
        'cvc5': [ex.cvc5_agree, ex.cvc5_total]})
    for o in obs:
        if o.status == 'discharged':
            out['by_backend'][o.backend] = out['by_backend'].get(o.backend, 0) + 1
        L = out['labels'].setdefault(o.label, [0, 0])
        L[0] += 1
        L[1] += o.status == 'discharged'
        if o.status != 'discharged' and len(out['failed']) < 12:
            out['failed'].append({'label': o.label, 'status': o.status, 'values': o.model, 'detail': o.detail})
    return out


def child(conn, sp, pidx, tier, budget):
    try:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        r = verify_job(sp, pidx, tier, budget)
    except BaseException as e:
        r = {'spec': sp.name, 'param': pidx, 'unsupported': 'worker error %s: %s' % (type(e).__name__, e),
             'obligations': 0, 'discharged': 0, 'failed': [], 'labels': {}, 'by_backend': {}, 'paths': 0,
             'completed': 0, 'solver_time': 0, 'wall': 0, 'queries': 0, 'covers': [], 'cvc5': [0, 0], 'restarts': 0}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def empty(sp, pidx, why):
    return {'spec': sp.name, 'param': pidx, 'unsupported': why, 'obligations': 0, 'discharged': 0, 'failed': [],
            'labels': {}, 'by_backend': {}, 'paths': 0, 'completed': 0, 'solver_time': 0, 'wall': 0, 'queries': 0,
            'covers': [], 'cvc5': [0, 0], 'restarts': 0}


def run_pool(jobs, tier, deadline, procs):
    """Fork one process per job, at most `procs` at a time."""
    ctx = multiprocessing.get_context('fork')
    pending = list(jobs)
    running = []
    results = []
    while pending or running:
        while pending and len(running) < procs:
            sp, pidx = pending.pop(0)
            left = deadline - time.time()
            if left < 5:
                results.append(empty(sp, pidx, 'Limit: check time budget exhausted'))
                continue
            limit = min(left, sp.opts.get('wall_s', 240) * (3 if tier == 'thorough' else 1) + 60)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=child, args=(b, sp, pidx, tier, limit - 5))
            pr.start()
            b.close()
            running.append((pr, a, sp, pidx, time.time() + limit))
        if not running:
            continue
        multiprocessing.connection.wait([r[1] for r in running], timeout=0.5)
        still = []
        for pr, a, sp, pidx, t in running:
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(empty(sp, pidx, 'worker died'))
                pr.join()
                a.close()
            elif time.time() > t:
                pr.kill()
                pr.join()
                a.close()
                results.append(empty(sp, pidx, 'Limit: time'))
            elif not pr.is_alive() and not a.poll():
                results.append(empty(sp, pidx, 'worker died'))
                a.close()
            else:
                still.append((pr, a, sp, pidx, t))
        running = still
    return results


def native_pool(reqs, deadline, procs):
    """Concrete evaluation requests spread over several native interpreters."""
    import threading
    out = [None] * len(reqs)
    it = iter(range(len(reqs)))
    lock = threading.Lock()

    def work():
        n = Native()
        while True:
            with lock:
                i = next(it, None)
            if i is None:
                break
            if time.time() > deadline:
                out[i] = {'status': 'skipped'}
                continue
            out[i] = n.ask(reqs[i], timeout=max(10, min(120, deadline - time.time() + 20)))
        n.close()
    ts = [threading.Thread(target=work) for _ in range(max(1, min(procs, len(reqs))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return out


def source_fingerprint(functions):
    """sha256 of the source text of each function under contract (from the current tree)."""
    import ast
    out = {}
    cache = {}
    for f in functions:
        parts = f.split('.')
        for n in range(len(parts) - 1, 0, -1):
            path = os.path.join(REPO, *parts[:n]) + '.py'
            if os.path.exists(path):
                break
        else:
            out[f] = 'missing'
            continue
        if path not in cache:
            src = open(path, encoding='utf-8').read()
            cache[path] = (src, ast.parse(src))
        src, tree = cache[path]
        node = tree
        ok = True
        for nm in parts[n:]:
            nxt = [x for x in getattr(node, 'body', []) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == nm]
            if not nxt:
                ok = False
                break
            node = nxt[-1]
        out[f] = hashlib.sha256(ast.unparse(node).encode()).hexdigest()[:16] if ok else 'missing'
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = os.environ.get('VERIF_ONLY')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    procs = int(os.environ.get('VERIF_PROCS', '8'))
    t0 = time.time()
    total = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '3000'))
    deadline = t0 + total
    loaderr = None
    loader.install()
    try:
        specs = reg.load(prop)
    except BaseException as e:
        specs, loaderr = [], '%s: %s' % (type(e).__name__, e)
    if only:
        specs = [s for s in specs if only in s.name]
    # warm the rewritten modules in the parent (children inherit them)
    try:
        import gerber  # noqa
        import gerber.common, gerber.rs274x, gerber.excellon, gerber.ipc356, gerber.operations  # noqa
        import gerber.render.rs274x_backend, gerber.excellon_tool, gerber.excellon_settings, gerber.layers  # noqa
    except BaseException as e:
        loaderr = 'import: %s: %s' % (type(e).__name__, e)
    jobs = []
    for s in specs:
        if s.bounded is None and s.known is None:
            for i in range(len(s.param_list(tier))):
                jobs.append((s, i))
    jobs.sort(key=lambda j: -j[0].opts.get('weight', 1))
    results = run_pool(jobs, tier, t0 + total * 0.75, procs) if not loaderr else [empty(s, i, loaderr) for s, i in jobs]
    byname = {s.name: s for s in specs}
    violations, known_lines, notes = [], [], []
    native = Native()

    # 1. counterexamples: replay on the real code
    undecided = []
    failing = {}
    for r in results:
        if r['unsupported']:
            undecided.append(r)
        for f in r['failed']:
            failing.setdefault((r['spec'], f['label']), []).append((r, f))
    replayed = {}
    for (sname, label), items in sorted(failing.items()):
        hit = None
        for r, f in items[:25]:
            if f['values'] is None or f['values'] == 'infeasible':
                continue
            res = native.ask({'prop': prop, 'spec': sname, 'param': r['param'], 'tier': tier, 'values': f['values']})
            if res['status'] in ('fail', 'exc'):
                hit = (r, f, res)
                break
            notes.append('counterexample to %s/%s did not replay: %s; %s' % (sname, label, res['status'], f['detail']))
        if hit is None and time.time() < deadline:
            # directed search on the real code around the failed obligation
            for r, f in items[:6]:
                res = native.ask({'prop': prop, 'spec': sname, 'param': r['param'], 'tier': tier, 'seed': seed,
                                  'n': 4000, 'wall': 15}, timeout=60)
                if res['status'] in ('fail', 'exc'):
                    hit = (r, f, res)
                    break
        if hit:
            r, f, res = hit
            replayed[(sname, r['param'])] = True
            violations.append({'spec': sname, 'param': r['param'], 'label': res['label'], 'obligation': label,
                               'values': res['values'], 'detail': res.get('detail'), 'found': True})
        elif label == 'no unexpected exception' or all(f['status'] == 'unknown' for _, f in items):
            # exception inside the engine, or no verdict from the solvers: undecided, not a violation
            for r, f in items:
                r['unsupported'] = r['unsupported'] or ('%s: %s (not reproduced on the real code)' % (f['status'], f['detail'] or label))
                undecided.append(r)
        else:
            r, f = items[0]
            violations.append({'spec': sname, 'param': r['param'], 'label': label, 'obligation': label,
                               'values': f['values'], 'detail': f['detail'], 'found': False,
                               'solver': f['status']})

    # 2. run-time evaluation of the same contracts on the real code (cross-check and bounded stand-in)
    und = {(r['spec'], r['param']) for r in undecided}
    reqs, meta = [], []
    for s in specs:
        if s.known:
            continue
        ps = s.param_list(tier)
        n0 = s.opts.get('n', 60 if s.bounded is None else 1500)
        if tier == 'thorough':
            n0 *= 5
        for i in range(len(ps)):
            n = n0 * 8 if (s.name, i) in und else n0
            reqs.append({'prop': prop, 'spec': s.name, 'param': i, 'tier': tier, 'seed': seed, 'n': n,
                         'wall': 20 if tier == 'quick' else 60})
            meta.append((s, i))
    res = native_pool(reqs, deadline, procs)
    ev_n = ev_checks = ev_skip = 0
    bounded = []
    seenv = {(v['spec'], v['label']) for v in violations if v['found']}
    native_bad = []
    for (s, i), q, r in zip(meta, reqs, res):
        if r is None or r['status'] in ('timeout', 'dead', 'skipped', 'loaderror'):
            native_bad.append((s.name, i, r))
            continue
        ev_n += r.get('n_ok', 0)
        ev_checks += r.get('n_checks', 0)
        ev_skip += r.get('n_skip', 0)
        if r['status'] in ('fail', 'exc'):
            if (s.name, r['label']) not in seenv:
                seenv.add((s.name, r['label']))
                violations.append({'spec': s.name, 'param': i, 'label': r['label'], 'obligation': r['label'],
                                   'values': r['values'], 'detail': r.get('detail'), 'found': True,
                                   'by': 'run-time contract evaluation'})
        if s.bounded is not None or (s.name, i) in und:
            bounded.append({'contract': s.id, 'param': i, 'why': s.bounded or
                            [x['unsupported'] for x in undecided if (x['spec'], x['param']) == (s.name, i)][0],
                            'cases': r.get('n_ok', 0), 'bound': 'random + corner inputs, seed %d' % seed})
    for s in specs:
        if s.opts.get('scope'):
            bounded.insert(0, {'contract': s.id, 'why': 'collections of a fixed size', 'bound': s.opts['scope']})
    # violations without failing input are dropped when the same contract has a replayed one
    found_specs = {v['spec'] for v in violations if v['found']}
    violations = [v for v in violations if v['found'] or v['spec'] not in found_specs]

    # 3. known findings
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    kfd = {k['id']: k for k in kf['findings']}
    for s in specs:
        if s.known:
            for i in range(len(s.param_list(tier))):
                r = native.ask({'prop': prop, 'spec': s.name, 'param': i, 'tier': tier, 'values': {}})
                k = kfd[s.known]
                if r['status'] in ('fail', 'exc'):
                    if r['label'] in k['labels']:
                        line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
                        if line not in known_lines:
                            known_lines.append(line)
                    else:
                        violations.append({'spec': s.name, 'param': i, 'label': r['label'], 'obligation': r['label'],
                                           'values': r['values'], 'detail': r.get('detail'), 'found': True})
    native.close()

    # 4. evidence
    nob = sum(r['obligations'] for r in results)
    ndis = sum(r['discharged'] for r in results)
    functions = sorted({f for s in specs for f in s.functions})
    labels, backends = {}, {}
    for r in results:
        for k, v in r['labels'].items():
            L = labels.setdefault('%s: %s' % (r['spec'], k), [0, 0])
            L[0] += v[0]
            L[1] += v[1]
        for k, v in r['by_backend'].items():
            backends[k] = backends.get(k, 0) + v
    vac = [(r['spec'] + str(r.get('param'))) for r in results if not r['unsupported'] and r['completed'] == 0 and not r['failed']]
    vac += [r['spec'] for r in results if not r['unsupported'] and r['obligations'] == 0]
    if vac:
        notes.append('VACUOUS: %s' % sorted(set(vac)))
    missing_cover = []
    for s in specs:
        want = s.opts.get('covers', [])
        have = set()
        for r in results:
            if r['spec'] == s.name:
                have.update(r['covers'])
        missing_cover += ['%s/%s' % (s.name, c) for c in want if c not in have]
    contracts = []
    for s in specs:
        rs = [r for r in results if r['spec'] == s.name]
        contracts.append({
            'contract': s.id, 'statement': s.doc, 'functions': s.functions,
            'status': ('known finding' if s.known else 'bounded (not proved): ' + s.bounded if s.bounded else
                       ('bounded (all paths explored, not counted as proved for every size): ' + s.opts['scope'] if s.opts.get('scope') else 'proved') if rs and all(r['obligations'] == r['discharged'] and not r['unsupported'] and r['obligations'] for r in rs)
                       else 'not proved (bounded evaluation stood in)'),
            'instances': len(rs), 'obligations': sum(r['obligations'] for r in rs),
            'discharged': sum(r['discharged'] for r in rs), 'paths': sum(r['paths'] for r in rs),
            'solver_s': round(sum(r['solver_time'] for r in rs), 2),
            'invariant_restarts': sum(r['restarts'] for r in rs)})
    modspec = sys.modules.get(specs[0].fn.__module__) if specs else None
    assumptions = list(BASE_ASSUMPTIONS) + list(getattr(modspec, 'ASSUMPTIONS', []))
    cover = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'bin/check %s %s  (z3 %s; nlsat tactic and cvc5 as fall-back back ends%s)' % (
            prop, tier, _z3ver(), '; every discharged z3 obligation re-checked by cvc5' if tier == 'thorough' else ''),
        'trusted_base': ['z3 ' + _z3ver(), 'cvc5', 'engine/ (symbolic semantics of Python in this verifier)',
                         'CPython 3.12 evaluating the rewritten source', 'transform.py (mechanical rewriting)'],
        'discharged_by': backends, 'solver_seconds': round(sum(r['solver_time'] for r in results), 1),
        'solver_queries': sum(r['queries'] for r in results),
        'paths': sum(r['paths'] for r in results),
        'functions_under_contract': source_fingerprint(functions),
        'contracts': contracts, 'obligations_by_label': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(labels.items())},
        'bounded_stand_ins': bounded[:60],
        'runtime_contract_evaluations': {'cases': ev_n, 'checks': ev_checks, 'rejected_by_precondition': ev_skip,
                                         'interpreter': NATIVE, 'not_run': len(native_bad)},
        'undecided': sorted({'%s[%s]: %s' % (r['spec'], r['param'], r['unsupported']) for r in undecided})[:40],
        'missing_covers': missing_cover, 'notes': sorted(set(notes))[:40],
    }
    if tier == 'thorough':
        cover['cvc5_crosscheck'] = {'agreed': sum(r['cvc5'][0] for r in results), 'asked': sum(r['cvc5'][1] for r in results)}
    level = getattr(modspec, 'LEVEL', 'proof')
    if level != 'proof':
        cover.setdefault('explanation', getattr(modspec, 'EXPLANATION', ''))
        cover['evaluations'] = ev_n
        cover['distinct_nontrivial'] = ev_n
        cover['rule'] = getattr(modspec, 'RULE', 'inputs drawn from the contract precondition; trivial = rejected by it')
        cover['samples'] = [c['contract'] for c in contracts]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cover,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    # 5. report
    print('%s: %d contracts, %d obligations, %d discharged, %d paths, %.1fs solver, %d undecided, %d native cases, %.1fs' % (
        prop, len(specs), nob, ndis, cover['paths'], cover['solver_seconds'], len(und), ev_n, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for c in contracts:
            print('   ', c['contract'], c['status'], c['obligations'], c['discharged'], 'paths', c['paths'], c['solver_s'])
        for u in cover['undecided']:
            print('    UNDECIDED', u)
        for u in cover['notes']:
            print('    NOTE', u)
        for s_, i_, r_ in native_bad[:10]:
            print('    NATIVE', s_, i_, r_)
        if missing_cover:
            print('    MISSING COVER', missing_cover)
        slow = sorted(results, key=lambda r: -r['wall'])[:6]
        for r in slow:
            print('    slow %s[%s] %.1fs paths=%d' % (r['spec'], r['param'], r['wall'], r['paths']))
    if loaderr:
        print('note: ' + loaderr)
    for k in known_lines:
        print(k)
    if violations:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(violations[:10]):
            path = os.path.join(d, '%s-%d.json' % (prop, n + 1))
            sp = byname[v['spec']]
            v = dict(v, property=prop, tier=tier, contract=sp.doc, parameter=repr(sp.param_list(tier)[v['param']]),
                     how_to_replay='bin/replay %s' % path)
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('failed obligation: %s / %s  param=%s' % (v['spec'], v['obligation'], v['parameter']))
            print('   %s  input=%s' % (v['detail'], json.dumps(v['values'], default=str)[:600]))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['found'] else ' no-failing-input-found'))
        return 1
    return 0


def _z3ver():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


BASE_ASSUMPTIONS = [
    'A-REAL: Python floats are treated as mathematical reals, ints as unbounded integers; rounding is covered only by the '
    'run-time contract evaluations (tolerance 1e-7 relative)',
    'A-ENGINE: the verifier (engine/) implements Python semantics for the constructs the code uses; it is cross-checked on '
    'every run by evaluating the same contracts on the unmodified code under the project interpreter',
    'A-TRIG: sin, cos, atan2, sqrt are the mathematical functions, known to the solver only through the facts stated in '
    'engine/shadow.py (unit circle, quadrant signs, polar identity, sampled special values)',
]

if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
