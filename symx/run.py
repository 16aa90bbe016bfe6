"""command line of the checks:  run.py <property id>   (VERIF_TIER, VERIF_SEED in the environment)
   internal:  run.py --worker <id>   numeric worker on the real code
              run.py --replay <file>"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def prop_module(pid):
    return importlib.import_module('props.' + pid.lower())


def scenarios(mod, tier):
    out = []
    for s in mod.scenarios(tier):
        s = dict(s)
        s.setdefault('params', {})
        s.setdefault('opts', {})
        s.setdefault('rtol', 1e-5)
        out.append(s)
    names = [s['name'] for s in out]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    return out


def load_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


# ------------------------------------------------------------------ symbolic side
def _record_funcs(store):
    """collect the functions of the code under check that start"""
    base = os.path.join(os.path.realpath(REPO), 'acoular') + os.sep
    m = sys.monitoring

    def start(code, off):
        if os.path.realpath(code.co_filename).startswith(base):
            store.add((code.co_filename, code.co_qualname))
        return m.DISABLE
    m.use_tool_id(m.PROFILER_ID, 'symx')
    m.register_callback(m.PROFILER_ID, m.events.PY_START, start)
    m.set_events(m.PROFILER_ID, m.events.PY_START)


def blank(error, name, wall=0.0):
    return {'errors': [error], 'failures': [], 'inconclusive': [], 'paths': 0, 'reached': 0, 'forks': 0, 'queries': 0,
            'unsat': 0, 'obligations': 0, 'solver_s': 0, 'asserts': {}, 'witnesses': [], 'ranges': {}, 'wall_s': wall,
            'unknown_paths': 0, 'known': [], 'funcs': [], 'name': name}


def _sym_one(args):
    pid, idx, tier, findings = args
    if os.environ.get('VERIF_NOSYM'):       # development: try the search on the real code alone
        return blank('not tried', scenarios(prop_module(pid), tier)[idx]['name'])
    from symx import engine
    mod = prop_module(pid)
    s = scenarios(mod, tier)[idx]
    e = engine.Engine(s['fn'], s['params'], **s['opts'])
    e.known = [k for k in findings if k['scenario'] in (s['name'], '*')]
    funcs = set()
    t = time.time()
    _record_funcs(funcs)
    if os.environ.get('VERIF_TRACE'):
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['VERIF_TRACE']))
    try:
        r = e.run()
    except Exception:
        r = blank('engine: ' + traceback.format_exc()[-1500:], s['name'], time.time() - t)
    finally:
        sys.monitoring.free_tool_id(sys.monitoring.PROFILER_ID)
    base = os.path.join(os.path.realpath(REPO), 'acoular') + os.sep
    r['funcs'] = sorted({os.path.realpath(f)[len(base):] + ':' + q for f, q in funcs if '<' not in q.split('.')[-1]})
    r['name'] = s['name']
    return r


# ------------------------------------------------------------------ numeric side
def numeric_one(mod, tier, job):
    from symx import engine
    s = [x for x in scenarios(mod, tier) if x['name'] == job['scenario']][0]
    c = engine.NumCtx(job['values'], seed=job.get('seed', 0), rtol=s['rtol'])
    np.random.seed(0)
    try:
        s['fn'](c, **s['params'])
    except engine.AssumeFailed:
        return {'status': 'assume', 'used': c.used}
    except engine.CheckFailed as e:
        return {'status': 'fail', 'msg': str(e), 'used': c.used}
    except Exception as e:
        return {'status': 'raise', 'msg': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:],
                'used': c.used}
    return {'status': 'ok', 'checks': c.nchecks, 'used': c.used}


def worker(pid):
    global np
    os.environ['NUMBA_BOUNDSCHECK'] = '1'
    real_out = os.dup(1)
    os.dup2(2, 1)
    import numpy as np
    from symx import patch
    patch.load(False)
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    poison()
    mod = prop_module(pid)
    with os.fdopen(real_out, 'w') as out:
        out.write('ready\n')
        out.flush()
        for line in sys.stdin:
            job = json.loads(line)
            r = numeric_one(mod, job['tier'], job)
            out.write(json.dumps(r, default=str) + '\n')
            out.flush()


def poison():
    """numpy.empty may return anything: make it return something recognisable"""
    import types
    real_empty, real_el = np.empty, np.empty_like

    def fill(a):
        if a.dtype.kind in 'fc':
            a.fill(7.7e77 if a.dtype.itemsize > 4 else 7.7e33)
        return a

    def empty(*a, **k):
        return fill(real_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(real_el(*a, **k))
    for n, m in list(sys.modules.items()):
        if n.startswith('acoular') and isinstance(m, types.ModuleType):
            used = set()
            for v in list(m.__dict__.values()):
                f = getattr(v, 'py_func', None)
                if f is not None and hasattr(f, '__code__'):
                    used.update(f.__code__.co_names)
            for nm, f in (('empty', empty), ('empty_like', empty_like)):
                if m.__dict__.get(nm) in (real_empty, real_el) and nm not in used:
                    m.__dict__[nm] = f


class NumericWorker:
    def __init__(self, pid, scratch):
        env = dict(os.environ)
        env['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['NUMBA_BOUNDSCHECK'] = '1'
        env.setdefault('OPENBLAS_NUM_THREADS', '1')
        self.err = open(os.path.join(scratch, 'worker.err'), 'w+')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'run.py'), '--worker', pid], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=scratch, env=env)
        self.ready = False

    def ask(self, job):
        if not self.ready:
            line = self.p.stdout.readline()
            if line.strip() != 'ready':
                self.err.flush()
                self.err.seek(0)
                raise RuntimeError('numeric worker did not start: ' + self.err.read()[-1500:])
            self.ready = True
        self.p.stdin.write(json.dumps(job) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {'status': 'crash', 'msg': 'process died (rc %s)' % self.p.wait()}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def ints_only(values, ranges):
    return {k: v for k, v in values.items() if ranges.get(k, (0, 0, 0, False))[3]}


def main(pid):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    os.chdir(scratch)
    worker_ = None
    try:
        os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
        os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba_sym')
        worker_ = NumericWorker(pid, scratch)
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        from symx import ident, patch  # noqa: F401, ident registers the stand-in for the hash
        patch.load(True)
        mod = prop_module(pid)
        scs = scenarios(mod, TIER)
        only = os.environ.get('VERIF_ONLY')
        findings = load_findings(pid)
        idxs = [i for i in range(len(scs)) if not only or only in scs[i]['name']]
        order = sorted(idxs, key=lambda i: -scs[i].get('cost', 1))
        ctx = mp.get_context('fork')
        limit = float(os.environ.get('VERIF_DEADLINE') or (700 if TIER == 'quick' else 10800))
        with ctx.Pool(min(8, len(order), os.cpu_count() or 1), maxtasksperchild=1) as pool:
            jobs = [(i, pool.apply_async(_sym_one, ((pid, i, TIER, findings),))) for i in order]
            results = []
            for i, j in jobs:
                try:
                    results.append(j.get(max(0.1, limit - (time.time() - t0))))
                except mp.TimeoutError:
                    results.append(blank('time for the check is over', scs[i]['name']))
            pool.terminate()
        return finish(pid, mod, scs, results, worker_, findings, t0)
    finally:
        if worker_:
            worker_.close()
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def reachable(w, name):
    """an input that meets all assumptions, when the solver gave no model of them in time"""
    for i in range(60):
        out = w.ask({'scenario': name, 'values': {}, 'tier': TIER, 'seed': SEED * 5000 + i})
        if out['status'] == 'ok' and out['checks']:
            return True
    return False


def finish(pid, mod, scs, results, w, findings, t0):
    violations, errors, known_hit, validated, val_checks = [], [], {}, 0, 0
    undecided, decided = {}, 0
    samples = []
    byname = {s['name']: s for s in scs}
    for r in results:
        nm = r['name']
        open_ = list(r['errors']) + ['solver could not decide %r' % (e,) for e in r['inconclusive']]
        if r.get('known'):
            for k in r['known']:
                known_hit[k] = known_hit.get(k, 0) + 1
        if not r['failures'] and not r.get('known') and not r['errors'] and r['reached'] == 0 and not (
                r.get('unknown_paths') and reachable(w, nm)):
            errors.append('%s: vacuous, no assertion was reached on a feasible path' % nm)
        # replay counterexamples on the real code
        rep = False
        for f in r['failures']:
            tries = [f['values']] + [ints_only(f['values'], r['ranges'])] * 5
            out = None
            for i, v in enumerate(tries):
                out = w.ask({'scenario': nm, 'values': v, 'tier': TIER, 'seed': SEED * 100 + i})
                if out['status'] in ('fail', 'raise', 'crash'):
                    violations.append({'scenario': nm, 'label': f['label'], 'why': f['why'], 'values': out.get('used', v),
                                       'real': out.get('msg'), 'seed': SEED * 100 + i})
                    rep = True
                    break
                if out['status'] == 'crash':
                    break
            if rep:
                break
        if r['failures'] and not rep:
            f = r['failures'][0]
            open_.append('counterexample for %r (%s) did not reproduce on the real code: %s\n%s' % (
                f['label'], f['why'], json.dumps(f['values'])[:600], f.get('tb', '')))
        if open_ and not rep:
            undecided[nm] = open_          # no verdict, listed in the evidence
            continue
        decided += 1
        # push solver-made inputs of passing paths through the real code
        if not r['failures'] and not byname[nm].get('novalidate'):
            jobs = []
            for i, v in enumerate(r['witnesses']):
                jobs.append(v)
                jobs.append(ints_only(v, r['ranges']))
            for i, v in enumerate(jobs):
                out = w.ask({'scenario': nm, 'values': v, 'tier': TIER, 'seed': SEED * 1000 + i})
                if out['status'] == 'ok':
                    validated += 1
                    val_checks += out['checks']
                    if len(samples) < 8:
                        samples.append({'scenario': nm, 'inputs': {k: out['used'][k] for k in list(out['used'])[:12]},
                                        'checks_passed_on_real_code': out['checks']})
                elif out['status'] == 'assume':
                    continue
                else:
                    if known_match(findings, nm, out.get('msg', ''), out.get('used', {})):
                        continue
                    violations.append({'scenario': nm, 'label': 'validation of the encoding', 'why':
                                       'real code and encoding disagree', 'values': out.get('used', v),
                                       'real': out.get('msg'), 'tb': out.get('tb'), 'seed': SEED * 1000 + i})
                    break
    funcs = sorted({f for r in results for f in r['funcs']})
    tot = lambda k: sum(r.get(k, 0) for r in results)
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, [x for x in findings if x['id'] == k][0]['what']))
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': tot('paths'), 'transitions': tot('forks') + tot('queries'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no numeric witness'}],
            'paths_explored': tot('paths'), 'paths_with_assertions': tot('reached'),
            'solver_queries': tot('queries'), 'obligations': tot('obligations'), 'unsat_verdicts': tot('unsat'),
            'solver_s': round(tot('solver_s'), 2), 'checks_on_real_code': val_checks,
            'scenarios': {r['name']: {'paths': r['paths'], 'reached': r['reached'], 'obligations': r['obligations'],
                                      'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                                      'asserts': r['asserts']} for r in results},
            'functions_encoded': funcs[:400],
            'bounds': getattr(mod, 'BOUNDS', ''),
            'explanation': 'scenarios executed symbolically over the functions listed; one state per explored path, '
                           'transitions count solver-decided forks and queries',
            'known_findings_seen': sorted(known_hit),
            'scenarios_without_verdict': {k: [e[:300] for e in v] for k, v in undecided.items()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating point numbers are mathematical reals; float32 storage does not round',
            'coefficients within 1e-9 relative count as equal'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        ev['coverage']['functions_encoded'] = funcs[:100]
        for s in ev['coverage']['scenarios'].values():
            s.pop('asserts')
        txt = json.dumps(ev, default=str)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        f.write(txt)
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall_s']):
            print('  %-30s %6.1f s  paths %d reached %d obl %d solver %.1f s' % (
                r['name'], r['wall_s'], r['paths'], r['reached'], r['obligations'], r['solver_s']))
    for nm, es in undecided.items():
        for e in es:
            print('UNDECIDED %s: %s' % (nm, e), file=sys.stderr)
    for e in errors:
        print('ERROR', e, file=sys.stderr)
    if violations:
        rd = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations):
            p = os.path.join(rd, '%s_%d.json' % (pid, i))
            v['property'] = pid
            v['tier'] = TIER
            v['replay_cmd'] = '%s %s/run.py --replay %s' % (PY, HERE, p)
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  scenario %s, %s (%s); real code: %s' % (v['scenario'], v['label'], v['why'], v['real']))
        return 1
    if errors or (undecided and (os.environ.get('VERIF_STRICT') or decided < 2 * len(undecided))):
        return 2
    for nm in undecided:
        print('UNDECIDED (not part of the result): %s' % nm)
    print('OK %s: %d scenarios, %d paths, %d obligations, %d solver queries (%.1f s), %d runs on the real code, %.0f s' % (
        pid, len(results), tot('paths'), tot('obligations'), tot('queries'), tot('solver_s'), validated, time.time() - t0))
    return 0


def known_match(findings, scenario, label, values):
    for k in findings:
        if k['scenario'] in ('*', scenario) and label.startswith(k['label']) and all(
                values.get(a) in (b if isinstance(b, list) else [b]) for a, b in k.get('where', {}).items()):
            return k['id']
    return None


def replay(path):
    with open(path) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        w = NumericWorker(v['property'], scratch)
        r = w.ask({'scenario': v['scenario'], 'values': v['values'], 'tier': v['tier'], 'seed': v.get('seed', 0)})
        w.close()
        print(json.dumps(r, indent=1))
        return 0 if r['status'] == 'ok' else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        worker(sys.argv[2])
    elif sys.argv[1] == '--setup':
        from symx import engine  # noqa: F401
        import z3
        print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
    elif sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    else:
        try:
            rc = main(sys.argv[1])
        except Exception:
            traceback.print_exc()
            rc = 3
        sys.stdout.flush()
        os._exit(rc)
