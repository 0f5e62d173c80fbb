"""Runs the harnesses of one property in a process pool and writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'

_W = {}


def init_worker(modname):
    sys.setrecursionlimit(20000)
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from symx import rt
    sys.meta_path.insert(0, rt.Finder({'openid': REPO, 'checks': VERIF}))
    from symx import models, lxmlmodel, xpathmodel  # noqa: installs the models
    _W['mod'] = importlib.import_module(modname)
    _W['spurious'] = {}


def run_replay(modname, hname, params, inputs, picks, uf, path):
    with open(path, 'w') as f:
        json.dump({'module': modname, 'harness': hname, 'params': params, 'inputs': enc(inputs), 'picks': picks,
                   'uf': enc([list(u) for u in uf])}, f, indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=60, env=env)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 1, 'replay did not terminate within 60 s'


def enc(x):
    if isinstance(x, bytes):
        return {'b': x.hex()}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, str):
        return {'s': [ord(c) for c in x], 't': x.encode('ascii', 'backslashreplace').decode()}
    return x


def dec(x):
    if isinstance(x, dict):
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 's' in x:
            return ''.join(map(chr, x['s']))
        return {dec(k): dec(v) for k, v in x['d']}
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x


def evidence_dir():
    # tools that run several checks of one property at once give each its own directory
    return os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Stuck(BaseException):
    pass


PATH_SECONDS = 100


def stuck(signum, frame):
    raise Stuck()


def run_chunk(task):
    """(modname, harness name, params, prefixes, max_paths, seconds)"""
    from symx import core, ctx as ctxm
    modname, hname, pidx, params, prefixes, max_paths, seconds, prop = task
    h = _W['mod'].HARNESSES[hname]
    e = core.Engine()
    signal.signal(signal.SIGALRM, stuck)
    violations, spurious = [], []

    def body():
        c = ctxm.SymCtx(e, params)
        e.ctx = c
        try:
            signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS, 5)
            try:
                h['fn'](c)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Stuck:
            # does the real code end on these inputs?
            e.note_incomplete('path did not end within %d s' % PATH_SECONDS)
            v = core.Violation('the code does not end', e.model())
            v.soft = True
            raise v
        except core.Incomplete as ex:
            # not encodable from here on: at least try one model of the path
            e.note_incomplete(str(ex))
            m = e.model()
            v = core.Violation('not encodable: ' + str(ex), m)
            v.soft = True
            raise v
        except Exception as ex:
            import os
            if os.environ.get("SYMX_TB"): traceback.print_exc()
            tb = traceback.extract_tb(ex.__traceback__)
            last = [f for f in tb if f.filename.startswith(REPO + '/')]
            m = e.model()
            raise core.Violation('unexpected %s: %s%s' % (
                type(ex).__name__, str(ex)[:200] if not rt_has(ex) else '',
                ' at %s:%d' % (last[-1].filename, last[-1].lineno) if last else
                ' at %s:%d' % (tb[-1].filename, tb[-1].lineno)), m)

    def rt_has(ex):
        from symx import rt
        return rt.has_sym(ex.args)

    def on_violation(eng, v):
        soft = getattr(v, 'soft', False)
        key = (hname, v.msg)
        n = _W['spurious'].get(key, 0)
        if n >= (3 if soft else 8):
            if soft:
                return False
            eng.note_incomplete('counterexample not reproduced (not retried): ' + v.msg)
            return False
        inputs = {k: core.model_value(v.model, x) for k, x in eng.inputs.items()}
        uf = eng.ctx.uf_table(v.model)
        path = os.path.join(evidence_dir(), 'replay-%s-%s-%d-%d.json' % (prop, hname, os.getpid(), len(violations) + sum(_W['spurious'].values())))
        rc, out = run_replay(modname, hname, params, inputs, dict(eng.picks), uf, path)
        if rc == 1:
            violations.append({'harness': hname, 'params': params, 'message': v.msg, 'replay': path, 'output': out[-2000:],
                               'inputs': repr(inputs)[:2000]})
            return True
        _W['spurious'][key] = n + 1
        if soft:
            os.unlink(path)
            return False
        os.rename(path, path.replace('replay-', 'spurious-'))
        le = getattr(eng.ctx, 'last_exc', None)
        if le is not None:
            out += ' | symbolic run saw: ' + ''.join(traceback.format_exception(type(le), le, le.__traceback__)[-4:])[-700:] if not rt_has(le) else type(le).__name__
        spurious.append({'harness': hname, 'message': v.msg, 'rc': rc, 'inputs': repr(inputs)[:500], 'output': out[-900:]})
        eng.note_incomplete('counterexample not reproduced: ' + v.msg)
        return False

    t = time.time()
    left, stopped = e.explore(body, prefixes, max_paths, t + seconds, on_violation)
    if core.PROF is not None:
        with open('/tmp/symx_prof.%d' % os.getpid(), 'w') as f:
            for k, n in sorted(core.PROF.items(), key=lambda x: -x[1])[:25]:
                f.write('%6d %s\n' % (n, k))
    return {'h': hname, 'pidx': pidx, 'left': left, 'stopped': stopped, 'paths': e.paths, 'queries': e.queries, 'solver_s': e.solver_s,
            'discharged': e.discharged, 'forks': e.forks, 'unknown': e.unknown, 'incomplete': e.incomplete,
            'functions': sorted(e.functions), 'reached': e.reached, 'violations': violations, 'spurious': spurious,
            'cpu_s': time.time() - t}


def _guard(task):
    try:
        return run_chunk(task)
    except BaseException as ex:
        return {'h': task[1], 'pidx': task[2], 'error': '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-3000:])}


def known_findings(prop):
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return [k for k in json.load(f)['open'] if k['property'] == prop]
    except IOError:
        return []


def main(prop, modname, tier, only=None, jobs=None, budget=None, verbose=False, cases=None):
    t0 = time.time()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    evdir = evidence_dir()
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(('replay-%s-' % prop, 'spurious-%s-' % prop)):
            os.unlink(os.path.join(evdir, f))
    mp_ctx = mp.get_context('fork')
    # read harness table without instrumentation in a child
    sys.path.insert(0, VERIF)
    spec = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), '--list', modname, tier], stdout=subprocess.PIPE,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    result = {'harnesses': {}, 'errors': []}
    table = json.loads(spec.stdout.decode()) if spec.returncode == 0 and spec.stdout else None
    if table is None:
        # the tree cannot be imported: report honestly, no verdict about the property
        result['errors'].append('harness table could not be loaded (is the tree importable?)')
        table = {}
    budget = budget or (420 if tier == 'quick' else 3000)
    pending, stats = [], {}
    for hname, h in table.items():
        if only and hname not in only:
            continue
        stats[hname] = dict(paths=0, queries=0, solver_s=0.0, discharged=0, forks=0, unknown=0, incomplete={}, reached={},
                            spurious=[], unexplored=0, cpu_s=0.0, bounds=h['bounds'], cases=len(h['params']), errors=[])
        for i, p in enumerate(h['params']):
            if cases and i not in cases:
                continue
            pending.append((hname, i, p, [[]]))
    functions, violations = set(), []
    if table:
        pool = mp_ctx.Pool(jobs, initializer=init_worker, initargs=(modname,))
        running = []
        stop = False
        try:
            while (pending or running) and not stop:
                while pending and len(running) < jobs * 2:
                    hname, i, p, pref = pending.pop(0)
                    secs = 1.5 if len(pending) + len(running) < jobs * 2 else 12
                    running.append((pool.apply_async(_guard, ((modname, hname, i, p, pref, 400, secs, prop),)), hname, i, p))
                time.sleep(0.01)
                still = []
                for r in running:
                    if not r[0].ready():
                        still.append(r)
                        continue
                    res = r[0].get()
                    s = stats[r[1]]
                    if 'error' in res:
                        s['errors'].append(res['error'])
                        continue
                    for k in ('paths', 'queries', 'solver_s', 'discharged', 'forks', 'unknown', 'cpu_s'):
                        s[k] += res[k]
                    for k in ('incomplete', 'reached'):
                        for a, b in res[k].items():
                            s[k][a] = s[k].get(a, 0) + b
                    s['spurious'].extend(res['spurious'])
                    functions.update(res['functions'])
                    if res['violations']:
                        violations.extend(res['violations'])
                        stop = True
                    left = res['left']
                    if left:
                        # hand out in several pieces so that idle workers get some
                        n = max(1, min(len(left), jobs - len(pending) if len(pending) < jobs else 1))
                        for k in range(n):
                            pending.append((r[1], r[2], r[3], left[k::n]))
                running = still
                if time.time() - t0 > budget:
                    for hname, i, p, pref in pending:
                        stats[hname]['unexplored'] += len(pref)
                    for r in running:
                        stats[r[1]]['unexplored'] += 1
                    stop = True
        finally:
            pool.terminate()
            pool.join()
    return finish(prop, modname, tier, t0, stats, functions, violations, result, verbose)


def finish(prop, modname, tier, t0, stats, functions, violations, result, verbose):
    known = known_findings(prop)
    tot = lambda k: sum(s[k] for s in stats.values())
    mods = importlib.import_module('symx.meta')
    functions = sorted(f for f in functions if f.startswith('openid'))
    incomplete = {}
    for s in stats.values():
        for k, v in s['incomplete'].items():
            incomplete[k] = incomplete.get(k, 0) + v
    exhaustive = not violations and not incomplete and not any(s['unexplored'] or s['errors'] or s['unknown'] for s in stats.values()) and not result['errors']
    vac = [h for h, s in stats.items() if not any(v for k, v in s['reached'].items())]
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': mods.LEVELS.get(prop, 'model_checking'),
        'coverage': {
            'functions_encoded': functions, 'functions_encoded_count': len(functions),
            'paths': tot('paths'), 'queries': tot('queries'), 'assertions_discharged': tot('discharged'),
            'branch_points': tot('forks'), 'solver_seconds': round(tot('solver_s'), 2), 'solver_unknown': tot('unknown'),
            'exhaustive_within_bounds': exhaustive, 'paths_unexplored': tot('unexplored'),
            'paths_underapproximated': incomplete,
            'counterexamples_not_reproduced': sum(len(s['spurious']) for s in stats.values()),
            'vacuous_harnesses': vac,
            'harnesses': {h: {'bounds': s['bounds'], 'cases': s['cases'], 'paths': s['paths'], 'queries': s['queries'],
                              'discharged': s['discharged'], 'solver_seconds': round(s['solver_s'], 2), 'cpu_seconds': round(s['cpu_s'], 1),
                              'unexplored': s['unexplored'], 'assertions_reached': s['reached'], 'underapproximated': s['incomplete'],
                              'errors': s['errors'][:3], 'not_reproduced': s['spurious'][:3]} for h, s in stats.items()},
            'tree_errors': result['errors'],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': mods.ASSUMPTIONS,
        'violations': len(violations),
        'counterexamples': violations[:5],
    }
    with open(os.path.join(evidence_dir(), prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for h, s in stats.items():
        print('%s %-22s cases=%d paths=%d queries=%d discharged=%d solver=%.1fs cpu=%.1fs unexplored=%d incomplete=%s spurious=%d errors=%d' % (
            prop, h, s['cases'], s['paths'], s['queries'], s['discharged'], s['solver_s'], s['cpu_s'], s['unexplored'],
            dict(list(s['incomplete'].items())[:4]) if s['incomplete'] else {}, len(s['spurious']), len(s['errors'])))
        if verbose:
            for e in s['errors'][:2]:
                print(e)
            for x in s['spurious'][:6]:
                print('  spurious:', x)
            print('  reached:', s['reached'])
    print('%s: wall %.1fs exhaustive=%s functions=%d' % (prop, time.time() - t0, exhaustive, len(functions)))
    if violations:
        for v in violations[:3]:
            print('counterexample: %s: %s\n  inputs: %s\n  %s' % (v['harness'], v['message'], v['inputs'], v['output'].strip().replace('\n', '\n  ')))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']))
        return 1
    return 0
