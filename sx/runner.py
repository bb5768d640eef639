"""Runs the scenarios of one property: symbolic exploration, replay on the real code, verdict, evidence."""
import importlib
import json
import multiprocessing
import os
import random as _random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NATIVE_PYTHON = '/opt/venv/bin/python'
RELS = '/opt/venv/lib/python3.12/site-packages'

SAMPLES_PER_SCENARIO = {'quick': 25, 'thorough': 120}
CHECK_SECONDS = {'quick': 600, 'thorough': 3000}        # one scenario
TOTAL_SECONDS = {'quick': 720, 'thorough': 6 * 3600}    # all scenarios of a check: what is left is reported as incomplete
_DEADLINE = [None]


def load(prop):
    """Instrumented utg + property module."""
    sys.dont_write_bytecode = True
    if RELS not in sys.path:
        sys.path.append(RELS)
    real_random = _random.Random
    from sx import env, instrument
    env.patch()
    instrument.install({'utg': REPO, 'props': HERE})
    return importlib.import_module('props.' + prop.lower())


BLIND = 60      # inputs handed to the real code alone where the encoding cannot follow it at all


def run_scenario(mod, scn, tier, seed, eager=False, known=()):
    from sx import env
    from sx.engine import Engine, Stop, Infeasible, PathEnd, PathLimit, Unsupported, SolverUnknown
    from sx.ctx import SymCtx, CheckFailed
    from sx.snapshot import Snapshot

    t0 = time.time()
    seconds = scn.seconds or CHECK_SECONDS[tier]
    if eager:
        seconds = min(seconds, 45)
    if _DEADLINE[0] is not None:
        seconds = min(seconds, max(1, _DEADLINE[0] - t0))
    eng = Engine(value_cap=scn.value_cap if not eager else 40, seconds=seconds, seed=seed)
    res = {'name': scn.name, 'bounds': scn.bounds, 'violations': [], 'problems': [], 'samples': [], 'covered': [],
           'eager': eager, 'blind': [], 'blind_run': 0}
    if scn.setup is not None:
        Engine.current = None
        env.set_context(None)
        try:
            scn.setup()
        except Exception as e:
            res['violations'].append({'label': 'unexpected-error:' + type(e).__name__, 'inputs': {}, 'trace': traceback.format_exc()[-3000:]})
            return res
    snap = Snapshot([m for n, m in sorted(sys.modules.items())
                     if m is not None and (n == 'utg' or n.startswith('utg.') or n.startswith('props.'))])
    want = SAMPLES_PER_SCENARIO[tier]
    rng = _RNG(seed)
    samples = []
    covered = set()
    labels_seen = set()
    fresh_labels = set()
    counters = {'ends': 0}

    def run_path():
        snap.restore()
        ctx = SymCtx(eng, eager)
        ctx.snapshot = snap
        env.set_context(ctx)
        stop = False
        completed = False
        try:
            try:
                scn.fn(ctx, **scn.params)
                completed = True
            except Infeasible:
                eng.infeasible += 1
                return False
            except CheckFailed as e:
                eng.paths += 1
                covered.update(ctx.covered)
                if e.label not in labels_seen:
                    labels_seen.add(e.label)
                    res['violations'].append({'label': e.label, 'inputs': e.inputs})
                    if e.label not in known:
                        fresh_labels.add(e.label)
                return len(fresh_labels) >= 3
            except PathLimit as e:
                if str(e) == 'step limit':
                    label = 'unexpected-error:no-termination'
                    if label not in labels_seen:
                        labels_seen.add(label)
                        fresh_labels.add(label)
                        res['violations'].append({'label': label, 'inputs': ctx.model_inputs(eng.model)})
                eng.incomplete.append(str(e))
                return str(e) == 'time budget'
            except (Unsupported, SolverUnknown, RecursionError) as e:
                what = 'recursion' if isinstance(e, RecursionError) else \
                    ('unsupported: %s' if isinstance(e, Unsupported) else 'solver unknown: %s') % str(e)[:500]
                if eager:
                    # the inputs chosen so far go to the real code alone
                    res['blind'].append(ctx.model_inputs(eng.model))
                    eng.incomplete.append(what)
                    return len(res['blind']) >= BLIND
                res['problems'].append(what)
                return True
            except Stop:
                raise
            except Exception as e:
                label = 'unexpected-error:' + type(e).__name__
                eng.paths += 1
                if label not in labels_seen:
                    labels_seen.add(label)
                    m = eng.model
                    res['violations'].append({'label': label, 'inputs': ctx.model_inputs(m),
                                              'trace': traceback.format_exc()[-3000:]})
                    if label not in known:
                        fresh_labels.add(label)
                return len(fresh_labels) >= 3
            eng.paths += 1
            covered.update(ctx.covered)
            # sample this path?
            n = eng.paths
            keep = None
            if len(samples) < want:
                keep = len(samples)
                samples.append(None)
            else:
                j = rng.below(n)
                if j < want:
                    keep = j
            if keep is not None:
                try:
                    m = eng.model
                    samples[keep] = {'inputs': ctx.model_inputs(m),
                                     'observed': [[k, ctx.model_value(m, x)] for k, x in ctx.observed]}
                except Stop as e:
                    res['problems'].append('sampling forked: %s' % e)
            return False
        finally:
            env.set_context(None)
    try:
        eng.explore(run_path)
    except SolverUnknown as e:
        res['problems'].append('solver unknown: %s' % e)
    snap.restore()
    res.update(paths=eng.paths, infeasible=eng.infeasible, transitions=eng.transitions, queries=eng.queries,
               solver_time=round(eng.solver_time, 3), checks=eng.checks, checks_by_solver=eng.checks_by_solver,
               incomplete=sorted(set(eng.incomplete)), functions=sorted(f for f in eng.functions if f.startswith('utg')),
               wall=round(time.time() - t0, 2), covered=sorted(covered), samples=[s for s in samples if s])
    if not res['violations'] and not res['incomplete'] and not res['problems']:
        for c in scn.covers:
            if c not in covered:
                res['problems'].append('vacuous: "%s" was not reached' % c)
        if eng.checks == 0:
            res['problems'].append('vacuous: no check was reached')
    Engine.current = None
    return res


class _RNG(object):
    """Small generator of its own: `random` is patched for the code under test."""

    def __init__(self, seed):
        self.s = (seed * 2654435761 + 12345) & 0xffffffff

    def below(self, n):
        self.s = (self.s * 1664525 + 1013904223) & 0xffffffff
        return (self.s >> 8) % n


def native_run(jobs):
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix='verif-native-')
    a, b = os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')
    try:
        with open(a, 'w') as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONIOENCODING='utf-8', LC_ALL='C.UTF-8')
        p = subprocess.run([NATIVE_PYTHON, os.path.join(HERE, 'sx', 'native.py'), a, b], env=env, capture_output=True,
                           timeout=400, cwd='/')
        if p.returncode:
            raise RuntimeError('native replay failed: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
        with open(b) as f:
            return json.load(f)
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)


def _norm(x):
    return json.loads(json.dumps(x))


def same_failure(label, r):
    if label.startswith('unexpected-error:'):
        return r['error'] is not None
    return bool(r['failed']) or r['error'] is not None


def judge(prop, tier, res):
    """Replays violations and sampled paths of one scenario on the real code; fills confirmed/validated/problems."""
    modname = 'props.' + prop.lower()

    def job(inputs):
        return {'module': modname, 'scenario': res['name'], 'inputs': inputs, 'tier': tier}
    vio = res['violations']
    sam = res['samples']
    blind = [dict(job(x), fill=i) for i, x in enumerate(res['blind'])]
    out = native_run([job(x['inputs']) for x in vio] + [job(x['inputs']) for x in sam] + blind)
    res['confirmed'] = []
    res['validated'] = 0
    for x, r in zip(vio, out):
        if same_failure(x['label'], r):
            x['native'] = {'failed': r['failed'], 'error': r['error'], 'trace': (r.get('trace') or '')[-1500:]}
            res['confirmed'].append(x)
        elif res['eager']:
            res.setdefault('incomplete', []).append('not reproduced: %s' % x['label'])
            res['blind_run'] += r['mismatch'] is None
        else:
            res['problems'].append('not reproduced: %s with %s (native: %s) %s' % (
                x['label'], json.dumps(x['inputs'], ensure_ascii=False)[:600], r['mismatch'], x.get('trace', '')[-1200:]))
    bad = 0
    for r in out[len(vio) + len(sam):]:
        if r['failed'] or r['error']:
            res['confirmed'].append({'label': r['failed'][0] if r['failed'] else 'unexpected-error:' + r['error'], 'inputs': r.get('inputs', {}),
                                     'native': {'failed': r['failed'], 'error': r['error'], 'trace': (r.get('trace') or '')[-1500:]},
                                     'found_by': 'the real code on chosen inputs'})
        else:
            res['blind_run'] += r['mismatch'] is None
    for x, r in zip(sam, out[len(vio):]):
        if r['failed'] or r['error'] or r['mismatch']:
            # the symbolic run passed on these inputs, the real code does not: the encoding missed it, the code is wrong
            if r['mismatch'] is None:
                lab = r['failed'][0] if r['failed'] else 'unexpected-error:' + r['error']
                res['confirmed'].append({'label': lab, 'inputs': x['inputs'],
                                         'native': {'failed': r['failed'], 'error': r['error'], 'trace': (r.get('trace') or '')[-1500:]},
                                         'found_by': 'replay of a symbolic path'})
            else:
                res['incomplete' if res['eager'] else 'problems'].append('replay mismatch: %s' % r['mismatch'])
        elif _norm(x['observed']) != _norm(r['observed']):
            bad += 1
            if bad <= 2:
                res['incomplete' if res['eager'] else 'problems'].append('encoding differs from the real code on %s: %s / %s' % (
                    json.dumps(x['inputs'], ensure_ascii=False)[:400], json.dumps(_norm(x['observed']), ensure_ascii=False)[:600],
                    json.dumps(_norm(r['observed']), ensure_ascii=False)[:600]))
        else:
            res['validated'] += 1
    return res


_MOD = [None]


def _worker(args):
    prop, name, tier, seed, known = args
    import gc
    mod = _MOD[0]
    try:
        scn = {s.name: s for s in mod.SCENARIOS(tier)}[name]
        res = run_scenario(mod, scn, tier, seed, known=known)
        judge(prop, tier, res)
        if res['problems'] and not res['confirmed']:
            # last resort for code the encoding cannot follow: solver-chosen concrete inputs (reported as incomplete)
            first = res
            res = run_scenario(mod, scn, tier, seed, eager=True, known=known)
            judge(prop, tier, res)
            res['fallback'] = first['problems'][:3]
            res['incomplete'] = res.get('incomplete', []) + ['encoding gave up (%s); inputs were concretised' % first['problems'][0][:200]]
            if not res.get('paths') and not res.get('blind_run') and not res['confirmed']:
                res['problems'].append('nothing explored')
        gc.collect()
        return res
    except Exception:
        return {'name': name, 'crash': traceback.format_exc(), 'problems': ['crash'], 'confirmed': []}


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == prop]


def run_property(prop, tier='quick', seed=1, only=None, jobs=8):
    t0 = time.time()
    _DEADLINE[0] = t0 + TOTAL_SECONDS[tier]
    findings = known_findings(prop)
    try:
        mod = load(prop)
        scenarios = mod.SCENARIOS(tier)
    except Exception:
        trace = traceback.format_exc()
        # does the real code load at all?
        r = native_run([{'module': 'props.' + prop.lower(), 'scenario': '', 'inputs': {}, 'tier': tier}])[0]
        print(trace)
        print('ERROR: the instrumented code does not load (native: %s)' % r['error'])
        return 2
    _MOD[0] = mod
    if only:
        scenarios = [s for s in scenarios if only in s.name]
    args = []
    for s in scenarios:
        known = tuple(k['label'] for k in findings if k['scenario'] == s.name)
        args.append((prop, s.name, tier, seed, known))
    results = []
    if jobs > 1 and len(args) > 1:
        with multiprocessing.get_context('fork').Pool(min(jobs, len(args)), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_worker, args, chunksize=1):
                results.append(r)
    else:
        results = [_worker(a) for a in args]
    results.sort(key=lambda r: [s.name for s in scenarios].index(r['name']))
    return report(prop, tier, seed, mod, scenarios, results, findings, time.time() - t0, partial=bool(only))


def report(prop, tier, seed, mod, scenarios, results, findings, wall, partial=False):
    rc = 0
    lines = []
    violations = []
    errors = []
    incomplete = []
    seen_known = set()
    for r in results:
        if r.get('crash'):
            errors.append('%s: %s' % (r['name'], r['crash']))
            continue
        for x in r['confirmed']:
            k = match_known(findings, r['name'], x)
            if k is not None:
                if k['id'] not in seen_known:
                    seen_known.add(k['id'])
                    lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                continue
            violations.append((r, x))
        for p in r['problems']:
            errors.append('%s: %s' % (r['name'], p))
        if r.get('incomplete'):
            incomplete.append('%s: %s' % (r['name'], '; '.join(r['incomplete'])))
    d = os.path.join(HERE, 'evidence', 'replays', prop)
    os.makedirs(d, exist_ok=True)
    for r, x in violations:
        path = os.path.join(d, '%s.%s.json' % (r['name'].replace('/', '_').replace(' ', '_'), ''.join(
            c if c.isalnum() else '-' for c in x['label'])[:60]))
        with open(path, 'w') as f:
            json.dump({'module': 'props.' + prop.lower(), 'scenario': r['name'], 'label': x['label'], 'inputs': x['inputs'],
                       'native': x.get('native'), 'tier': tier}, f, ensure_ascii=False, indent=1)
        lines.append('  %s: %s fails with %s' % (r['name'], x['label'], json.dumps(x['inputs'], ensure_ascii=False)[:800]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if errors and rc == 0:
        rc = 2
    tot = lambda key: sum(r.get(key, 0) for r in results if not r.get('crash'))
    functions = sorted(set(f for r in results for f in r.get('functions', ())))
    samples = []
    for r in results:
        for s in r.get('samples', [])[:2]:
            samples.append({'scenario': r['name'], 'inputs': s['inputs'], 'observed': s['observed']})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('transitions'),
            'traces_validated_against_impl': tot('validated'),
            'samples': samples[:12],
            'functions_encoded': functions,
            'assertions_decided': tot('checks'), 'assertions_needing_solver': tot('checks_by_solver'),
            'solver_queries': tot('queries'), 'solver_seconds': round(tot('solver_time'), 2),
            'infeasible_paths': tot('infeasible'),
            'scenarios': [{k: r.get(k) for k in ('name', 'bounds', 'paths', 'transitions', 'queries', 'solver_time', 'checks', 'wall',
                                                 'validated', 'incomplete', 'eager')} for r in results],
            'exhaustive': not incomplete and not errors,
            'incomplete': incomplete, 'errors': errors[:20],
            'explanation': 'states = completed symbolic paths, transitions = solver-steered decisions; every path was decided for all '
                           'values within the stated bounds of its scenario; traces_validated_against_impl = models of symbolic paths '
                           'replayed on the unmodified code with identical observations',
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2), 'violations': len(violations),
    }
    if not partial:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, ensure_ascii=False, indent=1)
    for e in errors:
        print('ERROR', e)
    for e in incomplete:
        print('INCOMPLETE', e)
    for line in lines:
        print(line)
    print('%s %s: %d scenarios, %d paths, %d decisions, %d queries (%.1fs solver), %d assertions, %d replayed, %.1fs -> %s' % (
        prop, tier, len(results), tot('paths'), tot('transitions'), tot('queries'), tot('solver_time'), tot('checks'),
        tot('validated'), wall, {0: 'holds within the bounds', 1: 'VIOLATED', 2: 'no verdict'}[rc]))
    if partial or '-v' in sys.argv:
        for r in results:
            print('   %-40s paths %-6s checks %-6s queries %-6s wall %-7s validated %s' % (
                r['name'], r.get('paths'), r.get('checks'), r.get('queries'), r.get('wall'), r.get('validated')))
    return rc


def match_known(findings, scenario, x):
    for k in findings:
        if k['scenario'] == scenario and k['label'] == x['label']:
            if all(x['inputs'].get(n) in vals for n, vals in k.get('inputs', {}).items()):
                return k
    return None


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--only')
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--replay')
    p.add_argument('-v', action='store_true')
    a = p.parse_args(argv)
    sys.setrecursionlimit(20000)
    if a.replay:
        with open(a.replay) as f:
            job = json.load(f)
        r = native_run([job])[0]
        print(json.dumps(r, ensure_ascii=False, indent=1))
        return 1 if r['failed'] or r['error'] else 0
    return run_property(a.property, a.tier, a.seed, a.only, a.jobs)
