"""Replays recorded inputs on the unmodified code.  Usage: native.py JOBS.json OUT.json"""
import json
import os
import sys
import signal
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/venv/lib/python3.12/site-packages')

import warnings
warnings.simplefilter('ignore')

from sx import env
env.patch()

import importlib
from sx import scenario as sc
from sx.snapshot import Snapshot


class NativeTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise NativeTimeout('more than %d seconds' % JOB_SECONDS)


JOB_SECONDS = 20


def run_job(job, modules, snapshot):
    out = {'failed': [], 'observed': [], 'error': None, 'mismatch': None, 'covered': []}
    name = job['module']
    try:
        if name not in modules:
            mod = importlib.import_module(name)
            modules[name] = {s.name: s for s in mod.SCENARIOS(job.get('tier', 'quick'))}
        scn = modules[name][job['scenario']]
    except Exception as e:
        out['error'] = type(e).__name__
        out['trace'] = traceback.format_exc()
        return out
    ctx = sc.NativeCtx(job['inputs'], job.get('fill'))
    ctx.snapshot = snapshot
    env.set_context(ctx)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_SECONDS)
    try:
        scn.fn(ctx, **scn.params)
    except sc.NativeStop:
        pass
    except sc.NativeMismatch as e:
        out['mismatch'] = str(e)
    except Exception as e:
        out['error'] = type(e).__name__
        out['trace'] = traceback.format_exc()
    signal.alarm(0)
    env.set_context(None)
    out['failed'] = ctx.failed
    if job.get('fill') is not None:
        out['inputs'] = ctx.given
    out['covered'] = sorted(ctx.covered)
    out['observed'] = [[k, ctx.conv(x)] for k, x in ctx.observed]
    return out


def prepare(jobs):
    """Imports and set-up shared by the jobs; every job then runs in a process forked from here."""
    modules = {}
    for job in jobs:
        name = job['module']
        if name in modules:
            continue
        try:
            mod = importlib.import_module(name)
            modules[name] = {s.name: s for s in mod.SCENARIOS(job.get('tier', 'quick'))}
        except Exception:
            pass        # reported by the job
    return modules


def forked(fn, *args):
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(read)
            with os.fdopen(write, 'w') as f:
                json.dump(fn(*args), f)
        except BaseException:
            traceback.print_exc()
            code = 1
        finally:
            os._exit(code)
    os.close(write)
    with os.fdopen(read) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text) if text else None


LOST = {'failed': [], 'observed': [], 'error': None, 'mismatch': 'the replay process ended without an answer', 'covered': []}


def grouped(jobs, modules):
    """Jobs of one scenario: its set-up once, then every job in a process of its own."""
    scn = modules.get(jobs[0]['module'], {}).get(jobs[0]['scenario'])
    if scn is not None and scn.setup is not None:
        try:
            scn.setup()
        except Exception as e:
            return [dict(LOST, mismatch=None, error=type(e).__name__, trace=traceback.format_exc())] * len(jobs)
    snapshot = Snapshot([m for n, m in sorted(sys.modules.items()) if m is not None and (n == 'utg' or n.startswith('utg.') or n.startswith('props.'))])
    return [forked(run_job, job, modules, snapshot) or LOST for job in jobs]


def main():
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    modules = prepare(jobs)
    by_scenario, results = {}, [None] * len(jobs)
    for i, j in enumerate(jobs):
        by_scenario.setdefault((j['module'], j['scenario']), []).append(i)
    for (module, name), at in by_scenario.items():
        for i, r in zip(at, forked(grouped, [jobs[i] for i in at], modules) or [LOST] * len(at)):
            results[i] = r
    with open(sys.argv[2], 'w') as f:
        json.dump(results, f)


if __name__ == '__main__':
    main()
