#!/usr/bin/env python3
"""check.py ID --tier quick|thorough : decide one property on /repo's current working tree.

exit 0: every job of the property held within its bounds (or failed only on a listed known finding)
exit 1: a counterexample reproduced on the real code (VIOLATION line)
exit 2: some job reached no verdict (time budget, unsupported construct, vacuous harness, engine error)"""
import argparse, signal, json, os, shutil, sys, tempfile, time, traceback, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            # known: property=<id> job=<job> <what fails>
            if line.startswith('known: '):
                f = line.split(None, 3)
                out[(f[1].split('=')[1], f[2].split('=')[1])] = f[3].strip()
    return out


class Budget(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--job', help='only the jobs whose name contains this')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.property, a.tier
    import specs, ceng, meng
    signal.signal(signal.SIGTERM, ceng._killall)
    spec = specs.SPECS[pid]
    jobs = [j for j in spec.jobs(tier) if not a.job or a.job in j.name]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    outdir = os.path.join(VERIF, 'out', pid)
    shutil.rmtree(outdir, ignore_errors=True)
    results = []

    # quick runs have to end well inside 900 s: what the deadline cuts off is reported as not explored
    deadline = t0 + float(os.environ.get('VERIF_DEADLINE', 800 if tier == 'quick' else 36000))

    def one(j):
        try:
            left = deadline - time.time() - 30
            if left < 20:
                raise Budget('not started: the time of the whole check was used up')
            j.timeout = int(min(j.timeout, left))
            if j.kind == 'msym':
                r = meng.run(j, scratch, outdir)
            elif j.kind == 'cbmc':
                r = ceng.run_harness(j, scratch, outdir)
            else:
                import peng
                r = peng.run(j, scratch, outdir)
        except Exception as e:
            r = ceng.Result()
            r.__dict__.update(name=j.name, desc=j.desc, bounds=j.bounds, status='inconclusive', replay=None, queries=0, solver_s=0.0,
                              functions=[], nobody=[], props=0, nreach=0, traces=0, sample=None, paths=0, asserts=0)
            r.detail = '%s: %s' % (type(e).__name__, str(e)[-1500:])
            if isinstance(e, Budget):
                r.status = 'budget'
            elif not isinstance(e, ceng.EngineError):
                r.detail += traceback.format_exc()[-800:]
        r.job = j
        r.t = time.time() - t0
        if a.v:
            print('  [%6.1fs] %-28s %-12s q=%s solver=%.1fs paths=%s props=%s %s' % (r.t, r.name, r.status, r.queries, r.solver_s, getattr(r, 'paths', '-'), r.props, r.detail[:400]), flush=True)
        return r
    try:
        if any(j.kind == 'msym' for j in jobs):
            meng.build_msym()
        jobs.sort(key=lambda j: -j.timeout)
        with cf.ThreadPoolExecutor(spec.parallel) as ex:
            results = list(ex.map(one, jobs))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kf = known()
    viol, notes, bad, cut = [], [], [], []
    for r in results:
        if r.status == 'violation':
            key = (pid, r.name)
            if key in kf:
                notes.append((r, kf[key]))
            else:
                viol.append(r)
        elif r.status == 'budget':
            cut.append(r)
        elif r.status != 'ok':
            bad.append(r)
    if cut and len(cut) == len(results):
        bad, cut = bad + cut, []
    for r, what in notes:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for r in viol:
        print('VIOLATION property=%s replay=%s' % (pid, r.replay))
        print('  %s: %s' % (r.name, r.detail))
    for r in bad:
        print('INCONCLUSIVE property=%s job=%s: %s' % (pid, r.name, r.detail))
    for r in cut:
        print('NOT-EXPLORED property=%s job=%s: %s' % (pid, r.name, r.detail[:300]))
    write_evidence(pid, tier, spec, results, viol, notes, bad, time.time() - t0)
    if viol:
        return 1
    if bad:
        return 2
    print('OK property=%s tier=%s jobs=%d queries=%d solver_s=%.1f wall_s=%.1f' % (
        pid, tier, len(results), sum(r.queries for r in results), sum(r.solver_s for r in results), time.time() - t0))
    return 0


def write_evidence(pid, tier, spec, results, viol, notes, bad, wall):
    ok = [r for r in results if r.status == 'ok' or any(r is n for n, _ in notes)]
    samples = [dict(job=r.name, **r.sample) for r in results if r.sample][:8]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.level,
        'coverage': {
            'explanation': 'Symbolic execution of the real functions listed under functions_encoded, re-encoded from the working tree on this run; '
                           'each job states its bounds and every assertion was put to the solver for all values within them. '
                           '%d of %d jobs decided.' % (len(ok), len(results)),
            'jobs': [{'name': r.name, 'engine': r.job.kind, 'what': r.desc, 'bounds': r.bounds, 'verdict': r.status, 'queries': r.queries,
                      'solver_s': round(r.solver_s, 2), 'assertions': r.props, 'paths': getattr(r, 'paths', 0), 'witnesses_reached': r.nreach,
                      'traces_replayed_on_real_code': r.traces, 'stubbed_callees': [x for x in r.nobody],
                      'detail': r.detail[:600]} for r in results],
            'functions_encoded': sorted(set(sum((r.functions for r in results), []))),
            'queries_discharged': sum(r.queries for r in results),
            'solver_time_s': round(sum(r.solver_s for r in results), 2),
            'paths': sum(getattr(r, 'paths', 0) or 0 for r in results),
            'traces_validated_against_impl': sum(r.traces for r in results),
            'samples': samples or [{'note': 'no witness sampled'}],
            'outside_bounds': spec.outside,
        },
        'assumptions': spec.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(viol),
        'violation_details': [{'job': r.name, 'detail': r.detail[:1500], 'replay': r.replay} for r in viol],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
