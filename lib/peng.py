"""Python engine: symbolic execution (psym, Z3) of the real /repo Python functions, with concrete replay on plain Python."""
import json, os, shutil, tempfile, time
from ceng import VERIF, REPO, EngineError, Result, sh
PYTHON = '/opt/pycold-venv/bin/python'
PSYM = os.path.join(VERIF, 'lib', 'psym.py')
PYH = os.path.join(VERIF, 'pyh')


class Py:
    """one harness function to be decided by psym"""
    kind = 'py'

    def __init__(self, name, file, fn, desc='', bounds='', timeout=300, **args):
        self.__dict__.update(name=name, file=file, fn=fn, desc=desc, bounds=bounds, timeout=timeout, args=args)


def tree(scratch):
    """copy of the package sources of the working tree (without build products)"""
    d = tempfile.mkdtemp(prefix='py', dir=scratch)
    src = os.path.join(REPO, 'src', 'python', 'pycold')
    shutil.copytree(src, os.path.join(d, 'pycold'), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.cpp', '*.pyc'))
    return d


def run(j, scratch, outdir):
    r = Result()
    r.name, r.desc, r.bounds, r.engine = j.name, j.desc, j.bounds, 'psym'
    r.queries, r.solver_s, r.status, r.detail, r.replay = 0, 0.0, 'ok', '', None
    r.functions, r.nobody, r.props, r.nreach, r.traces, r.sample, r.paths, r.asserts = [], [], 0, 0, 0, None, 0, 0
    d = tree(scratch)
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PSYM_SRC=d, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', TMPDIR=d)
    base = tempfile.mktemp(prefix=j.name + '_', dir=scratch)
    cmd = [PYTHON, PSYM, os.path.join(PYH, j.file), j.fn, json.dumps(j.args)]
    t = time.time()
    rc, out, err = sh(cmd + [str(j.timeout), base + '.json'], j.timeout + 90, env=env, cwd=d)
    r.wall = time.time() - t
    if not os.path.exists(base + '.json'):
        if 'Error' in err:
            raise EngineError('%s: %s' % (j.name, err[-1500:]))
        r.status, r.detail = 'budget', 'no answer in %d s' % j.timeout
        return r
    q = json.load(open(base + '.json'))
    r.queries, r.solver_s, r.paths, r.asserts, r.props = q['queries'], q['solver_s'], q['paths'], q['asserts'], q['asserts']
    r.functions, r.nreach, r.status, r.detail = q['functions'], len(q['reached']), q['status'], q['detail']
    sets = [q['values']] if r.status == 'violation' else [v for _, v in q['samples']]
    if sets and r.status in ('ok', 'violation'):
        json.dump(sets, open(base + '.in', 'w'))
        rc, out, err = sh(cmd + ['60', base + '.rep', '--replay', base + '.in'], 300, env=env, cwd=d)
        if not os.path.exists(base + '.rep'):
            if r.status == 'violation' and rc == 'timeout':
                rep = [{'status': 'fail', 'detail': 'does not terminate'}]
            else:
                raise EngineError('%s: replay: %s' % (j.name, err[-1500:]))
        else:
            rep = json.load(open(base + '.rep'))
        r.traces = len(rep)
        bad = [(v, x) for v, x in zip(sets, rep) if x['status'] == 'fail']
        r.sample = {'inputs': sets[0][:40], 'replay': rep[0]['status']}
        if bad:
            r.status = 'violation'
            r.detail = '%s; concrete replay: %s' % (q['detail'] or 'path model', bad[0][1]['detail'])
            os.makedirs(outdir, exist_ok=True)
            r.replay = os.path.join(outdir, j.name + '.replay.json')
            json.dump({'harness': j.file, 'function': j.fn, 'args': j.args, 'values': bad[0][0], 'symbolic': q['detail'], 'replay': bad[0][1]}, open(r.replay, 'w'), indent=1)
        elif r.status == 'violation':
            r.status, r.detail = 'inconclusive', 'counterexample did not reproduce: %s %s (replay: %s)' % (q['detail'], str(q['values'])[:300], rep[0])
        elif any(x['status'] == 'discard' for x in rep):
            r.status, r.detail = 'inconclusive', 'path model not accepted by the replay: %s' % rep[:3]
    shutil.rmtree(d, ignore_errors=True)
    return r
