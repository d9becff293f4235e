"""msym engine: forking symbolic execution (with Z3) of the LLVM bitcode of the real /repo C sources, with native replay."""
import hashlib, os, re, tempfile, threading, time, concurrent.futures as cf
from ceng import (VERIF, HDIR, DEFAULT_SRC, EngineError, Result, prepare, sh, NFLAGS, replay as _replay)
import ceng

MSYM = os.path.join(VERIF, 'build', 'msym')
CL = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion', '-Wno-error=incompatible-function-pointer-types', '-emit-llvm', '-c', '-ffp-contract=off', '-fno-builtin',
      '-fno-discard-value-names']
_lock = threading.Lock()
_bc = {}


class Msym:
    """one harness file (with macros) to be decided by msym"""
    kind = 'msym'

    def __init__(self, name, file, desc='', defines=(), bounds='', seds=(), timeout=300, workers=4, reach=None, src=None,
                 maxinstr=None, nooverflow=False, maxfail=6, samples=3, nothot=(), hang_timeout=20, maxnodes=None,
                 native_defines=(), uninit=True, gen=None):
        self.__dict__.update(locals())


def build_msym():
    with _lock:
        rc, out, err = sh(['bash', os.path.join(VERIF, 'build_msym.sh')], 900)
        if rc != 0 or not os.path.exists(MSYM):
            raise EngineError('building msym failed: ' + err[-2000:])


def sources(scratch, seds, srcs):
    """(dir, [bitcode files]); one copy of the working tree per set of constant scalings"""
    key = (scratch, tuple(seds), tuple(srcs))
    with _lock:
        if key not in _bc:
            d = prepare(scratch, seds)

            def one(s):
                o = os.path.join(d, s + '.bc')
                rc, out, err = sh(CL + ['-I', d, os.path.join(d, s), '-o', o], 300)
                if rc != 0:
                    raise EngineError('clang failed on %s: %s' % (s, (out + err)[-2000:]))
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                _bc[key] = (d, list(ex.map(one, srcs)))
        return _bc[key]


def native(h, d, scratch, vg):
    srcs = h.src or DEFAULT_SRC
    if vg:
        key = d + '/vg'
        fl = ['-g', '-O0', '-w', '-fno-builtin']
        with _lock:
            if key not in ceng._ncache:
                def one(s):
                    o = os.path.join(d, s + '.vg.o')
                    rc, out, err = sh(['gcc', '-c', '-I', d] + fl + [os.path.join(d, s), '-o', o], 300)
                    if rc != 0:
                        raise EngineError('native build failed: ' + (out + err)[-3000:])
                    return o
                with cf.ThreadPoolExecutor(8) as ex:
                    ceng._ncache[key] = list(ex.map(one, srcs))
            objs = ceng._ncache[key]
        fl = fl + ['-DVH_VALGRIND']
    else:
        objs = ceng.native_lib(d, srcs)
        fl = NFLAGS
    exe = tempfile.mktemp(prefix=h.name + '_', dir=scratch)
    cmd = ['gcc'] + fl + ['-I', d, '-I', HDIR, '-DVH_REPLAY', '-Wl,--unresolved-symbols=ignore-all', '-Wl,--allow-multiple-definition'] + \
        ['-D' + x for x in list(h.defines) + list(h.native_defines)] + \
        [os.path.join(HDIR, h.file), os.path.join(HDIR, 'vh_replay.c')] + objs + ['-o', exe, '-lm']
    rc, out, err = sh(cmd, 300)
    if rc != 0:
        raise EngineError('native replay build failed: ' + (out + err)[-3000:])
    return exe


def vg_replay(exe, infile, timeout=60):
    rc, out, err = sh(['valgrind', '-q', '--error-exitcode=97', '--track-origins=no', exe], timeout, env=dict(os.environ, VH_INPUT=infile))
    if 'VHFAIL' in err:
        return 'fail', err[-1500:]
    if rc == 97:
        return 'uninit', err[:2500]
    if rc == 'timeout':
        return 'hang', 'valgrind run did not terminate'
    return ('discard' if rc == 77 else 'short' if rc == 78 else 'pass'), err[-500:]


def run(h, scratch, outdir):
    r = Result()
    r.name, r.desc, r.bounds = h.name, h.desc, h.bounds
    r.engine = 'msym'
    r.queries, r.solver_s, r.status, r.detail, r.replay = 0, 0.0, 'ok', '', None
    r.functions, r.nobody, r.props, r.nreach, r.traces, r.sample, r.paths, r.asserts = [], [], 0, 0, 0, None, 0, 0
    r.cmd = 'msym'
    srcs = h.src or DEFAULT_SRC
    d, bcs = sources(scratch, h.seds, srcs)
    if h.gen:
        with _lock:
            h.gen(ceng.REPO, d)
    base = tempfile.mktemp(prefix=h.name + '_', dir=scratch)
    for cmd in (CL + ['-DVH_SYM', '-I', d, '-I', HDIR] + ['-D' + x for x in h.defines] + [os.path.join(HDIR, h.file), '-o', base + '.h.bc'],
                # the harness may stand in for a library function (it then overrides the linked one)
                ['llvm-link'] + bcs + ['--override=' + base + '.h.bc', '-o', base + '.l.bc'],
                ['opt', '-passes=internalize,function(mem2reg,simplifycfg),globaldce', '-internalize-public-api-list=main', base + '.l.bc', '-o', base + '.o.bc']):
        rc, out, err = sh(cmd, 300)
        if rc != 0:
            raise EngineError('%s: %s failed: %s' % (h.name, cmd[0], (out + err)[-3000:]))
    args = [MSYM, base + '.o.bc', base + '.out', str(h.timeout), str(h.workers), '-maxfail', str(h.maxfail), '-maxsamples', str(h.samples)]
    if h.nooverflow:
        args.append('-nooverflow')
    if h.maxinstr:
        args += ['-maxinstr', str(h.maxinstr)]
    if h.maxnodes:
        args += ['-maxnodes', str(h.maxnodes)]
    t = time.time()
    rc, out, err = sh(args, h.timeout + 60)
    r.wall = time.time() - t
    fails, samples, unsup, stats, reach = [], [], [], None, set()
    if os.path.exists(base + '.out'):
        for line in open(base + '.out', errors='replace'):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'FUNC':
                if not f[2].startswith(HDIR):
                    r.functions.append('%s:%s' % (os.path.basename(f[2]), f[1]))
            elif f[0] == 'REACH':
                reach.add(f[1])
            elif f[0] == 'SAMPLE':
                samples.append(f[1].split())
            elif f[0] == 'FAIL':
                fails.append((f[1], f[2], f[3], f[4].split()))
            elif f[0] == 'UNSUPPORTED':
                unsup.append(' '.join(f[1:]))
            elif f[0] == 'STATS':
                stats = dict(x.split('=') for x in f[1:])
    r.functions = sorted(set(r.functions))
    if stats:
        r.queries, r.solver_s = int(stats['queries']), int(stats['solver_us']) / 1e6
        r.paths, r.asserts = int(stats['paths']), int(stats['asserts'])
        r.props = r.asserts
    r.nreach = len(reach)
    exe = vexe = None
    bad = []
    for kind, msg, loc, vals in fails:
        inf = tempfile.mktemp(prefix='cex', dir=scratch)
        open(inf, 'w').write('\n'.join(vals) + '\n')
        exe = exe or native(h, d, scratch, False)
        k, txt = _replay(h, exe, inf)
        r.traces += 1
        if k not in ('fail', 'san', 'hang'):
            vexe = vexe or native(h, d, scratch, True)
            k, txt = vg_replay(vexe, inf)
        if k in ('fail', 'san', 'hang', 'uninit'):
            r.status = 'violation'
            r.detail = '%s: %s [%s] native replay: %s: %s' % (kind, msg, loc, k, txt.strip()[:600])
            os.makedirs(outdir, exist_ok=True)
            r.replay = os.path.join(outdir, h.name + '.replay')
            open(r.replay, 'w').write('\n'.join(vals) + '\n')
            open(r.replay + '.txt', 'w').write('harness: %s\ndefines: %s\nconstant scalings: %s\n%s: %s at %s\n\nnative run (%s):\n%s\n' % (
                h.file, list(h.defines), list(h.seds), kind, msg, loc, k, txt))
            return r
        bad.append('%s: %s [%s] (replay: %s)' % (kind, msg, loc, k))
    if bad:
        r.status, r.detail = 'inconclusive', 'counterexample(s) that did not reproduce natively: %s' % bad[:4]
        return r
    if rc == 'timeout' or stats is None or int(stats['timeouts']) > 0:
        r.status, r.detail = 'budget', 'time budget of %d s exceeded (%s)' % (h.timeout, stats or (out + err)[-500:])
    elif int(stats['unsupported']) > 0:
        r.status, r.detail = 'inconclusive', 'unsupported: %s' % unsup[:3]
    elif int(stats['paths']) == 0 or not reach or (h.reach and not set(h.reach) <= reach):
        r.status, r.detail = 'inconclusive', 'vacuous: reached %s of %s on %s paths' % (sorted(reach), h.reach, stats['paths'])
    # validate the encoding: some path models are run through the natively compiled code
    if samples and r.status == 'ok':
        exe = exe or native(h, d, scratch, False)
        for vals in samples:
            inf = tempfile.mktemp(prefix='smp', dir=scratch)
            open(inf, 'w').write('\n'.join(vals) + '\n')
            k, txt = _replay(h, exe, inf)
            r.traces += 1
            if r.sample is None:
                r.sample = {'inputs_hex': vals[:40], 'native_replay': k}
            if k in ('fail', 'san', 'hang'):
                r.status = 'violation'
                r.detail = 'path model breaks the natively compiled code: %s' % txt[:600]
                os.makedirs(outdir, exist_ok=True)
                r.replay = os.path.join(outdir, h.name + '.replay')
                open(r.replay, 'w').write('\n'.join(vals) + '\n')
                open(r.replay + '.txt', 'w').write('harness: %s\ndefines: %s\n\n%s\n' % (h.file, list(h.defines), txt))
                break
            if k in ('short', 'discard'):
                r.status, r.detail = 'inconclusive', 'path model not accepted by the native harness (%s)' % k
    return r
