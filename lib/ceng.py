"""C engine: bounded symbolic execution (CBMC) of the real /repo C sources, with native replay.

A Harness is a C main() in /verif/harness.  Per run: the C sources are copied from /repo's working tree into a
scratch directory, compiled with goto-cc, linked with the harness, and decided by CBMC (SAT back end).  Every failed
assertion's input values are replayed through the same harness compiled natively (gcc, ASan+UBSan) from the same
sources; only what reproduces is a violation."""
import atexit, json, os, signal, threading, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = os.path.join(REPO, 'src', 'cxx')
HDIR = os.path.join(VERIF, 'harness')
DEFAULT_SRC = ['cold.c', 'input.c', '2d_array.c', 'utilities.c', 'misc.c', 'output.c', 's_ccd.c', 'KFAS.c']
# functions that may stay without a body (havoc result, no side effect): printing and environment
OK_NOBODY = {'printf', 'fprintf', 'puts', 'putchar', 'fflush', 'snprintf', 'sprintf', 'perror', 'getpid', '__xpg_basename', 'time', 'localtime', 'strftime', 'exit'}


class EngineError(Exception):
    pass


class Harness:
    kind = "cbmc"
    def __init__(self, name, file=None, desc='', src=None, defines=(), unwind=8, unwindset=(), seds=(), flags=(),
                 timeout=600, replay_defines=(), solver=None, nobody=(), memgb=12, restrict_checks=True,
                 hang_timeout=20, bounds='', tier='quick', sort_max=6, gen=None):
        self.__dict__.update(locals())
        self.file = file or name + '.c'


_live = set()


def _killall(*a):
    for pg in list(_live):
        try:
            os.killpg(pg, signal.SIGKILL)
        except OSError:
            pass
    if a:
        os._exit(2)


atexit.register(_killall)


def sh(cmd, timeout=None, cwd=None, env=None):
    """run a command in its own process group; the whole group ends with it"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    _live.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = 'timeout'
    finally:
        _live.discard(p.pid)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    return rc, out.decode('utf8', 'replace'), err.decode('utf8', 'replace')


def prepare(scratch, seds):
    """copy the working tree's C sources, apply the declared constant scalings, return dir"""
    key = 'src'
    d = tempfile.mkdtemp(prefix=key, dir=scratch)
    for f in os.listdir(CXX):
        if f.endswith(('.c', '.h')):
            shutil.copy(os.path.join(CXX, f), d)
    for pat, rep in seds:
        n = 0
        for f in os.listdir(d):
            p = os.path.join(d, f)
            s = open(p, encoding='utf8', errors='surrogateescape').read()
            s2, k = re.subn(pat, rep, s, flags=re.M)
            if k:
                open(p, 'w', encoding='utf8', errors='surrogateescape').write(s2)
                n += k
        if n == 0:
            raise EngineError('constant scaling %r matched nothing in the sources' % pat)
    return d


_cache = {}
_lock = threading.Lock()
SORTS = ['float', 'double', 'long', 'int', 'index', '2d_float', '2d_double', 'buf', 'buf_sensor']


def compile_goto(scratch, seds, srcs, sort_max):
    with _lock:
        return compile_goto_(scratch, seds, srcs, sort_max)


def compile_goto_(scratch, seds, srcs, sort_max):
    key = (scratch, tuple(seds), tuple(srcs), sort_max)
    if key in _cache:
        return _cache[key]
    base = (scratch, tuple(seds), tuple(srcs), None)
    if base not in _cache:
        _cache[base] = compile_plain(scratch, seds, srcs)
    d, objs = _cache[base]
    if sort_max:
        m = os.path.join(d, 'sortmodel%d.gb' % sort_max)
        lib = os.path.join(d, 'lib%d.gb' % sort_max)
        lib2 = os.path.join(d, 'libm%d.gb' % sort_max)
        for cmd in (['goto-cc', '-c', '-DVH_SORT_MAX=%d' % sort_max, '-I', d, '-I', HDIR, os.path.join(HDIR, 'sortmodel.c'), '-o', m],
                    ['goto-cc'] + objs + [m, '-o', lib],
                    ['goto-instrument'] + sum((['--replace-calls', 'quick_sort_%s:vh_m_sort_%s' % (k, k)] for k in SORTS), []) + [lib, lib2]):
            rc, out, err = sh(cmd, 300)
            if rc != 0:
                raise EngineError('%s failed: %s' % (cmd[0], (out + err)[-2000:]))
        objs = [lib2]
    _cache[key] = (d, objs)
    return _cache[key]


def compile_plain(scratch, seds, srcs):
    d = prepare(scratch, seds)
    objs = []

    def one(s):
        o = os.path.join(d, s + '.gb')
        rc, out, err = sh(['goto-cc', '-c', '-I', d] + [os.path.join(d, s), '-o', o], 300)
        if rc != 0:
            raise EngineError('goto-cc failed on %s: %s' % (s, (out + err)[-2000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    return d, objs


def parse_inputs(trace):
    vals = []
    for st in trace:
        if st.get('stepType') == 'input' and st.get('inputID') == 'vh':
            v = st['values'][0]
            b = v.get('binary')
            if b is None:
                raise EngineError('input without binary value: %r' % (v,))
            vals.append('%x' % int(b, 2))
    return vals


def run_cbmc(h, gb, unwind, timeout):
    cmd = ['cbmc', gb, '--unwind', str(unwind), '--json-ui', '--trace', '--no-malloc-may-fail',
           '--drop-unused-functions', '--object-bits', '12', '--verbosity', '8']
    for u in h.unwindset:
        cmd += ['--unwindset', u]
    cmd += list(h.flags)
    if h.solver:
        cmd += h.solver
    t = time.time()
    pre = 'ulimit -v %d; exec "$@"' % (h.memgb * 1024 * 1024)
    rc, out, err = sh(['bash', '-c', pre, 'x'] + cmd, timeout)
    return rc, out, err, time.time() - t, cmd


class Result:
    pass


NFLAGS = ['-g', '-O0', '-w', '-fno-builtin', '-ftrivial-auto-var-init=pattern', '-fsanitize=address,undefined,float-cast-overflow',
          '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute,pointer-overflow']
_ncache = {}


def native_lib(d, srcs):
    with _lock:
        if d not in _ncache:
            def one(s):
                o = os.path.join(d, s + '.o')
                rc, out, err = sh(['gcc', '-c', '-I', d] + NFLAGS + [os.path.join(d, s), '-o', o], 300)
                if rc != 0:
                    raise EngineError('native build failed: ' + (out + err)[-3000:])
                return o
            with cf.ThreadPoolExecutor(8) as ex:
                _ncache[d] = list(ex.map(one, srcs))
        return _ncache[d]


def native_build(h, d, scratch):
    objs = native_lib(d, h.src or DEFAULT_SRC)
    exe = tempfile.mktemp(prefix=h.name + '_', dir=scratch)
    cmd = ['gcc'] + NFLAGS + ['-I', d, '-I', HDIR, '-DVH_REPLAY', '-Wl,--unresolved-symbols=ignore-all'] + \
        ['-D' + x for x in list(h.defines) + list(h.replay_defines)] + \
        [os.path.join(HDIR, h.file), os.path.join(HDIR, 'vh_replay.c')] + objs + ['-o', exe, '-lm']
    rc, out, err = sh(cmd, 300)
    if rc != 0:
        raise EngineError('native replay build failed: ' + (out + err)[-3000:])
    return exe


def replay(h, exe, infile):
    """returns (kind, text): kind in fail/san/hang/pass/discard/short"""
    last = ('pass', '')
    for fill in (0x00, 0x7f, 0xbe, 0xff):
        env = dict(os.environ, VH_INPUT=infile,
                   ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=16777216:malloc_fill_byte=%d:allocator_may_return_null=1' % fill,
                   UBSAN_OPTIONS='print_stacktrace=1')
        rc, out, err = sh([exe], h.hang_timeout, env=env)
        if rc == 'timeout':
            return 'hang', 'did not terminate within %d s' % h.hang_timeout
        if 'VHFAIL' in err:
            return 'fail', err[-1500:]
        if 'AddressSanitizer' in err or 'runtime error' in err or (isinstance(rc, int) and rc < 0):
            return 'san', err[:3000]
        if rc == 77:
            last = ('discard', err)
        elif rc == 78:
            last = ('short', err)
    return last


def run_harness(h, scratch, outdir, budget=None):
    """-> Result with .status in ok / violation / inconclusive"""
    r = Result()
    r.name, r.desc, r.bounds = h.name, h.desc, h.bounds
    r.queries = 0
    r.solver_s = 0.0
    r.status = 'ok'
    r.detail = ''
    r.replay = None
    r.functions = []
    r.nobody = []
    r.props = 0
    r.unwind = h.unwind
    r.flags = list(h.flags)
    r.nreach = 0
    r.traces = 0
    srcs = h.src or DEFAULT_SRC
    d, objs = compile_goto(scratch, h.seds, srcs, h.sort_max)
    if h.gen:
        with _lock:
            h.gen(REPO, d)
    gb = tempfile.mktemp(prefix=h.name + '_', suffix='.gb', dir=scratch)
    rc, out, err = sh(['goto-cc', '-c', '-I', d, '-I', HDIR] + ['-D' + x for x in h.defines] +
                      [os.path.join(HDIR, h.file), '-o', gb + '.h.gb'], 300)
    if rc == 0:
        rc, out, err = sh(['goto-cc', gb + '.h.gb'] + objs + ['-o', gb], 300)
    if rc != 0:
        raise EngineError('%s: goto-cc link failed: %s' % (h.name, (out + err)[-3000:]))
    unwind = h.unwind
    deadline = time.time() + h.timeout
    for attempt in (0, 1):
        rc, out, err, dt, cmd = run_cbmc(h, gb, unwind, max(10, deadline - time.time()))
        r.cmd = ' '.join(cmd[:1] + ['<harness>'] + cmd[2:])
        if rc == 'timeout':
            r.status, r.detail = 'budget', 'solver time budget of %d s exceeded (unwind %d)' % (h.timeout, unwind)
            return r
        try:
            js = json.loads(out)
        except Exception:
            r.status, r.detail = 'inconclusive', 'cbmc output not parsable rc=%s: %s %s' % (rc, out[-800:], err[-500:])
            return r
        res = None
        for o in js:
            if 'result' in o:
                res = o['result']
            m = o.get('messageText', '')
            if m.startswith('Runtime decision procedure') or m.startswith('Runtime Solver'):
                x = re.search(r'([0-9.]+)s', m)
                if x and 'decision' in m:
                    r.solver_s += float(x.group(1))
            if m.startswith('Runtime Solver'):
                r.queries += 1
            if 'no body for function' in m or 'no body for callee' in m:
                f = re.sub(r'.*no body for (function|callee) ', '', m).strip().strip("'")
                if f not in r.nobody:
                    r.nobody.append(f)
        if res is None:
            msgs = ' | '.join(o.get('messageText', '') for o in js if o.get('messageType') == 'ERROR')
            r.status, r.detail = 'inconclusive', 'no verdict from cbmc (rc=%s): %s' % (rc, msgs[-800:])
            return r
        bad = [p for p in res if p['status'] == 'FAILURE']
        unk = [p for p in res if p['status'] not in ('FAILURE', 'SUCCESS')]
        reach = [p for p in res if 'VHREACH' in p['description']]
        fails = [p for p in bad if 'VHREACH' not in p['description'] and '.no-body.' not in p['property']]
        for p in bad:
            if '.no-body.' in p['property']:
                f = p['property'].split('.no-body.')[1]
                if f not in r.nobody:
                    r.nobody.append(f)
        unw = [p for p in fails if '.unwind.' in p['property'] or 'unwinding assertion' in p['description']
               or 'recursion' in p['property']]
        if unw and attempt == 0 and len(unw) == len(fails):
            unwind = unwind * 2 + 2
            r.unwind = unwind
            continue
        break
    r.props = len(res) - len(reach)
    r.nreach = len(reach)
    r.unwind = unwind
    missing = [f for f in r.nobody if f not in OK_NOBODY and f not in h.nobody]
    if missing:
        r.status, r.detail = 'inconclusive', 'functions without a body that the harness does not declare as stubs: %s' % missing
        # fall through: a real violation may still be reported
    if unk:
        r.status, r.detail = 'inconclusive', 'undecided: %s' % [p['property'] for p in unk][:5]
    notreached = [p['description'] for p in reach if p['status'] != 'FAILURE']
    if notreached and not fails:
        r.status, r.detail = 'inconclusive', 'vacuous: witness not reached: %s' % notreached
    # which functions were encoded
    rc2, out2, _ = sh(['cbmc', gb, '--list-goto-functions', '--drop-unused-functions', '--json-ui'], 60)
    try:
        for o in json.loads(out2):
            for f in o.get('functions', []):
                loc = f.get('sourceLocation', {}).get('file', '')
                if f.get('isBodyAvailable') and os.path.dirname(loc) == d:
                    r.functions.append('%s:%s' % (os.path.basename(loc), f['name']))
    except Exception:
        pass
    # sample: a witness trace replayed natively (also validates the encoding against the real code)
    exe = None
    r.sample = None
    for p in reach:
        if p['status'] == 'FAILURE' and 'trace' in p:
            vals = parse_inputs(p['trace'])
            exe = exe or native_build(h, d, scratch)
            inf = tempfile.mktemp(prefix='wit', dir=scratch)
            open(inf, 'w').write('\n'.join(vals) + '\n')
            kind, txt = replay(h, exe, inf)
            r.traces += 1
            if r.sample is None:
                r.sample = {'witness': p['description'], 'inputs_hex': vals[:40], 'native_replay': kind}
            if kind in ('fail', 'san', 'hang') and not fails:
                r.status, r.detail = 'violation', 'witness input of %s breaks the natively compiled code: %s' % (p['description'], txt)
                r.replay = save_replay(h, outdir, vals, p, txt)
                return r
    unreproduced = []
    for p in sorted(fails, key=lambda p: 0 if p['description'].startswith('VH ') else 1):
        if 'trace' not in p:
            unreproduced.append(p['property'])
            continue
        vals = parse_inputs(p['trace'])
        exe = exe or native_build(h, d, scratch)
        inf = tempfile.mktemp(prefix='cex', dir=scratch)
        open(inf, 'w').write('\n'.join(vals) + '\n')
        kind, txt = replay(h, exe, inf)
        r.traces += 1
        if kind in ('fail', 'san', 'hang'):
            loc = p.get('sourceLocation', {})
            r.status = 'violation'
            r.detail = '%s [%s:%s] native replay: %s: %s' % (p['description'], os.path.basename(loc.get('file', '?')),
                                                            loc.get('line', '?'), kind, txt.strip()[:600])
            r.replay = save_replay(h, outdir, vals, p, txt)
            return r
        unreproduced.append('%s (%s; replay=%s)' % (p['property'], p['description'], kind))
    if unreproduced:
        r.status, r.detail = 'inconclusive', 'counterexample(s) that did not reproduce natively: %s' % unreproduced[:6]
    return r


def save_replay(h, outdir, vals, p, txt):
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, h.name + '.replay')
    with open(path, 'w') as f:
        f.write('\n'.join(vals) + '\n')
    with open(path + '.txt', 'w') as f:
        f.write('harness: %s\ndefines: %s\nassertion: %s (%s)\nseds: %s\n\nnative run:\n%s\n\n'
                'rebuild: gcc -g -fsanitize=address,undefined -DVH_REPLAY %s -I harness -I <src> harness/%s harness/vh_replay.c <src>/*.c; '
                'VH_INPUT=%s ./a.out\n' % (h.file, h.defines, p['description'], p['property'], h.seds, txt,
                                          ' '.join('-D' + x for x in h.defines), h.file, path))
    return path
