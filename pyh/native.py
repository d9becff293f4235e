"""the Cython layer between Python and the native detectors, its statements run as Python (P23)"""
import math
import os
import re
import types
import numpy as np
import psym
import pycold
from pycold import common as C

SERIES = ['buf_b', 'buf_g', 'buf_r', 'buf_n', 'buf_s1', 'buf_s2', 'buf_t', 'fmask_buf', 'valid_date_array']
PYN = ['ts_b', 'ts_g', 'ts_r', 'ts_n', 'ts_s1', 'ts_s2', 'ts_t', 'qas', 'dates']
NUM_FC = 40


class Cell:
    """a C variable whose address is taken"""
    def __init__(self, v): self.v = v


class Ref:
    """address of an element of an array"""
    def __init__(self, a, k): self.a, self.k = a, k


class Ptr:
    live = 0


def malloc(n):
    Ptr.live += 1
    return Ptr()


def free(p):
    Ptr.live -= 1


def translate(t):
    """Cython source without its declarations; addresses become Ref and Cell"""
    t = re.sub(r'(?m)^cdef extern .*\n(?:(?:[ \t]+.*)?\n)*', '', t)
    out = []
    for part in re.split(r'(?m)^(?=cpdef |def )', t):
        part = re.sub(r'(?s)"""(.*?)"""', '""', part)
        part = re.sub(r'(?m)#.*$', '', part)
        m = re.match(r'cpdef\s+(\w+)\s*\((.*?)\)\s*:', part, re.S)
        if m:
            a = re.sub(r'\[[^\]]*\]', '', m.group(2))
            a = ', '.join(re.sub(r'^\s*(?:[\w.]+\s+)?(\w+)\s*(=.*)?$', r'\1\2', x.replace('\n', ' ').strip()) for x in a.split(','))
            body = part[m.end():]
            cells = set(re.findall(r'&(\w+)\b(?!\s*\[)', body))
            body = re.sub(r'&(\w+)\s*\[([^\]]*)\]', r'Ref(\1, \2)', body)
            for c in cells:
                body = re.sub(r'(?m)^(\s*)cdef\s+[\w ]+?\s+%s\s*=\s*(.*)$' % c, r'\1@@%s = Cell(\2)' % c, body)
                body = re.sub(r'(?<![&@\w.\'"])%s\b(?!\s*=[^=])' % c, c + '.v', body)
                body = re.sub(r'(?m)^(\s*)%s(\s*=[^=])' % c, r'\1%s.v\2' % c, body)
                body = body.replace('&' + c, c).replace('@@' + c, c)
            part = 'def %s(%s):' % (m.group(1), a) + body
        part = re.sub(r'<[\w ]+\*+>', '', part)
        part = re.sub(r'sizeof\([^)]*\)', '1', part)
        part = re.sub(r'(?m)^(\s*)cdef\s+[\w ]+?[ *]*(?:\[[:, ]*\])?\s*\b(\w+)\s*=', r'\1\2 =', part)
        part = re.sub(r'(?m)^\s*cdef\s+[^=\n]*$', '', part)
        part = re.sub(r'(?m)^DEF\s+', '', part)
        part = re.sub(r'(?m)^(from\s+[\w.]+\s+)?cimport\s.*$', '', part)
        part = re.sub(r'(?m)^np\.import_array\(\)', '', part)
        out.append(part)
    return ''.join(out)


_M = None


def module():
    global _M
    if _M is None:
        f = os.path.join(os.path.dirname(pycold.__file__), '_colds_cython.pyx')
        src = translate(open(f).read())
        _M = types.ModuleType('pycold._colds_translated')
        _M.__dict__.update(__package__='pycold', __file__=f, Cell=Cell, Ref=Ref, PyMem_Malloc=malloc, PyMem_Free=free)
        try:
            exec(compile(src, f, 'exec'), _M.__dict__)
        except SyntaxError as e:
            raise psym.Unsupported('Cython source: %s' % e)
    return _M


def prototype(name):
    """parameter names of the native function"""
    d = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'cxx')
    for f in ('cold.h', 's_ccd.h'):
        t = re.sub(r'(?s)/\*.*?\*/|//[^\n]*', '', open(os.path.join(d, f)).read())
        m = re.search(r'\bint\s+%s\s*\(([^)]*)\)' % name, t)
        if m:
            return [re.split(r'[\s*]+', x.strip())[-1] for x in m.group(1).split(',')]
    raise psym.Unsupported('no prototype of ' + name)


def np_of(s):
    """structured arrays hold numbers of the solver"""
    def zeros(shape, dtype=float, **k):
        if psym._plain(dtype):
            return s.recs(dtype, [{}] * int(shape))
        return psym.np_zeros(shape, dtype)
    return psym.NpProxy(s.fs, zeros=zeros, empty=zeros) if s.symbolic else np


def setup(s):
    M = module()
    s.patch(M, np=np_of(s))
    s.blind_text()
    Ptr.live = 0
    return M


def series(s, n, order=False):
    d = {p: s.arr([s.int('%s%d' % (p, k), -32768, 32767) for k in range(n)], np.int64) for p in PYN[:-1]}
    t = [s.int('t%d' % k, 700000, 740000) for k in range(n)]
    for k in range(1, n):
        s.assume(t[k] >= t[k - 1])
    d['dates'] = s.arr(t, np.int64)
    return d, t


def given(s, g, d):
    for c, p in zip(SERIES, PYN):
        s.check(isinstance(g[c], Ref) and g[c].k == 0 and len(g[c].a) == len(d[p]), '%s in its place' % p)
        for k in range(len(d[p])):
            s.check(g[c].a[k] == d[p][k], 'values of %s in their place' % p)
    s.check(g['valid_num_scenes'] == len(d['qas']), 'number of observations')


def options(s, names):
    R = {'t_cg': lambda: s.real('t_cg', 0, 100), 'gate_tcg': lambda: s.real('gate_tcg', 0, 100), 'predictability_tcg': lambda: s.real('predictability_tcg', 0, 100), 'gap_days': lambda: s.real('gap_days', 0, 1000),
         'pos': lambda: s.int('pos', 0, 1 << 30), 'conse': lambda: s.int('conse', 1, 11), 'b_c2': lambda: s.pick('b_c2', [True, False])}
    return {n: R[n]() for n in names}


CN = {'t_cg': 'tcg'}


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except (RuntimeError, Exception) as e:
        if isinstance(e, (NameError, AttributeError, TypeError)):
            raise
        return None, e


def write(s, rec, n, tag, fields):
    """what the native function leaves in its output records"""
    v = [[s.int('%s%d_%s' % (tag, k, f), -100, 100) for f in fields] for k in range(n)]
    for k in range(n):
        for f, x in zip(fields, v[k]):
            rec[f][k] = x
    return v


def read(s, rec, v, fields, msg):
    s.check(len(rec) == len(v), msg + ': number')
    for k, r in enumerate(v):
        for f, x in zip(fields, r):
            s.check(rec[f][k] == x, msg + ': ' + f)


def cold(s, n, counts, layers=False, interval=0):
    """_cold_detect around any outcome of the native function"""
    M = setup(s)
    d, t = series(s, n)
    o = options(s, ['t_cg', 'pos', 'conse', 'b_c2', 'gap_days'])
    rc, nf = s.pick('rc', [0, -1, 2]), s.pick('num_fc', counts)
    kw, span = dict(o), 0
    if layers:
        given_start = s.pick('given_start', [True, False])
        given_n = s.pick('given_n', [True, False])
        for k in range(1, n):
            s.assume(t[k] - t[0] <= 4 * (interval or 60))
        start = s.int('starting_date', 690000, 740000) if given_start else 0
        if given_start:
            s.assume(s.And(start <= t[0], t[0] - start <= 3 * (interval or 60)))
        ncm = s.pick('n_cm', [1, 9]) if given_n else 0
        kw.update(b_output_cm=True, starting_date=start, n_cm=ncm, cm_output_interval=interval)
    got = {}
    F = ['t_start', 't_break', 'pos', 'category']

    def native(*a):
        got.update(zip(prototype('cold'), a))
        s.check(len(a) == len(prototype('cold')), 'number of arguments')
        r = got['rec_cg'].a
        s.check(len(r) >= NUM_FC, 'room for %d records' % NUM_FC)
        s.check(got['num_fc'].v == 0, 'no records to begin with')
        got['v'] = write(s, r, nf, 'r', F)
        got['num_fc'].v = nf
        if layers:
            for q in ('CM_outputs', 'CM_outputs_date'):
                a = got[q].a
                for k in range(len(a)):
                    s.check(a[k] == -9999, 'layers start as no-data')
            got['CM_outputs'].a[0], got['CM_outputs_date'].a[0] = s.int('cm', -32768, 32767), s.int('cmd', -32768, 32767)
        return rc
    s.stub(M, cold=native)
    r, e = attempt(M._cold_detect, d['dates'], *[d[p] for p in PYN[:-1]], **kw)
    given(s, got, d)
    for k, v in o.items():
        s.check(got[CN.get(k, k)] == v, '%s in its place' % k)
    s.check(bool(got['b_outputCM']) == layers, 'b_output_cm in its place')
    if layers:
        w = interval or 60
        s.check(got['CM_OUTPUT_INTERVAL'] == w, 'interval of the layers')
        st = start if given_start else t[0]
        s.check(got['starting_date'] == st, 'start of the layers')
        m = len(got['CM_outputs'].a)
        s.check(m == len(got['CM_outputs_date'].a), 'one date per layer')
        if given_n:
            s.check(m == ncm, 'number of layers as given')
        else:
            s.check(m * w > t[-1] - st, 'a layer for every date')
    if rc or not nf:
        s.check(e is not None, 'failure or no records raises')
    else:
        s.check(e is None, 'records returned')
        if layers:
            s.check(isinstance(r, list) and len(r) == 3, 'records and layers returned')
            s.check(len(r[1]) == m and len(r[2]) == m and r[1][0] == got['CM_outputs'].a[0] and r[2][0] == got['CM_outputs_date'].a[0], 'layers returned')
            r = r[0]
        read(s, r, got['v'], F, 'records')
    s.reach('cold')


def recon(s, n, nb, counts):
    M = setup(s)
    d, t = series(s, n)
    o = options(s, ['pos', 'conse', 'b_c2'])
    br = s.arr([s.int('br%d' % k, 0, 740000) for k in range(nb)], np.int64)
    rc, nf = s.pick('rc', [0, -1, 2]), s.pick('num_fc', counts)
    got = {}
    F = ['t_start', 't_break', 'pos', 'category']

    def native(*a):
        p = prototype('obcold_reconstruction_procedure')
        got.update(zip(p, a))
        s.check(len(a) == len(p), 'number of arguments')
        s.check(len(got['rec_cg'].a) >= NUM_FC and got['num_fc'].v == 0, 'room for records')
        got['v'] = write(s, got['rec_cg'].a, nf, 'r', F)
        got['num_fc'].v = nf
        return rc
    s.stub(M, obcold_reconstruction_procedure=native)
    r, e = attempt(M._obcold_reconstruct, d['dates'], *[d[p] for p in PYN[:-1]], br, **o)
    given(s, got, d)
    for k, v in o.items():
        s.check(got[k] == v, '%s in its place' % k)
    s.check(got['break_date_len'] == nb and len(got['break_dates'].a) == nb and got['break_dates'].k == 0, 'break dates in their place')
    for k in range(nb):
        s.check(got['break_dates'].a[k] == br[k], 'break dates in their place')
    if rc or not nf:
        s.check(e is not None, 'failure or no records raises')
    else:
        s.check(e is None, 'records returned')
        read(s, r, got['v'], F, 'records')
    s.reach('recon')


RF, MF, QF, PF = ['t_start', 't_break', 'num_obs'], ['t_start_since1982', 'num_obs', 'norm_cm', 'conse_last'], ['clrx_since1982'], ['t_break']
HASM, HASQ = (1, 3, 5, 11, 15), (2, 4, 5, 12, 15)


def outcome(s, got, p, a, modes, counts, queues, pin):
    """an arbitrary outcome of the native function"""
    got.update(zip(p, a))
    s.check(len(a) == len(p), 'number of arguments')
    if s.pick('fails', [False, True]):
        got['rc'] = s.pick('rc', [-1, 2])
        return got['rc']
    got['rc'] = 0
    got['mode'] = mode = s.pick('mode', modes)
    nf = s.pick('num_fc', counts)
    nq = s.pick('nq', queues) if mode in HASQ else 0
    got['r'] = write(s, got['rec_cg'].a, nf, 'r', RF)
    got['num_fc'].v, got['nrt_mode'].v = nf, mode
    got['m'] = [[s.int('m_' + f, 0, 100) for f in MF]]
    for f, x in zip(MF, got['m'][0]):
        got['nrt_model'].a[f][0] = x
    got['q'] = write(s, got['obs_queue'].a, nq, 'q', QF)
    got['num_obs_queue'].v = nq
    got['rm'] = [s.int('rm%d' % b, -32768, 32767) for b in range(6)]
    for b in range(6):
        got['min_rmse'].a[b] = got['rm'][b]
    if pin:
        np_ = s.pick('np', [0, 2])
        got['p'] = write(s, got['rec_cg_pinpoint'].a, np_, 'p', PF)
        got['num_fc_b_pinpoint'].v = np_
    return 0


def result(s, r, got, pos):
    """the returned state is the one the native function left"""
    s.check(type(r).__name__ == 'SccdOutput' and r._fields == C.SccdOutput._fields, 'an SccdOutput')
    s.check(r.position == pos, 'position')
    s.check(r.nrt_mode == got['mode'], 'mode')
    for b in range(6):
        s.check(r.min_rmse[b] == got['rm'][b], 'min_rmse')
    if got['mode'] == 0:
        s.check(len(r.rec_cg) == 0 or len(r.rec_cg) == len(got['r']), 'records of a void state')
    else:
        read(s, r.rec_cg, got['r'], RF, 'closed records') if got['r'] else s.check(len(r.rec_cg) == 0, 'no closed records')
    if got['mode'] in HASM:
        read(s, r.nrt_model, got['m'], MF, 'model')
    else:
        s.check(len(r.nrt_model) == 0, 'no model')
    if got['mode'] in HASQ:
        read(s, r.nrt_queue, got['q'], QF, 'queue')
    else:
        s.check(len(r.nrt_queue) == 0, 'no queue')


def detect(s, n, modes, counts, queues, pin=False):
    M = setup(s)
    d, t = series(s, n)
    o = options(s, ['t_cg', 'pos', 'conse', 'b_c2', 'gate_tcg', 'predictability_tcg'])
    got = {}
    p = prototype('sccd')

    def native(*a):
        g = dict(zip(p, a))
        s.check(len(g['rec_cg'].a) >= NUM_FC and len(g['nrt_model'].a) == 1 and len(g['obs_queue'].a) >= 240 and len(g['min_rmse'].a) == 6 and len(g['rec_cg_pinpoint'].a) >= NUM_FC, 'room for results')
        s.check(g['num_fc'].v == 0 and g['num_obs_queue'].v == 0 and g['num_fc_b_pinpoint'].v == 0 and g['nrt_mode'].v == 0, 'a void state to begin with')
        s.check(bool(g['b_pinpoint']) == pin, 'b_pinpoint in its place')
        return outcome(s, got, p, a, modes, counts, queues, pin)
    s.stub(M, sccd=native)
    r, e = attempt(M._sccd_detect, d['dates'], *[d[q] for q in PYN[:-1]], b_pinpoint=pin, **o)
    if o['conse'] > 8 or t[-1] - t[0] < 365.25:
        s.check(e is not None and not got, 'too many consecutive observations or less than a year raises')
        s.reach('refused')
        return
    given(s, got, d)
    for k, v in o.items():
        s.check(k == 'pos' or got[CN.get(k, k)] == v, '%s in its place' % k)
    if got['rc']:
        s.check(e is not None, 'failure raises')
        s.reach('failed')
        return
    s.check(e is None, 'a result')
    if pin:
        s.check(isinstance(r, list) and len(r) == 2, 'state and pinpointed breaks')
        s.check(type(r[1]).__name__ == 'SccdReccgPinpoint', 'pinpointed breaks as documented')
        s.check(r[1].position == o['pos'], 'position of pinpointed breaks')
        read(s, r[1].rec_cg_pinpoint, got['p'], PF, 'pinpointed breaks') if got['p'] else s.check(len(r[1].rec_cg_pinpoint) == 0, 'no pinpointed breaks')
        r = r[0]
    result(s, r, got, o['pos'])
    s.reach('detect')


def update(s, n, before, modes, counts, queues):
    """_sccd_update: starts from exactly the given state, leaves it alone, returns the new one"""
    M = setup(s)
    d, t = series(s, n)
    o = options(s, ['t_cg', 'pos', 'conse', 'b_c2', 'gate_tcg', 'predictability_tcg'])
    m0 = s.pick('mode0', before)
    k0, q0 = s.pick('records0', counts), s.pick('queue0', queues) if m0 in HASQ else 0
    none = np.array([])
    rec = [{f: s.int('a%d_%s' % (k, f), -100, 100) for f in RF} for k in range(k0)]
    mod = [{f: s.int('b_%s' % f, 0, 100) for f in MF}] if m0 in HASM else []
    que = [{f: s.int('c%d_%s' % (k, f), -100, 100) for f in QF} for k in range(q0)]
    rm0 = [s.int('rm0_%d' % b, -32768, 32767) for b in range(6)]
    pk = C.SccdOutput(3, s.recs(C.sccd_dt, rec) if rec else none, s.arr(rm0, np.int16), m0, s.recs(C.nrtmodel_dt, mod) if mod else none, s.recs(C.nrtqueue_dt, que) if que else none)
    got = {}
    p = prototype('sccd')

    def native(*a):
        g = dict(zip(p, a))
        s.check(len(g['rec_cg'].a) >= NUM_FC and len(g['nrt_model'].a) == 1 and len(g['obs_queue'].a) >= 240 and len(g['min_rmse'].a) == 6, 'room for results')
        s.check(g['num_fc'].v == k0 and g['num_obs_queue'].v == q0 and g['nrt_mode'].v == m0, 'state to start from: counts and mode')
        s.check(not g['b_pinpoint'], 'no pinpointing in updates')
        for k in range(k0):
            for f in RF:
                s.check(g['rec_cg'].a[f][k] == rec[k][f], 'state to start from: records')
        for k in range(q0):
            for f in QF:
                s.check(g['obs_queue'].a[f][k] == que[k][f], 'state to start from: queue')
        for f in MF if mod else []:
            s.check(g['nrt_model'].a[f][0] == mod[0][f], 'state to start from: model')
        for b in range(6):
            s.check(g['min_rmse'].a[b] == rm0[b], 'state to start from: min_rmse')
        return outcome(s, got, p, a, modes, counts, queues, False)
    s.stub(M, sccd=native)
    r, e = attempt(M._sccd_update, pk, d['dates'], *[d[q] for q in PYN[:-1]], **o)
    s.check(Ptr.live == 0, 'memory given back')
    if m0 not in (0, 1, 2, 3, 4, 5, 11, 12, 15):
        s.check(e is not None and not got, 'an unknown mode raises')
        s.reach('refused')
        return
    given(s, got, d)
    for k, v in o.items():
        s.check(k == 'pos' or got[CN.get(k, k)] == v, '%s in its place' % k)
    s.check(pk.nrt_mode == m0 and pk.position == 3, 'given state untouched: mode')
    for k in range(k0):
        for f in RF:
            s.check(pk.rec_cg[f][k] == rec[k][f], 'given state untouched: records')
    for k in range(q0):
        s.check(pk.nrt_queue['clrx_since1982'][k] == que[k]['clrx_since1982'], 'given state untouched: queue')
    for f in MF if mod else []:
        s.check(pk.nrt_model[f][0] == mod[0][f], 'given state untouched: model')
    for b in range(6):
        s.check(pk.min_rmse[b] == rm0[b], 'given state untouched: min_rmse')
    if got['rc']:
        s.check(e is not None, 'failure raises')
        s.reach('failed')
        return
    s.check(e is None, 'a result')
    result(s, r, got, o['pos'])
    s.reach('update')
