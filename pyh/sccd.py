"""S-CCD results in Python: identification, packing, prediction (P14, P15, P22)"""
import math
import numpy as np
from os.path import join
import psym
from pycold import common as C
from pycold import _param_validation as V
from pycold import colds as D
from pycold import utils as U

LAUNCH = 723742
MODES = [0, 1, 2, 3, 4, 5, 11, 12]
DATES = [[10, 30, 60, 100, 200, 1000, 0, 0], [9000, 9016, 9032, 9048, 9064, 9080, 9096, 9112]]


def harmonic(s, c, day):
    w = 2 * math.pi / 365.25
    b = [1, day / 10000]
    for k in (1, 2):
        b += [math.cos(k * w * day), math.sin(k * w * day)]
    return sum((c[j] * b[j] for j in range(6)), 0)


def median(s, v):
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = s.ite(a <= b, a, b), s.ite(a <= b, b, a)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def model(s, dates, cl, free=(2, 3, 4), slots=range(8)):
    obs = [[s.int('o%d_%d' % (b, k), -2000, 10000) if b in free and k in slots else 100 - 7 * k for k in range(8)] for b in range(6)]
    co = [[s.int('c%d_%d' % (b, j), -500, 500) if (b in free and j in (0, 2)) else 0 for j in range(6)] for b in range(6)]
    nc, an = s.int('norm_cm', 0, 32767), s.int('cm_angle', 0, 18000)
    rec = {'t_start_since1982': 1, 'num_obs': 30, 'obs': obs, 'obs_date_since1982': dates, 'covariance': [[0] * 36] * 6, 'nrt_coefs': co, 'H': [0] * 6, 'rmse_sum': [0] * 6, 'norm_cm': nc, 'cm_angle': an, 'conse_last': cl}
    return s.recs(C.nrtmodel_dt, [rec]), rec


def identify(s, kinds, cls, dates, free=(2, 3, 4), low=-2000, high=2000, slots=range(8), dcs=(1, 2, 3, 4, 5, 6), tms=(True, False)):
    """sccd_identify with the default conse of the detector (6)"""
    s.patch(D)
    s.patch(V)
    s.patch(U)
    mode = s.pick('mode', kinds)
    cl = s.pick('conse_last', cls)
    days = DATES[s.pick('dates', dates)]
    m, rec = model(s, days, cl, free, slots)
    pk = C.SccdOutput(7, np.array([]), s.arr([1] * 6, np.int16), mode, m if mode in (1, 3, 5, 11) else np.array([]), np.array([]) if mode in (0, 1, 3, 11) else s.recs(C.nrtqueue_dt, [{'clry': [0] * 6, 'clrx_since1982': 1}]))
    dc, tm = s.pick('dist_conse', list(dcs)), s.pick('transform', list(tms))
    tcg, tb, ta = s.int('t_cg', 1, 32767), s.int('t_band', low, high), s.int('t_angle', 1, 17999)
    got, when = D.sccd_identify(pk, dist_conse=dc, t_cg_scale100=tcg, t_cg_singleband_scale1000=tb, t_angle_scale100=ta, transform_mode=tm)
    if mode in (1, 5) and cl >= dc:
        first = 6 - cl
        med = [median(s, [rec['obs'][b][k] - harmonic(s, rec['nrt_coefs'][b], days[k] + LAUNCH) for k in range(first, 6)]) for b in range(6)]
        greening = s.And(med[2] < -tb, med[3] > tb, med[4] < -tb)
        # a comparison within rounding of a threshold may go either way
        for b, t in ((2, -tb), (3, tb), (4, -tb)):
            s.assume(s.Or(med[b] - t > 0.001, t - med[b] > 0.001))
        hit = s.And(rec['norm_cm'] > tcg, rec['cm_angle'] < ta, s.Not(greening))
        s.check(when == s.ite(hit, days[first] + LAUNCH, 0), 'date of the disturbance')
        s.check(got.nrt_mode == s.ite(s.And(hit, tm, mode == 1), 11, mode), 'mode after identification')
    else:
        s.check(when == 0 and got.nrt_mode == mode, 'no disturbance')
    s.check(got.position == 7 and got.nrt_model is pk.nrt_model and got.nrt_queue is pk.nrt_queue and got.rec_cg is pk.rec_cg, 'the rest of the state is untouched')
    s.reach('identify')


# ---------------------------------------------------------------- packing (P15)
def fill(s, tag, dt, n, deep):
    """records of which every scalar and the given elements of every vector are any value of their type"""
    out = []
    for i in range(n):
        r = {}
        for name in dt.names:
            d = dt.fields[name][0]
            lo, hi = (-1000000, 1000000) if d.base.kind == 'f' else (int(np.iinfo(d.base).min), int(np.iinfo(d.base).max))
            m = int(np.prod(d.shape)) if d.shape else 1
            v = [s.int('%s%d_%s_%d' % (tag, i, name, k), lo, hi) if k < deep or k == m - 1 else (3 * k + i) % 50 for k in range(m)]
            if len(d.shape) == 2:
                v = [v[q * d.shape[1]:(q + 1) * d.shape[1]] for q in range(d.shape[0])]
            r[name] = v if d.shape else v[0]
        out.append(r)
    return out


def same(s, dt, got, want, msg):
    s.check(len(got) == len(want), msg + ': number of records')
    for i, w in enumerate(want):
        for name in dt.names:
            g = np.asarray(got[i][name], dtype=object).reshape(-1)
            v = np.asarray(w[name], dtype=object).reshape(-1)
            s.check(len(g) == len(v), msg + ': elements of ' + name)
            for k in range(len(v)):
                s.check(g[k] == v[k], msg + ': ' + name)


def pack(s, mod, nrec, nqueue=2, deep=8, modes=(0, 1, 2, 3, 4, 5)):
    """a result packed to plain lists and back is the same result, for every kind of state"""
    s.patch(U)
    P = U
    if mod == 'export':
        from pycold.imagetool import export_change_map as P
        s.patch(P)
    mode = s.pick('mode', list(modes))
    pos = s.anyint('position')
    rec = fill(s, 'r', C.sccd_dt, nrec, deep)
    mdl = fill(s, 'm', C.nrtmodel_dt, 1, deep) if mode in (1, 3, 5) else []
    que = fill(s, 'q', C.nrtqueue_dt, nqueue, deep) if mode in (2, 4, 5) else []
    rm = [s.int('rmse%d' % b, -32768, 32767) for b in range(6)]
    none = np.array([])
    a = C.SccdOutput(pos, s.recs(C.sccd_dt, rec) if rec else none, s.arr(rm, np.int16), mode, s.recs(C.nrtmodel_dt, mdl) if mdl else none, s.recs(C.nrtqueue_dt, que) if que else none)
    flat = U.unindex_sccdpack(a)
    s.check(isinstance(flat, list) and len(flat) == 6, 'a list of six items')
    s.check(flat[0] == pos and flat[3] == mode, 'position and mode when packed')
    for k, n in ((1, nrec), (4, len(mdl)), (5, len(que))):
        s.check(len(flat[k]) == n and (n == 0 or (isinstance(flat[k], list) and all(isinstance(r, tuple) for r in flat[k]))), 'plain records when packed')
    b = P.index_sccdpack(flat)
    s.check(b.position == pos and b.nrt_mode == mode, 'position and mode after the round trip')
    for k in range(6):
        s.check(b.min_rmse[k] == rm[k], 'min_rmse after the round trip')
    same(s, C.sccd_dt, b.rec_cg, rec, 'rec_cg after the round trip')
    same(s, C.nrtmodel_dt, b.nrt_model, mdl, 'nrt_model after the round trip')
    same(s, C.nrtqueue_dt, b.nrt_queue, que, 'nrt_queue after the round trip')
    for n in (0, 3, 5, 7):
        bad = False
        try:
            P.index_sccdpack((flat + [0])[:n])
        except Exception:
            bad = True
        s.check(bad, 'a list of another length rejected')
    s.reach('pack%d' % mode)


# ---------------------------------------------------------------- predictions (P22)
def predict(s, nc, bands=0):
    """the value of a model at a day is the harmonic series of its coefficients"""
    s.patch(U)
    day = s.int('day', 1, 1000000)
    rows = [[s.real('c%d_%d' % (b, j), -100000, 100000) for j in range(nc)] for b in range(max(bands, 1))]
    got = U.predict_ref(s.arr(rows if bands else rows[0], np.float64), day, nc)
    w = 2 * math.pi / 365.25
    for b, c in enumerate(rows):
        v = c[0] + c[1] * (day / 10000)
        for k in range(1, (nc - 2) // 2 + 1):
            v = v + c[2 * k] * s.cos(k * w * day) + c[2 * k + 1] * s.sin(k * w * day)
        s.check(s.close(got[b] if bands else got, v), 'value at a day')
    s.reach('predict')
