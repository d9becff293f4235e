"""object analysis rules and summaries (P09, P16, P17)"""
import math
import numpy as np
import pandas as pd
from os.path import join
from pycold import common as C
from pycold import ob_analyst as O
import psym

NMAX = 8
D = O.defaults['OBCOLD']


class Np(psym.NpProxy):
    """numpy with logarithms of small integers as a table"""


def np_for(s):
    return Np(s.fs, log10=lambda x: s.lookup(x, lambda k: math.log10(k), 1, NMAX), double=psym.FloatP)


def scale(s, size, slope):
    """documented size factor: 0.95 + slope * log10(pixels), at most 2"""
    f = s.lookup(size, lambda k: math.log10(k), 1, NMAX) * slope + 0.95
    return s.ite(f < 2, f, 2)


def rule(s, thematic, mode, params):
    """is_change_object for one object"""
    s.patch(O, np=np_for(s))
    n, cm = s.int('npixels', 1, NMAX), s.real('cm', -16, 64)
    p = {}
    for k in ['default'] + ['C%d' % i for i in range(1, 9)]:
        if params == 'free':
            p[k + '_threshold'], p[k + '_sizeslope'] = s.real(k + '_t', 0, 32), s.real(k + '_s', -2, 4)
        else:
            p[k + '_threshold'], p[k + '_sizeslope'] = float(D[k + '_threshold']), float(D[k + '_sizeslope'])
    row = {'npixels': n, 'mean_intensity': cm, 'mode': 255}
    ut, us = None, None
    if mode in ('both', 'threshold'):
        ut = s.real('uniform_t', 0, 32)
    if mode in ('both', 'slope'):
        us = s.real('uniform_s', -2, 4)
    cls = None
    if thematic:
        cls = s.pick('class', [1, 2, 3, 4, 5, 6, 7, 8, 255])
        row['mode'] = cls
    got = O.is_change_object(row, ut, us, 'mean_intensity', None if not thematic else s.arr([[1]]), None if params == 'default' else p)
    if thematic and mode == 'both':
        t, sl = ut, us
    else:
        k = 'default' if cls in (None, 255) else 'C%d' % cls
        t, sl = p[k + '_threshold'], p[k + '_sizeslope']
    want = cm * scale(s, n, sl) > t
    s.check(got is True or got is False, 'the rule gives no answer')
    s.check(s.Or(s.And(got, want), s.Not(s.Or(got, want))), 'decision')
    s.reach('change' if got else 'no change')


class DF:
    """the few operations object_analysis applies to its table of superpixels"""
    def __init__(self, cols): self.c = cols
    def __getitem__(self, k): return Col(self.c[k])
    def __len__(self): return len(self.c['label'])
    def assign(self, **kw): return DF(dict(self.c, **{k: list(v) for k, v in kw.items()}))

    @property
    def loc(self): return self.Loc(self)

    class Loc:
        def __init__(self, d): self.d = d
        def __getitem__(self, m):
            i = [k for k, x in enumerate(m) if x]
            assert len(i) == 1
            return {k: v[i[0]] for k, v in self.d.c.items()}


class Col(list):
    def to_list(self): return list(self)
    def __eq__(self, o): return [x == o for x in self]


def analysis(s, n, lc):
    """object_analysis on a small tile: which pixels of which superpixel are declared changed"""
    s.patch(O, np=np_for(s), stats=type('S', (), {'mode': staticmethod(psym.stats_mode)}))
    rows, cols = n
    ids = [[s.pick('id%d_%d' % (i, j), [0, 1, 2]) for j in range(cols)] for i in range(rows)]
    present = sorted({x for r in ids for x in r})
    # patches: connected groups of superpixels (here: all changed pixels form one patch)
    patch = [[1 if x else 0 for x in r] for r in ids]
    mean = [s.real('cm%d' % k, 0, 64) if k else -9999 for k in present]
    info = {'label': present, 'mean_intensity': mean}
    p = {}
    for k in ['default'] + ['C%d' % i for i in range(1, 9)]:
        p[k + '_threshold'], p[k + '_sizeslope'] = float(D[k + '_threshold']), float(D[k + '_sizeslope'])
    land = None
    if lc:
        land = s.arr([[s.pick('lc%d_%d' % (i, j), [2, 4]) for j in range(cols)] for i in range(rows)], np.int16)
    out = O.object_analysis(s.arr(ids, np.int32), s.arr(patch, np.int32), DF(info) if s.symbolic else pd.DataFrame(info), classification_map=land, parameters=p)
    size = sum(1 for r in patch for x in r if x)
    changed = {}
    for k, m in zip(present, mean):
        key = 'default'
        if lc:
            c = [land[i, j] for i in range(rows) for j in range(cols) if ids[i][j] == k]
            key = 'C%d' % min(set(c), key=lambda v: (-c.count(v), v))
        changed[k] = False if k == 0 else m * scale(s, size, p[key + '_sizeslope']) > p[key + '_threshold']
    for i in range(rows):
        for j in range(cols):
            s.check((out[i, j] == 1) == changed[ids[i][j]], 'pixel declared changed with its object')
            s.check(s.Or(out[i, j] == 0, out[i, j] == 1), 'map values')
    s.reach('analysis')


def modes(s, n, what):
    """most common value (smallest on ties) and median per object"""
    s.patch(O, stats=type('S', (), {'mode': staticmethod(psym.stats_mode)}))
    ids = [s.int('id%d' % i, 0, 2) for i in range(n)]
    v = [s.int('v%d' % i, 0, 3) for i in range(n)]
    if what == "mode":
        m = O.modeby(s.arr(v, np.int16), s.arr(ids, np.int32))
        med = [None] * len(m)
    else:
        w = [s.real('w%d' % i, -8, 8) for i in range(n)]
        m, med = O.mode_median_by(s.arr(v, np.int16), s.arr(w, np.float64), s.arr(ids, np.int32))
    # ids are decided by the sort, values are not
    groups = {}
    for k, x in enumerate(ids):
        groups.setdefault(s.fork(x), []).append(k)
    s.check(len(m) == len(groups) and len(med) == len(groups), 'one summary per object')
    for (g, ks), a, b in zip(sorted(groups.items()), m, med):
        cnt = lambda x: sum((s.ite(v[k] == x, 1, 0) for k in ks), 0)
        for q in range(4):
            s.check(s.Or(cnt(a) > cnt(q), s.And(cnt(a) == cnt(q), s.Or(a <= q, cnt(a) == 0))), 'mode of object %d' % g)
        s.check(cnt(a) > 0, 'mode is a value of the object')
        if what != "mode":
            x = sorted(w[k] for k in ks)
            h = len(x) // 2
            s.check(b == (x[h] if len(x) % 2 else (x[h - 1] + x[h]) / 2), 'median of object %d' % g)
    s.reach('modes')


def clip(s, n):
    """normalisation to [0, 1]"""
    s.patch(O)
    d = [s.real('d%d' % i, -16, 16) for i in range(n)]
    lo, hi = s.real('lo', -8, 8), s.real('hi', -8, 8)
    s.assume(lo <= hi)
    na = s.pick('na', [None, -9999.0, 3.0])
    if na == -9999.0:
        d[0] = s.ite(s.bool('has'), -9999.0, d[0])
    o = O.normalize_clip(s.arr(d, np.float64), lo, hi, na)
    for k in range(n):
        x = s.ite(lo == hi, 0.0, s.ite(d[k] <= lo, 0.0, s.ite(d[k] >= hi, 1.0, (d[k] - lo) / s.ite(lo == hi, 1, hi - lo))))
        if na is not None:
            x = s.ite(d[k] == na, na, x)
        s.check(s.close(o[k], x), 'normalised value')
    s.reach('clip')


class Pd:
    """pandas.Timestamp.fromordinal with years as comparisons against the ordinal of January 1st"""
    def __init__(self, s, lo, hi): self.s, self.lo, self.hi, self.Timestamp = s, lo, hi, self
    def fromordinal(self, d):
        import datetime
        y = self.lo
        for k in range(self.lo + 1, self.hi + 2):
            y = self.s.ite(d >= datetime.date(k, 1, 1).toordinal(), k, y)
        return type('T', (), {'year': y})()

    def __getattr__(self, n): return getattr(pd, n)


def lastyear(s, lo, hi):
    """which land-cover map an object-analysis date uses"""
    import datetime
    start = s.int('start', datetime.date(lo, 1, 1).toordinal(), datetime.date(hi, 12, 31).toordinal())
    date = s.int('date', datetime.date(lo, 1, 1).toordinal(), datetime.date(hi, 12, 31).toordinal())
    s.assume(date >= start)
    s.patch(O, pd=Pd(s, lo, hi))
    info = C.DatasetInfo(1, 1, 1, 1)
    th = join(s.root, 'lc')
    s.fs.mkdir(th)
    for y in range(lo - 1, hi + 1):
        s.fs.save(join(th, 'yearlyclassification_%d.npy' % y), np.array([[y]]))
    o = O.ObjectAnalystHPC(info, s.root, s.root, start, thematic_path=th)
    m = o.get_lastyear_cmap_fromdate(date)
    ys, yd = Pd(s, lo, hi).fromordinal(start).year, Pd(s, lo, hi).fromordinal(date).year
    s.check(m[0, 0] == s.ite(yd - 1 < ys, ys, yd - 1), 'map year')
    s.check(m[0, 0] <= yd, 'map of a later year')
    s.reach('lastyear')
