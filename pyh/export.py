"""exported break, recent/first disturbance and coefficient maps (P13, P21)"""
import datetime
import numpy as np
import yaml
from os.path import join
import psym
import pandas as pd_
from pycold import common as C
from pycold import utils as U
from pycold.imagetool import export_change_map as E

Y = (1999, 2000)            # exported years
LO, HI = 1998, 2001         # years of the records
SLOPE = 10000
COEF = {'a0': 0, 'c1': 1, 'a1': 2, 'b1': 3, 'a2': 4, 'b2': 5, 'a3': 6, 'b3': 7}


class Date:
    """datetime.date of a year that may be a number of the solver (January 1st or December 31st, July 1st)"""
    def __init__(self, s, y, m, d): self.s, self.y, self.m, self.d = s, y, m, d

    def toordinal(self):
        r = datetime.date(LO, self.m, self.d).toordinal()
        for k in range(LO + 1, HI + 1):
            r = self.s.ite(self.y >= k, datetime.date(k, self.m, self.d).toordinal(), r)
        return r


class Pd:
    def __init__(self, s): self.s, self.Timestamp = s, self
    def fromordinal(self, d): return type('T', (), {'year': year(self.s, d)})()
    def toordinal(self, d): return d.toordinal()
    def __getattr__(self, n): return getattr(pd_, n)


def year(s, d):
    y = LO
    for k in range(LO + 1, HI + 1):
        y = s.ite(d >= datetime.date(k, 1, 1).toordinal(), k, y)
    return y


D0, D1 = datetime.date(LO, 1, 1).toordinal(), datetime.date(HI, 12, 31).toordinal()


def records(s, n, tag, pos, free):
    """n records of one pixel in time order; `free`: the numbers of the record the category depends on are free"""
    rec, t = [], D0
    for i in range(n):
        a, b, k = (s.int('%s%s%d' % (tag, x, i), D0, D1) for x in ('start', 'end', 'brk'))
        s.assume(s.And(a >= t, b >= a, k > b))
        t = k
        has = s.bool('%shas%d' % (tag, i)) if i == n - 1 else True
        pr = s.int('%sprob%d' % (tag, i), 0, 100)
        g = lambda x: s.int('%s%s%d' % (tag, x, i), -600, 600)
        mag = [g('m%d' % q) if q in free else 50 for q in range(7)]
        co = [[(s.int('%sc%d_%d_%d' % (tag, i, q, j), -50, 50) if (q in (2, 3, 4) and j == 1) or (q == 1 and j in (0, 1, 2)) else 7 * q + j) for j in range(8)] for q in range(7)]
        rec.append({'t_start': a, 't_end': b, 't_break': s.ite(has, k, 0), 'pos': pos, 'num_obs': 20, 'category': 1, 'change_prob': s.ite(has, pr, 0), 'coefs': co, 'rmse': [3 + q for q in range(7)], 'magnitude': mag})
    return rec


def green(s, r, t):
    """the vegetation recovers: near-infrared rises, red and short-wave infrared fall"""
    m = r['magnitude']
    return s.And(m[3] > t, m[2] < -t, m[4] < -t)


def category(s, recs, i, method, last):
    r = recs[i]
    if method == 'SCCDOFFLINE':
        return s.ite(green(s, r, -200), 2, 1)
    t = -200 if method == 'COLD' else -250
    aff = False
    if i + 1 < len(recs):
        a = lambda x, b: x['coefs'][b][1]
        ab = lambda v: s.ite(v < 0, -v, v)
        n = recs[i + 1]
        aff = s.And(a(n, 3) > ab(a(r, 3)), a(n, 2) < -ab(a(r, 2)), a(n, 4) < -ab(a(r, 4)))
    dist = 1
    if method == 'OBCOLD' and i > 0:
        p = recs[i - 1]
        flip = sum((s.ite(p['magnitude'][b] * r['magnitude'][b] < 0, 1, 0) for b in range(1, 6)), 0)
        dist = s.ite(s.And(r['t_break'] - p['t_break'] <= 365.25 * 5, last == 1, flip >= 4), 4, 1)
    return s.ite(green(s, r, t), s.ite(aff, 3, 2), dist)


def maps(s, recs, method):
    """value of each exported year for one pixel, from its own records only"""
    out = {y: -9999 for y in range(Y[0], Y[1] + 1)}
    last = 0
    for i, r in enumerate(recs):
        ok = r['t_break'] != 0 if method == 'SCCDOFFLINE' else s.And(r['t_break'] != 0, r['change_prob'] >= 100)
        c = category(s, recs, i, method, last)
        last = s.ite(ok, c, last)
        for y in out:
            j = datetime.date(y, 1, 1).toordinal()
            k = datetime.date(y + 1, 1, 1).toordinal()
            out[y] = s.ite(s.And(ok, r['t_break'] >= j, r['t_break'] < k), c * 1000 + r['t_break'] - j + 1, out[y])
    return out


def feature(s, recs, band, name, y):
    day = datetime.date(y, 7, 1).toordinal()
    v = -9999
    if name == 'cv':
        for r in reversed(recs):
            v = s.ite(s.And(r['t_break'] != 0, r['change_prob'] == 100, year(s, r['t_break']) == y), r['magnitude'][band], v)
        return v
    for i in range(len(recs) - 1, -1, -1):
        r = recs[i]
        c = r['coefs'][band]
        f = r['rmse'][band] if name == 'rmse' else c[0] + c[1] * day / SLOPE if name == 'a0' else c[1] / SLOPE if name == 'c1' else c[COEF[name]]
        cover = day < recs[i + 1]['t_start'] if i + 1 < len(recs) else year(s, r['t_end']) >= y
        v = s.ite(s.And(r['t_start'] <= day, cover), f, v)
    return v


class Comm:
    """MPI: the workers run one after the other; the first one goes on once all have reached the barrier"""
    def __init__(self, run, size): self.run, self.size, self.rank, self.sent, self.k = run, size, 0, [], 0
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size

    def bcast(self, x, root=0):
        if self.rank == 0:
            self.sent.append(x)
            return x
        self.k += 1
        return self.sent[self.k - 1]

    def Barrier(self):
        if self.rank:
            return
        n = 1
        while n < self.size:
            self.rank, self.k = n, 0
            self.run()
            n += 1
        self.rank = 0


def export(s, method, nx, ny, bw, bh, layout, free=(2, 3, 4), coefs=None, bands=None, kmax=3):
    """the whole export; layout: per block a list of [pixel, number of records], null for a block without a file"""
    s.patch(E)
    s.patch(U)
    cols, rows = nx * bw, ny * bh
    res, out = join(s.root, 'res'), join(s.root, 'out')
    sub = {'COLD': 'cold_maps', 'OBCOLD': 'obcold_maps', 'SCCDOFFLINE': 'sccd_maps'}[method]
    for d in (res, out, join(res, 'obcold'), join(out, sub)):
        s.fs.mkdir(d)
    with s.fs.open(join(s.root, 'c.yaml'), 'w') as f:
        f.write(yaml.safe_dump({'DATASETINFO': dict(n_rows=rows, n_cols=cols, n_block_x=nx, n_block_y=ny)}))
    pix, packs = {}, {}
    for b, lay in enumerate(layout):
        bx, by = b % nx, b // nx
        name = 'record_change_x%d_y%d_%s.npy' % (bx + 1, by + 1, {'COLD': 'cold', 'OBCOLD': 'obcold', 'SCCDOFFLINE': 'sccd'}[method])
        if lay is None:
            continue
        all_, pk = [], []
        for k, n in lay:
            i, j = by * bh + k // bw, bx * bw + k % bw
            pos = i * cols + j + 1
            r = records(s, n, 'b%dp%d' % (b, k), pos, free)
            pix[i, j] = r
            all_ += r
            sr = s.recs(C.sccd_dt, [{'t_start': x['t_start'], 't_break': x['t_break'], 'num_obs': 20, 'coefs': [[0] * 6] * 6, 'rmse': [0] * 6, 'magnitude': x['magnitude'][:6]} for x in r]) if n else np.array([])
            mode = s.pick('mode%d' % k, [0, 1, 2]) if method == 'SCCDOFFLINE' else 0
            mo = s.recs(C.nrtmodel_dt, [{q: np.zeros(C.nrtmodel_dt[q].shape, int).tolist() for q in C.nrtmodel_dt.names}]) if mode == 1 else np.array([])
            qu = s.recs(C.nrtqueue_dt, [{'clry': [0] * 6, 'clrx_since1982': 1}]) if mode == 2 else np.array([])
            pk.append(U.unindex_sccdpack(C.SccdOutput(pos, sr, np.zeros(6, np.int16), mode, mo, qu)))
        if method == 'SCCDOFFLINE':
            with s.fs.open(join(res, name), 'wb') as f:
                f.write(name.encode())
            packs[name] = pk
        else:
            s.fs.save(join(res, 'obcold', name) if method == 'OBCOLD' else join(res, name), s.recs(C.reccg_dt, all_))
    at, tif = {}, {}

    class Pickle:
        @staticmethod
        def load(f):
            f.seek(0)
            n = f.read().decode()
            at[n] = at.get(n, 0) + 1
            if at[n] > len(packs[n]):
                raise EOFError()
            return packs[n][at[n] - 1]

    class Ds:
        RasterXSize, RasterYSize = cols, rows
        def __init__(self, p, shape): self.p, self.shape = p, shape
        def GetGeoTransform(self): return (1, 2, 3, 4, 5, 6)
        def GetProjection(self): return 'proj'
        def GetRasterBand(self, n): return self
        def FlushCache(self): pass
        def SetProjection(self, p): s.check(p == 'proj', 'projection of the map')
        def SetGeoTransform(self, t): s.check(t == (1, 2, 3, 4, 5, 6), 'georeference of the map')

        def WriteArray(self, a):
            s.check(a.shape == self.shape, 'map has the size of its raster file')
            tif[self.p.split('/')[-1]] = a

    class Drv:
        @staticmethod
        def Create(p, xsize, ysize, n, t): return Ds(p, (ysize, xsize))
    gd = type('G', (), {'GA_ReadOnly': 0, 'GDT_Int16': 3, 'GDT_Float32': 6, 'Open': staticmethod(lambda p, *a: Ds(p, (rows, cols))), 'GetDriverByName': staticmethod(lambda n: Drv)})
    ga = type('A', (), {'LoadFile': staticmethod(lambda p: tif[p.split('/')[-1]])})
    run = lambda: E.main(reccg_path=res, reference_path='ref.tif', out_path=out, method=method, year_lowbound=Y[0], year_uppbound=Y[1], yaml_path=join(s.root, 'c.yaml'), coefs=coefs, coefs_bands=bands or '0')
    comm = Comm(run, s.fork(s.int('n_process', 1, kmax)))
    dt = type('DT', (), {'date': staticmethod(lambda y, m, d: Date(s, y, m, d))})
    s.stub(E, gdal=gd, gdal_array=ga, pd=Pd(s), datetime=dt, pickle=Pickle, MPI=type('M', (), {'COMM_WORLD': comm}))
    run()
    want = {(i, j): maps(s, pix.get((i, j), []), method) for i in range(rows) for j in range(cols)}
    yrs = list(range(Y[0], Y[1] + 1))
    for y in yrs:
        a = tif['%d_break_map_%s.tif' % (y, method)]
        for p in want:
            s.check(a[p[0], p[1]] == want[p][y], 'break map')
    for name, ys in (('recent', yrs), ('first', yrs[::-1])):
        a = tif['%s_disturbance_map_%s.tif' % (name, method)]
        for p in want:
            v = 0
            for y in ys:
                v = s.ite(s.And(want[p][y] >= 1000, want[p][y] < 2000), y, v)
            s.check(a[p[0], p[1]] == v, '%s disturbance map' % name)
    if coefs and method != 'SCCDOFFLINE':
        for y in yrs:
            for b in bands.split(','):
                for c in coefs.split(','):
                    a = tif['%d_coefs_%s_%d_%s.tif' % (y, method, int(b), c)]
                    for p in want:
                        s.check(s.close(a[p[0], p[1]], feature(s, pix.get(p, []), int(b), c, y)), 'coefficient map (%s)' % c)
    s.check(not [x for x in s.fs.listdir(join(out, sub)) if x.startswith('tmp_')], 'temporary block maps removed')
    s.reach('export')


def types(s, method, n):
    """category of each break of a pixel whose neighbour's records surround it"""
    s.patch(E)
    rec = records(s, 1, 'before', 1, ()) + records(s, n, 'p', 2, (1, 2, 3, 4, 5)) + records(s, 1, 'after', 3, ())
    mine = rec[1:1 + n]
    if method == 'SCCDOFFLINE':
        a = s.recs(C.sccd_dt, [{'t_start': 1, 't_break': 2, 'num_obs': 20, 'coefs': [[0] * 6] * 6, 'rmse': [0] * 6, 'magnitude': x['magnitude'][:6]} for x in mine])
        for i in range(n):
            s.check(E.getcategory_sccd(a, i) == category(s, mine, i, method, 0), 'category')
        s.reach('types')
        return
    a = s.recs(C.reccg_dt, rec)
    last = 0
    for i in range(n):
        if method == 'COLD':
            got = E.getcategory_cold(a, 1 + i)
        else:
            got = last = E.getcategory_obcold(a, 1 + i, last)
        s.check(got == (category(s, mine, i, method, prev) if i else category(s, mine, 0, method, 0)) if method == 'OBCOLD' else got == category(s, mine, i, method, 0), 'category')
        prev = last
    s.reach('types')
