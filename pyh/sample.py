"""features and training samples (P07, P08, P10)"""
import datetime
import numpy as np
import psym
from pycold import common as C
from pycold import pyclassifier as P

NAMES = ['a0', 'c1', 'a1', 'b1', 'a2', 'b2', 'a3', 'b3']
NAN = P.defaults['COMMON']['NAN_VAL']
SLOPE = 10000


def numbers(s, n, cats):
    """generate_sample_num on a map of n labels with free limits"""
    s.patch(P)
    lab = [s.int('l%d' % i, 0, cats + 1) for i in range(n)]
    prm = {'total_samples': s.int('total', 1, 12), 'max_category_samples': s.int('max', 1, 8), 'min_category_samples': s.int('min', 0, 8), 'total_landcover_category': cats}
    s.assume(prm['min_category_samples'] <= prm['max_category_samples'])
    cnt = [sum((s.ite(x == k + 1, 1, 0) for x in lab), 0) for k in range(cats)]
    s.assume(sum(cnt, 0) > 0)
    got = P.generate_sample_num(s.arr([lab], np.int16), prm)
    s.check(len(got) == cats, 'one number per category')
    for k in range(cats):
        s.check(s.And(got[k] >= 0, got[k] <= cnt[k]), 'more samples than pixels of the category')
        s.check(got[k] <= prm['max_category_samples'], 'more samples than the maximum')
        s.check(s.Or(got[k] >= prm['min_category_samples'], got[k] == cnt[k]), 'fewer samples than the minimum')
        # proportional share (halves rounded either way) within the limits
        lo, hi, c, n_ = prm['min_category_samples'], prm['max_category_samples'], s.fork(cnt[k]), s.fork(sum(cnt, 0))
        w = []
        for x in ((2 * c * prm['total_samples'] + n_) // (2 * n_), -((n_ - 2 * c * prm['total_samples']) // (2 * n_))):
            x = s.ite(x > hi, hi, x)
            x = s.ite(x < lo, lo, x)
            w.append(got[k] == s.ite(x > c, c, x))
        s.check(s.Or(*w), 'number of samples of a category')
    s.reach('numbers')


def records(s, n, tag, pos=None, bands=7):
    """n records of one pixel in time order, coefficients with names of their own"""
    rec, t = [], None
    for i in range(n):
        a = s.int('%sstart%d' % (tag, i), 730000, 733000)
        b = s.int('%send%d' % (tag, i), 730000, 733000)
        s.assume(s.And(a <= b, True if t is None else a > t))
        t = b
        rec.append({'t_start': a, 't_end': b, 't_break': b if i < n - 1 else 0, 'pos': pos if pos is not None else 1, 'num_obs': 20, 'category': 1, 'change_prob': 100 if i < n - 1 else 0,
                    'coefs': [[s.real('%sc%d_%d_%d' % (tag, i, k, j), -64, 64) for j in range(8)] if k < bands else [0] * 8 for k in range(7)],
                    'rmse': [s.real('%sr%d_%d' % (tag, i, k), 0, 64) if k < bands else 0 for k in range(7)], 'magnitude': [0] * 7})
    return rec


def feature(s, recs, band, day, name):
    """documented feature of a pixel at a day: of the record that covers it (a record covers up to the start of the next one)"""
    r = NAN
    for i in range(len(recs) - 1, -1, -1):
        q = recs[i]
        end = q['t_end'] if i == len(recs) - 1 else recs[i + 1]['t_start']
        c = q['coefs'][band]
        v = {'a0': c[0] + c[1] * day / SLOPE, 'c1': c[1] / SLOPE, 'rmse': q['rmse'][band]}.get(name)
        if v is None:
            v = c[NAMES.index(name)]
        r = s.ite(s.And(q['t_start'] <= day, day < end), v, r)
    return r


def features(s, n, mod='pyclassifier'):
    """extract_features for n records, any two days, all feature names"""
    s.patch(P)
    recs = records(s, n, 'p', bands=2)
    band = s.pick('band', [0, 1])
    days = [s.int('day0', 729990, 733010), s.int('day1', 729990, 733010)]
    names = ['rmse', 'b3', 'a0', 'c1', 'a1', 'b1', 'a2', 'b2', 'a3']
    got = P.extract_features(s.recs(C.reccg_dt, recs), band, days, NAN, feature_outputs=names)
    s.check(len(got) == len(names), 'one array per feature')
    for k, name in enumerate(names):
        s.check(len(got[k]) == 2, 'one value per day')
        for d in range(2):
            s.check(s.close(got[k][d], feature(s, recs, band, days[d], name)), 'feature %s' % name)
    s.reach('features')


def block(s, nx, ny, bw, bh, bid, order):
    """predict_features: rows of the pixels that have records, in any pixel order"""
    s.patch(P)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    pc = P.PyClassifier(info, feature_outputs=['a1', 'rmse'], band_num=2)
    bx, by = (bid - 1) % nx, (bid - 1) // nx
    pix = [k for k in s.pick('order', order)]
    years = [2000, 2002]
    all_, per = [], {}
    for k in pix:
        pos = (by * bh + k // bw) * info.n_cols + bx * bw + k % bw + 1
        per[k] = records(s, s.pick('n%d' % k, [1, 2]), 'p%d_' % k, pos, bands=2)
        all_ += per[k]
    got = pc.predict_features(bid, s.recs(C.reccg_dt, all_), years)
    s.check(got.shape == (2, bw * bh, 4), 'shape')
    for y in range(2):
        day = datetime.date(years[y], 7, 1).toordinal()
        for k in range(bw * bh):
            for b in range(2):
                for f, name in enumerate(['a1', 'rmse']):
                    s.check(s.close(got[y, k, b * 2 + f], feature(s, per[k], b, day, name) if k in per else NAN), 'feature row of a pixel')
    s.reach('block')


class Model:
    def __init__(self, out): self.out = out
    def predict(self, x): return self.out


def fillclass(s, bw, bh):
    """classification: pixels without any feature get the fill class, the others the class of the model"""
    s.patch(P)
    pc = P.PyClassifier(C.DatasetInfo(bh, bw, 1, 1), feature_outputs=['a0'], band_num=2)
    f = [[s.ite(s.bool('no%d_%d' % (k, j)), NAN, s.int('f%d_%d' % (k, j), -5, 5)) for j in range(2)] for k in range(bw * bh)]
    c = [s.int('c%d' % k, 1, 8) for k in range(bw * bh)]
    m = pc.classification_block(Model(s.arr(c, np.int64)), s.arr(f, np.float32))
    s.check(m.shape == (bh, bw), 'shape')
    for k in range(bw * bh):
        s.check(m[k // bw, k % bw] == s.ite(s.And(f[k][0] == NAN, f[k][1] == NAN), 255, c[k]), 'class of a pixel')
    s.reach('fill')
