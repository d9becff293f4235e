"""the tile workflow: workers, blocks, pixels (P03, P20)"""
import datetime
import numpy as np
import yaml
from os.path import join
from scipy.stats import chi2
import psym
from pycold import common as C
from pycold import ob_analyst as O
from pycold import utils as U
from pycold.imagetool import tile_processing as T


class Wait(BaseException):
    """a worker that waits for the others"""


class Time:
    def sleep(self, n): raise Wait()
    def time(self): return 0.0


def config(s, nx, ny, bw, bh, interval=60, prob=0.95, conse=5):
    for d in ('stack', 'res'):
        s.fs.mkdir(join(s.root, d))
    p = join(s.root, 'c.yaml')
    with s.fs.open(p, 'w') as f:
        f.write(yaml.safe_dump({'DATASETINFO': dict(n_rows=ny * bh, n_cols=nx * bw, n_block_x=nx, n_block_y=ny), 'ALGORITHMINFO': dict(conse=conse, CM_OUTPUT_INTERVAL=interval, probability_threshold=prob)}))
    return dict(stack_path=join(s.root, 'stack'), result_path=join(s.root, 'res'), yaml_path=p, seedmap_path=None, low_datebound=None, upper_datebound=None, b_c2=False, seedmap_year=None)


def schedule(s, cores, args, kmax):
    """every worker up to the end: a waiting worker is started again after the others had a turn (finished work is not done twice)"""
    alive = [r for r in range(1, kmax + 1) if r <= cores]
    order = s.pick('order', [1, -1])
    for turn in range(6):
        rest = []
        for r in alive[::order]:
            try:
                T.main(rank=r, n_cores=cores, **args)
            except Wait:
                rest.append(r)
        alive = sorted(rest)
        if not alive:
            return True
    return False


def workers(s, nx, ny, method, kmax, seed=False):
    """all workers together: every block (and date) exactly once, in every stage"""
    s.patch(T)
    n_cm = 3
    args = config(s, nx, ny, 2, 1)
    args['method'] = method
    start, last = 730000, 730000 + 60 * (n_cm - 1)
    with s.fs.open(join(s.root, 'stack', 'starting_last_dates.txt'), 'w') as f:
        f.write('%d\n%d\n' % (start, last))
    if seed:
        args['seedmap_path'] = 'seed'
    seen = {k: [] for k in ('detect', 'feature', 'train', 'classify', 'assemble', 'obia', 'reconstruct', 'save', 'cm')}
    done = {'obia': set(), 'assembled': False, 'trained': False}
    stage = ['detect']

    def stack(info, bx, by, path, lo=0, hi=0, nband=8):
        if stage[0] == 'detect':
            seen['detect'].append((bx, by))
        return None, None

    class Ob:
        def __init__(self, *a, **k): pass
        def hpc_preparation(self): pass
        def is_finished_object_analysis(self, dates):
            return all(d in done['obia'] for d in dates)

        def obia_execute(self, date, **k):
            seen['obia'].append(date)
            done['obia'].add(date)

        def reconstruct_reccg(self, block_id, **k):
            seen['reconstruct'].append(block_id)
            return []

        def save_obcoldrecords(self, block_id, result_collect): seen['save'].append(block_id)

    class Pc:
        def __init__(self, *a, **k): pass
        def hpc_preparation(self): pass
        def is_finished_step4_assemble(self): return done['assembled']
        def is_finished_step1_predict_features(self): return len(set(seen['feature'])) == nx * ny
        def step1_feature_generation(self, block_id): seen['feature'].append(block_id)

        def step2_train_rf(self, ref_year=None):
            if not self.is_finished_step1_predict_features():
                raise Wait()
            seen['train'].append(1)
            done['trained'] = True

        def step3_classification(self, block_id):
            if not done['trained']:
                raise Wait()
            if block_id not in seen['classify']:
                seen['classify'].append(block_id)

        def step4_assemble(self):
            if len(set(seen['classify'])) != nx * ny:
                raise Wait()
            seen['assemble'].append(1)
            done['assembled'] = True

    def assemble(info, res, out, st, n, prefix, interval, clean):
        seen['cm'].append(prefix)
        for k in range(n):
            d = st + k * interval
            s.fs.save(join(out, '%s_maps_%d_%d%s.npy' % (prefix, d, datetime.date.fromordinal(d).year, U.get_doy(d))), np.zeros(1))
    s.stub(T, get_stack_date=stack, ObjectAnalystHPC=Ob, PyClassifierHPC=Pc, assemble_cmmaps=assemble, time=Time())
    cores = s.int('n_cores', 1, kmax)
    s.check(schedule(s, cores, args, kmax), 'the workers do not come to an end')
    want = [(x + 1, y + 1) for y in range(ny) for x in range(nx)]
    if method == 'OBCOLD':
        ids = list(range(1, nx * ny + 1))
        s.check(sorted(seen['save']) == ids and sorted(seen['reconstruct']) == ids, 'blocks reconstructed once each')
        s.check(sorted(set(seen['obia'])) == [start + 60 * k for k in range(n_cm)], 'dates analysed')
        s.check(set(seen['cm']) == {'CM', 'CM_date'}, 'change maps assembled')
        if seed:
            s.check(sorted(set(seen['feature'])) == ids and sorted(seen['classify']) == ids and seen['assemble'], 'blocks classified')
    for x, y in want:
        s.check(s.fs.exists(join(s.root, 'res', 'COLD_block%d_finished.txt' % ((y - 1) * nx + x))), 'block marked as finished')
    # the second read of the stack (reconstruction) is not counted
    first = seen['detect'] if method != 'OBCOLD' else [b for k, b in enumerate(seen['detect']) if b not in seen['detect'][:k]]
    s.check(sorted(first) == sorted(want), 'blocks detected once each')
    s.check(method != 'OBCOLD' or len(seen['detect']) == 2 * len(want), 'blocks read once per stage')
    s.reach('workers')


class Pick:
    """pickle of a stream of results"""
    def __init__(self): self.out = []
    def dump(self, o, f): self.out.append(o)


def series(s, nx, ny, bw, bh, bx, by, days):
    """stack files of one block"""
    fold = join(s.root, 'stack', 'block_x%d_y%d' % (bx, by))
    s.fs.mkdir(fold)
    v = {}
    for k, d in enumerate(days):
        x = [[s.int('v%d_%d_%d' % (k, p, q), -2000, 20000) for q in range(8)] for p in range(bw * bh)]
        t = datetime.date.fromordinal(d)
        s.fs.save(join(fold, 'LT5012030%d%03dC2T1.npy' % (t.year, t.timetuple().tm_yday)), s.arr(x, np.int16))
        v[d] = x
    return v


def args_ok(s, a, kw, v, days, p):
    """the detector was given the observations of pixel p"""
    s.check(len(a) >= 9 and len(a[0]) == len(days), 'number of dates passed on')
    order = sorted(days)
    for k, d in enumerate(order):
        s.check(a[0][k] == d, 'dates passed on')
        for q in range(8):
            s.check(a[1 + q][k] == v[d][p][q], 'observations of the pixel passed on (band %d)' % q)


def pixels(s, method, nx, ny, bw, bh, bx, by, days, b_c2=False, ranged=False):
    """one block: every pixel goes through detection with its own observations, position and options; results keep their pixel"""
    s.patch(T)
    n_cm, interval, prob, conse = 2, 60, 0.95, 5
    args = config(s, nx, ny, bw, bh, interval, prob, conse)
    args['method'], args['b_c2'] = method, b_c2
    start = min(days)
    with s.fs.open(join(s.root, 'stack', 'starting_last_dates.txt'), 'w') as f:
        f.write('%d\n%d\n' % (start, start + interval * (n_cm - 1)))
    for y in range(ny):
        for x in range(nx):
            s.fs.mkdir(join(s.root, 'stack', 'block_x%d_y%d' % (x + 1, y + 1)))
    v = series(s, nx, ny, bw, bh, bx, by, days)
    if ranged:
        args['low_datebound'], args['upper_datebound'] = str(datetime.date.fromordinal(days[1])), str(datetime.date.fromordinal(days[1] + 1))
        days = [d for d in days if days[1] <= d <= days[1] + 1]
    npix = bw * bh
    fate = [s.pick('fate%d' % p, ['ok', 'fails', 'raises']) for p in range(npix)]
    cm = [[s.int('cm%d_%d' % (p, k), -9999, 30000) for k in range(n_cm)] for p in range(npix)]
    cd = [[s.int('cd%d_%d' % (p, k), -9999, 30000) for k in range(n_cm)] for p in range(npix)]
    tb = [s.int('tb%d' % p, 0, 800000) for p in range(npix)]
    calls = []
    pos = {}
    for p in range(npix):
        pos[p] = ((by - 1) * bh + p // bw) * nx * bw + (bx - 1) * bw + p % bw + 1

    def detect(*a, **kw):
        p = [k for k in pos if pos[k] == kw.get('pos')]
        s.check(len(p) == 1 and p[0] not in calls, 'position of the pixel')
        p = p[0]
        calls.append(p)
        args_ok(s, a, kw, v, days, p)
        s.check(kw.get('conse') == conse and kw.get('b_c2', False) == b_c2, 'options passed on')
        if method != 'OBCOLD':
            s.check(abs(kw.get('t_cg') - chi2.ppf(prob, 5)) < 1e-9, 'probability threshold passed on')
        else:
            s.check(kw.get('starting_date') == start and kw.get('n_cm') == n_cm and kw.get('cm_output_interval') == interval and kw.get('b_output_cm') is True, 'change-map options passed on')
        if fate[p] == 'fails':
            raise RuntimeError('cold fails')
        if fate[p] == 'raises':
            raise (ValueError('bad series'))
        if method == 'SCCDOFFLINE':
            return C.SccdOutput(pos[p], np.array([]), s.arr([tb[p]] * 6, np.int16), 0, np.array([]), np.array([]))
        r = s.recs(C.reccg_dt, [{'t_start': 1, 't_end': 2, 't_break': tb[p], 'pos': kw['pos'], 'num_obs': 1, 'category': 1, 'change_prob': 100, 'coefs': [[0] * 8] * 7, 'rmse': [0] * 7, 'magnitude': [0] * 7}])
        return [r, s.arr(cm[p], np.int16), s.arr(cd[p], np.int16)] if method == 'OBCOLD' else r

    rec = []

    class Ob:
        def __init__(self, *a, **k): pass
        def hpc_preparation(self): pass
        def is_finished_object_analysis(self, dates): return True
        def save_obcoldrecords(self, block_id, result_collect): pass

        def reconstruct_reccg(self, block_id, img_stack, img_dates_sorted, conse, **k):
            rec.append((block_id, img_stack, img_dates_sorted, conse))
    pk = Pick()
    s.stub(T, cold_detect=detect, sccd_detect=detect, ObjectAnalystHPC=Ob, assemble_cmmaps=lambda *a, **k: None, is_finished_assemble_cmmaps=lambda *a: True, pickle=pk, time=Time())
    if method == 'SCCDOFFLINE':
        fate = ['ok' if x == 'raises' else x for x in fate]
    T.main(rank=1, n_cores=1, **args)
    s.check(len(calls) == npix, 'every pixel of the block')
    ok = [p for p in range(npix) if fate[p] == 'ok']
    res = join(s.root, 'res')
    if method == 'SCCDOFFLINE':
        s.check(sorted(x[0] for x in pk.out) == [pos[p] for p in ok], 'one result per pixel')
        for x in pk.out:
            p = [k for k in pos if pos[k] == x[0]][0]
            s.check(x[2][0] == tb[p], 'result of the pixel')
    else:
        f = join(res, 'record_change_x%d_y%d_cold.npy' % (bx, by))
        s.check(s.fs.exists(f) == bool(ok), 'record file')
        if ok:
            r = s.fs.load(f)
            s.check(len(r) == len(ok), 'one record per pixel')
            for p in ok:
                m = [k for k in range(len(ok)) if r[k]['pos'] == pos[p]]
                s.check(len(m) == 1 and r[m[0]]['t_break'] == tb[p], 'record of the pixel')
    if method == 'OBCOLD':
        for y in range(1, ny + 1):
            for x in range(1, nx + 1):
                for pre, val in (('CM', cm), ('CM_date', cd)):
                    a = s.fs.load(join(res, '%s_x%d_y%d.npy' % (pre, x, y)))
                    s.check(a.shape == (npix * n_cm,), 'size of a %s block' % pre)
                    for p in range(npix):
                        for k in range(n_cm):
                            s.check(a[p * n_cm + k] == (val[p][k] if (x, y) == (bx, by) and fate[p] == 'ok' else -9999), '%s row of a pixel' % pre)
        mine = [x for x in rec if x[0] == (by - 1) * nx + bx]
        s.check(len(mine) == 1 and len(rec) == nx * ny, 'every block reconstructed')
        _, st, ds, co = mine[0]
        s.check(co == conse and len(ds) == len(days), 'reconstruction uses the observations of the detection')
        for k, d in enumerate(sorted(days)):
            s.check(ds[k] == d, 'dates of the reconstruction')
            for p in range(npix):
                for q in range(8):
                    s.check(st[p, q, k] == v[d][p][q], 'observations of the reconstruction')
    s.reach('pixels')


def recon(s, nx, ny, bw, bh, bx, by, days, given):
    """reconstruct_reccg and save_obcoldrecords: each pixel with its own observations, break dates and position; a block without images"""
    s.patch(O)
    s.patch(U)
    config(s, nx, ny, bw, bh)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    npix = bw * bh
    for y in range(ny):
        for x in range(nx):
            s.fs.mkdir(join(s.root, 'stack', 'block_x%d_y%d' % (x + 1, y + 1)))
    v = series(s, nx, ny, bw, bh, bx, by, days) if days else {}
    o = O.ObjectAnalystHPC(info, join(s.root, 'stack'), join(s.root, 'res'), 730000)
    o.hpc_preparation()
    brk = [[s.int('br%d_%d' % (k, p), 0, 800000) for p in range(npix)] for k in range(2)]
    fate = [s.pick('fate%d' % p, ['ok', 'fails', 'raises']) for p in range(npix)]
    tb = [s.int('tb%d' % p, 0, 800000) for p in range(npix)]
    pos = {p: ((by - 1) * bh + p // bw) * nx * bw + (bx - 1) * bw + p % bw + 1 for p in range(npix)}
    calls = []

    def rec(*a, **kw):
        p = [k for k in pos if pos[k] == kw.get('pos')]
        s.check(len(p) == 1 and p[0] not in calls, 'position of the pixel')
        p = p[0]
        calls.append(p)
        args_ok(s, a, kw, v, days, p)
        s.check(len(a[9]) == 2, 'break dates passed on')
        for k in range(2):
            s.check(a[9][k] == brk[k][p], 'break dates of the pixel passed on')
        s.check(kw.get('conse') == 4, 'conse passed on')
        if fate[p] == 'fails':
            raise RuntimeError('fails')
        if fate[p] == 'raises':
            raise ValueError('bad')
        return s.recs(C.reccg_dt, [{'t_start': 1, 't_end': 2, 't_break': tb[p], 'pos': kw['pos'], 'num_obs': 1, 'category': 1, 'change_prob': 100, 'coefs': [[0] * 8] * 7, 'rmse': [0] * 7, 'magnitude': [0] * 7}])
    s.stub(O, obcold_reconstruct=rec)
    o.get_allobiaresult_asarray = lambda x, y: s.arr(brk, np.int32) if (x, y) == (bx, by) else None
    lg = type('L', (), {'error': lambda *a: None})()
    st = {}
    if given and days:
        order = sorted(days)
        st = dict(img_stack=s.arr([[[v[d][p][q] for d in order] for q in range(8)] for p in range(npix)], np.int16), img_dates_sorted=s.arr(order, np.int64))
    bid = (by - 1) * nx + bx
    r = o.reconstruct_reccg(block_id=bid, logger=lg, conse=4, **st)
    o.save_obcoldrecords(block_id=bid, result_collect=r)
    ok = [p for p in range(npix) if fate[p] == 'ok'] if days else []
    s.check(len(calls) == (npix if days else 0), 'every pixel of the block')
    f = join(o.obcold_recg_path, 'record_change_x%d_y%d_obcold.npy' % (bx, by))
    s.check(s.fs.exists(f) == bool(ok), 'record file')
    if ok:
        r = s.fs.load(f)
        s.check(len(r) == len(ok), 'one record per pixel')
        for p in ok:
            m = [k for k in range(len(ok)) if r[k]['pos'] == pos[p]]
            s.check(len(m) == 1 and r[m[0]]['t_break'] == tb[p], 'record of the pixel')
    s.reach('recon')
