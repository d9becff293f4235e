"""stitching blocks into a tile (P04, P05, P11)"""
from pycold import utils as U
from pycold import common as C
from pycold import ob_analyst as O
from pycold import pyclassifier as P
import numpy as np
from os.path import join


def tile_pixel(s, info):
    """any pixel of the tile, with the block it belongs to and its index inside it"""
    r, c = s.int('row', 0, info.n_rows - 1), s.int('col', 0, info.n_cols - 1)
    by, bx = r // info.block_height, c // info.block_width
    return r, c, by * info.n_block_x + bx, (r % info.block_height) * info.block_width + c % info.block_width


def cmmaps(s, nx, ny, bw, bh, ncm, prefix):
    """block files -> one raster per date; at most one block file is missing"""
    s.patch(U)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    blk, out = join(s.root, 'blocks'), join(s.root, 'maps')
    s.fs.mkdir(blk), s.fs.mkdir(out)
    lo, hi = {'CM': (-9999, 32767), 'CM_date': (-9999, (1 << 31) - 1), 'CM_direction': (0, 255)}[prefix]
    # CM_direction rasters cannot hold the no-data value
    missing = s.pick('missing', [None] if prefix == 'CM_direction' else [None] + list(range(nx * ny)))
    v = []
    for b in range(nx * ny):
        v.append([[s.int('v%d_%d_%d' % (b, p, m), lo, hi) for m in range(ncm)] for p in range(bw * bh)])
        if b != missing:
            s.fs.save(join(blk, '%s_x%d_y%d.npy' % (prefix, b % nx + 1, b // nx + 1)), s.arr([x for p in v[b] for x in p], np.int32))
        else:
            v[b] = [[-9999] * ncm] * (bw * bh)
    start, step = s.pick('start', [724000, 735658]), s.pick('step', [32, 60])
    U.assemble_cmmaps(info, blk, out, start, ncm, prefix, step, clean=s.pick('clean', [True, False]))
    r, c, b, p = tile_pixel(s, info)
    for m in range(ncm):
        f = join(out, O.cmname_fromdate(start + m * step).replace('CM', prefix) + '.npy')
        s.check(s.fs.exists(f), 'no raster for date %d' % m)
        a = s.fs.load(f)
        s.check(a.shape == (info.n_rows, info.n_cols), 'raster shape')
        want = s.sel([s.sel([v[i][k][m] for k in range(bw * bh)], p) for i in range(nx * ny)], b)
        got = s.sel([s.sel([a[i, j] for j in range(info.n_cols)], c) for i in range(info.n_rows)], r)
        s.check(got == want, 'a pixel of raster %d is not what its block produced' % m)
    s.reach('maps' if missing is None else 'missing')


def array(s, nx, ny, bw, bh, nf):
    """assemble_array on blocks in row-major order"""
    s.patch(U)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    v = [[[[s.int('v%d_%d_%d_%d' % (b, i, j, f), -9999, 32767) for f in range(nf)] for j in range(bw)] for i in range(bh)] for b in range(nx * ny)]
    full = U.assemble_array([s.arr(x, np.int16) for x in v], nx)
    s.check(full.shape == (info.n_rows, info.n_cols, nf), 'shape of the tile')
    pixel(s, info, v, full, nf)


def pixel(s, info, v, full, nf):
    bw, bh = info.block_width, info.block_height
    r, c, b, p = tile_pixel(s, info)
    f = s.int('f', 0, nf - 1)
    want = s.sel([s.sel([s.sel(v[i][k // bw][k % bw], f) for k in range(bw * bh)], p) for i in range(len(v))], b)
    got = s.sel([s.sel([s.sel([full[i, j, k] for k in range(nf)], f) for j in range(info.n_cols)], c) for i in range(info.n_rows)], r)
    s.check(got == want, 'a pixel of the tile is not what its block produced')
    s.reach('tile')


def classifier(s, nx, ny, bw, bh, kind):
    """the same through the files the classifier keeps per block (directory listed in any order)"""
    s.patch(U)
    s.patch(P)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    tmp = join(s.root, 'tmp')
    s.fs.mkdir(tmp)
    pc = P.PyClassifierHPC(info, record_path=s.root, band_num=1, year_list_to_predict=[1999, 2000], tmp_path=tmp, feature_outputs=['a0', 'c1'])
    nf = 2 if kind == 'feature' else 1
    v = {y: [[[[s.int('v%d_%d_%d_%d_%d' % (y, b, i, j, f), 0, 255) for f in range(nf)] for j in range(bw)] for i in range(bh)] for b in range(nx * ny)] for y in (1999, 2000)}
    for b in range(nx * ny):
        if kind == 'feature':
            pc._save_features(b + 1, s.arr([[v[y][b][k // bw][k % bw] for k in range(bw * bh)] for y in (1999, 2000)], np.float32))
        else:
            for y in (1999, 2000):
                pc._save_yearlyclassification_maps(b + 1, y, s.arr([[x[0] for x in row] for row in v[y][b]], np.uint8))
    y = s.pick('year', [1999, 2000])
    blocks = pc.get_fullfeature_forcertainyear(y) if kind == 'feature' else pc._get_fullclassification_forcertainyear(y)
    s.check(len(blocks) == nx * ny, 'number of blocks read back')
    pixel(s, info, v[y], U.assemble_array(blocks, nx), nf)


def obia(s, nx, ny, bw, bh, ndates):
    """object-analysis result saved per block and read back"""
    s.patch(O)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    o = O.ObjectAnalystHPC(info, s.root, s.root, 724000, obia_path=join(s.root, 'obia'))
    s.fs.mkdir(o.obia_path)
    dates = [735658, 724060, 731000][:ndates]
    s.check(s.Not(o.is_finished_object_analysis(dates)), 'finished before the start')
    chg, day = [], []
    for d in dates:
        chg.append([[s.int('c%d_%d_%d' % (d, i, j), 0, 1) for j in range(nx * bw)] for i in range(ny * bh)])
        day.append([[s.int('d%d_%d_%d' % (d, i, j), -9999, 800000) for j in range(nx * bw)] for i in range(ny * bh)])
        o.save_obiaresult(d, s.arr(chg[-1], np.uint8), s.arr(day[-1], np.int32))
        s.check(o.is_finished_object_analysis(dates) == (d == dates[-1]), 'finished flag')
    order = sorted(range(ndates), key=lambda k: dates[k])
    r, c, b, p = tile_pixel(s, info)
    stacks = [o.get_allobiaresult_asarray(i % nx + 1, i // nx + 1) for i in range(nx * ny)]
    for k, i in enumerate(order):
        s.check(all(x.shape == (ndates, bw * bh) for x in stacks), 'shape of the stack')
        got = s.sel([s.sel([x[k, j] for j in range(bw * bh)], p) for x in stacks], b)
        ch = s.sel([s.sel(q, c) for q in chg[i]], r)
        dt = s.sel([s.sel(q, c) for q in day[i]], r)
        s.check(got == s.ite(s.And(ch == 1, dt > 0), dt, 0), 'break date read back')
    s.reach('obia')
