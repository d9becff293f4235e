"""image preparation: QA decoding and stacking of one image into block files (P06, P19)"""
import datetime
import numpy as np
from os.path import join
import psym
from pycold import common as C
from pycold.imagetool import prepare_ard as A

CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL = 0, 1, 2, 3, 4, 255


def decode(s, kind, v):
    """documented priority: fill > cloud > shadow > snow > water > clear"""
    if kind == 'hls':
        bits = [(1 << 5, WATER), (1 << 4, SNOW), (1 << 3, SHADOW), (1 << 2, CLOUD), (1 << 1, CLOUD)]
        r = CLEAR
    elif kind == 'c1':
        bits = [(1 << 1, CLEAR), (1 << 2, WATER), (1 << 4, SNOW), (1 << 3, SHADOW), (1 << 5, CLOUD), (1, FILL)]
        r = FILL
    else:
        bits = [(1 << 6, CLEAR), (1 << 7, WATER), (1 << 5, SNOW), (1 << 4, SHADOW), (1 << 3, CLOUD), (1 << 1, CLOUD), (1, FILL)]
        r = FILL
    for b, k in bits:
        r = s.ite((v // b) % 2 == 1, k, r)
    return s.ite(v == 255, FILL, r) if kind == 'hls' else r


FN = {'hls': 'qabitval_array_HLS', 'c1': 'qabitval_array', 'c2': 'qabitval_array_c2'}


def qa(s, kind, n):
    s.patch(A)
    hi = 255 if kind == 'hls' else 65535
    v = [[s.int('v%d_%d' % (i, j), 0, hi) for j in range(2)] for i in range(n)]
    o = getattr(A, FN[kind])(s.arr(v, np.uint8 if kind == 'hls' else np.uint16))
    s.check(o.shape == (n, 2), 'shape')
    for i in range(n):
        for j in range(2):
            s.check(o[i, j] == decode(s, kind, v[i][j]), 'class of a packed QA value')
    s.reach('qa')


class Log:
    def error(self, *a): self.err = a
    warn = warning = info = error


class Tar:
    def __init__(self, p): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def extractall(self, p): pass


class Img:
    """a GDAL data set"""
    def __init__(self, a, subs=None): self.a, self.subs = a, subs
    def ReadAsArray(self): return self.a.copy()
    def GetSubDatasets(self): return self.subs


SENSORS = {'LT4': '4', 'LT5': '5', 'LE7': '7', 'LC8': '8', 'LC9': '9'}


def names(kind, sensor, day):
    """(folder, {file: band 0..7 (7 = QA)}, name of the stack file, image folders) of a product"""
    d = datetime.date.fromordinal(day)
    doy = d.timetuple().tm_yday
    if kind == 'hls':
        f = 'HLS.%s.T10SEG.%d%03dT184921.v2.0' % (sensor, d.year, doy)
        b = ['B02', 'B03', 'B04', 'B05', 'B06', 'B07'] if sensor == 'L30' else ['B02', 'B03', 'B04', 'B8A', 'B11', 'B12']
        return f, dict({'%s.%s.tif' % (f, x): k for k, x in enumerate(b)}, **{f + '.Fmask.tif': 7}), 0, ['']
    if kind == 'hls14':
        f = '/x/HLS.%s.T10SEG.%d%03d.v1.4.hdf' % (sensor, d.year, doy)
        idx = [1, 2, 3, 4, 5, 6] if sensor == 'L30' else [1, 2, 3, 8, 11, 12]
        return f, {('sub%d' % i): k for k, i in enumerate(idx)}, 0, ['']
    n = SENSORS[sensor]
    sr = ['B1', 'B2', 'B3', 'B4', 'B5', 'B7'] if sensor in ('LT4', 'LT5', 'LE7') else ['B2', 'B3', 'B4', 'B5', 'B6', 'B7']
    th = 'B6' if sensor in ('LT4', 'LT5', 'LE7') else 'B10'
    if kind == 'c2':
        f = 'L%s0%s_L2SP_012030_%s_20210101_02_T1' % ('C' if n in '89' else 'E' if n == '7' else 'T', n, d.strftime('%Y%m%d'))
        return f, dict({'%s_SR_%s.TIF' % (f, x): k for k, x in enumerate(sr)}, **{f + '_ST_%s.TIF' % th: 6, f + '_QA_PIXEL.TIF': 7}), 0, ['']
    base = 'L%s0%s_CU_028006_%s_20210101_C01_V01' % ('C' if n in '89' else 'E' if n == '7' else 'T', n, d.strftime('%Y%m%d'))
    f = base + '_SR'
    sep, ext, q = ('', 'tif', 'PIXELQA') if kind == 'ard' else ('_', 'TIF', 'QA_PIXEL')
    return f, dict({'%s%s%s.%s' % (f, sep, x, ext): k for k, x in enumerate(sr)}, **{'%s_BT%s%s.%s' % (base, sep, th, ext): 6, '%s_%s.%s' % (base, q, ext): 7}), 0, ['']


RAW = {'hls': {'clear': 0, 'cloud': 2, 'fill': 255}, 'c1': {'clear': 2, 'cloud': 32, 'fill': 1}, 'c2': {'clear': 64, 'cloud': 8, 'fill': 1}}


def stack(s, kind, sensor, dims, part, paths=False, day=730130):
    """one image of a product -> block files"""
    nx, ny, bw, bh = dims
    rows, cols = ny * bh, nx * bw
    s.patch(A)
    info = C.DatasetInfo(rows, cols, nx, ny)
    dec = {'ard': 'c1', 'ard2': 'c2', 'c2': 'c2'}.get(kind, 'hls')
    c2 = kind in ('ard2', 'c2')
    raw = {}
    for k in range(7):
        raw[k] = [[s.int('b%d_%d_%d' % (k, i, j), *((0, 65535) if c2 else (-32768, 32767))) for j in range(cols)] for i in range(rows)]
    first = [[s.int('q%d_%d' % (i, j), 0, 2) for j in range(nx)] for i in range(ny)]
    cl = [[(first[i // bh][j // bw] + i % bh * bw + j % bw) % 3 for j in range(cols)] for i in range(rows)]
    raw[7] = [[s.sel([RAW[dec][x] for x in ('clear', 'cloud', 'fill')], cl[i][j]) for j in range(cols)] for i in range(rows)]
    folder, files, _, _ = names(kind, sensor, day)
    path = [[s.int('path%d_%d' % (i, j), 11, 12) for j in range(cols)] for i in range(rows)] if paths else None
    src, tmp, out = join(s.root, 'src'), join(s.root, 'tmp'), join(s.root, 'out')

    def arr(name):
        k = files.get(name.split('/')[-1])
        if k is None:
            k = 7 if name == 'qa' else None
        if k is None:           # a file the product has not got a use for
            return s.arr([[1] * cols] * rows, np.uint16 if c2 else np.int16)
        return s.arr(raw[k], np.uint8 if (k == 7 and dec == 'hls') else np.uint16 if (c2 or k == 7) else np.int16)
    for d in (src, tmp, out):
        s.fs.mkdir(d)
    for i in range(ny):
        for j in range(nx):
            s.fs.mkdir(join(out, 'block_x%d_y%d' % (j + 1, i + 1)))
    gd = type('G', (), {'GA_ReadOnly': 0, 'GDT_UInt16': 2})
    gd.Open = staticmethod(lambda p, *a: Img(arr(p) if kind != 'hls14' or p != folder else None, [('sub%d' % i, '') for i in range(15)] + [('qa', '')]))
    gd.Warp = staticmethod(lambda o, ds, **k: ds)
    ga = type('GA', (), {'LoadFile': staticmethod(arr)})
    sh = type('SH', (), {'rmtree': staticmethod(lambda *a, **k: None)})
    tf = type('TF', (), {'open': Tar})
    el = type('E', (), {'attrib': {'path': '12'}, '__getitem__': lambda q, i: type('T', (), {'text': '12'})})()
    et = type('ET', (), {'parse': staticmethod(lambda p: type('Tr', (), {'getroot': lambda q: type('R', (), {'findall': lambda z, x: [el]})()})())})
    s.stub(A, gdal=gd, gdal_array=ga, shutil=sh, tarfile=tf, ET=et, isdir=lambda p: True)
    if paths:
        s.fs.mkdir(join(tmp, folder))
        s.fs.mkdir(join(tmp, folder, folder.replace('_SR', '.xml')))
    date = datetime.date.fromordinal(day)
    lo, hi = s.pick('bounds', [(None, None), (0, None), (1, None), (None, 0), (None, -1), (-3, 3)])
    b = dict(low_date_bound=None if lo is None else str(date + datetime.timedelta(lo)), upp_date_bound=None if hi is None else str(date + datetime.timedelta(hi)), is_partition=part)
    lg = Log()
    pa = s.arr(path, np.int16) if paths else None
    if kind == 'hls':
        A.single_image_stacking_hls(src, out, lg, info, folder, clear_threshold=0.0, **b)
    elif kind == 'hls14':
        A.single_image_stacking_hls14(out, lg, info, folder, clear_threshold=0, **b)
    elif kind == 'c2':
        A.single_image_stacking_collection2(tmp, src, out, folder, 0, lg, info, [0, 0, 1, 1], **b)
    else:
        A.single_image_stacking(tmp, src, out, folder, 0, pa, lg, info, b_c2=(kind == 'ard2'), **b)
    inside = (lo is None or lo <= 0) and (hi is None or hi >= 0)

    def want(k, i, j):
        if k == 7:
            q = decode(s, dec, raw[7][i][j])
            return s.ite(path[i][j] != 12, FILL, q) if paths else q
        if k == 6 and dec == 'hls':
            return 0
        return raw[k][i][j]

    def check(a, r0, c0, h, w):
        s.check(a.shape == (h, w, 8), 'shape of a stack file')
        for i in range(h):
            for j in range(w):
                for k in range(8):
                    x = want(k, r0 + i, c0 + j)
                    if c2 and k < 7:
                        # USGS scale factors, stored as reflectance * 10000 or kelvin * 10, truncated
                        num, den = (x * 275 - 2000000, 1000) if k < 6 else (x * 341802 + 14900000000, 10000000)
                        d = a[i, j, k] * den - num
                        s.check(s.And(d < den + 1, d > -den - 1), 'scaled value of band %d' % k)
                    else:
                        s.check(a[i, j, k] == x, 'band %d of a pixel' % k)
    if not part:
        fl = [f for f in s.fs.listdir(out) if f.endswith('.npy')]
        s.check(len(fl) == (1 if inside else 0), 'one stack file for an image inside the date range')
        if fl:
            check(s.fs.load(join(out, fl[0])), 0, 0, rows, cols)
    for y in range(ny):
        for x in range(nx):
            fl = s.fs.listdir(join(out, 'block_x%d_y%d' % (x + 1, y + 1)))
            pix = [(y * bh + i, x * bw + j) for i in range(bh) for j in range(bw)]
            use = s.Or(*[s.Or(want(7, i, j) == CLEAR, want(7, i, j) == WATER, want(7, i, j) == SNOW) for i, j in pix])
            s.check(len(fl) <= 1, 'one file per block')
            if not part or not inside:
                s.check(len(fl) == 0, 'file of an image outside the date range')
                continue
            s.check(use if fl else s.Not(use), 'blocks without usable pixels are skipped, others kept')
            if fl:
                n = fl[0]
                s.check(n[9:16] == '%d%03d' % (date.year, date.timetuple().tm_yday) and n[0] in 'LS', 'date in the name of the block file')
                check(s.fs.load(join(out, 'block_x%d_y%d' % (x + 1, y + 1), n)), y * bh, x * bw, bh, bw)
    s.reach('stack')
