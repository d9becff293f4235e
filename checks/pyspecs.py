"""jobs of the Python properties (psym)"""
from peng import Py

PA = 'Python integers and exact reals for numpy numbers (fixed-width wrap-around modelled, float rounding not); numpy container operations of the installed version; no other process touches the files'


def register(SPECS, Spec, tiered):
    def S(pid, quick, thorough=None, outside='', extra=(), parallel=6):
        SPECS[pid] = Spec(tiered(quick, thorough or (lambda: [])), outside=outside, assumptions=[PA] + list(extra), parallel=parallel)

    def grid(nx, ny, bw, bh, **kw):
        return Py('pixels_%d_%d_%d_%d' % (nx, ny, bw, bh), file='grid.py', fn='pixels', nx=nx, ny=ny, bw=bw, bh=bh, timeout=200,
                  desc='any pixel: block, place in the block and back; derived block sizes', bounds='tile of %d x %d blocks of %d x %d pixels (width x height), every pixel' % (nx, ny, bw, bh))

    S('P02', lambda: [Py('blocks', file='grid.py', fn='blocks', xmax=50, idmax=2500, timeout=200, desc='block id <-> block row and column', bounds='1..50 blocks per row, ids up to 2500')]
      + [grid(*a) for a in ((1, 1, 1, 1), (3, 2, 2, 3), (2, 5, 7, 4), (20, 25, 250, 200))],
      lambda: [grid(*a) for a in ((1, 7, 3, 1), (5, 1, 1, 6), (4, 4, 30, 30), (50, 50, 100, 100), (11, 13, 17, 19))] +
      [Py('blocks_big', file='grid.py', fn='blocks', xmax=1000, idmax=1000000, timeout=800, desc='block id <-> block row and column', bounds='1..1000 blocks per row, ids up to 1000000')],
      outside='other block shapes; tiles above 2^53 pixels, where the float division in the code rounds')

    def asm(fn, name, dims, desc, bounds, **kw):
        nx, ny, bw, bh = dims
        return Py('%s_%dx%d_%dx%d' % ((name,) + dims), file='asm.py', fn=fn, nx=nx, ny=ny, bw=bw, bh=bh, desc=desc,
                  bounds='%d x %d blocks of %d x %d pixels, %s' % (nx, ny, bw, bh, bounds), timeout=kw.pop('timeout', 300), **kw)

    def cm(prefix, dims, ncm=2, **kw):
        return asm('cmmaps', prefix, dims, 'change-map rasters from block files, at most one of them missing', '%d dates, all values the map type holds' % ncm, prefix=prefix, ncm=ncm, **kw)
    S('P04', lambda: [cm('CM', (2, 3, 2, 1)), cm('CM_date', (3, 2, 1, 2)), cm('CM', (3, 1, 2, 2), 3), cm('CM_date', (1, 3, 2, 3), 1), cm('CM_direction', (2, 2, 2, 1))],
      lambda: [cm('CM', (3, 4, 2, 3), 2, timeout=800), cm('CM_date', (5, 2, 3, 2), 3, timeout=800), cm('CM_date', (4, 3, 2, 2), 2, timeout=800)],
      outside='larger tiles; more than one missing block; no-data in CM_direction rasters (unsigned bytes cannot hold it; the tool does not produce them)')

    def arr(dims, nf=2, **kw):
        return asm('array', 'array', dims, 'blocks in row-major order stitched into the tile', '%d values per pixel' % nf, nf=nf, **kw)

    def cls(kind, dims, **kw):
        return asm('classifier', 'files_' + kind, dims, 'block files of the classifier read back in block order and stitched (%s)' % kind, 'two years', kind=kind, **kw)
    S('P05', lambda: [arr((3, 2, 2, 2)), arr((2, 3, 1, 2), 1), arr((1, 4, 3, 2), 1), arr((4, 1, 2, 3), 3), cls('feature', (4, 3, 1, 1)), cls('map', (3, 4, 2, 1))],
      lambda: [arr((4, 3, 3, 2), 3, timeout=800), cls('map', (5, 4, 2, 2), timeout=800)],
      outside='larger tiles; incomplete block sets')

    def ob(dims, nd=3, **kw):
        return asm('obia', 'obia', dims, 'results saved per block and read back as a date-ordered stack', '%d dates saved out of order' % nd, ndates=nd, **kw)
    S('P11', lambda: [ob((3, 2, 2, 1)), ob((2, 3, 2, 3), 2), ob((1, 2, 3, 2))], lambda: [ob((4, 3, 3, 2), 3, timeout=800)],
      outside='dates before ordinal day 100000 (file names assume six digits)')

    def sm(name, fn, desc, bounds, file='sample.py', timeout=300, **kw):
        return Py(name, file=file, fn=fn, desc=desc, bounds=bounds, timeout=timeout, **kw)

    def ft(n, **kw):
        return sm('features_%d' % n, 'features', 'features of a pixel at two days', '%d records of one pixel, any dates, coefficients and days, all feature names' % n, n=n, **kw)
    S('P07', lambda: [ft(1), ft(2)], lambda: [ft(3, timeout=850)], outside='more records per pixel; rounding of float32 coefficients')

    def blk(nx, ny, bw, bh, bid, order, **kw):
        return sm('block_%dx%d_%dx%d_%d' % (nx, ny, bw, bh, bid), 'block', 'feature table of a block', '%d x %d blocks of %d x %d pixels, block %d, pixels with records in the orders %s, 1 or 2 records each, 2 years' % (nx, ny, bw, bh, bid, order),
                  nx=nx, ny=ny, bw=bw, bh=bh, bid=bid, order=order, **kw)
    S('P08', lambda: [blk(2, 2, 2, 2, 3, [[0, 3], [3, 0], [2], [1, 2]]), blk(3, 2, 1, 2, 5, [[1, 0], [0], [1]]), sm('fill', 'fillclass', 'class of pixels without features', '2 x 1 pixels, 2 bands', bw=2, bh=1)],
      lambda: [blk(2, 3, 3, 2, 4, [[5, 0, 2], [1, 4]], timeout=850), sm('fill_3', 'fillclass', 'class of pixels without features', '3 x 1 pixels, 2 bands', bw=3, bh=1, timeout=850)],
      outside='more pixels with records per block')

    def rl(th, mode, params):
        return sm('rule_%s_%s_%s' % ('lc' if th else 'nolc', mode, params), 'rule', 'change decision for one object', 'objects of 1..8 pixels, any mean magnitude; uniform parameters: %s; table: %s' % (mode, params), file='obj.py', thematic=th, mode=mode, params=params)

    def an(rows, cols, lc, **kw):
        return sm('analysis_%d_%d%s' % (rows, cols, '_lc' if lc else ''), 'analysis', 'change map of a small tile against the rule per object', '%d x %d pixels, up to 3 superpixels, one patch' % (rows, cols), file='obj.py', n=[rows, cols], lc=lc, **kw)
    S('P09', lambda: [rl(t, m, p) for t in (True, False) for m, p in (('none', 'free'), ('both', 'free'), ('threshold', 'free'), ('slope', 'default'), ('none', 'default'))] + [an(1, 4, True), an(2, 3, False)],
      lambda: [an(1, 5, True, timeout=850), an(2, 4, False, timeout=850)], outside='objects above 8 pixels (the logarithm is tabulated); the segmentation itself (scikit-image)')
    S('P16', lambda: [sm('mode_4', 'modes', 'most common value per object', '4 pixels, 3 objects, 4 values', file='obj.py', n=4, what='mode'), sm('both_3', 'modes', 'mode and median per object', '3 pixels, 3 objects, 4 values', file='obj.py', n=3, what='both'),
                      sm('clip', 'clip', 'normalisation to [0,1] keeping no-data', '2 values, any limits', file='obj.py', n=2)],
      lambda: [sm('mode_5', 'modes', 'most common value per object', '5 pixels, 3 objects, 4 values', file='obj.py', n=5, what='mode', timeout=850), sm('both_4', 'modes', 'mode and median per object', '4 pixels, 3 objects, 4 values', file='obj.py', n=4, what='both', timeout=850)],
      outside='larger tiles')
    S('P17', lambda: [sm('lastyear', 'lastyear', 'land-cover map chosen for a date', 'any start and later date 1990..1999', file='obj.py', lo=1990, hi=1999)],
      lambda: [sm('lastyear_60', 'lastyear', 'land-cover map chosen for a date', 'any start and later date 1982..2041', file='obj.py', lo=1982, hi=2041, timeout=850)], outside='years beyond')
    S('P10', lambda: [sm('numbers_3_2', 'numbers', 'sample numbers', '3 pixels, 2 categories, any limits', n=3, cats=2), sm('numbers_4_2', 'numbers', 'sample numbers', '4 pixels, 2 categories, any limits', n=4, cats=2)],
      lambda: [sm('numbers_4_3', 'numbers', 'sample numbers', '4 pixels, 3 categories, any limits', n=4, cats=3, timeout=850), sm('numbers_6_2', 'numbers', 'sample numbers', '6 pixels, 2 categories, any limits', n=6, cats=2, timeout=850)],
      outside='larger maps; the random choice of pixels')

    def qa(k, n=2, **kw):
        return sm('qa_%s' % k + ('' if n == 2 else '_%d' % n), 'qa', 'packed QA values decoded', '%d x 2 pixels, every packed value' % n, file='prep.py', kind=k, n=n, **kw)
    S('P06', lambda: [qa(k) for k in ('hls', 'c1', 'c2')], lambda: [qa(k, 4, timeout=850) for k in ('hls', 'c1', 'c2')], outside='the confidence bits, which the tool does not use')

    def stk(kind, sensor, dims, part, **kw):
        return sm('stack_%s_%s_%s_%s%s' % (kind, sensor, 'x'.join(map(str, dims)), 'part' if part else 'full', '_paths' if kw.get('paths') else ''), 'stack', 'one image to block files: bands, scale, QA, pixel places, file name and dates', 'tile of %d x %d blocks of %d x %d pixels, every band and QA value' % tuple(dims),
                  file='prep.py', kind=kind, sensor=sensor, dims=dims, part=part, **kw)
    S('P19', lambda: [stk('hls', 'L30', [2, 1, 1, 2], True), stk('hls', 'S30', [2, 1, 1, 2], False), stk('hls14', 'S30', [1, 2, 2, 1], False), stk('ard', 'LE7', [1, 2, 2, 1], False, paths=True), stk('ard', 'LC8', [2, 1, 1, 2], False), stk('ard2', 'LT5', [2, 1, 1, 2], False), stk('ard2', 'LC9', [2, 1, 1, 2], False), stk('c2', 'LC8', [2, 1, 1, 2], False), stk('c2', 'LT4', [1, 2, 2, 1], True)],
      lambda: [stk(k, x, d, p, timeout=850) for k, x in (('hls', 'S30'), ('hls14', 'L30'), ('ard', 'LT5'), ('ard2', 'LE7'), ('c2', 'LE7')) for d, p in (([2, 2, 1, 1], True),)],
      outside='larger tiles; reading of raster files and archives (GDAL is replaced by the arrays the files hold); collection-1 raw names beyond the ones used')

    def rd(n, days, **kw):
        return sm('reader_%d' % n, 'reader', 'date-ordered stack of a block within any date range', '%d images of dates %s, any values and date range' % (n, days), file='stack.py', n=n, days=days, **kw)

    def pl(n, px, **kw):
        return sm('plain_%d_%d' % (n, px), 'plain', 'date-ordered stack of a folder', '%d images, %d pixels' % (n, px), file='stack.py', n=n, px=px, days=D3, **kw)
    D3 = [[1999, 60], [2000, 366], [2001, 1]]
    S('P12', lambda: [rd(2, D3, bw=1, bh=1), rd(1, D3, bw=2, bh=1), rd(0, D3, bw=1, bh=1), pl(2, 2), pl(3, 1), pl(0, 1)],
      lambda: [rd(3, D3, bw=1, bh=1, timeout=850), rd(2, [[1984, 366], [1985, 1], [2020, 60]], bw=1, bh=2, timeout=850)], outside='more images per block')

    def wk(method, nx, ny, kmax, **kw):
        return sm('workers_%s_%dx%d_%d%s' % (method, nx, ny, kmax, '_seed' if kw.get('seed') else ''), 'workers', 'all workers to the end: every block and date in every stage', '%d x %d blocks, 1..%d workers' % (nx, ny, kmax), file='flow.py', method=method, nx=nx, ny=ny, kmax=kmax, **kw)
    S('P03', lambda: [wk('COLD', 3, 2, 8), wk('SCCDOFFLINE', 2, 2, 6), wk('OBCOLD', 2, 2, 5), wk('OBCOLD', 3, 1, 17, seed=True)],
      lambda: [wk('COLD', 4, 3, 14, timeout=850), wk('OBCOLD', 3, 2, 17, timeout=850), wk('OBCOLD', 2, 2, 18, seed=True, timeout=850)],
      outside='workers that die or run truly at the same time (each waiting worker gets its turns after the others)')

    def px(method, b_c2=False, ranged=False, nx=2, ny=2, bw=2, bh=1, bx=2, by=1, **kw):
        return sm('pixels_%s%s%s' % (method, '_c2' if b_c2 else '', '_range' if ranged else ''), 'pixels', 'one block through detection: observations, position, options and results of every pixel', '%d x %d blocks of %d x %d pixels, 2 images, every value, each pixel succeeds or fails' % (nx, ny, bw, bh), file='flow.py',
                  method=method, b_c2=b_c2, ranged=ranged, nx=nx, ny=ny, bw=bw, bh=bh, bx=bx, by=by, days=[730130, 730000], **kw)

    def rc(days, given, **kw):
        return sm('recon_%d_%s' % (len(days), 'given' if given else 'read'), 'recon', 'one block through the reconstruction', '2 x 2 blocks of 2 x 1 pixels, %d images, two break dates per pixel' % len(days), file='flow.py', nx=2, ny=2, bw=2, bh=1, bx=2, by=1, days=days, given=given, **kw)
    S('P20', lambda: [px('COLD'), px('COLD', b_c2=True, ranged=True), px('OBCOLD'), px('OBCOLD', ranged=True), px('SCCDOFFLINE'), rc([730130, 730000], True), rc([730130, 730000], False), rc([], False)],
      lambda: [px(m, nx=2, ny=1, bw=2, bh=2, bx=2, by=1, timeout=850) for m in ('COLD', 'OBCOLD', 'SCCDOFFLINE')], outside='more pixels per block; the detectors themselves (C01-C23)')

    def ex(name, method, dims, layout, **kw):
        return sm('%s_%s' % (name, method), 'export', 'the exported maps of a tile against the records of each pixel', '%d x %d blocks of %d x %d pixels; records per block (pixel, number): %s; any dates within 1998..2001, exported 1999..2000; 1..%d workers' % (tuple(dims) + (layout, kw.get('kmax', 1))),
                  file='export.py', method=method, nx=dims[0], ny=dims[1], bw=dims[2], bh=dims[3], layout=layout, free=kw.pop('free', []), kmax=kw.pop('kmax', 1), **kw)

    def ty(method, n, **kw):
        return sm('types_%s_%d' % (method, n), 'types', 'disturbance type of each break of a pixel between two other pixels', '%d records, any magnitudes and slopes' % n, file='export.py', method=method, n=n, **kw)
    S('P13', lambda: [ty('COLD', 2), ty('COLD', 1), ty('OBCOLD', 1), ty('OBCOLD', 2), ty('SCCDOFFLINE', 2), ex('last', 'COLD', [2, 1, 1, 1], [[[0, 1]], [[0, 1]]], free=[2, 3, 4]), ex('last', 'OBCOLD', [1, 1, 2, 1], [[[1, 1], [0, 1]]], free=[2, 3, 4])],
      lambda: [ty('COLD', 3, timeout=850), ex('two', 'COLD', [1, 1, 2, 1], [[[1, 1], [0, 2]]], free=[2, 3, 4], timeout=850)], outside='more records per pixel')
    S('P21', lambda: [ex('order', 'COLD', [1, 1, 2, 1], [[[1, 1], [0, 1]]]), ex('blocks', 'COLD', [3, 2, 1, 2], [None, None, [[0, 1], [1, 1]], [[1, 0], [0, 1]], None, None]), ex('ranks', 'COLD', [2, 3, 1, 1], [[[0, 1]], None, None, None, [[0, 1]], None], kmax=7),
                      ex('coefs', 'COLD', [3, 2, 1, 1], [[[0, 1]], None, None, None, None, None], kmax=2, coefs='cv,a0,a1,rmse', bands='3,1'), ex('two', 'OBCOLD', [1, 2, 1, 1], [[[0, 2]], [[0, 1]]]), ex('sccd', 'SCCDOFFLINE', [2, 1, 1, 1], [[[0, 1]], [[0, 1]]], kmax=2),
                      ex('sccd2', 'SCCDOFFLINE', [1, 3, 1, 2], [[], [[1, 2], [0, 0]], None])],
      lambda: [ex('coefs2', 'COLD', [1, 2, 2, 1], [None, [[0, 2]]], coefs='a0,cv', bands='1', timeout=850), ex('two', 'COLD', [1, 1, 2, 1], [[[1, 1], [0, 2]]], timeout=850), ex('three', 'OBCOLD', [1, 1, 1, 1], [[[0, 3]]], timeout=850)],
      outside='more records and pixels; GDAL and MPI, replaced by stand-ins (workers run one after the other up to the barrier)')

    def pa(fn, tag, desc, bounds, **kw):
        return sm(fn.rstrip('_') + '_' + tag, fn, desc, bounds, file='params.py', **kw)
    PAR = {'cold_detect': ['t_cg', 'pos', 'conse', 'b_output_cm', 'starting_date', 'n_cm', 'gap_days'], 'obcold_reconstruct': ['pos', 'conse'],
           'sccd_detect': ['t_cg', 'pos', 'conse', 'b_pinpoint', 'gate_tcg'], 'sccd_update': ['t_cg', 'pos', 'conse', 'gate_tcg', 'predictability_tcg']}

    def params(n, k):
        r = [pa('one', f + '_' + q, 'one option of any kind and value', 'any integer, any number within +-1000, nan, text, None, booleans, lists', func=f, param=q) for f, ps in PAR.items() for q in ps]
        r += [pa('data', f + '_%d' % n, 'series of any values; series of other lengths and dimensions', '%d observations' % n, func=f, n=n) for f in PAR]
        r += [pa('all_', f, 'all numeric options together', 'any integers, any numbers within +-1000', func=f, names=[q for q in ps if not q.startswith('b_')]) for f, ps in PAR.items()]
        return r + [pa('layers', '%d' % j, 'layers accepted exactly when they cover the series', '%d dates 1..100000, any start and number of layers, intervals 0, 1, 7, 32, 60, 365' % j, n=j) for j in k]
    S('P01', lambda: params(2, (1, 3)), lambda: [pa('data', f + '_6', 'series of any values; series of other lengths and dimensions', '6 observations', func=f, n=6, timeout=850) for f in PAR] + [pa('layers', '6', 'layers accepted exactly when they cover the series', '6 dates', n=6, timeout=850)],
      outside='longer series; the conversion of the options to C numbers in Cython; booleans given as numbers and infinite thresholds (either way)')

    def idf(tag, **kw):
        return sm('identify_' + tag, 'identify', 'disturbance reported and its date', 'modes %s, newest anomalies %s, free bands %s of slots %s, any thresholds' % (kw['kinds'], kw['cls'], kw.get('free', [2, 3, 4]), kw.get('slots', 'all')), file='sccd.py', **kw)
    S('P14', lambda: [idf('other', kinds=[3, 4, 11, 12, 0, 2], cls=[0, 6], dates=[0], free=[]), idf('six', kinds=[1], cls=[6], dates=[1], free=[3], slots=[2, 5], dcs=[6], tms=[True]), idf('one', kinds=[1, 5], cls=[1], dates=[1], slots=[5]),
                      idf('four', kinds=[1], cls=[4], dates=[0], free=[4], slots=[2, 4, 5], dcs=[4], tms=[False]), idf('five', kinds=[5], cls=[5], dates=[0], free=[4], slots=[1, 5], dcs=[5])],
      lambda: [idf('three', kinds=[1], cls=[3], dates=[1], free=[2], dcs=[3], tms=[True], timeout=850), idf('any', kinds=[1, 5], cls=[0, 1, 2, 3, 4, 5, 6], dates=[0, 1], free=[4], slots=[5], timeout=880)],
      outside='states kept with another number of consecutive observations; comparisons within 0.001 of a threshold')

    def pk(mod, nrec, nq=2):
        return sm('pack_%s_%d_%d' % (mod, nrec, nq), 'pack', 'packed to plain lists and back', '%d records, %d queued observations, every scalar and the first eight and last elements of vectors of any value' % (nrec, nq), file='sccd.py', mod=mod, nrec=nrec, nqueue=nq)
    S('P15', lambda: [pk(m, n) for m in ('utils', 'export') for n in (0, 1, 2)] + [pk('utils', 1, 1)],
      lambda: [pk(m, 5, 6) for m in ('utils', 'export')] + [sm('pack_deep', 'pack', 'packed to plain lists and back', '1 record, every element', file='sccd.py', mod='utils', nrec=1, deep=1000, timeout=850)], outside='longer lists')
    S('P18', lambda: [sm('dataset_%d_%d' % d, 'dataset', 'block layout', '%d x %d blocks of up to 1000 x 1000 pixels' % d, file='conf.py', nx=d[0], ny=d[1]) for d in ((1, 1), (3, 4), (20, 25))] + [sm('anchors_%d_%d' % d, 'anchors', 'first days of layers', '%d layers of %d days, any start' % d, file='conf.py', n=d[0], interval=d[1]) for d in ((4, 32), (1, 60), (3, 1))],
      lambda: [sm('dataset_%d_%d' % d, 'dataset', 'block layout', '%d x %d blocks of up to 1000 x 1000 pixels' % d, file='conf.py', nx=d[0], ny=d[1]) for d in ((50, 1), (7, 11))] + [sm('anchors_500_32', 'anchors', 'first days of layers', '500 layers of 32 days', file='conf.py', n=500, interval=32)], outside='tiles that their blocks do not divide')

    def pr(nc, b):
        return sm('predict_%d_%d' % (nc, b), 'predict', 'value of a model at a day', '%d coefficients within +-100000, %s, any day up to 1000000' % (nc, '%d bands' % b if b else 'one band'), file='sccd.py', nc=nc, bands=b)
    S('P22', lambda: [pr(n, b) for n in (4, 6, 8) for b in (0, 2)], lambda: [pr(n, 7) for n in (4, 6, 8)], outside='rounding of the float computation; sine and cosine are uninterpreted functions (only equal arguments give equal values)')

    def nt(name, fn, desc, bounds, **kw):
        return sm('native_' + name, fn, desc, bounds, file='native.py', **kw)
    MODES = [0, 1, 2, 3, 4, 5, 11, 12]
    S('P23', lambda: [nt('cold', 'cold', 'arguments of cold() and records returned', '2 observations of any value; 0, 1, 3 or 40 records; any options', n=2, counts=[0, 1, 3, 40]), nt('cold_layers', 'cold', 'change-magnitude layers returned', '2 observations, default interval', n=2, counts=[1], layers=True, interval=0),
                      nt('cold_layers32', 'cold', 'change-magnitude layers returned', '3 observations, 32-day layers', n=3, counts=[0, 2], layers=True, interval=32), nt('recon', 'recon', 'arguments of the reconstruction and records returned', '2 observations, 2 break dates; 0, 1 or 40 records', n=2, nb=2, counts=[0, 1, 40]),
                      nt('detect', 'detect', 'arguments of sccd() and the state returned in each mode', '2 observations; every mode; 0, 1, 40 records; 0, 1, 240 queued observations', n=2, modes=MODES, counts=[0, 1, 40], queues=[0, 1, 240]),
                      nt('detect_pin', 'detect', 'as detect, with snapshots', '2 observations; modes 0-5', n=2, modes=[0, 1, 2, 3, 4, 5], counts=[0, 2], queues=[1], pin=True),
                      nt('update', 'update', 'what sccd() starts from and the state returned; the state given stays as it was', '1 observation; every mode before, modes 0-5 after; 0 or 2 records and queued observations', n=1, before=MODES + [6, -1], modes=[0, 1, 2, 3, 4, 5], counts=[0, 2], queues=[0, 2])],
      lambda: [nt('detect4', 'detect', 'as detect', '4 observations', n=4, modes=MODES, counts=[0, 1, 2, 39, 40], queues=[0, 1, 24, 239, 240], timeout=850), nt('update3', 'update', 'as update', '3 observations', n=3, before=MODES, modes=MODES, counts=[0, 1, 3], queues=[0, 1, 5], timeout=850)],
      outside='the C code that Cython generates (the .pyx is translated to Python line by line); the detectors themselves (stand-ins return anything their C prototypes allow); longer series')

