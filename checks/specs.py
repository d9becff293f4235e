"""which jobs decide which property (see DESIGN.md)"""
from ceng import Harness
from meng import Msym


class Spec:
    def __init__(self, jobs, outside='', assumptions=(), parallel=3, level='other'):
        self.jobs, self.outside, self.assumptions, self.parallel, self.level = jobs, outside, list(assumptions), parallel, level


CC = 'single-threaded execution; malloc succeeds; clang/gcc x86-64 data model; IEEE-754 round-to-nearest without contraction'


def K(name, *d, **kw):
    """CBMC kernel harness"""
    return Harness(name, file='kern.c', defines=list(d), **kw)


def M(name, *d, **kw):
    """msym kernel harness"""
    kw.setdefault('file', 'kern.c')
    return Msym(name, defines=list(d), **kw)


def tiered(quick, thorough):
    return lambda tier: quick() if tier == 'quick' else quick() + thorough()


SPECS = {}


def sorts_q():
    return [
        M('sort_float', 'K_SORT_FLOAT', 'N=4', desc='real recursive float sort: ordered permutation of the window only', bounds='arrays of 4, any window, values of an 8-element ordered domain'),
        M('sort_double', 'K_SORT_DOUBLE', 'N=4', desc='real recursive double sort', bounds='arrays of 4, any window, 8-element domain'),
        M('sort_int', 'K_SORT_INT', 'N=4', desc='int sort', bounds='arrays of 4, any window, all 32-bit values'),
        M('sort_long', 'K_SORT_LONG', 'N=4', desc='long sort', bounds='arrays of 4, any window, all 32-bit values'),
        M('sort_index', 'K_SORT_INDEX', 'N=4', 'TABLE', desc='index sort: keys ascending and every key keeps its index', bounds='arrays of 4, values of a 4-element domain'),
        M('sort_2d_float', 'K_SORT_2D_FLOAT', 'N=4', desc='keyed multi-band float sort keeps every observation together', bounds='4 observations, 1..5 bands'),
        M('sort_2d_double', 'K_SORT_2D_DOUBLE', 'N=4', desc='keyed multi-band double sort', bounds='4 observations, 1..5 bands'),
        M('sort_buf', 'K_SORT_BUF', 'N=5', desc='date sort of the input buffer keeps 7 bands and QA with their date', bounds='5 observations, all 32-bit dates'),
        M('sort_buf_sensor', 'K_SORT_BUF', 'SENSOR', 'N=5', desc='date sort with sensor flags', bounds='5 observations, all 32-bit dates'),
    ]


SPECS['C09'] = Spec(tiered(sorts_q, lambda: [
        M('sort_float_6', 'K_SORT_FLOAT', 'N=6', timeout=800, desc='float sort', bounds='arrays of 6'),
        M('sort_2d_float_5', 'K_SORT_2D_FLOAT', 'N=5', timeout=800, desc='keyed sort', bounds='5 observations'),
        M('sort_int_5', 'K_SORT_INT', 'N=5', timeout=800, desc='int sort', bounds='arrays of 5'),
        K('sort_int_ind', 'K_SORT_INT', 'N=6', unwind=9, timeout=850, desc='int sort, inductive step: real partition, recursive calls replaced by the sort contract on a strictly smaller window', bounds='arrays of 6, all 32-bit values'),
        M('sort_buf_6', 'K_SORT_BUF', 'N=6', timeout=800, desc='buffer sort', bounds='6 observations'),
    ]), outside='longer arrays (the partition step is uniform in the length); NaN keys', assumptions=[CC])

SPECS['C07'] = Spec(tiered(lambda: [K('cft', 'K_CFT', unwind=3, desc='number of coefficients for a number of clear observations', bounds='all 32-bit counts, caps 0..64')], lambda: []), outside='', assumptions=[CC])
SPECS['C10'] = Spec(tiered(lambda: [K('unique', 'K_UNIQUE', 'N=5', unwind=9, desc='duplicate dates collapse to the first observation in every band', bounds='up to 5 sorted 32-bit dates, 7 bands')],
                           lambda: [K('unique8', 'K_UNIQUE', 'N=8', unwind=11, timeout=800, desc='same', bounds='up to 8 dates')]),
                    outside='longer series', assumptions=[CC])
SPECS['C08'] = Spec(tiered(lambda: [
        M('vario', 'K_VARIO', 'N=5', timeout=400, workers=8, desc='per-band variogram, median and maximum revisit interval of any window', bounds='5 observations; one of 3 bands or the date gaps symbolic at a time; 8-value domains'),
        M('vario_short', 'K_VARIO_SHORT', 'N=3', desc='windows of fewer than two observations set every band', bounds='windows of 0 or 1 observation'),
        M('sb_vario', 'K_SB_VARIO', 'N=5', desc='single-band variogram', bounds='5 observations'),
    ], lambda: [M('sb_vario6', 'K_SB_VARIO', 'N=6', timeout=800, desc='single-band variogram', bounds='6 observations')]),
    outside='longer windows', assumptions=[CC])
SPECS['C11'] = Spec(tiered(lambda: [
        K('med', 'K_MEDIAN', 'MED', 'N=5', unwind=17, desc='medians of sorted rows and windows', bounds='rows of 5, 8-value domain'),
        M('means', 'K_MEDIAN', 'MEANS', 'N=4', desc='means and mean squares', bounds='rows of 4, 8-value domain'),
        M('norms', 'K_MEDIAN', 'NORMS', 'N=3', desc='norms and RMSE', bounds='rows of 3'),
        K('ids', 'K_IDS', 'N=5', unwind=8, desc='flag counts, maximum position, bit test', bounds='arrays of 5, all 32-bit values'),
    ], lambda: []), outside='longer rows', assumptions=[CC])
SPECS['C12'] = Spec(tiered(lambda: [
        K('cal', 'K_CAL', 'YMAX=2110', unwind=140, desc='ordinal <-> (year, day of year), leap years', bounds='every date of 1973..2110 (across the non-leap year 2100)'),
        K('cal_reject', 'K_CAL_REJECT', unwind=140, desc='dates before the archive are rejected', bounds='years -5..1972'),
        K('doy', 'K_DOY', unwind=16, desc='calendar date to day of year', bounds='every date of years 1..9999'),
    ], lambda: [K('cal3000', 'K_CAL', 'YMAX=2400', unwind=440, timeout=800, desc='as cal', bounds='1973..2400')]), outside='years after the bound', assumptions=[CC])
SPECS['C16'] = Spec(tiered(lambda: [
        K('nearest', 'K_NEAREST', 'N=5', unwind=8, desc='nearest observation of a date', bounds='up to 5 observations, dates 600000..900000'),
        M('decay', 'K_DECAY', desc='angle decay', bounds='table'),
    ], lambda: []), outside='longer series', assumptions=[CC])
SPECS['C18'] = Spec(tiered(lambda: [M('a2d', 'K_2D', 'R=3', 'C=3', desc='2-D arrays', bounds='up to 3x3')], lambda: []), assumptions=[CC])
SPECS['C23'] = Spec(tiered(lambda: [K('degr', 'K_DEGR', 'N=3', 'YSPAN=8', unwind=12, desc='first degradation year', bounds='3 segments')], lambda: []), assumptions=[CC])


def I(name, *d, **kw):
    kw.setdefault('desc', 'cold() on a pixel below the monitoring threshold: record against an independent reading of the documentation; regression rows are usable observations of one band')
    return M(name, *d, file='ineff.c', **kw)


INEFF_B = 'observations on a fixed grid, the listed ones symbolic: QA in {0,3,2,255}, green -100..10200, blue -400..10200, thermal 1600..3600, repeated dates, both collections'
SPECS['C02'] = Spec(tiered(lambda: [
        I('ineff', 'NOBS=14', 'SYMS={2}', bounds='14 ' + INEFF_B),
        I('ineff_first', 'NOBS=14', 'SYMS={0}', bounds='14 ' + INEFF_B),
        I('snow_first', 'NOBS=14', 'SNOW', 'SYMS={0}', bounds='14 snow ' + INEFF_B),
        I('ineff_end', 'NOBS=14', 'SYMS={13}', bounds='14 ' + INEFF_B),
        I('snow', 'NOBS=14', 'SNOW', 'SYMS={2}', bounds='14 snow ' + INEFF_B),
        I('snow_end', 'NOBS=14', 'SNOW', 'SYMS={13}', bounds='14 snow ' + INEFF_B),
        I('snow_nothermal', 'NOBS=14', 'SNOW', 'NOTHERM=14', 'SYMS={13}', bounds='14 snow observations without thermal readings'),
        I('snow_thermal12', 'NOBS=14', 'SNOW', 'NOTHERM=2', 'SYMS={13}', bounds='14 snow observations, 12 thermal readings'),
        I('edge', 'NOBS=23', 'SYMS={11}', bounds='23 ' + INEFF_B),
        SG('edge', 'NOBS=9', 'S_BAD={2}', desc='the fallback is for fewer clear observations than monitoring needs', bounds='as many clear observations as monitoring needs, one more or none'),
        I('few', 'NOBS=12', 'SYMS={11}', bounds='12 ' + INEFF_B),
        I('few_snow', 'NOBS=12', 'SNOW', 'SYMS={11}', bounds='12 ' + INEFF_B),
        I('one', 'NOBS=1', 'SYMS={0}', bounds='1 ' + INEFF_B),
    ], lambda: [
        I('ineff2', 'NOBS=14', 'SYMS={2,13}', timeout=800, workers=8, bounds='14 ' + INEFF_B),
        I('snow2', 'NOBS=14', 'SNOW', 'SYMS={2,13}', timeout=800, workers=8, bounds='14 snow ' + INEFF_B),
        I('three', 'NOBS=3', 'SYMS={0,1,2}', timeout=600, workers=8, bounds='3 ' + INEFF_B),
        I('ineff20', 'NOBS=20', 'SYMS={8}', timeout=600, bounds='20 ' + INEFF_B),
    ]), outside='longer series (24 clear observations end this path); more than two free observations at a time; the numerical result of the Fortran lasso (stand-in returns an intercept-only model)', assumptions=[CC])


def MO(name, *d, **kw):
    return M(name, *d, file='model.c', **kw)


EXACT = 'cosine and sine of each harmonic and date are distinct dyadic stand-ins, so sums are exact and name the term used'
SPECS['C13'] = Spec(tiered(lambda: [
        MO('predict_float', 'K_PREDICT', 'ND=3', 'REAL=float', 'PREDICT=auto_ts_predict_float', 'SCALE=SLOPE_SCALE', 'NBANDS=2', desc='single precision prediction', bounds='model sizes 2,4,5,6,8, 3 dates, any window; intercept -9000..9000, slope -300..300, harmonics -700..700 all free'),
        MO('predict_double', 'K_PREDICT', 'ND=3', 'REAL=double', 'PREDICT=auto_ts_predict', 'SCALE=1', 'NBANDS=2', desc='double precision prediction (unscaled slope)', bounds='as predict_float'),
    ], lambda: []), outside='other dates (the routines are uniform in them); rounding of real cosines', assumptions=[CC, EXACT])


def fits(tag, fn, real, slope, ncoef, dfs):
    return [MO('%s_%d' % (tag, df), 'K_FIT', 'FITDF=%d' % df, 'ND=%d' % (df + 4), 'REAL=' + real, 'FIT=' + fn, 'SLOPE=' + slope, 'NCOEF=%d' % ncoef, desc='regression inputs, coefficient slots and residuals of ' + fn,
               bounds='%d or %d observations, 3 free reflectances -100..10200, sparse solutions in any index order, free coefficients' % (df + 1, df + 2)) for df in dfs]


SPECS['C14'] = Spec(tiered(lambda: fits('fit', 'auto_ts_fit_float', 'float', '10000.0', 8, (2, 4, 6, 8)) + fits('sccd', 'auto_ts_fit_sccd', 'float', '10000.0', 6, (4, 6)) + [
        MO('rmse_%d' % df, 'K_FIT', 'RMSE', 'FITDF=%d' % df, 'ND=%d' % (df + 4), 'REAL=float', 'FIT=auto_ts_fit_float', 'SLOPE=10000.0', 'NCOEF=8', desc='rmse and degrees of freedom', bounds='%d observations, one of them from a 4-value domain' % (df + 1)) for df in (4, 8)] + [
        MO('rmse_sccd', 'K_FIT', 'RMSE', 'FITDF=6', 'ND=10', 'REAL=float', 'FIT=auto_ts_fit_sccd', 'SLOPE=10000.0', 'NCOEF=6', desc='rmse and degrees of freedom', bounds='7 observations')],
    lambda: fits('double', 'auto_ts_fit', 'double', '1', 8, (2, 4, 6, 8)) + fits('sccd2', 'auto_ts_fit_sccd', 'float', '10000.0', 6, (2,))),
    outside='longer windows; the Fortran lasso itself (stand-in returns any sparse solution); 5-term models, which nothing uses', assumptions=[CC, EXACT, 'the lasso returns at most as many terms as regressors'])
ANG = [('mean', ['CALL=MeanAngl_float(vf,nb,NV)']), ('mean_double', ['CALL=MeanAngl(vd,nb,NV)']), ('median', ['MEDIAN', 'CALL=MediumAngl(vf,nb,NV)']),
       ('selective', ['SELECTIVE', 'CALL=MeanAngl_float_selective(vf,nb,NV,lb)']), ('scatter', ['SELECTIVE', 'SCATTER', 'CALL=angl_scatter_measure(med,vf,nb,NV,lb)'])]
ANGB = '%d vectors of 3 bands, 5 free components from 5-value domains; parallel variant: 8x8x8x8 multiples'
SPECS['C15'] = Spec(tiered(lambda: [MO('%s%d%s' % (n, nv, '_par' if par else ''), 'K_ANGLE', 'NV=%d' % nv, *(d + (['PARALLEL'] if par else [])), desc='angle measure against the definition', bounds=ANGB % nv)
                                    for n, d in ANG for nv in (1, 2, 3, 4) for par in (0, 1) if nv > 1 or not par], lambda: []),
                    outside='zero vectors; other magnitudes', assumptions=[CC])
SPECS['C17'] = Spec(tiered(lambda: [
        MO('mask', 'K_MASK', 'ND=4', 'SSTART=1', workers=6, desc='flags against residuals of the robust fit', bounds='windows of 1..3 observations, free reflectances and intercepts -100..10200, one harmonic coefficient in -64,0,64; series of 1, 1.5 or 2 years'),
    ], lambda: [MO('mask5', 'K_MASK', 'ND=5', 'SSTART=1', workers=8, timeout=600, desc='flags against residuals', bounds='windows of 1..4 observations')]),
    outside='longer windows; the GSL robust regression itself (stand-in returns any coefficients)', assumptions=[CC, EXACT, 'GSL containers by their documented definition'])


def KFJ(name, *d, **kw):
    return M(name, *d, file='kf.c', **kw)


SPECS['C19'] = Spec(tiered(lambda: [
        KFJ('round', 'K_ROUND', desc='coefficients -> state -> coefficients; one step is the next day; observed part is the model value', bounds='8 dates, annual harmonic turning by a quarter per day; all coefficients free: intercept -9000..9000, slope in steps of 625, harmonics -700..700'),
        KFJ('round45', 'K_ROUND', 'STEP=1', desc='same, looking at the second harmonic', bounds='as round, turning by an eighth per day'),
        KFJ('step', 'K_STEP', desc='one filter step (with and without an observation) against the textbook recursion', bounds='two covariances, state elements -3000..3000 and observation -100..10200 free'),
        KFJ('step45', 'K_STEP', 'STEP=1', desc='same', bounds='as step'),
        KFJ('var', 'K_VAR', desc='an update never raises a variance or makes it negative; gain', bounds='diagonal covariances from 6-value tables, 5 measurement variances'),
        KFJ('inip', 'K_INIP', desc='initial state variance and disturbance', bounds='4-value tables'),
    ], lambda: []), outside='other covariances; sequences of steps (each step is decided from any state of the tables)', assumptions=[CC, 'cosine and sine are exact rotations by a quarter or an eighth turn per day', 'GSL containers and BLAS routines by their documented definition'])

# small model: the segmentation code with its size constants scaled down
def scaled(n_times=2, mn=2, mid=3, mx=4, lasso=3, **kw):
    c = dict(N_TIMES=n_times, MIN_NUM_C=mn, MID_NUM_C=mid, MAX_NUM_C=mx, LASSO_MIN=lasso, **kw)
    return [(r'^([ \t]*#[ \t]*define[ \t]+%s)[ \t]+[0-9.]+' % k, r'\1 %s' % v) for k, v in c.items()]


SEGSC = scaled()


def SG(name, *d, nfc=None, **kw):
    """cold()/reconstruction on an abstract monitored pixel (seg.c)"""
    kw.setdefault('desc', 'real segmentation code; numeric kernels replaced by an abstract pixel')
    kw.setdefault('timeout', 300)
    return Msym(name, file='seg.c', defines=list(d), seds=scaled(**({'NUM_FC': nfc} if nfc else {})), **kw)


SMALL = ['constants scaled down: start-up window of 4 observations spanning a year (N_TIMES 2, model sizes 2/3/4, smallest fit 3), 2 or 3 consecutive observations confirm a break',
         'fit, prediction, variogram, screening and angle kernels replaced by an abstract pixel in which each observation has a level and a screening flag (the kernels are decided by C08, C13-C15, C17)', CC]
SEGOUT = 'longer series; other constants; interplay of real regression values with the segmentation'
LV3 = 'levels 0,2,3 of the listed observations free'


def rng(a, b):
    return '{' + ','.join(map(str, range(a, b))) + '}'


SPECS['C03'] = Spec(tiered(lambda: [
        SG('start', 'NOBS=12', 'S_LEVEL={0,1,2,3}', bounds='12 observations, ' + LV3),
        SG('start_flag', 'NOBS=14', 'S_LEVEL={0,1,2,3,4}', 'S_FLAG={2,5}', bounds='14 observations, ' + LV3 + ', two screening flags free'),
        SG('middle', 'NOBS=14', 'S_LEVEL={5,6,7,8,9,13}', bounds='14 observations, ' + LV3),
        SG('ends', 'NOBS=14', 'S_LEVEL={1,2,9,10,11,12,13}', bounds='14 observations, ' + LV3),
        SG('conse3', 'NOBS=16', 'CONSE=3', 'S_LEVEL=' + rng(5, 13), bounds='16 observations, ' + LV3 + ', conse 3'),
        SG('flags', 'NOBS=13', 'S_FLAG=' + rng(0, 13), bounds='13 observations, every screening flag free'),
        SG('bad', 'NOBS=13', 'S_BAD={0,3,7,12}', bounds='13 observations, QA and validity of four free'),
        SG('after_gap', 'NOBS=17', 'S_STEP={6,7}', 'S_GAP={7,8,9}', 'GAPS=0,300', bounds='17 observations, a change followed by gaps of more than a year'),
        SG('gap_start', 'NOBS=16', 'S_LEVEL={1,2,3,4,5}', 'S_GAP={1,2}', 'GAPS=0,300', bounds='16 observations, five levels and two gaps of more than a year at the start free'),
        SG('edge', 'NOBS=9', 'S_BAD={2}', 'S_LEVEL={7,8}', bounds='as many clear observations as monitoring needs, one more or none'),
        SG('gaps', 'NOBS=13', 'S_GAP={1,5,9,12}', bounds='13 observations, four gaps free (same date, 10, 130 or 430 days)'),
        I('short', 'NOBS=14', 'SYMS={2}', bounds='14 ' + INEFF_B),
    ], lambda: [
        SG('start10', 'NOBS=14', 'S_LEVEL=' + rng(0, 10), 'S_FLAG={4,12}', timeout=800, workers=8, bounds='14 observations, ' + LV3),
        SG('bad6', 'NOBS=14', 'S_BAD={0,3,5,7,10,13}', timeout=800, workers=8, bounds='14 observations, six free'),
        SG('mix', 'NOBS=16', 'S_LEVEL={5,6,7,8,9,10,11,12}', 'S_FLAG={3,14}', 'S_BAD={2}', timeout=800, workers=8, bounds='16 observations, ' + LV3),
        SG('twelve', 'NOBS=18', 'S_LEVEL=' + rng(5, 18), 'LEVELS=0,2', timeout=800, workers=8, bounds='18 observations, 13 levels of 0,2 free'),
    ]), outside=SEGOUT, assumptions=SMALL)
CMB = ', layers of %s days from %s'
SPECS['C04'] = Spec(tiered(lambda: [
        SG('start', 'NOBS=12', 'S_LEVEL={0,1,2,3}', 'CM', 'CMSTART=735000', 'CMINT=60', 'CMN=25', bounds='12 observations, ' + LV3 + CMB % (60, 'the first date')),
        SG('ends', 'NOBS=14', 'S_LEVEL={1,2,9,10,11,12,13}', 'CM', 'CMSTART=734000', 'CMINT=300', 'CMN=10', bounds='14 observations, ' + LV3 + CMB % (300, 'an earlier date')),
        SG('flag', 'NOBS=14', 'S_LEVEL={1,2,9,10,11}', 'S_FLAG={3,12}', 'CM', 'CMSTART=734000', 'CMINT=300', 'CMN=10', bounds='14 observations, ' + LV3 + ', two flags free'),
        SG('middle', 'NOBS=15', 'S_LEVEL={5,6,7,8,9,10}', 'LEVELS=0,2,-3', 'CM', 'CMSTART=735000', 'CMINT=60', 'CMN=34', bounds='15 observations, levels 0,2,-3' + CMB % (60, 'the first date')),
        SG('pre', 'NOBS=13', 'CM', 'CMSTART=735000', 'CMINT=60', 'CMN=27', 'S_PRE={0,3}', 'PRECHK', 'LEVELS=0,2,-2,-2.25,9,10', desc='another level at the beginning: value and date of every layer', bounds='13 observations, the first 0 to 3 at another level' + CMB % (60, 'the first date')),
        SG('step', 'NOBS=12', 'S_STEP={5,12}', 'STEPCHK', 'CM', 'CMSTART=735000', 'CMINT=60', 'CMN=25', 'LEVELS=0,2,3,9', desc='lasting change at a free observation: value and date of every layer', bounds='12 observations, levels 0,2,3,9'),
        SG('step3', 'NOBS=13', 'CONSE=3', 'S_STEP={5,13}', 'STEPCHK', 'CM', 'CMSTART=734000', 'CMINT=300', 'CMN=12', 'LEVELS=0,2,3,-9', desc='as step', bounds='13 observations, conse 3'),
    ], lambda: [
        SG('wide', 'NOBS=16', 'S_LEVEL=' + rng(4, 16), 'LEVELS=0,2', 'CM', 'CMSTART=735000', 'CMINT=200', 'CMN=12', timeout=800, workers=8, bounds='16 observations, 12 levels of 0,2 free'),
    ]), outside=SEGOUT, assumptions=SMALL)
SPECS['C05'] = Spec(tiered(lambda: [
        SG('run', 'NOBS=20', 'S_LEVEL=' + rng(4, 15), 'LEVELS=0,2', nfc=2, bounds='20 observations, 11 levels of 0,2 free, room for 2 records'),
        SG('three', 'NOBS=24', 'S_LEVEL={6,7,8,14,15,16,20,21,22}', 'LEVELS=0,2', nfc=2, bounds='24 observations, 9 levels of 0,2 free, room for 2 records'),
        SG('recon', 'NOBS=20', 'OB', 'NBR=4', 'BREAKS=0,500,1000,1500,2000', nfc=2, bounds='20 observations, any 4 of 5 break dates, room for 2 records'),
    ], lambda: [
        SG('run3', 'NOBS=26', 'S_LEVEL={5,6,7,8,13,14,15,19,20,21,22}', 'LEVELS=0,2', nfc=3, timeout=800, workers=8, bounds='26 observations, 11 levels of 0,2 free, room for 3 records'),
    ]), outside=SEGOUT, assumptions=SMALL)
SPECS['C06'] = Spec(tiered(lambda: [
        SG('two', 'NOBS=14', 'OB', 'OBCHK', 'NBR=2', 'LEVELS=0,2', 'BREAKS=0,100,500,505,1000,1690,2500', bounds='14 observations, any two of 7 break dates in any order'),
        SG('any', 'NOBS=14', 'OB', 'OBCHK', 'NBR=1', 'BREAKRANGE=2600', bounds='14 observations, any break date around the series'),
        SG('near', 'NOBS=18', 'GAP=80', 'OB', 'OBCHK', 'NBR=2', 'BREAKS=0,330,560,690,696,900', bounds='18 observations 80 days apart, any two of 6 break dates in any order'),
        SG('mags', 'NOBS=14', 'OB', 'OBCHK', 'NBR=2', 'LEVELS=0,1,-0.5', 'S_LEVEL={2,6,7,9,13}', 'BREAKS=0,600,700,1690', bounds='14 observations, five levels of 0,1,-0.5 free, any two of 4 break dates in any order'),
        SG('mags3', 'NOBS=14', 'CONSE=3', 'OB', 'OBCHK', 'NBR=1', 'LEVELS=0,1,-0.5', 'S_LEVEL={2,6,7,8,13}', 'BREAKS=0,600,700,1540', bounds='14 observations, five levels free, one of 4 break dates, conse 3'),
        SG('flags', 'NOBS=14', 'OB', 'NBR=2', 'LEVELS=0,2', 'BREAKS=0,100,500,505,1000,1690,2500', 'S_FLAG={1,4,5,8,12}', bounds='as two, five screening flags free'),
        SG('both', 'NOBS=14', 'OB', 'NBR=2', 'LEVELS=0,2', 'BREAKS=0,505,1000,1690', 'S_FLAG={1,9}', 'S_LEVEL={0,3,5,8}', bounds='14 observations, any two of 4 break dates, two flags and four levels free'),
        SG('levels', 'NOBS=14', 'OB', 'NBR=2', 'LEVELS=0,2', 'BREAKS=0,100,500,505,1000,1690,2500', 'S_LEVEL={1,4,5,8,12}', bounds='as two, five levels free'),
        SG('bad', 'NOBS=14', 'OB', 'OBCHK', 'NBR=2', 'BREAKS=0,500,1000,1690', 'S_BAD={3,7}', bounds='as two, quality and validity of two observations free'),
        I('fallback', 'NOBS=14', 'SYMS={2}', 'OB', desc='reconstruction below the monitoring threshold', bounds='14 ' + INEFF_B),
        I('fallback_snow', 'NOBS=14', 'SYMS={2}', 'SNOW', 'OB', desc='reconstruction of a snow pixel', bounds='14 ' + INEFF_B),
        I('few_valid', 'NOBS=26', 'SYMS={2}', 'OB', 'NVALID=3', desc='many clear flags, three valid observations', bounds='26 ' + INEFF_B),
        I('none_valid', 'NOBS=26', 'SYMS={2}', 'OB', 'NVALID=0', desc='many clear flags, no valid observation', bounds='26 ' + INEFF_B),
    ], lambda: [
        SG('three', 'NOBS=20', 'OB', 'OBCHK', 'NBR=3', 'BREAKS=0,300,505,1000,1400,1690,2300', timeout=800, workers=8, bounds='20 observations, any three of 7 break dates'),
        SG('any2', 'NOBS=14', 'OB', 'OBCHK', 'NBR=2', 'BREAKRANGE=2600', timeout=800, workers=8, bounds='14 observations, any two break dates around the series'),
    ]), outside=SEGOUT + '; the reconstruction has no collection-2 thermal flag in this entry', assumptions=SMALL)
STEPD = 'a stable series that changes for good at a free observation'
SPECS['C21'] = Spec(tiered(lambda: [
        SG('pre', 'NOBS=13', 'S_PRE={0,3}', 'PRECHK', 'LEVELS=0,2,-2,-2.25,9,10', desc='a series at another level at its beginning', bounds='13 observations, the first 0 to 3 at another level'),
        SG('pre6', 'NOBS=17', 'CONSE=6', 'S_PRE={0,3}', 'PRECHK', 'LEVELS=0,2,-2,-2.25,9,10', desc='a series at another level at its beginning', bounds='17 observations, the first 0 to 3 at another level, conse 6'),
        SG('step', 'NOBS=12', 'S_STEP={5,12}', 'STEPCHK', 'LEVELS=0,2,3,-2', desc=STEPD, bounds='12 observations, conse 2'),
        SG('step3', 'NOBS=14', 'CONSE=3', 'S_STEP={5,14}', 'STEPCHK', 'LEVELS=0,2,3,-2', desc=STEPD, bounds='14 observations, conse 3'),
        SG('step4', 'NOBS=16', 'CONSE=4', 'S_STEP={6,16}', 'STEPCHK', 'LEVELS=0,2,-3', desc=STEPD, bounds='16 observations, conse 4'),
        SG('step_bad', 'NOBS=14', 'S_STEP={5,14}', 'S_BAD={3,8}', 'STEPCHK', desc=STEPD + ', quality of two observations free', bounds='14 observations'),
        SG('step_gap', 'NOBS=14', 'S_STEP={5,14}', 'S_GAP={3,8,11}', 'GAPS=-GAP,200,-120,0', 'STEPCHK', desc=STEPD + ', three gaps free', bounds='14 observations'),
        SG('tail', 'NOBS=14', 'CONSE=4', 'S_LEVEL={9,10,11,12,13}', 'LEVELS=0,2,4,-3', desc='deviating observations at the end of the series', bounds='14 observations, levels 0,2,4,-3 of the last five free, conse 4'),
        SG('spike', 'NOBS=14', 'S_LEVEL={6,7,8,9,10,11,12}', 'LEVELS=0,2,-3', desc='a break needs deviating observations on end', bounds='14 observations, ' + LV3),
    ], lambda: [
        SG('step5', 'NOBS=20', 'CONSE=6', 'S_STEP={6,20}', 'STEPCHK', 'LEVELS=0,2,-3', timeout=600, desc=STEPD, bounds='20 observations, conse 6'),
    ]), outside=SEGOUT, assumptions=SMALL)
SPECS['C01'] = Spec(tiered(lambda: [
        K('pre', 'K_PRE', 'N=2', unwind=9, timeout=400, desc='validity of an observation, class counts, unknown quality codes', bounds='2 observations, every field any 32-bit value, both thermal encodings'),
        M('qa', 'NOBS=5', 'WQ=2', file='screen.c', desc='cold() fails on a quality value outside the documented set and returns no record', bounds='5 observations, one quality value any 32-bit value'),
        M('order', 'NOBS=5', 'WD=2', file='screen.c', desc='cold() fails on dates out of order and returns no record', bounds='5 observations, one date anywhere'),
        M('order_last', 'NOBS=5', 'WD=4', file='screen.c', desc='as order, the last date', bounds='5 observations, the last date anywhere'),
        M('order_first', 'NOBS=2', 'WD=0', file='screen.c', desc='as order, the first of two dates', bounds='2 observations, the first date anywhere'),
        M('order_recon', 'NOBS=5', 'WD=4', 'OB', file='screen.c', desc='reconstruction with dates out of order', bounds='5 observations, the last date anywhere'),
        M('order_recon_first', 'NOBS=3', 'WD=0', 'OB', file='screen.c', desc='reconstruction with dates out of order', bounds='3 observations, the first date anywhere'),
        M('qa_recon', 'NOBS=5', 'WQ=2', 'OB', file='screen.c', desc='reconstruction on a quality value outside the documented set', bounds='5 observations'),
        SG('part', 'NOBS=13', 'S_BAD={0,3,7,12}', desc='screened-out observations take no part in monitoring', bounds='13 observations, quality and validity of four free'),
        I('fallback', 'NOBS=14', 'SYMS={2}', desc='screened-out observations take no part in the fallback', bounds='14 ' + INEFF_B),
    ], lambda: [
        K('pre3', 'K_PRE', 'N=3', unwind=9, timeout=800, desc='as pre', bounds='3 observations'),
    ]), outside='longer series (the screening is per observation)', assumptions=[CC] + SMALL[:2])

def SN(name, *d, nfc=None, maxq=None, **kw):
    """sccd() on an abstract pixel through a sequence of calls (sccd.c)"""
    kw.setdefault('desc', 'real detect/update code; numeric kernels replaced by an abstract pixel with tokens in the saved state')
    kw.setdefault('timeout', 300)
    c = dict(NUM_FC=nfc) if nfc else {}
    if maxq:
        c['MAX_OBS_QUEUE'] = maxq
    return Msym(name, file='sccd.c', defines=list(d), seds=scaled(n_times=2, mn=4, mid=4, mx=4, **c), **kw)


SCSMALL = ['constants scaled down: start-up window of 8 observations spanning a year (N_TIMES 2, MID_NUM_C 4, smallest early fit 3); 60 days between observations unless a gap is free',
           'fit, prediction, filter step, variogram, screening and angle kernels replaced by an abstract pixel; coefficients, covariance and variance of a model are tokens that name its window, band and filter date (the kernels are decided by C08, C13-C15, C17, C19)', CC]
SCOUT = 'longer series; other constants; interplay of real regression and filter values with the control flow; dates before 1982; the untested-predictability modes are reached only through their codes 2 and 12'
ONE1 = ', one observation per call'
CUT1 = ', one call boundary anywhere'
CUT2 = ', two call boundaries anywhere'
SPECS['C20'] = Spec(tiered(lambda: [
        SN('steps', 'CONSE=3', 'NOBS=26', 'NOREMOVE', 'NOSAME', 'STEPS', 'S_STEP={0,24}', 'LEVELS=0,2,3,-2', bounds='26 observations' + ONE1 + ', a lasting change anywhere'),
        SN('outliers', 'CONSE=3', 'NOBS=18', 'CUTS={1,17}', 'S_LEVEL=' + rng(9, 14), bounds='18 observations' + CUT1 + ', five levels of 0,2,3 free'),
        SN('levels', 'CONSE=3', 'NOBS=14', 'STEPS', 'S_LEVEL=' + rng(9, 14), 'LEVELS=0,1,-1.5,2,-4', bounds='14 observations' + ONE1 + ', five levels free: below and above every threshold, both signs'),
        SN('dups', 'CONSE=3', 'NOBS=15', 'CUTS={1,14}', 'NOREMOVE', 'NOSAME', 'S_GAP={1,5,11}', 'GAPS=0,-GAP', bounds='15 observations' + CUT1 + ', three of which may repeat the date before'),
        SN('start', 'CONSE=3', 'NOBS=18', 'STEPS', 'S_LEVEL={0,1,2,3,9,10,11,12,13}', bounds='18 observations' + ONE1 + ', nine levels of 0,2,3 free'),
        SN('flags', 'CONSE=3', 'NOBS=18', 'CUTS={1,17}', 'S_FLAG={1,2,6,9}', bounds='18 observations' + CUT1 + ', four screening flags free'),
        SN('bad', 'CONSE=3', 'NOBS=18', 'CUTS={1,17}', 'S_BAD={2,12}', 'NOREMOVE', 'NOSAME', bounds='18 observations' + CUT1 + ', quality and validity of two free'),
        SN('therm', 'CONSE=3', 'NOBS=16', 'NOC2', 'CUTS={1,15}', 'S_BAD={1,2,3,4,5,6,12}', 'NOSAME', 'QAFIX', 'NOREMOVE', bounds='16 observations' + CUT1 + ', validity of seven free, thermal band used'),
        SN('full_queue', 'CONSE=3', 'NOBS=18', 'NOREMOVE', 'NOSAME', 'STEPS', 'GAP=20', 'S_STEP={3,12}', maxq=9, bounds='18 observations' + ONE1 + ', room for 9 in the queue'),
        SN('rmse', 'CONSE=3', 'BIGR', 'NOBS=17', 'CUTS={1,16}', 'S_LEVEL=' + rng(9, 13), 'LEVELS=0,2,-3,3.5', desc='the residuals of the model rate the deviations', bounds='17 observations' + CUT1 + ', four levels free, model rmse above the minimum rmse'),
        SN('again', 'CONSE=3', 'NOBS=18', 'CUTS={1,17}', 'AGAIN', 'S_STEP={9,12}', desc='a call without observations changes nothing', bounds='18 observations' + CUT1),
        SN('snow', 'CONSE=3', 'NOBS=24', 'SNOW', 'NOREMOVE', 'NOSAME', 'CUTS={1,23}', 'S_BAD={7,20}', bounds='24 snow observations' + CUT1 + ', quality of two free'),
        SN('snow_steps', 'CONSE=3', 'NOBS=30', 'SNOW', 'NOREMOVE', 'NOSAME', 'STEPS', 'AGAIN', 'S_GAP={9,25}', bounds='30 snow observations' + ONE1 + ', two gaps free'),
        SN('conse8', 'CONSE=8', 'NOBS=24', 'STEPS', 'NOREMOVE', 'NOSAME', 'S_STEP={0,16}', bounds='24 observations' + ONE1 + ', conse 8'),
        SN('conse6', 'CONSE=6', 'NOBS=22', 'CUTS={1,21}', 'S_LEVEL={9,10,12,14,15}', bounds='22 observations' + CUT1 + ', conse 6, five levels free'),
        SN('second', 'CONSE=3', 'NOBS=30', 'CUTS={12,12,14,16}', 'S_STEP={9,10}', 'S_LEVEL={24,25,26,27}', 'LEVELS=0,3', bounds='30 observations, a call boundary and two changes free'),
        SN('delay', 'CONSE=3', 'NOBS=18', 'STEPS', 'NOREMOVE', 'NOSAME', 'S_STEP={9,13}', 'S_GAP={13,14,15,16}', 'GAPS=0,-50,-55', 'LEVELS=2,-3', bounds='18 observations' + ONE1 + ', four gaps of 5, 10 or 60 days free'),
        SN('no_slots', 'CONSE=9', 'NOBS=20', 'STEPS', 'FULL', 'NOREACH', desc='a conse the model has no slots for is refused', bounds='conse 9, 10, 11 share one comparison'),
    ], lambda: [
        SN('steps_long', 'CONSE=3', 'NOBS=40', 'NOREMOVE', 'NOSAME', 'STEPS', 'S_STEP={0,36}', 'LEVELS=0,2,3,-2,-3', timeout=800, workers=8, bounds='40 observations' + ONE1),
        SN('outliers10', 'CONSE=3', 'NOBS=22', 'STEPS', 'S_LEVEL=' + rng(8, 18), timeout=800, workers=8, bounds='22 observations' + ONE1 + ', ten levels free'),
        SN('mix', 'CONSE=3', 'NOBS=20', 'CUTS={1,19}', 'S_LEVEL={9,10,11,12}', 'S_FLAG={1,5}', 'S_BAD={3,13}', timeout=800, workers=8, bounds='20 observations' + CUT1 + ', levels, flags and quality free'),
    ]), outside=SCOUT, assumptions=SCSMALL)
SPECS['C24'] = Spec(tiered(lambda: [
        SN('steps', 'CONSE=3', 'NOBS=24', 'NOREMOVE', 'STEPS', 'S_STEP={0,24}', 'LEVELS=0,2,3,-2', bounds='24 observations' + ONE1 + ', a lasting change anywhere'),
        SN('cut', 'CONSE=3', 'NOBS=24', 'NOREMOVE', 'CUTS={1,23}', 'S_STEP={9,20}', bounds='24 observations' + CUT1 + ', a lasting change anywhere after the start-up window'),
        SN('cut_start', 'CONSE=3', 'NOBS=18', 'NOREMOVE', 'CUTS={1,17}', 'S_STEP={0,9}', bounds='18 observations' + CUT1 + ', a lasting change in the start-up window'),
        SN('cuts', 'CONSE=3', 'NOBS=17', 'NOREMOVE', 'CUTS={1,16,1,16}', 'S_STEP={8,14}', 'LEVELS=0,2', bounds='17 observations' + CUT2),
        SN('conse6', 'CONSE=6', 'NOBS=22', 'NOREMOVE', 'CUTS={1,21}', 'S_STEP={8,18}', bounds='22 observations' + CUT1 + ', conse 6'),
        SN('conse8', 'CONSE=8', 'NOBS=24', 'NOREMOVE', 'CUTS={1,23}', 'S_STEP={8,18}', 'LEVELS=2,-3', bounds='24 observations' + CUT1 + ', conse 8'),
        SN('spikes', 'CONSE=3', 'NOBS=17', 'CUTS={1,16}', 'SAME', 'S_LEVEL={9,10,11,12}', 'LEVELS=0,2,3', bounds='17 observations' + CUT1 + ', four levels after the start-up window free'),
        SN('gaps', 'CONSE=3', 'NOBS=18', 'NOREMOVE', 'CUTS={1,17}', 'S_GAP={12,14}', 'S_STEP={9,12}', bounds='18 observations' + CUT1 + ', two gaps free'),
        SN('dups', 'CONSE=3', 'NOBS=15', 'CUTS={1,14}', 'NOREMOVE', 'S_GAP={1,5,11}', 'GAPS=0,-GAP', 'S_STEP={9,11}', 'LEVELS=2', bounds='15 observations' + CUT1 + ', three of which may repeat the date before'),
        SN('bad', 'CONSE=3', 'NOBS=16', 'NOREMOVE', 'CUTS={1,15}', 'S_BAD={2,11}', bounds='16 observations' + CUT1 + ', quality and validity of two free'),
    ], lambda: [
        SN('cuts26', 'CONSE=3', 'NOBS=26', 'NOREMOVE', 'CUTS={1,25,1,25}', 'S_STEP={8,20}', timeout=800, workers=8, bounds='26 observations' + CUT2),
        SN('spikes6', 'CONSE=3', 'NOBS=20', 'CUTS={1,19}', 'SAME', 'S_LEVEL=' + rng(9, 16), timeout=800, workers=8, bounds='20 observations' + CUT1 + ', seven levels free'),
        SN('gaps4', 'CONSE=3', 'NOBS=18', 'NOREMOVE', 'CUTS={1,17}', 'S_GAP={3,12,14}', 'S_STEP={9,12}', timeout=800, workers=8, bounds='18 observations' + CUT1 + ', three gaps free'),
    ]), outside=SCOUT + '; series in which screening removes observations during start-up (what it removes depends on the observations seen so far)', assumptions=SCSMALL)
SPECS['C25'] = Spec(tiered(lambda: [
        SN('step', 'CONSE=3', 'NOBS=18', 'NOREMOVE', 'S_STEP={9,18}', 'STEPCHK', 'LEVELS=0,2,3,-2', desc=STEPD, bounds='18 observations in one call'),
        SN('step6', 'CONSE=6', 'NOBS=22', 'NOREMOVE', 'S_STEP={9,22}', 'STEPCHK', 'LEVELS=0,2,3,-2', desc=STEPD, bounds='22 observations in one call, conse 6'),
        SN('steps', 'CONSE=4', 'NOBS=18', 'NOREMOVE', 'NOSAME', 'STEPS', 'S_STEP={9,18}', 'STEPCHK', 'LEVELS=0,2,3,-2', desc=STEPD, bounds='18 observations' + ONE1 + ', conse 4'),
        SN('bad', 'CONSE=3', 'NOBS=17', 'NOREMOVE', 'S_STEP={10,17}', 'S_BAD={2,12}', 'STEPCHK', 'LEVELS=0,2,-3', desc=STEPD, bounds='17 observations in one call, quality and validity of two free'),
        SN('start', 'CONSE=3', 'NOBS=18', 'S_LEVEL={0,1,2,3,4,5}', bounds='18 observations in one call, six levels of the start-up window free'),
        SN('start8', 'CONSE=8', 'NOBS=24', 'S_LEVEL={0,1,2,3,4,5}', 'LEVELS=0,2,-3', bounds='24 observations in one call, conse 8, six levels free'),
        SN('middle', 'CONSE=3', 'NOBS=18', 'S_LEVEL=' + rng(8, 15), 'LEVELS=0,2,-3', bounds='18 observations in one call, seven levels free'),
        SN('two', 'CONSE=3', 'NOBS=36', 'S_STEP={9,11}', 'S_LEVEL={23,24,25,26,27,28}', 'LEVELS=0,3', bounds='36 observations in one call, two changes'),
        SN('full', 'CONSE=3', 'NOBS=36', 'FULL', 'S_STEP={9,11}', 'S_LEVEL={23,24,25,26,27,28}', 'LEVELS=0,3', nfc=1, desc='a full result array is not overrun', bounds='36 observations, room for one record'),
        SN('gaps', 'CONSE=3', 'NOBS=16', 'S_GAP={2,6,12}', 'S_LEVEL={9,10,11,12}', 'LEVELS=0,2', bounds='16 observations in one call, three gaps (10, 60 or 460 days) and four levels free'),
    ], lambda: [
        SN('middle14', 'CONSE=3', 'NOBS=24', 'S_LEVEL=' + rng(8, 20), 'LEVELS=0,2,-3', timeout=800, workers=8, bounds='24 observations, twelve levels free'),
        SN('start10', 'CONSE=3', 'NOBS=20', 'S_LEVEL=' + rng(0, 9), 'S_FLAG={3}', timeout=800, workers=8, bounds='20 observations, nine levels and a flag free'),
    ]), outside=SCOUT, assumptions=SCSMALL)
SPECS['C26'] = Spec(tiered(lambda: [
        SN('snap', 'CONSE=5', 'NOBS=19', 'PINPOINT', 'S_LEVEL=' + rng(9, 15), 'LEVELS=0,1.2,2,3', bounds='19 observations in one call, conse 5, six levels of 0,1.2,2,3 free'),
        SN('end', 'CONSE=6', 'NOBS=22', 'PINPOINT', 'S_STEP={8,22}', 'LEVELS=0,1.5,2,3,-2', bounds='22 observations in one call, conse 6'),
        SN('below', 'CONSE=3', 'NOBS=20', 'PINPOINT', 'S_LEVEL=' + rng(9, 15), 'LEVELS=0,1.2,1.4,1.5', bounds='20 observations in one call, six levels of 0 and around both thresholds free'),
        SN('year', 'CONSE=3', 'NOBS=20', 'PINPOINT', 'S_LEVEL=' + rng(9, 15), 'LEVELS=1.4,1.5,1.6', bounds='20 observations in one call, a run of six deviations of three strengths inside one year'),
        SN('full', 'CONSE=3', 'NOBS=30', 'FULL', 'PINPOINT', 'S_LEVEL={9,10,11,20,21,22}', 'LEVELS=0,1.5', nfc=1, desc='a full snapshot array is not overrun', bounds='30 observations, room for one snapshot'),
    ], lambda: [
        SN('below10', 'CONSE=5', 'NOBS=24', 'PINPOINT', 'S_LEVEL=' + rng(9, 19), 'LEVELS=0,1.5,3', timeout=800, workers=8, bounds='24 observations, ten levels free, conse 5'),
    ]), outside=SCOUT, assumptions=SCSMALL)

import pyspecs
pyspecs.register(SPECS, Spec, tiered)


def _layout(repo, d):
    import layout
    layout.generate(repo, d)


SPECS['C22'] = Spec(tiered(lambda: [
        M('layout_' + n, 'ONLY_' + n, file='layout.c', src=['output.c'], gen=_layout, timeout=300,
                desc='every element of %s is read by numpy where C keeps it, with the same type and shape' % n, bounds='none: all byte values, every element (the structure has a fixed size)')
        for n in ('Output_t', 'Output_sccd', 'output_nrtqueue', 'output_nrtmodel', 'Output_sccd_pinpoint')], lambda: []),
    outside='other platforms (x86-64 ABI); files written by older versions', assumptions=[CC])
