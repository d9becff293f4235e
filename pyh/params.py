"""parameter and data validation of the public detectors (P01)"""
import inspect
import math
import os
import re
import numpy as np
import psym
from pycold import _param_validation as V
from pycold import colds as D
import pycold

# documented: kind, lowest, highest (exclusive flags), by parameter
DOC = {'t_cg': ('real', 0, None, True), 'pos': ('int', 1, None), 'conse': ('int', 1, 11), 'starting_date': ('int', 0, None), 'n_cm': ('int', 0, None), 'b_output_cm': ('bool',), 'gap_days': ('real', 0, None, False),
       'b_pinpoint': ('bool',), 'gate_tcg': ('real', 0, None, True), 'predictability_tcg': ('real', 0, None, True)}
FN = {'cold_detect': '_cold_detect', 'obcold_reconstruct': '_obcold_reconstruct', 'sccd_detect': '_sccd_detect', 'sccd_update': '_sccd_update'}
SERIES = ['dates', 'ts_b', 'ts_g', 'ts_r', 'ts_n', 'ts_s1', 'ts_s2', 'ts_t', 'qas']


def native(name):
    """argument names of the native function, in order"""
    t = open(os.path.join(os.path.dirname(pycold.__file__), '_colds_cython.pyx')).read()
    m = re.search(r'cpdef %s\((.*?)\):' % name, t, re.S).group(1)
    m = re.sub(r'\[[^\]]*\]', '', m)
    return [x.split('=')[0].split()[-1] for x in m.split(',')]


def truth(s, name, v):
    """is the value inside the documented range"""
    d = DOC[name]
    isn = isinstance(v, (bool, np.bool_))
    if d[0] == 'bool':
        return isn
    if v is None or isinstance(v, (str, list)):
        return False
    if isinstance(v, float) and math.isnan(v):
        return False
    if d[0] == 'int':
        if isinstance(v, (float, psym.SReal)) or (isinstance(v, np.bool_)):
            return False
        r = v >= d[1]
        return r if d[2] is None else s.And(r, v <= d[2])
    if isinstance(v, np.bool_):
        return False
    return v > d[1] if d[3] else v >= d[1]


def value(s, name, kinds):
    k = s.pick('kind_' + name, kinds)
    return {'int': lambda: s.anyint('i_' + name), 'real': lambda: s.real('r_' + name, -1000, 1000), 'none': lambda: None, 'text': lambda: '1', 'nan': lambda: float('nan'), 'inf': lambda: float('inf'), 'true': lambda: True, 'false': lambda: False, 'list': lambda: [1]}[k](), k


class Native:
    """the native function: records its arguments by name (only one-dimensional series of 64-bit integers get in)"""
    def __init__(self, name): self.names, self.got = native(name), None

    def __call__(self, *a, **k):
        g = dict(zip(self.names, a))
        g.update(k)
        for n in SERIES + ['break_dates']:
            if n in g and (g[n].ndim != 1 or (getattr(g[n], 'nominal', None) or g[n].dtype) != np.int64):
                raise ValueError('Buffer')
        self.got = g
        return 'result'


def setup(s, fn):
    s.patch(D)
    s.patch(V)
    s.blind_text()
    nat = Native(FN[fn])
    s.stub(D, **{FN[fn]: nat})
    return nat


def call(fn, data, kw, pack=None):
    f = getattr(D, fn)
    try:
        return f(*(([pack] if fn == 'sccd_update' else []) + data), **kw)
    except ValueError:
        return 'rejected'
    except TypeError as e:
        if 'Singleton' not in str(e):
            raise
        return 'rejected'


def passed(s, nat, data, kw, fn):
    for n, a in zip(SERIES, data):
        g = nat.got[n]
        s.check(len(g) == len(a), 'length of %s passed on' % n)
        for k in range(len(a)):
            s.check(g[k] == a[k], 'values of %s passed on' % n)
    dflt = {k: p.default for k, p in inspect.signature(getattr(D, fn)).parameters.items() if p.default is not p.empty}
    dflt.update(kw)
    for n, v in dflt.items():
        if n in nat.names and n not in SERIES:
            g = nat.got[n]
            s.check(g is v or (not isinstance(v, np.ndarray) and g == v), '%s passed on' % n)


def series(s, n, names=SERIES):
    return [s.arr([s.int('%s%d' % (x, k), -32768, 32767) for k in range(n)], np.int16) for x in names]


def one(s, func, param):
    """one parameter of any kind and value, the others as documented"""
    fn, name = func, param
    nat = setup(s, fn)
    kinds = ['int', 'real', 'none', 'text', 'nan', 'inf', 'true', 'false', 'list']
    if DOC[name][0] == 'int':
        kinds = ['int', 'real', 'none', 'text', 'nan', 'list']
    elif DOC[name][0] == 'bool':
        kinds = ['real', 'none', 'text', 'nan', 'true', 'false', 'list']
    v, k = value(s, name, kinds)
    data = [np.array([1, 2], np.int64) for _ in SERIES]
    if fn == 'obcold_reconstruct':
        data.append(np.array([1], np.int64))
    kw = {name: v}
    got = call(fn, data, kw)
    if k in ('true', 'false', 'inf') and DOC[name][0] != 'bool':
        s.reach('any')          # booleans as numbers, infinity: either way
        return
    ok = truth(s, name, v)
    if got == 'result':
        s.check(ok, '%s outside its documented range accepted' % name)
        passed(s, nat, data, kw, fn)
    else:
        s.check(s.Not(ok) if not isinstance(ok, bool) else not ok, '%s inside its documented range rejected' % name)
        s.check(nat.got is None, 'computation started for a rejected parameter')
    s.reach('one')


def all_(s, func, names):
    """several numeric parameters at once"""
    fn = func
    nat = setup(s, fn)
    kw = {n: s.anyint('i_' + n) if DOC[n][0] == 'int' else s.real('r_' + n, -1000, 1000) for n in names}
    data = [np.array([1, 2], np.int64) for _ in SERIES]
    if fn == 'obcold_reconstruct':
        data.append(np.array([1], np.int64))
    got = call(fn, data, kw)
    ok = s.And(*[truth(s, n, v) for n, v in kw.items()])
    s.check(ok if got == 'result' else s.Not(ok), 'parameters accepted exactly inside their ranges')
    if got == 'result':
        passed(s, nat, data, kw, fn)
    s.check((nat.got is None) == (got != 'result'), 'computation of a rejected call')
    s.reach('all')


def data(s, func, n=2):
    """series of other lengths and dimensions are rejected, others handed on unchanged"""
    fn = func
    nat = setup(s, fn)
    names = SERIES + (['break_dates'] if fn == 'obcold_reconstruct' else [])
    d = series(s, n, names)
    bad = s.pick('which', [None] + names)
    how = s.pick('how', ['long', 'short', 'flat', 'deep', 'scalar']) if bad else None
    good = bad is None
    if bad:
        i = names.index(bad)
        d[i] = {'long': np.arange(n + 1), 'short': np.arange(n - 1), 'flat': np.zeros((n, 1), np.int64), 'deep': np.zeros((n, n), np.int64), 'scalar': np.array(3)}[how]
        good = bad == 'break_dates' and how in ('long', 'short')
    got = call(fn, d, {})
    s.check(got == ('result' if good else 'rejected'), 'series of the same length and one dimension accepted, others not')
    if good:
        passed(s, nat, d[:9], {}, fn)
        if fn == 'obcold_reconstruct':
            for k in range(len(d[9])):
                s.check(nat.got['break_dates'][k] == d[9][k], 'break dates passed on')
    else:
        s.check(nat.got is None, 'computation started for rejected series')
    s.reach('data')


def layers(s, n):
    """change-magnitude layers: accepted exactly when they cover all dates of the series"""
    nat = setup(s, 'cold_detect')
    t = [s.int('t%d' % k, 1, 100000) for k in range(n)]
    for k in range(1, n):
        s.assume(t[k] >= t[k - 1])
    d = [s.arr(t, np.int64)] + [np.zeros(n, np.int64) for _ in SERIES[1:]]
    st, nc, iv = s.int('starting_date', 0, 100000), s.int('n_cm', 0, 3000), s.pick('interval', [0, 1, 7, 32, 60, 365])
    on = s.pick('b_output_cm', [True, False])
    got = call('cold_detect', d, dict(b_output_cm=on, starting_date=st, n_cm=nc, cm_output_interval=iv))
    start = s.ite(st == 0, t[0], st)
    w = 60 if iv == 0 else iv
    # native side: layer (date - start) / w of n_cm layers, n_cm derived from the dates when it is 0
    ok = s.And(start <= t[0], s.Or(nc == 0, nc * w > t[-1] - start)) if on else True
    s.check((ok if got == 'result' else s.Not(ok)) if on else got == 'result', 'layers accepted exactly when they cover the series')
    s.reach('layers')
