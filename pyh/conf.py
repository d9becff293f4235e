"""what a tile's configuration yields (P18)"""
import psym
import numpy as np
from pycold import common as C
from pycold import utils as U


def dataset(s, nx, ny):
    """block layout from the configuration's entries, whatever other entries it holds"""
    s.patch(C)
    s.patch(U)
    bw, bh = s.int('bw', 1, 1000), s.int('bh', 1, 1000)
    cfg = {'n_rows': bh * ny, 'n_cols': bw * nx, 'n_block_x': nx, 'n_block_y': ny, 'extra': s.anyint('extra'), 'nblocks': s.anyint('e1'), 'block_width': s.anyint('e2'), 'block_height': s.anyint('e3')}
    if s.pick('entries', ['all', 'needed']) == 'needed':
        cfg = {k: cfg[k] for k in ('n_rows', 'n_cols', 'n_block_x', 'n_block_y')}
    elif s.pick('order', [0, 1]):
        cfg = dict(reversed(list(cfg.items())))
    before = dict(cfg)
    d = U.class_from_dict(C.DatasetInfo, cfg)
    s.check(d.n_rows == bh * ny and d.n_cols == bw * nx and d.n_block_x == nx and d.n_block_y == ny, 'entries as given')
    s.check(d.nblocks == nx * ny, 'number of blocks')
    s.check(d.block_width == bw and d.block_height == bh, 'width and height of a block')
    s.check(list(cfg) == list(before), 'configuration left alone')
    s.reach('dataset')


def anchors(s, n, interval):
    """first days of the change-magnitude layers"""
    s.patch(U)
    st = s.int('start', 1, 1000000)
    a = U.get_anchor_days(st, n, interval)
    s.check(len(a) == n, 'one day per layer')
    for k in range(n):
        s.check(a[k] == st + k * interval, 'day of a layer')
    s.reach('anchors')
