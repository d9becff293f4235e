"""stack readers (P12)"""
import datetime
import numpy as np
from os.path import join
import psym
from pycold import common as C
from pycold import utils as U
from pycold.imagetool import tile_processing as T

TAIL = {'L': ('LT5012030', 'C2T1'), 'M': ('LC8012030', 'C2T1'), 'S': ('S30T10SEG', 'HLSv2')}


def files(s, n, days, px, bx, by, bands=8):
    """n stack files of a block with dates picked by the solver; other files lie beside them"""
    fold = join(s.root, 'stack', 'block_x%d_y%d' % (bx, by))
    s.fs.mkdir(join(s.root, 'stack'))
    s.fs.mkdir(fold)
    out = []
    for k in range(n):
        y, doy = s.pick('day%d' % k, days)
        a, b = TAIL[s.pick('sensor%d' % k, ['L', 'S'])] if k else TAIL['L']
        v = [[s.int('v%d_%d_%d' % (k, p, q), -32768, 32767) for q in range(bands)] for p in range(px)]
        name = '%s%d%03d%s%d' % (a, y, doy, b, k)
        s.fs.save(join(fold, name + '.npy'), s.arr(v, np.int16))
        out.append((datetime.date(y, 1, 1).toordinal() + doy - 1, v))
    with s.fs.open(join(fold, 'readme.txt'), 'w') as f:
        f.write('x')
    return fold, out


def compare(s, got, want, px, bands=8):
    stack, dates = got
    if not want:
        s.check(stack is None and dates is None, 'no image: no stack and no dates')
        s.reach('empty')
        return
    s.check(stack is not None and len(dates) == len(want), 'number of images')
    s.check(stack.shape == (px, bands, len(want)), 'shape of the stack')
    for k in range(len(want)):
        s.check(dates[k] == sorted(w[0] for w in want)[k], 'dates of the images in order')
        # images of one date may come in any order
        same = [w for w in want if w[0] == dates[k]]
        s.check(s.Or(*[s.And(*[stack[p, q, k] == w[1][p][q] for p in range(px) for q in range(bands)]) for w in same]), 'bands and QA of one image')
        for w in same:
            s.check(s.Or(*[s.And(*[stack[p, q, m] == w[1][p][q] for p in range(px) for q in range(bands)]) for m in range(len(want)) if dates[m] == w[0]]), 'every image is in the stack')
    s.reach('stack')


def reader(s, n, days, bw, bh, nband=8):
    """get_stack_date with any date range"""
    s.patch(T)
    info = C.DatasetInfo(2 * bh, 3 * bw, 3, 2)
    _, imgs = files(s, n, days, bw * bh, 3, 2, nband)
    lo, hi = s.int('low', 0, 800000), s.int('high', 0, 800000)
    d = [x for x, _ in imgs]
    got = T.get_stack_date(info, 3, 2, join(s.root, 'stack'), lo, hi, nband)
    want = [w for w in imgs if (lo == 0 or w[0] >= lo) and (hi == 0 or w[0] <= hi)]
    compare(s, got, want, bw * bh, nband)


def plain(s, n, days, px):
    """read_blockdata: all images of the folder"""
    s.patch(U)
    fold, imgs = files(s, n, days, px, 1, 1)
    compare(s, U.read_blockdata(fold, px, 8), imgs, px)
