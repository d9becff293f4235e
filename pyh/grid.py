"""block, pixel and row/column numbering (P02)"""
from pycold import utils as U
from pycold import common as C


def blocks(s, xmax, idmax):
    """block id <-> (x, y), any grid"""
    s.patch(U)
    nx = s.int('n_block_x', 1, xmax)
    b = s.int('block_id', 1, idmax)
    x, y = U.get_block_x(b, nx), U.get_block_y(b, nx)
    s.check(s.And(x >= 1, x <= nx), 'block column outside the grid')
    s.check((y - 1) * nx + x == b, 'block row and column do not identify the block')
    s.check(y >= 1, 'block row outside the grid')
    s.reach('block')


def pixels(s, nx, ny, bw, bh):
    """a pixel of a tile: its block, its place in it, and back"""
    s.patch(U)
    s.patch(C)
    info = C.DatasetInfo(ny * bh, nx * bw, nx, ny)
    s.check(s.And(info.nblocks == nx * ny, info.block_width == bw, info.block_height == bh), 'derived block sizes')
    row, col = s.int('row', 1, ny * bh), s.int('col', 1, nx * bw)
    pos = (row - 1) * info.n_cols + col
    by, bx = (row - 1) // bh + 1, (col - 1) // bw + 1
    bid = (by - 1) * nx + bx
    s.check(s.And(U.get_block_x(bid, nx) == bx, U.get_block_y(bid, nx) == by), 'block of a pixel')
    c, r = U.get_col_index(pos, info.n_cols, bx, bw), U.get_row_index(pos, info.n_cols, by, bh)
    s.check(s.And(c >= 0, c < bw, r >= 0, r < bh), 'place in the block')
    s.check(s.And(c == (col - 1) % bw, r == (row - 1) % bh), 'row and column in the block')
    k = U.get_id_inblock(pos, bw, bh, info.n_cols)
    s.check(k == r * bw + c, 'index in the block')
    back = U.get_rowcol_intile(k, bw, bh, bx, by)
    s.check(s.And(back[0] == row, back[1] == col), 'back to the tile')
    s.reach('pixel')
