"""Sparse matrices: traversal of the compressed format and conversion to ELLPACK (numeric/sparse.hpp, numeric/ellmatrix.hpp)."""
from .common import *
from dv.lib import Sparse

SC = ('double', 'std::complex<double>')
TYPES = {}
for s in SC:
    for suffix in ('', ', int'):
        TYPES['Eigen::SparseMatrix<%s, 1%s>' % (s, suffix)] = Sparse(s)


def wf(m):
    """a matrix in compressed form"""
    return [m.rows >= 0, m.cols >= 0, m.outer.n == m.rows + 1, m.outer[0] == 0, m.inner.n == m.outer[m.rows], m.val.n == m.inner.n, m.inner.n < 2**31, m.rows < 2**31, m.cols < 2**31,
            ascending(m.outer, m.rows + 1), forall(0, m.inner.n, lambda e: And(0 <= m.inner[e], m.inner[e] < m.cols))]


def ascending(a, n):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i <= j, j < n), a[i] <= a[j]))


def element(m, e, row, col, v):
    """element e of the format is in that row and column and has that value"""
    return And(0 <= e, e < m.inner.n, m.outer[row] <= e, e < m.outer[row + 1], col == m.inner[e], same(v, m.val[e]))


def width(m, r):
    return m.outer[r + 1] - m.outer[r]


def row_of(c):
    """the row the loop is at"""
    return c['outer']


def upto(c, j, r):
    """row r of the ELLPACK form holds the first j elements of row r of the matrix"""
    m, e = c.a(0), c['ell']
    return forall(0, j, lambda n: And(same(at2(e.data, r, n), m.val[m.outer[r] + n]), at2(e.indices, r, n) == m.inner[m.outer[r] + n]))


def at2(m, i, j):
    return sel(sel(m.d, i), j)


def padded(m, e, r, n):
    """element n of row r: the element of the matrix, or zero with some column of the matrix"""
    w = width(m, r)
    k = at2(e.indices, r, n)
    return Ite(n < w, And(same(at2(e.data, r, n), m.val[m.outer[r] + n]), k == m.inner[m.outer[r] + n]),
               And(zero(at2(e.data, r, n)), 0 <= k, Or(k < m.cols, k == 0)))


def zero(v):
    return And(v.re == 0, v.im == 0) if isinstance(v, S) else v == 0


def ell_ok(m, e, rows):
    return forall(0, rows, lambda r: forall(0, e.nnz_per_row, lambda n: padded(m, e, r, n)))


def ell_size(c, e):
    m = c.a(0)
    return And(e._rows == m.rows, e._cols == m.cols, e.data.cols == e.nnz_per_row, e.indices.cols == e.nnz_per_row, e.data.rows >= m.rows, e.indices.rows >= m.rows,
               forall(0, m.rows, lambda r: width(m, r) <= e.nnz_per_row))


def ell_row(c):
    m, e = c.a(0), c['ell']
    return dict(size=ell_size(c, e), rows=ell_ok(m, e, c.k))


def ell_fill(c):
    t = c.top
    m, e = t.a(0), t['ell']
    r = c.ks[0]
    return dict(size=ell_size(t, e), rows=ell_ok(m, e, r), at=t['n'] == c.k, filled=forall(0, c.k, lambda n: padded(m, e, r, n)), left=c.k <= width(m, r), **{'body:left': c.k < width(m, r)})


def ell_pad(c):
    t = c.top
    m, e = t.a(0), t['ell']
    r = c.ks[0]
    return dict(size=ell_size(t, e), rows=ell_ok(m, e, r), at=t['n'] == width(m, r) + c.k, filled=forall(0, t['n'], lambda n: padded(m, e, r, n)), left=t['n'] <= e.nnz_per_row)


CONTRACTS = []
for s in SC:
    CONTRACTS += [
        # the n-th call is for element n of the format, and there is one for each
        Contract('cpb::visit_all', select=inst(s), name='cpb::visit_all<%s>' % s, modifies=[], callback=1, requires=lambda c: wf(c.a(0)),
                 calls=lambda c, i, j, v: dict(element=element(c.a(0), c.ncalls, i, j, v)),
                 loops=[lambda c: dict(n=c.ncalls == c.top.a(0).outer[c.k]), lambda c: dict(n=c.ncalls == c.top.a(0).outer[c.ks[0]] + c.k)],
                 ensures=lambda c: dict(all=c.ncalls == c.a(0).inner.n)),
        Contract('cpb::visit_row', select=inst(s), name='cpb::visit_row<%s>' % s, modifies=[], callback=2, requires=lambda c: wf(c.a(0)) + [0 <= c.a(1), c.a(1) < c.a(0).rows],
                 calls=lambda c, j, v: dict(element=element(c.a(0), c.a(0).outer[c.a(1)] + c.ncalls, c.a(1), j, v)),
                 loops=[lambda c: dict(n=c.ncalls == c.k)],
                 ensures=lambda c: dict(all=c.ncalls == width(c.a(0), c.a(1)))),
        Contract('cpb::visit_slice', select=inst(s), name='cpb::visit_slice<%s>' % s, modifies=[], callback=4,
                 requires=lambda c: wf(c.a(0)) + [0 <= c.a(1), c.a(1) < c.a(0).rows, c.a(0).outer[c.a(1)] <= c.a(2), c.a(2) <= c.a(0).outer[c.a(1) + 1], c.a(3) >= 0],
                 calls=lambda c, i, j, v, n: dict(element=element(c.a(0), c.old.a(2) + c.ncalls, i, j, v), number=n == c.ncalls),
                 loops=[lambda c: dict(row=c['outer'] == c.old.a(1) + c.k, n=And(c['n'] == c.ncalls, c['idx'] == c.old.a(2) + c.ncalls, c.ncalls <= c.top.a(3)),
                                       at=And(Or(c['outer'] >= c.top.a(0).rows, And(c.top.a(0).outer[c['outer']] <= c['idx'], c['idx'] <= c.top.a(0).outer[c['outer'] + 1])), c['idx'] <= c.top.a(0).inner.n, c['outer'] <= c.top.a(0).rows, Implies(c['outer'] == c.top.a(0).rows, c['idx'] == c.top.a(0).inner.n))),
                        lambda c: dict(n=And(c['n'] == c.ncalls, c['idx'] == c.old.a(2) + c.ncalls, c.ncalls <= c.top.a(3)), at=And(c.top.a(0).outer[c['outer']] <= c['idx'], c['idx'] <= c.top.a(0).outer[c['outer'] + 1]))],
                 ensures=lambda c: dict(all=c.ncalls == Ite(c.old.a(3) < c.a(0).inner.n - c.old.a(2), c.old.a(3), c.a(0).inner.n - c.old.a(2)))),
        Contract('cpb::num::csr_to_ell', select=inst(s), name='cpb::num::csr_to_ell<%s>' % s, modifies=[], requires=lambda c: wf(c.a(0)),
                 loops=[ell_row, ell_fill, ell_pad],
                 ensures=lambda c: dict(size=ell_size(c, c.ret), elements=ell_ok(c.a(0), c.ret, c.a(0).rows))),
        Contract('cpb::sparse::max_nnz_per_row', select=inst(s), name='cpb::sparse::max_nnz_per_row<%s>' % s, modifies=[], requires=lambda c: wf(c.a(0)),
                 loops=[lambda c: dict(max=And(c['max'] >= 0, forall(0, c.k, lambda r: width(c.a(0), r) <= c['max'])), one=Or(c['max'] == 0, exists(0, c.k, lambda r: width(c.a(0), r) == c['max'])))],
                 ensures=lambda c: dict(max=And(c.ret >= 0, forall(0, c.a(0).rows, lambda r: width(c.a(0), r) <= c.ret)), one=Or(c.ret == 0, exists(0, c.a(0).rows, lambda r: width(c.a(0), r) == c.ret)))),
    ]


# --- products: y = matrix * x - y over a range of rows ----------------------------------------------------------------

def cadd(a, b):
    return S('complex', {'re': a.re + b.re, 'im': a.im + b.im}) if isinstance(a, S) else a + b


def csub(a, b):
    return S('complex', {'re': a.re - b.re, 'im': a.im - b.im}) if isinstance(a, S) else a - b


def terms(c, data, x, col):
    """arrays of the products data(n) * x[col(n)], one per real component"""
    if isinstance(x[0], S):
        return (defarr(R, lambda n: data(n).re * x[col(n)].re - data(n).im * x[col(n)].im), defarr(R, lambda n: data(n).re * x[col(n)].im + data(n).im * x[col(n)].re))
    return (defarr(R, lambda n: data(n) * x[col(n)]),)


def total(ts, lo, hi):
    v = [PSR(t, hi) - PSR(t, lo) for t in ts]
    return S('complex', {'re': v[0], 'im': v[1]}) if len(v) == 2 else v[0]


def csr_terms(c):
    m, x = c.a(2), c.a(3)
    return terms(c, lambda n: m.val[n], x, lambda n: m.inner[n])


def product_ready(c):
    m, x, y = c.a(2), c.a(3), c.a(4)
    return wf(m) + [m.rows == m.cols, x.n == m.rows, y.n == m.rows, 0 <= c.a(0), c.a(0) <= c.a(1), c.a(1) <= m.rows]


def csr_rows(c, y, y0, ts, lo, hi, n):
    m = c.a(2)
    return forall(0, n, lambda i: Ite(And(lo <= i, i < hi), same(y[i], csub(total(ts, m.outer[i], m.outer[i + 1]), y0[i])), same(y[i], y0[i])))


def csr_loop(c):
    t = c.top
    return dict(row=c['row'] == t.a(0) + c.k, size=t.a(4).n == t.a(2).rows, rows=csr_rows(t, t.a(4), c.old.a(4), csr_terms(t), t.a(0), t.a(0) + c.k, t.a(2).rows))


def csr_inner(c):
    t = c.top
    m = t.a(2)
    ts = csr_terms(t)
    row = t.a(0) + c.ks[0]
    return dict(n=c['n'] == m.outer[row] + c.k, sum=same(c['r'], total(ts, m.outer[row], m.outer[row] + c.k)))


for s in SC:
    CONTRACTS += [
        Contract('cpb::csr_product', select=inst(s), name='cpb::csr_product<%s>' % s, modifies=['arg4'], requires=product_ready, loops=[csr_loop, csr_inner],
                 ensures=lambda c: dict(size=c.a(4).n == c.a(2).rows, rows=csr_rows(c, c.a(4), c.old.a(4), csr_terms(c), c.a(0), c.a(1), c.a(2).rows))),
    ]


def ell_wf(e, square=False):
    return [e._rows >= 0, e._cols >= 0, e.nnz_per_row >= 0, e._rows < 2**31, e._cols < 2**31, e.nnz_per_row < 2**31, e.data.cols == e.nnz_per_row, e.indices.cols == e.nnz_per_row,
            e.data.rows >= e._rows, e.indices.rows >= e._rows] + \
           ([forall(0, e._rows, lambda r: forall(0, e.nnz_per_row, lambda n: And(0 <= at2(e.indices, r, n), at2(e.indices, r, n) < e._cols)))] if square else [])


def ell_ready(c):
    m, x, y = c.a(2), c.a(3), c.a(4)
    return ell_wf(m, True) + [m._rows == m._cols, x.n == m._rows, y.n == m._rows, 0 <= c.a(0), c.a(0) <= c.a(1), c.a(1) <= m._rows]


def ell_terms(c, i):
    m, x = c.a(2), c.a(3)
    return terms(c, lambda n: at2(m.data, i, n), x, lambda n: at2(m.indices, i, n))


def ell_rows(c, y, y0, lo, hi, n, k):
    """rows lo.. of y have k(i) terms added to the negative of what they held; the others are as they were"""
    return forall(0, n, lambda i: Ite(And(lo <= i, i < hi), same(y[i], csub(total(ell_terms(c, i), 0, k(i)), y0[i])), same(y[i], y0[i])))


def negate_loop(c):
    t = c.top
    y, y0 = t.a(4), c.old.a(4)
    return dict(row=c['row'] == t.a(0) + c.k, size=y.n == t.a(2)._rows,
                rows=forall(0, y.n, lambda i: Ite(And(t.a(0) <= i, i < t.a(0) + c.k), same(y[i], csub(total(ell_terms(t, i), 0, 0), y0[i])), same(y[i], y0[i]))))


def term_loop(c):
    t = c.top
    return dict(n=c['n'] == c.k, size=t.a(4).n == t.a(2)._rows, rows=ell_rows(t, t.a(4), c.old.a(4), t.a(0), t.a(1), t.a(2)._rows, lambda i: c.k))


def term_row(c):
    t = c.top
    n = c.ks[0]
    return dict(row=c['row'] == t.a(0) + c.k, size=t.a(4).n == t.a(2)._rows,
                rows=ell_rows(t, t.a(4), c.old.a(4), t.a(0), t.a(1), t.a(2)._rows, lambda i: Ite(i < t.a(0) + c.k, n + 1, n)))


for s in SC:
    CONTRACTS += [
        Contract('cpb::ell_product', select=inst(s), name='cpb::ell_product<%s>' % s, modifies=['arg4'], requires=ell_ready, loops=[negate_loop, term_loop, term_row],
                 ensures=lambda c: dict(size=c.a(4).n == c.a(2)._rows, rows=ell_rows(c, c.a(4), c.old.a(4), c.a(0), c.a(1), c.a(2)._rows, lambda i: c.a(2).nnz_per_row))),
    ]


def norm2(v, lo, n):
    """squared length of a segment"""
    if isinstance(v[0], S):
        return PSR(defarr(R, lambda j: v[lo + j].re * v[lo + j].re + v[lo + j].im * v[lo + j].im), n)
    return PSR(defarr(R, lambda j: v[lo + j] * v[lo + j]), n)


def inner(v, w, lo, n):
    """inner product of two segments, the first one conjugated"""
    if isinstance(v[0], S):
        return S('complex', {'re': PSR(defarr(R, lambda j: v[lo + j].re * w[lo + j].re + v[lo + j].im * w[lo + j].im), n),
                             'im': PSR(defarr(R, lambda j: v[lo + j].re * w[lo + j].im - v[lo + j].im * w[lo + j].re), n)})
    return PSR(defarr(R, lambda j: v[lo + j] * w[lo + j]), n)


def sums(c):
    x, y = c.a(3), c.a(4)
    lo, n = c.a(0), c.a(1) - c.a(0)
    m2 = norm2(x, lo, n)
    return dict(m2=same(c.a(5), cadd(c.old.a(5), S('complex', {'re': m2, 'im': z3.RealVal(0)}) if isinstance(c.a(5), S) else m2)), m3=same(c.a(6), cadd(c.old.a(6), inner(y, x, lo, n))))


for s in SC:
    CONTRACTS += [
        Contract('cpb::csr_product_diagonal', select=inst(s), name='cpb::csr_product_diagonal<%s>' % s, modifies=['arg4', 'arg5', 'arg6'], requires=product_ready, loops=[csr_loop, csr_inner],
                 ensures=lambda c: dict(size=c.a(4).n == c.a(2).rows, rows=csr_rows(c, c.a(4), c.old.a(4), csr_terms(c), c.a(0), c.a(1), c.a(2).rows), **sums(c))),
        Contract('cpb::ell_product_diagonal', select=inst(s), name='cpb::ell_product_diagonal<%s>' % s, modifies=['arg4', 'arg5', 'arg6'], requires=ell_ready, loops=[negate_loop, term_loop, term_row],
                 ensures=lambda c: dict(size=c.a(4).n == c.a(2)._rows, rows=ell_rows(c, c.a(4), c.old.a(4), c.a(0), c.a(1), c.a(2)._rows, lambda i: c.a(2).nnz_per_row), **sums(c))),
    ]


def ell_element(c, m, i, j, v, lo, hi):
    """the calls go over the rows for each of the elements per row in turn"""
    n = c.local['n']
    return And(c.ncalls == n * (hi - lo) + (i - lo), lo <= i, i < hi, 0 <= n, n < m.nnz_per_row, j == at2(m.indices, i, n), same(v, at2(m.data, i, n)))


def aligned(step):
    return lambda c: dict(multiple=c.ret % step == 0, size=And(c.ret >= c.a(0), c.ret < c.a(0) + step))


def up_to_multiple(step):
    return [lambda c: dict(size=And(c['size'] == c.a(0) + c.k if False else c['size'] >= c.old.a(0), c['size'] < c.old.a(0) + step, forall(c.old.a(0), c['size'], lambda q: q % step != 0)))]


for s in SC:
    CONTRACTS += [
        Contract('cpb::visit_ell', select=inst(s), name='cpb::visit_ell<%s>' % s, modifies=[], callback=1, requires=lambda c: ell_wf(c.a(0)),
                 calls=lambda c, i, j, v: dict(element=ell_element(c, c.a(0), i, j, v, 0, c.a(0)._rows)),
                 loops=[lambda c: dict(n=And(c['n'] == c.k, c.ncalls == c.k * c.top.a(0)._rows)), lambda c: dict(n=And(c['row'] == c.k, c.ncalls == c.ks[0] * c.top.a(0)._rows + c.k))],
                 ensures=lambda c: dict(all=c.ncalls == c.a(0).nnz_per_row * c.a(0)._rows)),
        Contract('cpb::visit_ell_rows', select=inst(s), name='cpb::visit_ell_rows<%s>' % s, modifies=[], callback=3, requires=lambda c: ell_wf(c.a(0)) + [0 <= c.a(1), c.a(1) <= c.a(2), c.a(2) <= c.a(0)._rows],
                 calls=lambda c, i, j, v: dict(element=ell_element(c, c.a(0), i, j, v, c.a(1), c.a(2))),
                 loops=[lambda c: dict(n=And(c['n'] == c.k, c.ncalls == c.k * (c.top.a(2) - c.top.a(1)))), lambda c: dict(n=And(c['row'] == c.top.a(1) + c.k, c.ncalls == c.ks[0] * (c.top.a(2) - c.top.a(1)) + c.k))],
                 ensures=lambda c: dict(all=c.ncalls == c.a(0).nnz_per_row * (c.a(2) - c.a(1)))),
        Contract('cpb::csrref', select=inst(s), name='cpb::csrref<%s>' % s, modifies=[], requires=lambda c: wf(c.a(0)),
                 ensures=lambda c: dict(sizes=And(c.ret.rows == c.a(0).rows, c.ret.cols == c.a(0).cols, c.ret.nnz == c.a(0).inner.n))),
    ]
CONTRACTS += [
    Contract('cpb::aligned_8', modifies=[], requires=lambda c: [0 <= c.a(0), c.a(0) < 2**31 - 8], loops=up_to_multiple(8), ensures=aligned(8)),
    Contract('cpb::aligned_long', modifies=[], requires=lambda c: [0 <= c.a(0), c.a(0) < 2**62], loops=up_to_multiple(2), ensures=aligned(2)),
    Contract('cpb::aligned_one', modifies=[], requires=lambda c: [0 <= c.a(0), c.a(0) < 2**62], loops=up_to_multiple(1), ensures=aligned(1)),
    Contract('cpb::aligned_int', modifies=[], requires=lambda c: [0 <= c.a(0), c.a(0) < 2**62], loops=up_to_multiple(8), ensures=aligned(8)),
]
