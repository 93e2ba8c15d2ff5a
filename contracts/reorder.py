"""KPM: the permutation of the Hamiltonian and the slices which bound how far a moment can reach."""
from .common import *
from dv.lib import Sparse, Over, uf, flat_leaves
from .sparse import wf, ascending, SC, TYPES as ST
TYPES = dict(ST)
K = 'cpb::kpm::'
LEMMAS = ['pigeonhole']


def increasing(v):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < v.n), v[i] < v[j]))


def slices(m):
    return [m.data.n > 0, m.data.n < 2**31, increasing(m.data), forall(0, m.data.n, lambda k: And(m.data[k] >= 0, m.data[k] < 2**31)),
            0 <= m.src_offset, m.src_offset < m.data.n, 0 <= m.dest_offset, m.dest_offset < m.data.n]


def least(*v):
    r = v[0]
    for x in v[1:]:
        r = Ite(x < r, x, r)
    return r


def needed(m, n, num):
    """growing from the source, bounded by the whole system, shrinking towards the destination"""
    return least(m.data.n - 1, n + m.src_offset, num - 1 - n + m.dest_offset)


def counts(c):
    return [0 <= c.a(0), c.a(0) < c.a(1), c.a(1) < 2**31]


def offset(data, off, idx):
    """the first border beyond every index"""
    return And(0 <= off, off < data.n, forall(0, idx.n, lambda i: idx[i] < data[off]), Implies(off > 0, exists(0, idx.n, lambda i: data[off - 1] <= idx[i])))


CONTRACTS = [
    Contract(K + 'SliceMap::last_index', modifies=[], requires=lambda c: slices(c.this), returns=lambda c: c.this.data.n - 1),
    Contract(K + 'SliceMap::index', modifies=[], requires=lambda c: slices(c.this) + counts(c), returns=lambda c: needed(c.this, c.a(0), c.a(1))),
    Contract(K + 'SliceMap::optimal_size', modifies=[], requires=lambda c: slices(c.this) + counts(c), returns=lambda c: c.this.data[needed(c.this, c.a(0), c.a(1))]),
    Contract(K + 'SliceMap::operator[]', modifies=[], requires=lambda c: slices(c.this) + [0 <= c.a(0), c.a(0) < c.this.data.n], returns=lambda c: c.this.data[c.a(0)]),
    Contract(K + 'SliceMap::SliceMap', select=lambda d: len([p for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl']) == 2, modifies=['this'],
             requires=lambda c: [c.a(0).n > 0, c.a(0).n < 2**31, increasing(c.a(0)), c.a(1).src.n > 0, c.a(1).dest.n > 0,
                                 forall(0, c.a(1).src.n, lambda i: And(0 <= c.a(1).src[i], c.a(1).src[i] < c.a(0)[c.a(0).n - 1])),
                                 forall(0, c.a(1).dest.n, lambda i: And(0 <= c.a(1).dest[i], c.a(1).dest[i] < c.a(0)[c.a(0).n - 1]))],
             ensures=lambda c: dict(data=And(c.this.data.n == c.old.a(0).n, forall(0, c.old.a(0).n, lambda i: c.this.data[i] == c.old.a(0)[i])),
                                    src=offset(c.old.a(0), c.this.src_offset, c.a(1).src), dest=offset(c.old.a(0), c.this.dest_offset, c.a(1).dest))),
    Contract(K + 'Indices::is_diagonal', modifies=[], returns=lambda c: same_list(c.this.src, c.this.dest)),
    Contract(K + 'OptimizedHamiltonian::reorder_indices', modifies=[], requires=lambda c: [in_map(c.a(0).src, c.a(1)), in_map(c.a(0).dest, c.a(1))],
             ensures=lambda c: dict(src=mapped(c.ret.src, c.a(0).src, c.a(1)), dest=mapped(c.ret.dest, c.a(0).dest, c.a(1)))),
]


def same_list(a, b):
    return And(a.n == b.n, forall(0, a.n, lambda i: a[i] == b[i]))


def in_map(idx, m):
    return forall(0, idx.n, lambda i: And(0 <= idx[i], idx[i] < m.n))


def mapped(r, idx, m):
    return And(r.n == idx.n, forall(0, idx.n, lambda i: r[i] == m[idx[i]]))


# --- applying the permutation ---------------------------------------------------------------------------------------
def permutation(m):
    i, j = qv(), qv()
    return [forall(0, m.n, lambda i: And(0 <= m[i], m[i] < m.n)), z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < m.n), m[i] != m[j]))]


def reordered(c):
    m, v, v0 = c.this.reorder_map, c.a(0), c.old.a(0)
    return And(v.n == v0.n, Implies(m.n == 0, forall(0, v0.n, lambda i: same(v[i], v0[i]))), Implies(m.n > 0, forall(0, v0.n, lambda i: same(v[m[i]], v0[i]))))


for s in SC:
    CONTRACTS += [
        Contract(K + 'OptimizedHamiltonian::reorder', select=lambda d, s=s: inst('Eigen::Matrix<%s, -1, 1>' % s)(d), name=K + 'OptimizedHamiltonian::reorder<%s>' % s, modifies=['arg0'],
                 requires=lambda c: permutation(c.this.reorder_map) + [Or(c.this.reorder_map.n == 0, c.this.reorder_map.n == c.a(0).n)],
                 loops=[lambda c: dict(done=forall(0, c.k, lambda i: same(c['reordered_v'][c.this.reorder_map[i]], c.old.a(0)[i])), size=c['reordered_v'].n == c.old.a(0).n)],
                 ensures=lambda c: dict(reordered=reordered(c))),
    ]


# --- building the reordered matrix ------------------------------------------------------------------------------------
TYPES['cpb::Hamiltonian'] = Over({'real': 'Eigen::SparseMatrix<double, 1>', 'cplx': 'Eigen::SparseMatrix<std::complex<double>, 1>'})
TYPES['cpb::kpm::OptimizedHamiltonian::VariantMatrix'] = 'opaque'
PIGEON = z3.Function('pigeon', z3.ArraySort(I, I), z3.ArraySort(I, I), I, I, I)


def pigeonhole():
    """An injection of n indices into N indices: n <= N, with room left when an index has no preimage (proved in lemmas.py)"""
    q, m = z3.Const('pg!q', z3.ArraySort(I, I)), z3.Const('pg!m', z3.ArraySort(I, I))
    n, N = z3.Int('pg!n'), z3.Int('pg!N')
    inv = forall(0, n, lambda k: And(0 <= q[k], q[k] < N, m[q[k]] == k))
    return [z3.ForAll([q, m, n, N], And(PIGEON(q, m, n, N) == 0, Implies(And(n >= 0, N >= 0, inv), And(n <= N, forall(0, N, lambda i: Implies(m[i] < 0, n < N))))), patterns=[PIGEON(q, m, n, N)])]


def matrix(c):
    h = c.this.original_h
    return h.cplx if c.scalar else h.real


def strict(m):
    """no element is stored twice"""
    r, i, j = qv(), qv(), qv()
    return z3.ForAll([r, i, j], Implies(And(0 <= r, r < m.rows, m.outer[r] <= i, i < j, j < m.outer[r + 1]), m.inner[i] != m.inner[j]))


def state(c):
    t = c.top
    return t['index_queue'], t.this.reorder_map, t['slice_border_indices'], t['h2'], t


def inverse(q, m, N):
    """queue and map are inverse to each other where they are defined"""
    return dict(queue=forall(0, q.n, lambda k: And(0 <= q[k], q[k] < N, m[q[k]] == k)),
                map=forall(0, N, lambda i: And(m[i] >= -1, m[i] < q.n, Implies(m[i] >= 0, q[m[i]] == i))))


def elements(m, q, mp, lo, hi, fn):
    """for every stored element e of the original rows at new rows lo..hi"""
    r, e = qv(), qv()
    return z3.ForAll([r, e], Implies(And(lo <= r, r < hi, m.outer[q[r]] <= e, e < m.outer[q[r] + 1]), fn(r, e)))


def scaled(t, v, diag):
    inv = 2 / t.a(1).a
    b = Ite(diag, t.a(1).b, z3.RealVal(0))
    if isinstance(v, S):
        return S('complex', {'re': v.re * inv - b * inv, 'im': v.im * inv})
    return v * inv - b * inv


def component(v, part):
    return getattr(v, part) if isinstance(v, S) else v


def build(cplx):
    def mat(t):
        return t.this.original_h.cplx if cplx else t.this.original_h.real

    def element_ok(t, m, q, mp, h2, r, e):
        return And(0 <= mp[m.inner[e]], mp[m.inner[e]] < q.n, h2.has.d[r][mp[m.inner[e]]], same(nested(h2.val.d, r, mp[m.inner[e]]), scaled(t, m.val[e], m.inner[e] == q[r])))

    def origin(t, m, q, h2, r, c):
        """where an element of the new matrix comes from"""
        return Or(And(c == r, t.a(1).b != 0), exists(m.outer[q[r]], m.outer[q[r] + 1], lambda e: m.inner[e] == q[c]))

    def diagonal(t, m, q, h2, lo, hi):
        """with a shift of the energy there is a diagonal element in every row, even if there was none in the original"""
        return forall(lo, hi, lambda r: Implies(t.a(1).b != 0, And(h2.has.d[r][r], Or(exists(m.outer[q[r]], m.outer[q[r] + 1], lambda e: m.inner[e] == q[r]), same(nested(h2.val.d, r, r), scaled(t, zero_of(m.val), True))))))

    def rows_done(t, m, q, mp, h2, k):
        r, c = qv(), qv()
        return dict(elements=elements(m, q, mp, Int(0), k, lambda r, e: element_ok(t, m, q, mp, h2, r, e)),
                    origin=z3.ForAll([r, c], Implies(And(0 <= r, r < k, h2.has.d[r][c]), And(0 <= c, c < q.n, origin(t, m, q, h2, r, c)))),
                    diagonal=diagonal(t, m, q, h2, Int(0), k))

    def untouched(h2, k):
        r, c = qv(), qv()
        return z3.ForAll([r, c], Implies(And(r >= k), Not(h2.has.d[r][c])))

    def nesting(m, q, mp, b, k):
        """the rows of a slice only refer to the next slice"""
        r, e, j = qv(), qv(), qv()
        return z3.ForAll([j, r, e], Implies(And(0 <= j, j + 1 < b.n, 0 <= r, r < k, r < b[j], m.outer[q[r]] <= e, e < m.outer[q[r] + 1]), mp[m.inner[e]] < b[j + 1]))

    def borders(b, q, k, N):
        last = b.n - 1
        i, j = qv(), qv()
        return dict(first=And(b.n >= 1, b[0] == 1, b.n <= k + 1),
                    increasing=z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < b.n - Ite(k == N, Int(1), Int(0))), b[i] < b[j])),
                    slice=Implies(k < N, And(k < b[last], b[last] <= q.n, Or(b.n == 1, b[b.n - 2] <= k))),
                    end=Implies(k == N, And(b.n >= 2, b[last] == N, b[b.n - 2] == N)))

    def common(c, k, inner=False):
        q, mp, b, h2, t = state(c)
        m = mat(t)
        N = m.rows
        d = dict(inverse(q, mp, N))
        d.update(sizes=And(mp.n == N, q.n <= N, q.n > 0, h2.rows == N, h2.cols == N, q[0] == t.a(0).src[0], t['system_size'] == N))
        d.update(rows_done(t, m, q, mp, h2, k))
        d.update(nesting=nesting(m, q, mp, b, k))
        return d, q, mp, b, h2, t, m, N

    def outer(c):
        k = c.k
        d, q, mp, b, h2, t, m, N = common(c, k)
        d.update(borders(b, q, k, N))
        d.update(ahead=Implies(k < N, q.n >= k + 1), untouched=untouched(h2, k), unmapped=And(0 <= t['first_unmapped'], t['first_unmapped'] <= N, forall(0, t['first_unmapped'], lambda i: mp[i] >= 0)))
        d['pigeon'] = PIGEON(q.e, mp.e, q.n, N) == 0
        d['complete'] = Implies(k == N, And(q.n == N, Or(PIGEON(q.e, mp.e, q.n, N) != 0, forall(0, N, lambda i: mp[i] >= 0))))
        return d

    def inner(c):
        k, i = c.ks[0], c.k
        d, q, mp, b, h2, t, m, N = common(c, k)
        p = c.pre.top['index_queue']
        row = q[k]
        lo = m.outer[row]
        x = qv()
        col = qv()
        d.update(grows=And(q.n >= p.n, forall(0, p.n, lambda x: q[x] == p[x])),
                 row=t['row'] == row,
                 now=forall(lo, lo + i, lambda e: And(0 <= mp[m.inner[e]], mp[m.inner[e]] < q.n, h2.has.d[k][mp[m.inner[e]]])),
                 now_origin=z3.ForAll([col], Implies(h2.has.d[k][col], And(0 <= col, col < q.n, exists(lo, lo + i, lambda e: m.inner[e] == q[col])))),
                 untouched=untouched(h2, k + 1),
                 inserted=t['diagonal_inserted'] == exists(lo, lo + i, lambda e: m.inner[e] == row),
                 kept=forall(0, N, lambda j: Implies(c.pre.top.this.reorder_map[j] >= 0, mp[j] == c.pre.top.this.reorder_map[j])))
        for part in ['re', 'im'] if cplx else ['re']:
            for dg in [True, False]:
                d['now_%s_%s' % (part, 'diagonal' if dg else 'other')] = forall(lo, lo + i, lambda e: Implies((m.inner[e] == row) == dg,
                    component(nested(h2.val.d, k, mp[m.inner[e]]), part) == component(scaled(t, m.val[e], dg), part)))
        d['pigeon'] = PIGEON(q.e, mp.e, q.n, N) == 0
        return d

    def search(c):
        q, mp, b, h2, t = state(c)
        f = t['first_unmapped']
        N = mat(t).rows
        return dict(range=And(0 <= f, f <= N), mapped=forall(0, f, lambda i: mp[i] >= 0), **{'pigeon': PIGEON(mp.e, q.e, N, q.n) == 0})

    def requires(c):
        m = mat(c)
        i = c.a(0)
        ok = lambda v: [v.n > 0, v.n < 2**31, forall(0, v.n, lambda k: And(0 <= v[k], v[k] < m.rows))]
        return pigeonhole() + wf(m) + [strict(m), m.rows == m.cols, m.rows > 0, c.a(1).a > 0] + ok(i.src) + ok(i.dest)

    def ensures(c):
        m = mat(c)
        h2, mp, sm, N = c.this.optimized_matrix, c.this.reorder_map, c.this.slice_map, m.rows
        e, r, x = qv(), qv(), qv()
        d = dict(permutation=And(mp.n == N, *permutation(mp)), source_first=mp[c.old.a(0).src[0]] == 0,
                 source=mapped(c.this.optimized_idx.src, c.a(0).src, mp), destination=mapped(c.this.optimized_idx.dest, c.a(0).dest, mp))
        d['size'] = And(h2.rows == N, h2.cols == N)
        d['elements'] = z3.ForAll([r, e], Implies(And(0 <= r, r < N, m.outer[r] <= e, e < m.outer[r + 1]),
                                                  And(h2.has.d[mp[r]][mp[m.inner[e]]], same(nested(h2.val.d, mp[r], mp[m.inner[e]]), scaled(c, m.val[e], m.inner[e] == r)))))
        r, x = qv(), qv()
        d['nothing_else'] = z3.ForAll([r, x], Implies(And(0 <= r, r < N, 0 <= x, x < N, h2.has.d[mp[r]][mp[x]]), Or(And(r == x, c.a(1).b != 0), exists(m.outer[r], m.outer[r + 1], lambda e: m.inner[e] == x))))
        d['diagonal'] = forall(0, N, lambda r: Implies(c.a(1).b != 0, Or(exists(m.outer[r], m.outer[r + 1], lambda e: m.inner[e] == r), And(h2.has.d[mp[r]][mp[r]], same(nested(h2.val.d, mp[r], mp[r]), scaled(c, zero_of(m.val), True))))))
        d['slices'] = And(sm.data.n > 0, sm.data[0] == 1, sm.data[sm.data.n - 1] == N, increasing(sm.data))
        r, e, j = qv(), qv(), qv()
        d['nesting'] = z3.ForAll([j, r, e], Implies(And(0 <= j, j + 1 < sm.data.n, 0 <= r, r < N, mp[r] < sm.data[j], m.outer[r] <= e, e < m.outer[r + 1]), mp[m.inner[e]] < sm.data[j + 1]))
        d['offsets'] = And(offset(sm.data, sm.src_offset, c.this.optimized_idx.src), offset(sm.data, sm.dest_offset, c.this.optimized_idx.dest))
        return d

    s = SC[cplx]
    return [Contract('cpb::sparse::max_nnz_per_row', select=inst(s), name='cpb::sparse::max_nnz_per_row<%s>' % s, trusted=True, modifies=[], requires=lambda c: wf(c.a(0)), ensures=lambda c: dict(size=c.ret >= 0)),
            Contract('cpb::ham::get_reference', select=inst(s), name='cpb::ham::get_reference<%s>' % s, trusted=True, modifies=[], returns=lambda c: c.a(0).cplx if cplx else c.a(0).real),
            Contract(K + 'OptimizedHamiltonian::create_reordered', select=inst(s), name=K + 'OptimizedHamiltonian::create_reordered<%s>' % s,
                     modifies=['this.optimized_matrix', 'this.reorder_map', 'this.optimized_idx', 'this.slice_map'], requires=requires, ensures=ensures, loops=[outer, inner, search])]


def nested(d, i, j):
    return sel(sel(d, i), j)


def zero_of(v):
    return S('complex', {'re': z3.RealVal(0), 'im': z3.RealVal(0)}) if isinstance(v[0], S) else z3.RealVal(0)


CONTRACTS += build(0) + build(1)


# --- scaling only, and reordering of operators ------------------------------------------------------------------------
def scaled_only(cplx):
    def base(c):
        return c.old.this.original_h.cplx if cplx else c.old.this.original_h.real

    def ensures(c):
        h2, h, sc = c.this.optimized_matrix, base(c), c.a(1)
        return dict(matrix=And(h2.rows == h.rows, h2.cols == h.cols, h2.base == uf(c.it, 'matrix', OPQ, [h])), scale=h2.h == 2 / sc.a, shift=h2.i == -sc.b * (2 / sc.a),
                    idx=And(same_list(c.this.optimized_idx.src, c.a(0).src), same_list(c.this.optimized_idx.dest, c.a(0).dest)))
    s = SC[cplx]
    return [Contract(K + 'OptimizedHamiltonian::create_scaled', select=inst(s), name=K + 'OptimizedHamiltonian::create_scaled<%s>' % s, modifies=['this.optimized_matrix', 'this.optimized_idx'],
                     requires=lambda c: wf(base(c)) + [base(c).rows == base(c).cols, c.a(1).a > 0], ensures=ensures)]


def operator(cplx):
    s = SC[cplx]

    def rows(t, m, mp, h2, k):
        r, e = qv(), qv()
        return z3.ForAll([r, e], Implies(And(0 <= r, r < k, m.outer[r] <= e, e < m.outer[r + 1]), And(h2.has.d[mp[r]][mp[m.inner[e]]], same(nested(h2.val.d, mp[r], mp[m.inner[e]]), m.val[e]))))

    def origin(m, mp, h2, k, lo=None, hi=None):
        r, x = qv(), qv()
        return z3.ForAll([r, x], Implies(And(0 <= r, r < m.rows, 0 <= x, x < m.cols, h2.has.d[mp[r]][mp[x]]), Or(And(r < k, exists(m.outer[r], m.outer[r + 1], lambda e: m.inner[e] == x)),
                                                                                                 False if lo is None else And(r == k, exists(lo, hi, lambda e: m.inner[e] == x)))))

    def base(c, k):
        t = c.top
        return dict(size=And(t['reordered_matrix'].rows == t.a(0).rows, t['reordered_matrix'].cols == t.a(0).cols), done=rows(t, t.a(0), t.this.reorder_map, t['reordered_matrix'], k))

    def outer(c):
        t = c.top
        return dict(base(c, c.k), origin=origin(t.a(0), t.this.reorder_map, t['reordered_matrix'], c.k))

    def inner(c):
        t, k, i = c.top, c.ks[0], c.k
        m, mp, h2 = t.a(0), t.this.reorder_map, t['reordered_matrix']
        lo = m.outer[k]
        return dict(base(c, k), origin=origin(m, mp, h2, k, lo, lo + i), now=forall(lo, lo + i, lambda e: And(h2.has.d[mp[k]][mp[m.inner[e]]], same(nested(h2.val.d, mp[k], mp[m.inner[e]]), m.val[e]))))

    def ensures(c):
        m, m0, mp = c.a(0), c.old.a(0), c.this.reorder_map
        if 'has' not in m.f:
            return dict(unchanged=And(mp.n == 0, *[x == y for x, y in zip(flat_leaves(c.it, m), flat_leaves(c.it, m0))]))
        return dict(size=And(m.rows == m0.rows, m.cols == m0.cols), elements=rows(c, m0, mp, m, m0.rows), nothing_else=origin(m0, mp, m, m0.rows))
    return [Contract(K + 'OptimizedHamiltonian::reorder', select=lambda d, s=s: inst(s)(d) and 'SparseMatrix' in d['type']['qualType'], name=K + 'OptimizedHamiltonian::reorder<Sparse %s>' % s, modifies=['arg0'],
                     requires=lambda c: wf(c.a(0)) + [strict(c.a(0)), c.a(0).rows == c.a(0).cols, Or(c.this.reorder_map.n == 0, c.this.reorder_map.n == c.a(0).rows)] + permutation(c.this.reorder_map),
                     loops=[outer, inner], ensures=ensures)]


CONTRACTS += scaled_only(0) + scaled_only(1) + operator(0) + operator(1)
