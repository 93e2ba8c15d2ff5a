"""Foundation: the sites of a box of unit cells (system/Foundation.*)."""
from .common import *
from dv.lib import uf

FN = 'cpb::Foundation'


def dims(f):
    return [at(f.spatial_size, i) for i in range(3)]


def fwf(f):
    """at least one cell and one sublattice, one position and state for each site"""
    x, y, z = dims(f)
    return [x >= 1, y >= 1, z >= 1, f.sub_size >= 1]


def flat_of(f, s, i):
    x, y, z = dims(f)
    return ((s * z + i[2]) * y + i[1]) * x + i[0]


def site(c, v=None):
    v = v or c.this
    return v, [at(v.spatial_idx, k) for k in range(3)], c.deref(v.f['foundation'])


def consistent(c, v=None):
    """the flat index is that of the cell and sublattice"""
    v, i, f = site(c, v)
    return v.flat_idx == flat_of(f, v.sub_idx, i)


def inside(c, v=None):
    v, i, f = site(c, v)
    return And([0 <= v.sub_idx] + [And(0 <= i[k], i[k] < dims(f)[k]) for k in range(3)])


def rng(c, k):
    return at(c.this.range.data, k)


def width(s):
    return Ite(s.end > s.start, s.end - s.start, Int(0))


def site2(c):
    return c.deref(c.this.f['foundation'])


def slice_pos(c):
    """how many sites of the slice come before the current one"""
    v = c.this
    x, y, z = [rng(c, k).end - rng(c, k).start for k in range(3)]
    i = [at(v.spatial_idx, k) - rng(c, k).start for k in range(3)]
    return ((v.sub_idx * z + i[2]) * y + i[1]) * x + i[0]


def in_slice(c):
    v, i, f = site(c)
    return And([v.slice_idx == slice_pos(c), 0 <= v.sub_idx] + [And(rng(c, k).start <= i[k], i[k] < rng(c, k).end) for k in range(3)])


def slice_end(c):
    """the position after the last site of the last sublattice"""
    v, i, f = site(c)
    return And([v.slice_idx == slice_pos(c)] + [i[k] == rng(c, k).start for k in range(3)])


def nsub(l):
    return l.sublattices.n


def lattice_wf(l):
    return [l.vectors.n >= 1, l.vectors.n <= 3, nsub(l) >= 1]


def flat_directions(c, size, l):
    """one cell along the directions which the lattice does not have"""
    return [Implies(l.vectors.n < k + 1, at(size, k) == 1) for k in (1, 2)]


def cells(c):
    return at(c.a(1), 0) * at(c.a(1), 1) * at(c.a(1), 2)


def decode(c, q):
    """sublattice and cell of the q-th position"""
    x, y, z = [at(c.a(1), k) for k in range(3)]
    r = q / x
    return (r / y) / z, [q % x, r % y, (r / y) % z]


def place(c, uc, q, dec=None):
    """origin + offset of the sublattice + the lattice vectors of the cell"""
    s, i = dec or decode(c, q)
    l = c.a(2)
    out = []
    for k in range(3):
        p = at(c.a(0), k) + at(uc.sites[s].position, k)
        for j in range(3):
            v = z3.ToReal(i[j]) * at(l.vectors[j], k)
            p = p + (v if j == 0 else Ite(l.vectors.n > j, v, z3.RealVal(0)))
        out.append(p)
    return out


def filled(c, n):
    t = c.top if hasattr(c, 'top') else c
    return forall(0, n, lambda q: And([getattr(c['positions'], k)[q] == place(c, c['unit_cell'], q)[i] for i, k in enumerate('xyz')]))


def X(c):
    return [at(c.a(1), k) for k in range(3)]


def pos_at(c, up):
    """idx counts the positions before the current sublattice, layer, row and column"""
    x, y, z = X(c)
    i = list(c.ks[-up:] if up else []) + [c.k] + [Int(0)] * (3 - up)
    n, l, r, a = i
    return ((n * z + l) * y + r) * x + a


def sizes_ok(c):
    p = c['positions']
    return And([getattr(p, k).n == cells(c) * nsub(c.a(2)) for k in 'xyz'])


def room(c, up):
    x, y, z = X(c)
    n = nsub(c.a(2))
    out = {}
    ks = list(c.ks[-up:] if up else [])
    if up >= 1:
        out['room0'] = ks[0] * z + z <= n * z
    if up >= 2:
        out['room1'] = (ks[0] * z + ks[1]) * y + y <= (n * z) * y
    if up >= 3:
        out['room2'] = ((ks[0] * z + ks[1]) * y + ks[2]) * x + x <= ((n * z) * y) * x
    return out


def pos_loop(up):
    def f(c):
        out = {}
        if up == 3:
            n, l, r = c.ks[-3:]
            out['step:last'] = Implies(c.k > 0, And([getattr(c['positions'], d)[c['idx'] - 1] == v for d, v in zip('xyz', place(c, c['unit_cell'], None, (n, [c.k - 1, r, l])))]))
            out['step:where'] = Implies(c.k > 0, And([u == v for u, v in zip(place(c, c['unit_cell'], c['idx'] - 1), place(c, c['unit_cell'], None, (n, [c.k - 1, r, l])))]))
        out.update({'at': c['idx'] == pos_at(c, up), 'filled': filled(c, c['idx']), 'size': sizes_ok(c)})
        out.update(room(c, up))
        if up == 3:
            x, y, z = X(c)
            n, l, r = c.ks[-3:]
            q = c['idx']
            out['body:col0'] = And((((n * z + l) * y + r) * x + c.k) % x == c.k, (((n * z + l) * y + r) * x + c.k) / x == (n * z + l) * y + r)
            out['body:at'] = q == ((n * z + l) * y + r) * x + c.k
            out['body:col'] = And(q % x == c.k, q / x == (n * z + l) * y + r)
            out['body:row0'] = And(((n * z + l) * y + r) % y == r, ((n * z + l) * y + r) / y == n * z + l)
            out['body:layer0'] = And((n * z + l) % z == l, (n * z + l) / z == n)
            out['body:row'] = And((q / x) % y == r, (q / x) / y == n * z + l)
            out['body:layer'] = And(((q / x) / y) % z == l, ((q / x) / y) / z == n)
            out['body:place'] = And([p == v for p, v in zip(place(c, c['unit_cell'], q), place(c, c['unit_cell'], q, (n, [c.k, r, l])))])
            vs = c.a(2).vectors
            out['body:zero'] = And([Implies(i == 0, z3.ToReal(i) * at(vs[j], d) == 0) for j, i in ((1, r), (2, l)) for d in range(3)])
        return out
    return f


POS_LOOPS = [pos_loop(0), pos_loop(1), pos_loop(2), pos_loop(3)]

CONTRACTS = [
    Contract('cpb::Lattice::optimized_unit_cell', modifies=[], trusted=True, ensures=lambda c: dict(sites=c.ret.sites.n == nsub(c.this))),
    Contract('cpb::Site::reset_idx', modifies=['this.flat_idx'], requires=lambda c: fwf(site(c)[2]), ensures=lambda c: dict(flat=consistent(c))),
    Contract('cpb::Site::shifted', modifies=[], requires=lambda c: fwf(site(c)[2]),
             ensures=lambda c: dict(cell=And([at(c.ret.spatial_idx, k) == at(c.this.spatial_idx, k) + at(c.a(0), k) for k in range(3)]), sub=c.ret.sub_idx == c.this.sub_idx, flat=consistent(c, c.ret))),
    Contract(FN + '::size', modifies=[], requires=lambda c: fwf(c.this),
             ensures=lambda c: dict(product=c.ret == dims(c.this)[0] * dims(c.this)[1] * dims(c.this)[2] * c.this.sub_size)),
    Contract('cpb::detail::generate_positions', modifies=[],
             requires=lambda c: [at(c.a(1), k) >= 1 for k in range(3)] + lattice_wf(c.a(2)) + flat_directions(c, c.a(1), c.a(2)) + [cells(c) * nsub(c.a(2)) < 2**31],
             loops=POS_LOOPS,
             ensures=lambda c: dict(size=c.ret.x.n == cells(c) * nsub(c.a(2)), places=forall(0, c.ret.x.n, lambda q: And([getattr(c.ret, k)[q] == place(c, c['unit_cell'], q)[i] for i, k in enumerate('xyz')])))),
]


# ------------------------------------------------------------------ final indices (P02)
def valid(f):
    return arr(None, lambda i: Ite(f.is_valid[i], Int(1), Int(0)))


def total(f):
    x, y, z = dims(f)
    return x * y * z * f.sub_size


def numbered(f, ix, n):
    """valid sites before n have consecutive indices, the others have none"""
    return forall(0, n, lambda i: ix[i] == Ite(f.is_valid[i], PS(valid(f), i), Int(-1)))


def final_ok(f, fi):
    return And(fi.indices.n == total(f), fi.total_valid_sites == PS(valid(f), total(f)), numbered(f, fi.indices, total(f)))


def counts_ok(fi, l):
    """one upper limit for each family"""
    return And(fi.hopping_counts.n == l.hoppings.n, forall(0, l.hoppings.n, lambda i: fi.hopping_counts[i] >= 0))


def local_counts(c):
    h = c['hopping_counts']
    n = c.deref(c.this.f['lattice']).hoppings.n
    return And(h.n == n, forall(0, n, lambda i: h[i] >= 0))


def families_known(f, l):
    n = f.sub_size
    u = f.unit_cell.sites
    a, b = qv(), qv()
    return z3.ForAll([a, b], Implies(And(0 <= a, a < n, 0 <= b, b < u[a].hoppings.n), And(0 <= u[a].hoppings[b].family_id._value, u[a].hoppings[b].family_id._value < l.hoppings.n)))


def fin_outer(c):
    f = c.this
    return {'indices': And(c['indices'].n == total(f), numbered(f, c['indices'], c['block_size'] * c.k), forall(c['block_size'] * c.k, total(f), lambda i: c['indices'][i] == -1)),
            'count': c['total_valid_sites'] == PS(valid(f), c['block_size'] * c.k), 'families': local_counts(c),
            'body:room': c['block_size'] * c.k + c['block_size'] <= total(f)}


def fin_inner(c):
    f = c.this
    n = c.ks[-1]
    b = c['block_size']
    return {'i': And(c['i'] == n * b + c.k, 0 <= c.k, c.k <= b), 'indices': And(c['indices'].n == total(f), numbered(f, c['indices'], c['i']), forall(c['i'], total(f), lambda i: c['indices'][i] == -1)), 'families': local_counts(c),
            'count': c['total_valid_sites'] == PS(valid(f), c['i'])}


def fin_hops(c):
    return {'families': local_counts(c)}


CONTRACTS += [
    Contract(FN + '::get_finalized_indices', modifies=['this.finalized_indices'],
             requires=lambda c: fwf(c.this) + [total(c.this) < 2**31, c.this.is_valid.n == total(c.this), c.this.unit_cell.sites.n == c.this.sub_size, families_known(c.this, c.deref(c.this.f['lattice'])),
                                               Implies(c.this.finalized_indices.total_valid_sites != 0, And(final_ok(c.this, c.this.finalized_indices), counts_ok(c.this.finalized_indices, c.deref(c.this.f['lattice']))))],
             loops=[fin_outer, fin_inner, fin_hops],
             ensures=lambda c: dict(final=final_ok(c.this, c.ret), families=counts_ok(c.ret, c.deref(c.this.f['lattice'])))),
]


# ------------------------------------------------------------------ bounds of a shape (P15)
def coord(it, l, p, k):
    return uf(it, 'lattice coordinate %d' % k, z3.RealSort(), [l.vectors] + [at(p, i) for i in range(3)])


def coords(it, l, p, k):
    """coordinate k of a position in units of the lattice vectors"""
    return Ite(l.vectors.n > k, coord(it, l, p, k), z3.RealVal(0))


def vertex(c, q, k):
    return coord(c.it, c.a(1), c.a(0).vertices[q], k)


def bounded(c, lo, hi, k):
    """lo - 1 and hi + 1 bound the coordinates of the first vertices"""
    out = {}
    for d in range(3):
        has = c.a(1).vectors.n > d
        out['lower%d' % d] = Implies(has, forall(0, k, lambda q: z3.ToReal(at(lo, d)) < vertex(c, q, d) + 1))
        out['upper%d' % d] = Implies(has, forall(0, k, lambda q: vertex(c, q, d) < z3.ToReal(at(hi, d)) + 1))
        out['flat%d' % d] = Implies(And(Not(has), k >= 1), And(at(lo, d) == 0, at(hi, d) == 0))
        out['first%d' % d] = Implies(k == 0, And(at(lo, d) == 2**31 - 1, at(hi, d) == -2**31))
        out['range%d' % d] = Implies(k >= 1, And(-2**30 < at(lo, d), at(lo, d) < 2**30, -2**30 < at(hi, d), at(hi, d) < 2**30))
    return out


CONTRACTS += [
    Contract('cpb::Lattice::translate_coordinates', modifies=[], trusted=True, requires=lambda c: lattice_wf(c.this),
             returns=lambda c: mkfix([coords(c.it, c.this, c.a(0), k) for k in range(3)])),
    Contract('cpb::detail::find_bounds', modifies=[],
             requires=lambda c: lattice_wf(c.a(1)) + [c.a(0).vertices.n >= 1, forall(0, c.a(0).vertices.n, lambda q: And([And(vertex(c, q, k) > -2**29, vertex(c, q, k) < 2**29) for k in range(3)]))],
             loops=[lambda c: bounded(c, c['lower_bound'], c['upper_bound'], c.k)],
             ensures=lambda c: dict(
                 **{'above%d' % k: Implies(c.a(1).vectors.n > k, forall(0, c.a(0).vertices.n, lambda q: z3.ToReal(at(c.ret.f['first'], k)) < vertex(c, q, k))) for k in range(3)},
                 **{'below%d' % k: Implies(c.a(1).vectors.n > k, forall(0, c.a(0).vertices.n, lambda q: vertex(c, q, k) < z3.ToReal(at(c.ret.f['second'], k)))) for k in range(3)},
                 flat=And([Implies(c.a(1).vectors.n <= k, And(at(c.ret.f['first'], k) == 0, at(c.ret.f['second'], k) == 0)) for k in range(3)]))),
]


# ------------------------------------------------------------------ neighbours (P03)
def cell_of(f, q):
    x, y, z = dims(f)
    r = q / x
    return (r / y) / z, [q % x, r % y, (r / y) % z]


def outside(f, q):
    """array over the hoppings of the site with flat index q: 1 where the neighbour is outside the box"""
    s, i = cell_of(f, q)
    h = f.unit_cell.sites[s].hoppings

    def g(j):
        out = [Or(i[k] + at(h[j].relative_index, k) < 0, i[k] + at(h[j].relative_index, k) >= dims(f)[k]) for k in range(3)]
        return Ite(Or(out), Int(1), Int(0))
    return arr(None, g), h.n


def neighbours(f, q):
    o, n = outside(f, q)
    return n - PS(o, n)


def iterator(c):
    """the iterator of a range-for over a foundation"""
    fr = c._frame
    best = None
    for nm, did in fr.names.items():
        if nm.startswith('__begin') and did in fr.vars:
            v = c._val(fr.vars[did])
            if isinstance(v, S) and 'flat_idx' in v.f:
                best = v
    if best is None:
        raise SpecMismatch('no iterator over sites')
    return best


def at_site(c, v, f, k):
    """the iterator is at the k-th site, or at the end"""
    i = [at(v.spatial_idx, j) for j in range(3)]
    ok = And([0 <= v.sub_idx, v.sub_idx < f.sub_size] + [And(0 <= i[j], i[j] < dims(f)[j]) for j in range(3)])
    end = And([v.sub_idx == f.sub_size] + [i[j] == 0 for j in range(3)])
    return And(v.flat_idx == k, k <= total(f), v.flat_idx == flat_of(f, v.sub_idx, i), Or(ok, end))


def decode_steps(c, v, f, out):
    """the cell and sublattice of an iterator are those of its flat index"""
    x, y, z = dims(f)
    a, r, l = [at(v.spatial_idx, j) for j in range(3)]
    n, q = v.sub_idx, v.flat_idx
    out['body:range'] = And([0 <= n, n < f.sub_size, q < total(f)])
    for nm, i, d in zip('arl', (a, r, l), (x, y, z)):
        out['body:range_' + nm] = And(0 <= i, i < d)
    out['body:col0'] = And((((n * z + l) * y + r) * x + a) % x == a, (((n * z + l) * y + r) * x + a) / x == (n * z + l) * y + r)
    out['body:row0'] = And(((n * z + l) * y + r) % y == r, ((n * z + l) * y + r) / y == n * z + l)
    out['body:layer0'] = And((n * z + l) % z == l, (n * z + l) / z == n)
    out['body:at'] = q == ((n * z + l) * y + r) * x + a
    out['body:col'] = And(q % x == a, q / x == (n * z + l) * y + r)
    out['body:row'] = And((q / x) % y == r, (q / x) / y == n * z + l)
    out['body:layer'] = And(((q / x) / y) % z == l, ((q / x) / y) / z == n)


def count_sites(c):
    f = c.a(0)
    v = iterator(c)
    out = {'at': at_site(c, v, f, c.k), 'n': c['neighbor_count'].n == total(f),
           'counted': forall(0, c.k, lambda q: c['neighbor_count'][q] == neighbours(f, q))}
    decode_steps(c, v, f, out)
    return out


def count_hops(c):
    f = c.a(0)
    v = iterator(c)
    o, n = outside(f, v.flat_idx)
    return {'count': c['num_neighbors'] == n - PS(o, c.k)}


CONTRACTS += [
    Contract('cpb::detail::count_neighbors', modifies=[],
             requires=lambda c: fwf(c.a(0)) + [total(c.a(0)) < 2**31, c.a(0).unit_cell.sites.n == c.a(0).sub_size],
             loops=[count_sites, count_hops],
             ensures=lambda c: dict(size=c.ret.n == total(c.a(0)), counts=forall(0, total(c.a(0)), lambda q: c.ret[q] == neighbours(c.a(0), q)))),
]

for cst in '10':
    CONTRACTS += [
        Contract(FN + '::Iterator<%s>::operator++' % cst, modifies=['this.flat_idx', 'this.spatial_idx', 'this.sub_idx'],
                 requires=lambda c: fwf(site(c)[2]) + [consistent(c), inside(c)],
                 ensures=lambda c: dict(next=c.this.flat_idx == c.old.this.flat_idx + 1, consistent=consistent(c),
                                        order=Or(c.this.sub_idx == c.old.this.sub_idx, And(c.this.sub_idx == c.old.this.sub_idx + 1, *[at(c.this.spatial_idx, k) == 0 for k in range(3)])),
                                        inside=Or(inside(c), And(c.this.sub_idx == site(c)[2].sub_size, *[at(c.this.spatial_idx, k) == 0 for k in range(3)])))),
        Contract('cpb::SpatialSliceIterator<%s>::operator++' % cst, modifies=['this.flat_idx', 'this.spatial_idx', 'this.sub_idx', 'this.slice_idx'],
                 requires=lambda c: fwf(site(c)[2]) + [in_slice(c)],
                 ensures=lambda c: dict(next=c.this.slice_idx == c.old.this.slice_idx + 1, flat=consistent(c), inside=Or(in_slice(c), slice_end(c)))),
        Contract(FN + '::SpatialSlice<%s>::size' % cst, modifies=[], requires=lambda c: fwf(site2(c)),
                 ensures=lambda c: dict(product=c.ret == width(rng(c, 0)) * width(rng(c, 1)) * width(rng(c, 2)) * site2(c).sub_size)),
        Contract(FN + '::SpatialSlice<%s>::normalize' % cst, modifies=['this.range'], requires=lambda c: fwf(site2(c)),
                 loops=[None],
                 ensures=lambda c: dict(open_end=And([And(rng(c, k).start == rng(c.old, k).start, rng(c, k).end == Ite(rng(c.old, k).end < 0, dims(site2(c))[k], rng(c.old, k).end)) for k in range(3)]))),
    ]
