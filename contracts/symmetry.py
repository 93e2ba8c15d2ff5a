"""Translational symmetry (system/Symmetry.*) and the transfer of sites and bonds into the system."""
from .common import *
from dv.lib import SQRT
from .foundation import FN, dims, fwf, total, flat_of, cell_of, at_site, iterator, decode_steps, lattice_wf, site, consistent, inside
from .foundation import CONTRACTS as FOUNDATION, valid, final_ok, counts_ok
from .hopping_blocks import rows, cols, sizes, wf as hwf
from .sublattices import nsites, wf as cwf
from .registry import wf as rwf
from .lattice import general

TS = 'cpb::TranslationalSymmetry'


def between(a, i):
    return And([And(at(a.left, k) <= i[k], i[k] <= at(a.right, k)) for k in range(3)])


def period(c, l, k):
    """number of cells in one period along direction k: the requested length rounded to whole cells, at least one"""
    v = [at(l.vectors[k], d) for d in range(3)]
    x = at(c.this.length, k) / SQRT(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    h = z3.Q(1, 2)
    n = Ite(x >= 0, z3.ToInt(x + h), -z3.ToInt(h - x))
    return Ite(n > 0, n, Int(1))


def area_of(c, a, n, f, l):
    """the cell in the middle of the box along the enabled directions below n, the whole box along the others"""
    out = {}
    for k in range(3):
        on = And(at(c.this.enabled_directions, k), k < n, k < l.vectors.n)
        size, m = at(f.spatial_size, k), at(a.middle, k)
        half = Ite(size - m >= 0, (size - m) / 2, -((m - size) / 2))
        out['cell%d' % k] = Implies(on, And(m >= 1, m == period(c, l, k), at(a.left, k) == half, at(a.right, k) == half + m - 1))
        out['box%d' % k] = Implies(Not(on), And(at(a.left, k) == 0, at(a.right, k) == size - 1, m == 0))
    return out


CONTRACTS = [k for k in FOUNDATION if 'operator++' in k.name] + [
    Contract('cpb::SymmetryArea::contains', modifies=[], ensures=lambda c: dict(box=c.ret == between(c.this, [at(c.a(0), k) for k in range(3)]))),
    Contract(TS + '::TranslationalSymmetry', select=lambda d: len([x for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl']) == 3, modifies=['this'],
             ensures=lambda c: dict(on=And([at(c.this.enabled_directions, k) == (c.a(k) >= 0) for k in range(3)]), length=And([at(c.this.length, k) == c.a(k) for k in range(3)]))),
    Contract(TS + '::area', modifies=[], requires=lambda c: fwf(c.a(0)) + lattice_wf(c.deref(c.a(0).f['lattice'])),
             loops=[lambda c: area_of(c, c['a'], c.k, c.a(0), c.deref(c.a(0).f['lattice']))],
             ensures=lambda c: area_of(c, c.ret, 3, c.a(0), c.deref(c.a(0).f['lattice']))),
]


# ------------------------------------------------------------------ apply: only the sites of the period survive
def own(c):
    """the foundation under modification, before and now"""
    return c.a(0), c.old.a(0)


def cell_inside(a, f, q):
    return between(a, cell_of(f, q)[1])


def trimmed(c, a, n):
    f, o = own(c)
    return And(f.is_valid.n == o.is_valid.n, forall(0, n, lambda q: f.is_valid[q] == And(o.is_valid[q], cell_inside(a, f, q))))


def apply_loop(c):
    f, o = own(c)
    v = iterator(c)
    out = {'at': at_site(c, v, f, c.k)}
    if c.prev is not None:
        out['step:last'] = f.is_valid[c.k - 1] == And(o.is_valid[c.k - 1], cell_inside(c['symmetry_area'], f, c.k - 1))
    out['trimmed'] = trimmed(c, c['symmetry_area'], c.k)
    out['rest'] = forall(c.k, total(f), lambda q: f.is_valid[q] == o.is_valid[q])
    decode_steps(c, v, f, out)
    out['body:inside'] = cell_inside(c['symmetry_area'], f, v.flat_idx) == between(c['symmetry_area'], [at(v.spatial_idx, k) for k in range(3)])
    return out


CONTRACTS += [
    Contract(TS + '::apply', modifies=['arg0.is_valid'],
             requires=lambda c: fwf(c.a(0)) + lattice_wf(c.deref(c.a(0).f['lattice'])) + [total(c.a(0)) < 2**31, c.a(0).is_valid.n == total(c.a(0))],
             loops=[apply_loop],
             ensures=lambda c: dict(trimmed=trimmed(c, c['symmetry_area'], total(c.a(0))))),
    Contract('cpb::detail::make_masks', modifies=[], loops=[None, lambda c: mask1(c), lambda c: mask2(c), lambda c: mask3(c)]),
]
CONTRACTS.pop()


# ------------------------------------------------------------------ populate_system: one bond per hopping between valid sites
FAM = z3.Int('any hopping family')      # the bonds of an arbitrary family


def target(f, h, i):
    """cell and flat index of the site at the other end of hopping h from a site in cell i"""
    t = [i[k] + at(h.relative_index, k) for k in range(3)]
    return t, flat_of(f, h.to_sub_idx, t)


def place(f, q):
    """sublattice and cell of site q, as entries of tables over the sites"""
    tab = lambda g: arr(None, lambda j: g(cell_of(f, j)))[q]
    return tab(lambda c: c[0]), [tab(lambda c, k=k: c[1][k]) for k in range(3)]


def ends(f, s, i):
    """array over the hoppings of a site: flat index of the other end"""
    return general(lambda a, b, c, d: arr(None, lambda j: target(f, f.unit_cell.sites[a].hoppings[j], [b, c, d])[1]), s, *i)


def in_cells(f, t):
    return And([And(0 <= t[k], t[k] < dims(f)[k]) for k in range(3)])


def bond(f, s, i, j):
    """hopping j of the site is stored: forward, in the family, and it leads to a valid site within the box"""
    h = f.unit_cell.sites[s].hoppings[j]
    t, p = target(f, h, i)[0], ends(f, s, i)[j]
    return And(Not(h.is_conjugate), f.is_valid[p], in_cells(f, t), h.family_id._value == FAM)


def in_fam(f, s, i):
    """array over the hoppings of a site: 1 where a bond of the family starts"""
    return general(lambda a, b, c, d: arr(None, lambda j: Ite(bond(f, a, [b, c, d], j), Int(1), Int(0))), s, *i)


def number_of_hops(f, s):
    return f.unit_cell.sites[s].hoppings.n


def per_site(f):
    """array over sites: how many bonds of the family start there"""
    def g(q):
        s, i = place(f, q)
        return Ite(f.is_valid[q], PS(in_fam(f, s, i), number_of_hops(f, s)), Int(0))
    return arr(None, g)


def number(f, q):
    return PS(valid(f), q)


def unit_ok(f, nb):
    """the hoppings of the unit cell lead to existing sublattices, in known families"""
    a, b = qv(), qv()
    h = f.unit_cell.sites[a].hoppings
    return [f.unit_cell.sites.n == f.sub_size,
            forall(0, f.sub_size, lambda a: f.unit_cell.sites[a].hoppings.n >= 0),
            z3.ForAll([a, b], Implies(And(0 <= a, a < f.sub_size, 0 <= b, b < h.n), And(0 <= h[b].to_sub_idx, h[b].to_sub_idx < f.sub_size, 0 <= h[b].family_id._value, h[b].family_id._value < nb)))]


def stored(hb, f, q, s, i, j):
    """the bond of hopping j of site q is in its place"""
    p = PS(per_site(f), q) + PS(in_fam(f, s, i), j)
    t = ends(f, s, i)[j]
    return And(0 <= p, p < sizes(hb)[FAM], rows(hb)[FAM][p] == number(f, q), cols(hb)[FAM][p] == number(f, t))


def all_stored(hb, f, n, only=None):
    a, b = qv(), qv()
    s, i = place(f, a)
    return z3.ForAll([a, b], Implies(And(And(0 <= a, a < n) if only is None else a == only, 0 <= b, b < number_of_hops(f, s), f.is_valid[a], bond(f, s, i, b)), stored(hb, f, a, s, i, b)))


def known(hb):
    return And(0 <= FAM, FAM < hb.blocks.n)


def blocks_ok(c):
    s, f = c.a(0), c.a(1)
    hb = s.hopping_blocks
    return And([hb.blocks.n == s.hopping_registry.names.n, hb.num_sites == number(f, total(f))] + hwf(hb))


def pop_sites(c):
    s, f = c.a(0), c.a(1)
    v = iterator(c)
    hb = s.hopping_blocks
    out = {}
    if c.prev is not None:
        w = iterator(c.prev)
        wi = [at(w.spatial_idx, j) for j in range(3)]
        cs, ci = place(f, z3.simplify(c.k - 1))
        out['step:cell'] = And(cs == w.sub_idx, *[ci[j] == wi[j] for j in range(3)])
        cs, ci = place(f, z3.simplify(c.k - 1))
        out['step:last2'] = Implies(known(hb), forall(0, number_of_hops(f, cs), lambda j: Implies(And(f.is_valid[c.k - 1], bond(f, cs, ci, j)), stored(hb, f, z3.simplify(c.k - 1), cs, ci, j))))
        out['step:before'] = Implies(known(hb), all_stored(hb, f, c.k - 1))
        out['step:one'] = Implies(known(hb), all_stored(hb, f, c.k, only=z3.simplify(c.k - 1)))
        d, e = s.compressed_sublattices, c.prev.a(0).compressed_sublattices
        out['step:run'] = And(d.data.n >= 0, Implies(d.data.n > 0, nsites(d)[d.data.n - 1] >= 0), forall(0, d.data.n - 1, lambda i: nsites(d)[i] == nsites(e)[i]), d.data.n <= e.data.n + 1)
    out.update({'at': at_site(c, v, f, c.k), 'blocks': blocks_ok(c)})
    out.update({
           'sizes': And([getattr(s.positions, d).n == number(f, total(f)) for d in 'xyz'])})
    out['positions'] = forall(0, c.k, lambda q: Implies(f.is_valid[q], And([getattr(s.positions, d)[number(f, q)] == getattr(f.positions, d)[q] for d in 'xyz'])))
    out['runs'] = And(cwf(s.compressed_sublattices) + [PS(nsites(s.compressed_sublattices), s.compressed_sublattices.data.n) == number(f, c.k)])
    out['count'] = Implies(known(hb), sizes(hb)[FAM] == PS(per_site(f), c.k))
    out['bonds'] = Implies(known(hb), all_stored(hb, f, c.k))
    decode_steps(c, v, f, out)
    q, i = c.k, [at(v.spatial_idx, j) for j in range(3)]
    cs, ci = cell_of(f, v.flat_idx)
    out['body:cell0'] = And(cs == v.sub_idx, *[ci[j] == i[j] for j in range(3)])
    cs, ci = place(f, q)
    out['body:cell'] = And(cs == v.sub_idx, *[ci[j] == i[j] for j in range(3)])
    out['body:number'] = Implies(f.is_valid[q], And(0 <= number(f, q), number(f, q) < number(f, total(f)), number(f, q + 1) == number(f, q) + 1))
    out['body:index'] = c['finalized_indices'].indices[q] == Ite(f.is_valid[q], number(f, q), Int(-1))
    out['body:bonds'] = per_site(f)[q] == Ite(f.is_valid[q], PS(in_fam(f, cs, ci), number_of_hops(f, cs)), Int(0))
    return out


def pop_hops(c):
    s, f = c.a(0), c.a(1)
    v = iterator(c.top)
    q = c.ks[0]
    hb = s.hopping_blocks
    x, y, z = dims(f)
    h = f.unit_cell.sites[v.sub_idx].hoppings[c.k]
    t, p = target(f, h, [at(v.spatial_idx, j) for j in range(3)])
    n, i = place(f, q)
    layers, u = f.sub_size * z, h.to_sub_idx * z + t[2]
    box = in_cells(f, t)
    steps = {}
    if c.prev is not None:
        o = c.prev.a(0).hopping_blocks
        a, e = qv(), qv()
        steps['step:size'] = forall(0, hb.blocks.n, lambda b: And(sizes(o)[b] >= 0, Or(sizes(hb)[b] == sizes(o)[b], sizes(hb)[b] == sizes(o)[b] + 1)))
        new = And(0 <= rows(hb)[a][e], rows(hb)[a][e] < hb.num_sites, 0 <= cols(hb)[a][e], cols(hb)[a][e] < hb.num_sites)
        steps['step:each'] = z3.ForAll([a, e], Implies(And(0 <= a, a < hb.blocks.n, 0 <= e, e < sizes(hb)[a]), Or(
            And(e < sizes(o)[a], rows(hb)[a][e] == rows(o)[a][e], cols(hb)[a][e] == cols(o)[a][e]), And(e == sizes(o)[a], new))))
        steps['step:here'] = Implies(And(known(hb), bond(f, n, i, z3.simplify(c.k - 1))), stored(hb, f, q, n, i, z3.simplify(c.k - 1)))
    return {**steps, 'blocks': blocks_ok(c),
            'count': Implies(known(hb), sizes(hb)[FAM] == PS(per_site(f), q) + PS(in_fam(f, n, i), c.k)),
            'before': Implies(known(hb), all_stored(hb, f, q)),
            'here': Implies(known(hb), forall(0, c.k, lambda j: Implies(bond(f, n, i, j), stored(hb, f, q, n, i, j)))),
            'body:to': And(0 <= h.to_sub_idx, h.to_sub_idx < f.sub_size, 0 <= h.family_id._value, h.family_id._value < hb.blocks.n),
            'body:layer': Implies(box, And(0 <= u, u + 1 <= layers)),
            'body:row': Implies(And(box, 0 <= u, u + 1 <= layers), And(0 <= u * y + t[1], u * y + t[1] + 1 <= layers * y)),
            'body:col': Implies(And(box, 0 <= u * y + t[1], u * y + t[1] + 1 <= layers * y), And(0 <= (u * y + t[1]) * x + t[0], (u * y + t[1]) * x + t[0] + 1 <= layers * y * x)),
            'body:flat': Implies(box, And(0 <= p, p < total(f))),
            'body:end': ends(f, n, i)[c.k] == p,
            'body:index': Implies(box, c.top['finalized_indices'].indices[p] == Ite(f.is_valid[p], number(f, p), Int(-1))),
            'body:number': Implies(And(box, f.is_valid[p]), And(0 <= number(f, p), number(f, p) < number(f, total(f))))}


CONTRACTS += [k for k in FOUNDATION if 'get_finalized' in k.name]
CONTRACTS += [
    Contract('cpb::detail::populate_system', heavy=7, modifies=['arg0.positions', 'arg0.hopping_blocks', 'arg0.compressed_sublattices', 'arg1.finalized_indices'], throws=MAY,
             requires=lambda c: fwf(c.a(1)) + lattice_wf(c.deref(c.a(1).f['lattice'])) + rwf(c.a(0).hopping_registry) + unit_ok(c.a(1), c.a(0).hopping_registry.names.n) + [
                 total(c.a(1)) < 2**31, c.a(1).is_valid.n == total(c.a(1)), c.a(0).compressed_sublattices.data.n == 0, c.deref(c.a(1).f['lattice']).hoppings.n == c.a(0).hopping_registry.names.n,
                 *[getattr(c.a(1).positions, d).n == total(c.a(1)) for d in 'xyz'],
                 Implies(c.a(1).finalized_indices.total_valid_sites != 0, And(final_ok(c.a(1), c.a(1).finalized_indices), counts_ok(c.a(1).finalized_indices, c.deref(c.a(1).f['lattice']))))],
             loops=[pop_sites, pop_hops],
             ensures=lambda c: dict(
                 count=Implies(And(0 <= FAM, FAM < c.a(0).hopping_registry.names.n), sizes(c.a(0).hopping_blocks)[FAM] == PS(per_site(c.a(1)), total(c.a(1)))),
                 bonds=Implies(And(0 <= FAM, FAM < c.a(0).hopping_registry.names.n), all_stored(c.a(0).hopping_blocks, c.a(1), total(c.a(1)))),
                 positions=forall(0, total(c.a(1)), lambda q: Implies(c.a(1).is_valid[q], And([getattr(c.a(0).positions, d)[number(c.a(1), q)] == getattr(c.a(1).positions, d)[q] for d in 'xyz']))))),
]
