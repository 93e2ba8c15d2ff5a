"""System: layout of sites on Hamiltonian rows (system/System.*)."""
from .common import *
from .sublattices import ids, nsites, norbs
from .registry import wf as rwf
from .hopping_blocks import wf as hwf, sizes
from dv.lib import SQRT

SY = 'cpb::System'


def cs(v):
    return v.compressed_sublattices


def nruns(v):
    return cs(v).data.n


def ham(v):
    """rows needed by each run"""
    return arr(None, lambda b: nsites(cs(v))[b] * norbs(cs(v))[b])


def ss(v, b):
    """first site of run b"""
    return PS(nsites(cs(v)), b)


def hs(v, b):
    """first Hamiltonian row of run b"""
    return PS(ham(v), b)


def wf(v):
    return [nruns(v) >= 0, forall(0, nruns(v), lambda b: And(nsites(cs(v))[b] >= 0, norbs(cs(v))[b] >= 1)),
            v.positions.x.n == ss(v, nruns(v)), v.positions.y.n == v.positions.x.n, v.positions.z.n == v.positions.x.n]


def hop_wf(v):
    """every block belongs to a registered hopping family"""
    return rwf(v.hopping_registry) + hwf(v.hopping_blocks) + [v.hopping_blocks.blocks.n <= v.hopping_registry.names.n]


def onsite_nnz(v):
    return arr(None, lambda b: nsites(cs(v))[b] * norbs(cs(v))[b] * norbs(cs(v))[b])


def hop_nnz(v):
    e = v.hopping_registry.energies.e
    return arr(None, lambda b: sizes(v.hopping_blocks)[b] * (e.f['rows'][b] * e.f['cols'][b]))


def distinct_ids(v):
    return [forall2(0, nruns(v), lambda i, j: ids(cs(v))[i] != ids(cs(v))[j]),
            forall(0, nruns(v), lambda i: And(0 <= ids(cs(v))[i], ids(cs(v))[i] < v.site_registry.names.n))]


def has_name(v, b, s):
    return v.site_registry.names[ids(cs(v))[b]] == s


def blank(c):
    return c.it.lib.strlit('')


def chosen(c, i):
    """site i belongs to the requested sublattice (any site if none is named)"""
    return Or(c.a(1) == blank(c), exists(0, nruns(c.this), lambda b: And(has_name(c.this, b, c.a(1)), ss(c.this, b) <= i, i < ss(c.this, b + 1))))


def dist(c, i):
    p, t = c.this.positions, c.a(0)
    dx, dy, dz = p.x[i] - t[0], p.y[i] - t[1], p.z[i] - t[2]
    return SQRT(dx * dx + dy * dy + dz * dz)


CONTRACTS = [
    Contract(SY + '::hamiltonian_size', modifies=[], requires=lambda c: wf(c.this),
             loops=[lambda c: dict(sum=c['result'] == hs(c.this, c.k))],
             ensures=lambda c: dict(total=c.ret == hs(c.this, nruns(c.this)))),
    Contract(SY + '::to_hamiltonian_indices', modifies=[], requires=lambda c: wf(c.this),
             throws=lambda c: Or(c.a(0) < 0, c.a(0) >= ss(c.this, nruns(c.this))),
             loops=[lambda c: dict(past=Or(c.a(0) < 0, c.a(0) >= ss(c.this, c.k)), mono=ss(c.this, c.k) >= 0),
                    lambda c: dict(vals=forall(0, c.k, lambda i: c['ret'][i] == c['idx'] + i), n=c['ret'].n == c['norb'])],
             ensures=lambda c: dict(block=exists(0, nruns(c.this), lambda b: And(
                 ss(c.this, b) <= c.a(0), c.a(0) < ss(c.this, b + 1), c.ret.n == norbs(cs(c.this))[b],
                 forall(0, c.ret.n, lambda i: c.ret[i] == hs(c.this, b) + (c.a(0) - ss(c.this, b)) * norbs(cs(c.this))[b] + i))))),
    Contract(SY + '::hamiltonian_nnz', modifies=[], requires=lambda c: wf(c.this) + hop_wf(c.this),
             ensures=lambda c: dict(total=c.ret == PS(onsite_nnz(c.this), nruns(c.this)) + 2 * PS(hop_nnz(c.this), c.this.hopping_blocks.blocks.n))),
    Contract(SY + '::sublattice_range', modifies=[], requires=lambda c: wf(c.this) + rwf(c.this.site_registry) + distinct_ids(c.this),
             throws=lambda c: And(c.a(0) != blank(c), Not(exists(0, nruns(c.this), lambda b: has_name(c.this, b, c.a(0))))),
             ensures=lambda c: dict(
                 valid=And(0 <= c.ret.start, c.ret.start <= c.ret.end, c.ret.end <= c.this.positions.x.n),
                 all=Implies(c.a(0) == blank(c), And(c.ret.start == 0, c.ret.end == c.this.positions.x.n)),
                 run=Implies(c.a(0) != blank(c), exists(0, nruns(c.this), lambda b: And(
                     has_name(c.this, b, c.a(0)), c.ret.start == ss(c.this, b), c.ret.end == ss(c.this, b + 1)))))),
    Contract(SY + '::find_nearest', modifies=[], requires=lambda c: wf(c.this) + rwf(c.this.site_registry) + distinct_ids(c.this),
             throws=lambda c: Or(And(c.a(1) == blank(c), c.this.positions.x.n == 0),
                                 And(c.a(1) != blank(c), Not(exists(0, nruns(c.this), lambda b: And(has_name(c.this, b, c.a(1)), nsites(cs(c.this))[b] > 0))))),
             loops=[lambda c: dict(
                 at=And(c['range'].start <= c['nearest_index'], c['nearest_index'] < c['i'], c['min_distance'] == dist(c, c['nearest_index'])),
                 least=forall(c['range'].start, c['i'], lambda i: c['min_distance'] <= dist(c, i)),
                 first=forall(c['range'].start, c['nearest_index'], lambda i: c['min_distance'] < dist(c, i)))],
             ensures=lambda c: dict(
                 least=forall(0, c.this.positions.x.n, lambda i: Implies(chosen(c, i), dist(c, c.ret) <= dist(c, i))),
                 first=forall(0, c.ret, lambda i: Implies(chosen(c, i), dist(c, c.ret) < dist(c, i))),
                 valid=And(0 <= c.ret, c.ret < c.this.positions.x.n, chosen(c, c.ret)))),
]
