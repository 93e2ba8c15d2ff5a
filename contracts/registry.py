"""Registry: families of sites and hoppings, by name and by consecutive ID (system/Registry.*)."""
from .common import *

RG = 'cpb::Registry'
MAXINT = 2**31 - 1


def wf(v):
    """one energy for every name; names are unique and not blank"""
    n, e = v.names, v.energies
    i, j = qv(), qv()
    return [n.n == e.n, n.n >= 0, n.n <= MAXINT,
            z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < n.n), n[i] != n[j]))]


def blank(c):
    return c.it.lib.strlit('')


def named(v, s):
    return exists(0, v.names.n, lambda i: v.names[i] == s)


def same_energy(a, i, b, j):
    """energies a[i] and b[j] are the same matrix"""
    return z3.And([z3.Select(x, i) == z3.Select(y, j) for (_, x), (_, y) in zip(leaves(a.e), leaves(b.e))])


# what register_family accepts; the two instantiations differ in the energies they take
def acceptable(c, site):
    e = c.a(1)
    if site:
        return onsite_ok(c, e)
    return And(e.rows != 0, e.cols != 0)


def onsite_ok(c, e):
    lib = c.it.lib
    return And(e.rows == e.cols, e.rows != 0, lib.all_tiny(e.rows, lambda i: e.d.im[i][i]),
               Or(lib.upper_triangular(e), hermitian(e)))


def hermitian(e):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i < e.rows, 0 <= j, j < e.cols),
                                     And(e.d.re[i][j] == e.d.re[j][i], e.d.im[i][j] == -e.d.im[j][i])))


def contracts(q, site):
    return [
        Contract(q + '::name', modifies=[], requires=lambda c: wf(c.this),
                 throws=lambda c: Or(c.a(0)._value < 0, c.a(0)._value >= c.this.names.n),
                 returns=lambda c: c.this.names[c.a(0)._value],
                 ensures=lambda c: dict(entry=c.ret == c.this.names[c.a(0)._value])),
        Contract(q + '::energy', modifies=[], requires=lambda c: wf(c.this),
                 throws=lambda c: Or(c.a(0)._value < 0, c.a(0)._value >= c.this.names.n),
                 returns=lambda c: c.this.energies[c.a(0)._value],
                 ensures=lambda c: dict(entry=same(c.ret, c.this.energies[c.a(0)._value]))),
        Contract(q + '::id', modifies=[], requires=lambda c: wf(c.this),
                 throws=lambda c: Not(named(c.this, c.a(0))),
                 ensures=lambda c: dict(inverse=And(0 <= c.ret._value, c.ret._value < c.this.names.n,
                                                    c.this.names[c.ret._value] == c.a(0)))),
        Contract(q + '::register_family', modifies=['this.names', 'this.energies'], throw_modifies=[],
                 requires=lambda c: wf(c.this) + [c.this.names.n < MAXINT],
                 throws=lambda c: Or(c.a(0) == blank(c), named(c.this, c.a(0)), Not(acceptable(c, site))),
                 ensures=lambda c: dict(
                     size=c.this.names.n == c.old.this.names.n + 1,
                     name=c.this.names[c.old.this.names.n] == c.a(0),
                     energy=same(c.this.energies[c.old.this.names.n], c.a(1)),
                     kept=forall(0, c.old.this.names.n, lambda i: And(c.this.names[i] == c.old.this.names[i],
                                                                      same_energy(c.this.energies, i, c.old.this.energies, i))),
                     inv=And(wf(c.this))),
                 ensures_throw=lambda c: dict(unchanged=And(same(c.this.names, c.old.this.names), same(c.this.energies, c.old.this.energies)))),
        Contract(q + '::name_map', modifies=[], requires=lambda c: wf(c.this),
                 loops=[lambda c: dict(n=c['map'].n == c.k,
                                       order=forall(0, c.k, lambda i: And(c['map'][i].first == c.this.names[i], c['map'][i].second == i)))],
                 ensures=lambda c: dict(
                     size=c.ret.n == c.this.names.n,
                     inverse=forall(0, c.this.names.n, lambda i: exists(0, c.ret.n, lambda j: And(c.ret[j].first == c.this.names[i], c.ret[j].second == i))),
                     only=forall(0, c.ret.n, lambda j: And(0 <= c.ret[j].second, c.ret[j].second < c.this.names.n, c.this.names[c.ret[j].second] == c.ret[j].first)))),
        Contract(q + '::has_nonzero_energy', modifies=[], requires=lambda c: wf(c.this),
                 ensures=lambda c: dict(iff=c.ret == exists(0, c.this.energies.n, lambda i: Not(zero_mat(c, c.this.energies[i]))))),
        Contract(q + '::any_complex_terms', modifies=[], requires=lambda c: wf(c.this),
                 ensures=lambda c: dict(iff=c.ret == exists(0, c.this.energies.n, lambda i: Not(real_mat(c, c.this.energies[i]))))),
        Contract(q + '::has_multiple_orbitals', modifies=[], requires=lambda c: wf(c.this),
                 ensures=lambda c: dict(iff=c.ret == exists(0, c.this.energies.n, lambda i: c.this.energies[i].rows * c.this.energies[i].cols != 1))),
    ]


def zero_mat(c, m):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i < m.rows, 0 <= j, j < m.cols), c.it.lib.tiny(sel(sel(m.d, i), j))))


def real_mat(c, m):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i < m.rows, 0 <= j, j < m.cols), c.it.lib.tiny(m.d.im[i][j])))


SITE = RG + '<cpb::detail::OpaqueIntegerAlias<cpb::SiteIDTag>>'
HOP = RG + '<cpb::detail::OpaqueIntegerAlias<cpb::HopIDTag>>'

CONTRACTS = contracts(SITE, True) + contracts(HOP, False) + [
    Contract('cpb::detail::check_onsite_energy', modifies=[], requires=lambda c: [c.a(0).rows >= 0, c.a(0).cols >= 0],
             throws=lambda c: Not(onsite_ok(c, c.a(0)))),
    Contract('cpb::detail::check_hopping_energy', modifies=[], requires=lambda c: [c.a(0).rows >= 0, c.a(0).cols >= 0],
             throws=lambda c: Or(c.a(0).rows == 0, c.a(0).cols == 0)),
    Contract('cpb::detail::canonical_hopping_energy', modifies=[], select=lambda d: 'complex' in d['type']['qualType'].split('(')[1],
             ensures=lambda c: dict(one=And(c.ret.rows == 1, c.ret.cols == 1, c.ret.d.re[0][0] == c.a(0).re, c.ret.d.im[0][0] == c.a(0).im))),
    Contract('cpb::detail::canonical_onsite_energy', modifies=[], select=lambda d: 'complex' in d['type']['qualType'].split('(')[1], name='cpb::detail::canonical_onsite_energy(scalar)',
             ensures=lambda c: dict(one=And(c.ret.rows == 1, c.ret.cols == 1, c.ret.d.re[0][0] == c.a(0).re, c.ret.d.im[0][0] == c.a(0).im))),
    Contract('cpb::detail::canonical_onsite_energy', modifies=[], select=lambda d: 'Vector' in d['type']['qualType'].split('(')[1], name='cpb::detail::canonical_onsite_energy(vector)',
             requires=lambda c: [c.a(0).n >= 0],
             ensures=lambda c: dict(shape=And(c.ret.rows == c.a(0).n, c.ret.cols == c.a(0).n),
                                    diag=forall(0, c.a(0).n, lambda i: And(c.ret.d.re[i][i] == c.a(0)[i], c.ret.d.im[i][i] == 0)),
                                    off=off_zero(c.ret))),
]


def off_zero(m):
    i, j = qv(), qv()
    return z3.ForAll([i, j], Implies(And(0 <= i, i < m.rows, 0 <= j, j < m.cols, i != j), And(m.d.re[i][j] == 0, m.d.im[i][j] == 0)))
