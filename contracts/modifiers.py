"""Structure modifiers (system/StructureModifiers.*) and the removal of invalid sites (system/System.cpp)."""
from .common import *
from . import registry, sublattices as sl, hopping_blocks as hb, helpers
from .hopping_blocks import rows, cols, sizes
from .sublattices import ids, nsites, norbs
from .system import cs, nruns, ss

RW = registry.wf


def sites_wf(v):
    return [nruns(v) >= 0, forall(0, nruns(v), lambda b: And(nsites(cs(v))[b] >= 0, norbs(cs(v))[b] >= 1)),
            v.positions.x.n == ss(v, nruns(v)), v.positions.y.n == v.positions.x.n, v.positions.z.n == v.positions.x.n, v.positions.x.n < 2**31]


def bound(v, b):
    """blocks of boundary b"""
    return v.boundaries[b].hopping_blocks


def bonds_wf(v):
    return hb.wf(v.hopping_blocks) + [v.hopping_blocks.num_sites == v.positions.x.n, v.boundaries.n >= 0] + [
        forall(0, v.boundaries.n, lambda b: And(*(hb.wf(bound(v, b)) + [bound(v, b).num_sites == v.positions.x.n])))]


def flags_wf(v):
    return [Or(v.is_valid.n == 0, v.is_valid.n == v.positions.x.n)]


def wf(v):
    return sites_wf(v) + bonds_wf(v) + flags_wf(v) + RW(v.site_registry) + RW(v.hopping_registry)


SY = ['positions', 'compressed_sublattices', 'hopping_blocks', 'boundaries', 'is_valid', 'site_registry', 'hopping_registry']


def keepers(o):
    return arr(None, lambda i: Ite(o.is_valid[i], Int(1), Int(0)))


def block_filtered(n, o, valid, b):
    """block b of n: the renumbered bonds of o whose two ends stay"""
    kp = arr(None, lambda i: Ite(And(valid[rows(o)[b][i]], valid[cols(o)[b][i]]), Int(1), Int(0)))
    nw = arr(None, lambda i: Ite(valid[i], Int(1), Int(0)))
    return And(sizes(n)[b] == PS(kp, sizes(o)[b]),
               forall(0, sizes(o)[b], lambda i: Implies(kp[i] == 1, And(rows(n)[b][PS(kp, i)] == PS(nw, rows(o)[b][i]), cols(n)[b][PS(kp, i)] == PS(nw, cols(o)[b][i])))))


def blocks_filtered(n, o, valid, cnt):
    return And(n.num_sites == cnt, n.blocks.n == o.blocks.n, hb.within(n, n.blocks.n), forall(0, n.blocks.n, lambda b: And(block_filtered(n, o, valid, b), only_old(n, o, valid, b))))


def only_old(n, o, valid, b):
    return forall(0, sizes(n)[b], lambda j: was(rows(n)[b][j], cols(n)[b][j], o, valid, b))


def was(r, k, o, valid, b):
    """(r, k) is a bond of block b of o between sites which stay"""
    nw = arr(None, lambda i: Ite(valid[i], Int(1), Int(0)))
    return exists(0, sizes(o)[b], lambda i: And(valid[rows(o)[b][i]], valid[cols(o)[b][i]], r == PS(nw, rows(o)[b][i]), k == PS(nw, cols(o)[b][i])))


def compacted(s, o):
    """s is o without the sites which are not valid"""
    kp = keepers(o)
    n = o.positions.x.n
    cnt = PS(kp, n)
    return dict(
        size=And([getattr(s.positions, k).n == cnt for k in 'xyz']),
        positions=And([forall(0, n, lambda i, k=k: Implies(o.is_valid[i], getattr(s.positions, k)[PS(kp, i)] == getattr(o.positions, k)[i])) for k in 'xyz']),
        runs=And(nruns(s) == nruns(o), forall(0, nruns(o), lambda b: And(ids(cs(s))[b] == ids(cs(o))[b], norbs(cs(s))[b] == norbs(cs(o))[b],
                                                                       nsites(cs(s))[b] == PS(kp, ss(o, b + 1)) - PS(kp, ss(o, b))))),
        bonds=blocks_filtered(s.hopping_blocks, o.hopping_blocks, o.is_valid, cnt),
        boundaries=And(s.boundaries.n == o.boundaries.n, forall(0, o.boundaries.n, lambda b: And(
            blocks_filtered(bound(s, b), bound(o, b), o.is_valid, cnt), vec_same(s.boundaries[b].shift, o.boundaries[b].shift)))))


def vec_same(a, b):
    return And([x == y for x, y in zip(fvals(a), fvals(b))])


def sys_same(a, b, names):
    return And([same(a.f[k], b.f[k]) for k in names])


def remove_invalid():
    def ensures(c):
        s, o = c.a(0), c.old.a(0)
        d = {k: Implies(o.is_valid.n != 0, f) for k, f in compacted(s, o).items()}
        d['total'] = s.positions.x.n == ss(s, nruns(s))
        d['none_invalid'] = s.is_valid.n == 0
        d['nothing_to_do'] = Implies(o.is_valid.n == 0, sys_same(s, o, SY))
        return d

    def loop(c):
        s, o = c.a(0), c.old.a(0)
        cnt = PS(keepers(o), o.positions.x.n)
        return dict(n=s.boundaries.n == o.boundaries.n, done=forall(0, c.k, lambda b: And(blocks_filtered(bound(s, b), bound(o, b), o.is_valid, cnt), vec_same(s.boundaries[b].shift, o.boundaries[b].shift))),
                    rest=forall(c.k, o.boundaries.n, lambda b: And([x == y for x, y in zip([x for _, x in leaves(s.boundaries[b])], [x for _, x in leaves(o.boundaries[b])])])))
    return Contract('cpb::detail::remove_invalid', modifies=['arg0.positions', 'arg0.compressed_sublattices', 'arg0.hopping_blocks', 'arg0.boundaries', 'arg0.is_valid'],
                    requires=lambda c: wf(c.a(0)), ensures=ensures, loops=[loop])


MINE = [remove_invalid()]
CONTRACTS = MINE


# --- generators ---------------------------------------------------------------------------------------------------------
def ret(c):
    """what the user's function returned"""
    return c.it.roots['@ret']


def families(s):
    """every bond block belongs to a registered family, every run of sites too"""
    return [s.hopping_blocks.blocks.n == s.hopping_registry.names.n, forall(0, s.boundaries.n, lambda b: bound(s, b).blocks.n <= s.hopping_registry.names.n)]


def gen_sites():
    def requires(c):
        return wf(c.a(1)) + [c.a(0).energy.rows >= 1, c.a(0).energy.cols == c.a(0).energy.rows]

    def returned(c, f, v, *a):
        return [v.x.n >= 0, v.y.n == v.x.n, v.z.n == v.x.n, v.x.n < 2**31]

    def ensures(c):
        s, o = c.a(1), c.old.a(1)
        r = ret(c)
        last = nruns(s) - 1
        return dict(
            size=And([getattr(s.positions, k).n == num(o) + r.x.n for k in 'xyz']),
            new=And([forall(0, r.x.n, lambda i, k=k: getattr(s.positions, k)[num(o) + i] == getattr(r, k)[i]) for k in 'xyz']),
            kept=kept_sites(s, o),
            family=And(last >= 0, 0 <= ids(cs(s))[last], ids(cs(s))[last] < s.site_registry.names.n, s.site_registry.names[ids(cs(s))[last]] == c.a(0).name),
            orbitals=Or(norbs(cs(s))[last] == c.a(0).energy.rows, nruns(s) == nruns(o)),
            runs=And(Or(nruns(s) == nruns(o) + 1, And(nruns(s) == nruns(o), ids(cs(s))[last] == ids(cs(o))[last])),
                     forall(0, nruns(o), lambda b: And(ids(cs(s))[b] == ids(cs(o))[b], norbs(cs(s))[b] == norbs(cs(o))[b],
                                                       nsites(cs(s))[b] == run_size(o, b) + Ite(b == last, r.x.n, Int(0))))),
            extra=Implies(nruns(s) == nruns(o) + 1, nsites(cs(s))[last] == r.x.n),
            total=s.positions.x.n == ss(s, nruns(s)),
            bonds=And(s.hopping_blocks.num_sites == s.positions.x.n, kept_bonds(s.hopping_blocks, o.hopping_blocks, o)),
            boundaries=And(s.boundaries.n == o.boundaries.n, forall(0, o.boundaries.n, lambda b: And(
                bound(s, b).num_sites == s.positions.x.n, kept_bonds(bound(s, b), bound(o, b), o), vec_same(s.boundaries[b].shift, o.boundaries[b].shift)))),
            valid=s.is_valid.n == 0)

    def loop(c):
        s, o = c.a(1), c.old.a(1)
        return dict(n=s.boundaries.n == o.boundaries.n, done=forall(0, c.k, lambda b: bound(s, b).num_sites == s.hopping_blocks.num_sites),
                    others=forall(0, o.boundaries.n, lambda b: And(kept_bonds(bound(s, b), bound(o, b), o), vec_same(s.boundaries[b].shift, o.boundaries[b].shift))),
                    rest=forall(c.k, o.boundaries.n, lambda b: bound(s, b).num_sites == num(o)))
    return Contract('cpb::apply', select=on('SiteGenerator', 'System'), name='cpb::apply(SiteGenerator, System)',
                    modifies=['arg1.positions', 'arg1.compressed_sublattices', 'arg1.hopping_blocks', 'arg1.boundaries', 'arg1.is_valid'],
                    requires=requires, throws=lambda c: Not(registry.named(c.a(1).site_registry, c.a(0).name)), returned=returned, ensures=ensures,
                    external=lambda c, f, s: shown(c, f, s), loops=[loop])


def on(*words):
    return lambda d: all(w in d['type']['qualType'] for w in words)


def shown(c, f, s):
    """a generator sees the system without invalid sites"""
    o = c.old.a(1)
    return dict(which=same(f, c.a(0).make), none_invalid=s.is_valid.n == 0, sites=kept_sites(s, o), size=s.positions.x.n == num(o), bonds=kept_bonds(s.hopping_blocks, o.hopping_blocks, o))


def run_size(o, b):
    kp = keepers(o)
    return Ite(o.is_valid.n == 0, nsites(cs(o))[b], PS(kp, ss(o, b + 1)) - PS(kp, ss(o, b)))


def kept_sites(s, o):
    kp = keepers(o)
    return And([forall(0, o.positions.x.n, lambda i, k=k: And(Implies(o.is_valid.n == 0, getattr(s.positions, k)[i] == getattr(o.positions, k)[i]),
                                                              Implies(And(o.is_valid.n != 0, o.is_valid[i]), getattr(s.positions, k)[PS(kp, i)] == getattr(o.positions, k)[i]))) for k in 'xyz'])


def kept_bonds(n, o, s):
    """the bonds between sites which stay, renumbered, in the same order, and no others"""
    return And(n.blocks.n == o.blocks.n, forall(0, o.blocks.n, lambda b: And(
        Implies(s.is_valid.n != 0, block_filtered(n, o, s.is_valid, b)),
        Implies(s.is_valid.n == 0, And(sizes(n)[b] == sizes(o)[b], forall(0, sizes(o)[b], lambda i: And(rows(n)[b][i] == rows(o)[b][i], cols(n)[b][i] == cols(o)[b][i])))))))


def num(o):
    """sites which stay"""
    return Ite(o.is_valid.n == 0, o.positions.x.n, PS(keepers(o), o.positions.x.n))


MINE += [gen_sites()]


def gen_bonds():
    def result(c):
        r = ret(c)
        return r.f['from'], r.to

    def bad(c):
        f, t = result(c)
        return Or(f.n != t.n, *[exists(0, a.n, lambda i, a=a: Or(a[i] < 0, a[i] >= num(c.old.a(1)))) for a in (f, t)])

    def fam(c):
        """the family of the generated bonds"""
        s = c.a(1)
        return lambda b: s.hopping_registry.names[b] == c.a(0).name

    def link(r, k, f, t):
        return And(r == Ite(f > t, t, f), k == Ite(f > t, f, t))

    def ensures(c):
        s, o = c.a(1), c.old.a(1)
        f, t = result(c)
        n, h = s.hopping_blocks, o.hopping_blocks
        named_ = fam(c)
        return dict(
            accepted=Not(bad(c)),
            sites=And(num(o) == s.positions.x.n, kept_sites(s, o)),
            others=forall(0, n.blocks.n, lambda b: Implies(Not(named_(b)), block_kept(n, h, o, b))),
            stored=forall(0, n.blocks.n, lambda b: Implies(named_(b), And(
                forall(0, f.n, lambda i: exists(0, sizes(n)[b], lambda j: link(rows(n)[b][j], cols(n)[b][j], f[i], t[i]))),
                forall2(0, sizes(n)[b], lambda i, j: Or(rows(n)[b][i] < rows(n)[b][j], And(rows(n)[b][i] == rows(n)[b][j], cols(n)[b][i] < cols(n)[b][j])))))),
            nothing_else=forall(0, n.blocks.n, lambda b: Implies(named_(b), forall(0, sizes(n)[b], lambda j: Or(
                exists(0, f.n, lambda i: link(rows(n)[b][j], cols(n)[b][j], f[i], t[i])),
                And(o.is_valid.n == 0, exists(0, sizes(h)[b], lambda i: And(rows(n)[b][j] == rows(h)[b][i], cols(n)[b][j] == cols(h)[b][i]))),
                And(o.is_valid.n != 0, was(rows(n)[b][j], cols(n)[b][j], h, o.is_valid, b)))))),
            count=And(n.num_sites == s.positions.x.n, n.blocks.n == h.blocks.n),
            boundaries=And(s.boundaries.n == o.boundaries.n, forall(0, o.boundaries.n, lambda b: And(kept_bonds(bound(s, b), bound(o, b), o), vec_same(s.boundaries[b].shift, o.boundaries[b].shift)))),
            valid=s.is_valid.n == 0)
    return Contract('cpb::apply', select=on('HoppingGenerator', 'System'), name='cpb::apply(HoppingGenerator, System)',
                    modifies=['arg1.positions', 'arg1.compressed_sublattices', 'arg1.hopping_blocks', 'arg1.boundaries', 'arg1.is_valid'],
                    requires=lambda c: wf(c.a(1)) + [c.a(1).hopping_blocks.blocks.n == c.a(1).hopping_registry.names.n],
                    throws=lambda c: Or(Not(registry.named(c.a(1).hopping_registry, c.a(0).name)), bad(c)), ensures=ensures,
                    returned=lambda c, f, v, *a: [v.f['from'].n >= 0, v.to.n >= 0],
                    external=lambda c, f, s: shown(c, f, s))


def block_kept(n, o, s, b):
    return And(Implies(s.is_valid.n != 0, block_filtered(n, o, s.is_valid, b)),
               Implies(s.is_valid.n == 0, And(sizes(n)[b] == sizes(o)[b], forall(0, sizes(o)[b], lambda i: And(rows(n)[b][i] == rows(o)[b][i], cols(n)[b][i] == cols(o)[b][i])))))


MINE += [gen_bonds()]


# --- states and positions -----------------------------------------------------------------------------------------------
from dv.lib import ext_result


def ids_ok(s):
    return [forall(0, nruns(s), lambda b: And(0 <= ids(cs(s))[b], ids(cs(s))[b] < s.site_registry.names.n))]


def part(view, whole, lo, n):
    """view is the part of whole which starts at lo and has n elements"""
    return And(view.n == n, forall(0, n, lambda i: view[i] == whole[lo + i]))


def xyz(v):
    return [getattr(v, k + '_ref') for k in 'xyz']


def pos(v):
    return [getattr(v, k) for k in 'xyz']


def state_system():
    def loop(c):
        s, o = c.a(1), c.old.a(1)
        new = ext_result(0, z3.BoolSort(), Int(0)).sort()
        return dict(upto=upto(o, c.k), n=s.is_valid.n == num_all(o), done=forall(0, c.k, lambda b: forall(ss(o, b), ss(o, b + 1), lambda i: s.is_valid[i] == ext_result(0, z3.BoolSort(), b)[i - ss(o, b)])),
                    rest=forall(ss(o, c.k), num_all(o), lambda i: s.is_valid[i] == Or(o.is_valid.n == 0, o.is_valid[i])), calls=c.it.roots['@ext'].n == c.k)

    def external(c, f, st, p, name):
        s, o, b = c.a(1), c.old.a(1), c.ks[0]
        lo, n = ss(o, b), nsites(cs(o))[b]
        return dict(which=same(f, c.a(0).apply), states=And(st.n == n, forall(0, n, lambda i: st[i] == Or(o.is_valid.n == 0, o.is_valid[lo + i]))),
                    positions=And([part(x, y, lo, n) for x, y in zip(xyz(p), pos(o.positions))]), family=name == o.site_registry.names[ids(cs(o))[b]])

    def ensures(c):
        s, o = c.a(1), c.old.a(1)
        return dict(size=s.is_valid.n == num_all(o), decided=forall(0, nruns(o), lambda b: forall(ss(o, b), ss(o, b + 1), lambda i: s.is_valid[i] == ext_result(0, z3.BoolSort(), b)[i - ss(o, b)])),
                    all_asked=c.it.roots['@ext'].n == nruns(o))
    return Contract('cpb::apply', select=on('SiteStateModifier', 'System'), name='cpb::apply(SiteStateModifier, System)', modifies=['arg1.is_valid'], throw_modifies=['arg1.is_valid'],
                    requires=lambda c: wf(c.a(1)) + ids_ok(c.a(1)), throws=lambda c: c.a(0).min_neighbors > 0, loops=[loop], external=external, ensures=ensures)


def upto(o, k):
    return forall(0, k, lambda b: ss(o, b + 1) <= ss(o, k))


def num_all(o):
    return o.positions.x.n


def position_system():
    def moved(s, o, b):
        return forall(ss(o, b), ss(o, b + 1), lambda i: And([x[i] == ext_result(j, z3.RealSort(), b)[i - ss(o, b)] for j, x in enumerate(pos(s.positions))]))

    def loop(c):
        s, o = c.a(1), c.old.a(1)
        st = {} if c.prev is None else {'step:last': moved(s, o, c.k - 1), 'step:earlier': forall(0, c.k - 1, lambda b: moved(s, o, b))}
        return dict(upto=upto(o, c.k), n=And([x.n == num_all(o) for x in pos(s.positions)]), **st, done=forall(0, c.k, lambda b: moved(s, o, b)),
                    rest=And([forall(ss(o, c.k), num_all(o), lambda i: x[i] == y[i]) for x, y in zip(pos(s.positions), pos(o.positions))]), calls=c.it.roots['@ext'].n == c.k)

    def external(c, f, p, name):
        s, o, b = c.a(1), c.old.a(1), c.ks[0]
        return dict(which=same(f, c.a(0).apply), positions=And([part(x, y, ss(o, b), nsites(cs(o))[b]) for x, y in zip(xyz(p), pos(o.positions))]),
                    family=name == o.site_registry.names[ids(cs(o))[b]])

    def ensures(c):
        s, o = c.a(1), c.old.a(1)
        return dict(size=And([x.n == num_all(o) for x in pos(s.positions)]), moved=forall(0, nruns(o), lambda b: moved(s, o, b)), all_asked=c.it.roots['@ext'].n == nruns(o))
    return Contract('cpb::apply', select=on('PositionModifier', 'System'), name='cpb::apply(PositionModifier, System)', modifies=['arg1.positions'],
                    requires=lambda c: wf(c.a(1)) + ids_ok(c.a(1)), loops=[loop], external=external, ensures=ensures)


MINE += [state_system(), position_system()]


# --- the foundation -----------------------------------------------------------------------------------------------------
def cell_count(f):
    return at(f.spatial_size, 0) * at(f.spatial_size, 1) * at(f.spatial_size, 2)


SLOT = z3.Function('slot of sublattice', I, I)      # where the sites of the k-th sublattice of the lattice are in the unit cell


def lat_subs(c, f):
    return c.deref(f.f['lattice']).sublattices


def fnd_wf(c, f):
    uc, s = f.unit_cell.sites, lat_subs(c, f)
    n = cell_count(f)
    k, j = qv(), qv()
    return [And([at(f.spatial_size, i) >= 1 for i in range(3)]), n >= 1, uc.n >= 1, s.n >= 0, s.n == uc.n, f.is_valid.n == uc.n * n] + [x.n == uc.n * n for x in pos(f.positions)] + [
        z3.ForAll([k, j], Implies(And(0 <= k, k < j, j < uc.n), uc[k].unique_id._value != uc[j].unique_id._value)),
        z3.ForAll([k], Implies(And(0 <= k, k < s.n), And(0 <= SLOT(k), SLOT(k) < uc.n, uc[SLOT(k)].unique_id._value == s[k].second.unique_id._value)), patterns=[SLOT(k)]),
        z3.ForAll([k, j], Implies(And(0 <= k, k < j, j < s.n), SLOT(k) != SLOT(j)), patterns=[z3.MultiPattern(SLOT(k), SLOT(j))]),
        z3.ForAll([k], Implies(And(0 <= k, k < s.n), s[k].second.unique_id._value == s[k].second.unique_id._value))]


def first_site(f, k):
    return SLOT(k) * cell_count(f)


def on_sub(f, k, fn):
    """for the sites of the k-th sublattice: fn(position among them, index)"""
    return forall(0, cell_count(f), lambda i: fn(i, first_site(f, k) + i))


def apart(c, o):
    """the parts of two sublattices do not overlap"""
    def off(a, b):
        p, q, n = SLOT(a), SLOT(b), cell_count(o)
        return {'product': Implies(And(p < q), p * n + n <= q * n), 'product2': Implies(q < p, q * n + n <= p * n), 'apart': Or(first_site(o, a) + n <= first_site(o, b), first_site(o, b) + n <= first_site(o, a))}
    if c.prev is None:
        return {}
    n = lat_subs(c, o).n
    return {'step:' + w: forall(0, n, lambda j: Implies(j != c.k - 1, off(j, c.k - 1)[w])) for w in ('product', 'product2', 'apart')}


def asked(c, f):
    return c.it.roots['@ext'].n


def state_foundation():
    def decided(f, o, k):
        return on_sub(o, k, lambda i, q: f.is_valid[q] == ext_result(0, z3.BoolSort(), k)[i])

    def loop(c):
        f, o = c.a(1), c.old.a(1)
        return dict(**apart(c, o), n=f.is_valid.n == o.is_valid.n, calls=asked(c, f) == c.k, done=forall(0, c.k, lambda k: decided(f, o, k)),
                    rest=forall(c.k, lat_subs(c, o).n, lambda k: on_sub(o, k, lambda i, q: f.is_valid[q] == o.is_valid[q])))

    def external(c, fn, st, p, name):
        f, o, k = c.a(1), c.old.a(1), c.ks[0]
        n, lo = cell_count(o), first_site(o, k)
        return dict(which=same(fn, c.a(0).apply), states=And(st.n == n, forall(0, n, lambda i: st[i] == o.is_valid[lo + i])),
                    positions=And([part(x, y, lo, n) for x, y in zip(xyz(p), pos(o.positions))]), family=name == lat_subs(c, o)[k].first)

    def ensures(c):
        f, o = c.a(1), c.old.a(1)
        return dict(n=f.is_valid.n == o.is_valid.n, all_asked=asked(c, f) == lat_subs(c, o).n, decided=Implies(c.a(0).min_neighbors <= 0, forall(0, lat_subs(c, o).n, lambda k: decided(f, o, k))))
    return Contract('cpb::apply', select=on('SiteStateModifier', 'Foundation'), name='cpb::apply(SiteStateModifier, Foundation)', modifies=['arg1.is_valid'],
                    requires=lambda c: fnd_wf(c, c.a(1)), loops=[loop], external=external, ensures=ensures)


def position_foundation():
    def moved(f, o, k):
        return on_sub(o, k, lambda i, q: And([x[q] == ext_result(j, z3.RealSort(), k)[i] for j, x in enumerate(pos(f.positions))]))

    def loop(c):
        f, o = c.a(1), c.old.a(1)
        return dict(**apart(c, o), n=And([x.n == y.n for x, y in zip(pos(f.positions), pos(o.positions))]), calls=asked(c, f) == c.k, done=forall(0, c.k, lambda k: moved(f, o, k)),
                    rest=forall(c.k, lat_subs(c, o).n, lambda k: on_sub(o, k, lambda i, q: And([x[q] == y[q] for x, y in zip(pos(f.positions), pos(o.positions))]))))

    def external(c, fn, p, name):
        f, o, k = c.a(1), c.old.a(1), c.ks[0]
        return dict(which=same(fn, c.a(0).apply), positions=And([part(x, y, first_site(o, k), cell_count(o)) for x, y in zip(xyz(p), pos(o.positions))]), family=name == lat_subs(c, o)[k].first)

    def ensures(c):
        f, o = c.a(1), c.old.a(1)
        return dict(n=And([x.n == y.n for x, y in zip(pos(f.positions), pos(o.positions))]), all_asked=asked(c, f) == lat_subs(c, o).n, moved=forall(0, lat_subs(c, o).n, lambda k: moved(f, o, k)))
    return Contract('cpb::apply', select=on('PositionModifier', 'Foundation'), name='cpb::apply(PositionModifier, Foundation)', modifies=['arg1.positions'],
                    requires=lambda c: fnd_wf(c, c.a(1)), loops=[loop], external=external, ensures=ensures)


MINE += [Contract('cpb::remove_dangling', modifies=['arg0.is_valid'], trusted=True, ensures=lambda c: dict(n=c.a(0).is_valid.n == c.old.a(0).is_valid.n)),
         state_foundation(), position_foundation()]
