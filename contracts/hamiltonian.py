"""Hamiltonian builder: which value is placed at which row and column (hamiltonian/HamiltonianModifiers.hpp, Hamiltonian.hpp)."""
from .common import *
from .sublattices import ids, nsites, norbs
from . import system as sy
from .hopping_blocks import wf as hwf, sizes
from .registry import wf as rwf

IT = 'cpb::IndexTranslator'
SC = {'double': 'double', 'std::complex<double>': 'std::complex<double>'}


def cwf(cs):
    """a compressed list of sublattices"""
    return [cs.data.n >= 0, forall(0, cs.data.n, lambda b: And(nsites(cs)[b] >= 0, norbs(cs)[b] >= 1))]


def subl(c):
    return c.deref(c.this.f['sublattices'])


def sys0(cs, b):
    return PS(nsites(cs), b)


def ham0(cs, b):
    return PS(arr(None, lambda q: nsites(cs)[q] * norbs(cs)[q]), b)


def holds(cs, b, site):
    """sublattice b holds the site, no earlier one does"""
    return And(0 <= b, b < cs.data.n, site < sys0(cs, b) + nsites(cs)[b], forall(0, b, lambda q: site >= sys0(cs, q) + nsites(cs)[q]))


def row0(cs, b, site):
    return ham0(cs, b) + (site - sys0(cs, b)) * norbs(cs)[b]


def flat(m, e):
    return mel(m, e / m.cols, e % m.cols)


def mel(m, i, j):
    return sel(sel(m.d, i), j) if isinstance(m, S) else m.at(i, j)


def parts(x):
    return (x.re, x.im) if isinstance(x, S) else (x, z3.RealVal(0))


def cast(s, x):
    """the value of a complex number as scalar type s"""
    re, im = parts(x)
    return (re, im) if 'complex' in s else (re, z3.RealVal(0))


def eqv(a, b):
    return And(a[0] == b[0], a[1] == b[1])


CONTRACTS = [
    Contract(IT + '::ham_start', modifies=[], requires=lambda c: cwf(subl(c)),
             throws=lambda c: Not(exists(0, subl(c).data.n, lambda b: And(holds(subl(c), b, c.a(0)), norbs(subl(c))[b] == c.a(1)))),
             loops=[lambda c: dict(passed=forall(0, c.k, lambda q: c.a(0) >= sys0(subl(c), q) + nsites(subl(c))[q]))],
             ensures=lambda c: dict(row=exists(0, subl(c).data.n, lambda b: And(
                 holds(subl(c), b, c.a(0)), norbs(subl(c))[b] == c.a(1), c.ret == row0(subl(c), b, c.a(0)))))),
]
for s in SC:
    HB = 'cpb::HoppingBuffer<%s>' % s
    CONTRACTS += [
        Contract(HB + '::reset_hoppings', modifies=['this.hoppings'],
                 requires=lambda c: [c.a(0) >= 0, c.a(0) <= c.this.size, c.this.hoppings.n == c.this.size * (c.this.unit_hopping.rows * c.this.unit_hopping.cols)],
                 loops=[lambda c: dict(at=c['start'] == c.k * c.a(0), n=c.this.hoppings.n == c.old.this.hoppings.n,
                                       **{'body:apart': forall(0, c.k, lambda e: e * c.a(0) + c.a(0) <= c.k * c.a(0))},
                                       filled=forall(0, c.k, lambda e: forall(0, c.a(0), lambda j: same(c.this.hoppings[e * c.a(0) + j], flat(c.this.unit_hopping, e)))))],
                 ensures=lambda c: dict(size=c.this.hoppings.n == c.old.this.hoppings.n,
                                        each=forall(0, c.this.unit_hopping.rows * c.this.unit_hopping.cols, lambda e: forall(0, c.a(0), lambda j: same(c.this.hoppings[e * c.a(0) + j], flat(c.this.unit_hopping, e)))))),
        Contract(HB + '::HoppingBuffer', select=lambda d: 'MatrixXcd' in d['type']['qualType'], requires=lambda c: [c.a(0).rows >= 1, c.a(0).cols >= 1, c.a(1) >= 1],
                 ensures=lambda c, s=s: dict(
                     size=And(c.this.size <= c.a(1), c.this.size * (c.a(0).rows * c.a(0).cols) <= 100000),
                     buffers=And([c.this.hoppings.n == c.this.size * (c.a(0).rows * c.a(0).cols)] + [getattr(p, k).n == c.this.size for p in (c.this.pos1, c.this.pos2) for k in 'xyz']),
                     some=Implies(c.a(0).rows * c.a(0).cols <= 100000, c.this.size >= 1),
                     value=forall(0, c.a(0).rows, lambda i: forall(0, c.a(0).cols, lambda j: eqv(parts(mel(c.this.unit_hopping, i, j)), unit_value(s, c.a(0), i, j)))),
                     unit=And(c.this.unit_hopping.rows == c.a(0).rows, c.this.unit_hopping.cols == c.a(0).cols))),
    ]

HM = 'cpb::HamiltonianModifiers'


def sink(s, i=0):
    return lambda d: any('Sink<%s>' % s in (x.get('type', {}).get('qualType') or '').replace('cpb::', '') for x in d['inner'] if x['kind'] == 'TemplateArgument')


def own_energies(c):
    """the energy of a sublattice has as many rows and columns as it has orbitals"""
    v = c.a(0)
    e = v.site_registry.energies
    cs = v.compressed_sublattices
    return [forall(0, cs.data.n, lambda b: And(e[ids(cs)[b]].rows == norbs(cs)[b], e[ids(cs)[b]].cols == norbs(cs)[b]))]


def scalar(s):
    return lambda d: inst(s)(d)


def base(c, s, p):
    """the onsite values of sublattice s before the modifiers: flat element p"""
    v = c.a(0)
    e = v.site_registry.energies[ids(cs_of(c))[s]]
    return e, p / nsites(cs_of(c))[s]


def cs_of(c):
    return c.a(0).compressed_sublattices


def onsite_call(c, i, j, v):
    """the value of orbitals (a, b) of the n-th site of sublattice s"""
    l = c.local
    s, a, b, n = c.ks
    cs = cs_of(c)
    buf = l['onsite_energy']
    at_ = ham0(cs, s) + n * norbs(cs)[s]
    x = buf[(a * norbs(cs)[s] + b) * nsites(cs)[s] + n]
    return dict(row=i == at_ + a, col=j == at_ + b, value=same(v, x), not_zero=Not(zero(v)),
                in_range=And(0 <= n, n < nsites(cs)[s], 0 <= a, a < norbs(cs)[s], 0 <= b, b < norbs(cs)[s]),
                size=buf.n == nsites(cs)[s] * norbs(cs)[s] * norbs(cs)[s])


def zero(v):
    return And(v.re == 0, v.im == 0) if isinstance(v, S) else v == 0


def size_of(c):
    return c['onsite_energy'].n == c['nsites'] * c['norb'] * c['norb']


ONSITE_LOOPS = [
    None,
    lambda c: dict(at=c['start'] == c.k * c['nsites'], size=size_of(c)),
    lambda c: dict(size=size_of(c)),
    lambda c: dict(at=c['data'].idx == c.k * (c['norb'] * c['nsites'])),
    lambda c: dict(at=c['data'].idx == c.ks[-1] * (c['norb'] * c['nsites']) + c.k * c['nsites'], room=c.ks[-1] * c['norb'] + c['norb'] <= c['norb'] * c['norb']),
    lambda c: dict(at=c['data'].idx == c.ks[-2] * (c['norb'] * c['nsites']) + c.ks[-1] * c['nsites'] + c.k,
                   site=c['idx'] == ham0(cs_of(c), c.ks[0]) + c.k * c['norb'], left=c.k <= c['nsites'], **{'body:left': c.k < c['nsites']},
                   fits=c.ks[-2] * (c['norb'] * c['nsites']) + c.ks[-1] * c['nsites'] + c['nsites'] <= c['onsite_energy'].n,
                   room=c.ks[-2] * c['norb'] + c.ks[-1] + 1 <= c['norb'] * c['norb'],
                   rest=(c.ks[-2] * c['norb'] + c.ks[-1] + 1) * c['nsites'] <= (c['norb'] * c['norb']) * c['nsites']),
]

for s in SC:
    CONTRACTS += [
        Contract(HM + '::apply_to_onsite', select=scalar(s), verify=sink(s), name=HM + '::apply_to_onsite<%s>' % s, modifies=[], callback=1, calls=onsite_call,
                 loops=ONSITE_LOOPS,
                 requires=lambda c: sy.wf(c.a(0)) + sy.rwf(c.a(0).site_registry) + sy.distinct_ids(c.a(0)) + own_energies(c)),
    ]


def hop_ok(c, v):
    """the blocks belong to registered families and connect sites of the system"""
    n = c.a(0).positions.x.n
    return hwf(v.hopping_blocks) + [v.hopping_blocks.blocks.n <= c.a(0).hopping_registry.names.n,
            v.hopping_blocks.num_sites == n,
            forall(0, c.a(0).hopping_registry.names.n, lambda b: (lambda m: And(m.rows >= 1, m.cols >= 1, m.rows * m.cols <= 100000))(c.a(0).hopping_registry.energies[b]))]


def hrows(v):
    return v.hopping_blocks.blocks.e.e.f['row']


def hcols(v):
    return v.hopping_blocks.blocks.e.e.f['col']


def element_row(c, site, norb, a, i):
    """i is the row of orbital a of the given site, which has norb orbitals"""
    cs = cs_of(c)
    return exists(0, cs.data.n, lambda t: And(holds(cs, t, site), norbs(cs)[t] == norb, i == a + row0(cs, t, site)))


def unit_value(s, m, a, b):
    x = mel(m, a, b)
    return cast(s, x)


def hop_call(c, i, j, v, s):
    """the value of orbitals (a, b) of the q-th bond of a block: at the rows and columns of its own sites"""
    sy_, v_ = c.a(0), c.a(1)
    if len(c.ks) == 2:      # single orbital, no modifiers
        b, q = c.ks
        e = sy_.hopping_registry.energies[b]
        return dict(row=i == hrows(v_)[b][q], col=j == hcols(v_)[b][q], value=eqv(parts(v), unit_value(s, e, 0, 0)))
    blk, _, a, b, q = c.ks
    t = c.top
    e = sy_.hopping_registry.energies[blk]
    at_ = t['coo_slice'].f['it'].idx
    S_ = t['size']
    return dict(row=element_row(c, hrows(v_)[blk][at_ + q], e.rows, a, i), col=element_row(c, hcols(v_)[blk][at_ + q], e.cols, b, j),
                value=same(v, t['buffer'].hoppings[(a * e.cols + b) * S_ + q]),
                unmodified=Implies(c.this.hopping.n == 0, eqv(parts(v), unit_value(s, e, a, b))),
                not_zero=Not(zero(v)))


def hop_external(c, f, ref, p1, p2, name):
    """a modifier gets the energies and the positions of the two ends of the bonds of a slice"""
    t = c.top
    blk, _, m = c.ks
    sy_, v_ = c.a(0), c.a(1)
    return dict(which=same(f, c.this.hopping[m].apply), size=And(p1.x_ref.n == t['size'], p2.x_ref.n == t['size']),
                data=ref.data.idx == 0,
                family=name == sy_.hopping_registry.names[blk],
                positions=ends(c, t, blk, t['coo_slice'].f['it'].idx, t['size'], [getattr(p1, k + '_ref') for k in 'xyz'], [getattr(p2, k + '_ref') for k in 'xyz']))


def ends(c, t, blk, at_, n, p1, p2):
    """p1, p2: the positions of the two ends of the bonds at_ … at_ + n of a block"""
    sy_, v_ = c.a(0), c.a(1)
    out = []
    for x, k in enumerate('xyz'):
        pos = getattr(sy_.positions, k)
        d = at(v_.shift, x) if 'shift' in v_.f else z3.RealVal(0)
        out.append(forall(0, n, lambda q: And(p1[x][q] == pos[hrows(v_)[blk][at_ + q]], p2[x][q] == pos[hcols(v_)[blk][at_ + q]] - d)))
    return And(out)


def slice_of(c):
    """size of the current slice of a block of bonds"""
    sl = c['coo_slice']
    at_, last = sl.f['it'].idx, sl.f['last'].idx
    return Ite(at_ + sl.f['step'] < last, at_ + sl.f['step'], last) - at_


def term(c):
    b = c.top['buffer']
    return b.unit_hopping.rows, b.unit_hopping.cols


def buf_ok(c):
    b = c['buffer']
    return dict(n=b.hoppings.n == b.size * (b.unit_hopping.rows * b.unit_hopping.cols), p1=And([getattr(b.pos1, k).n == b.size for k in 'xyz']),
                p2=And([getattr(b.pos2, k).n == b.size for k in 'xyz']))


def same_buf(c):
    """the energies are those which the modifiers returned"""
    return buf_ok(c.top)


def hop_slices(c):
    x = c.range_idx()
    blk = c.ks[0]
    return dict(at=And(0 <= x, x <= sizes(c.a(1).hopping_blocks)[blk]), **buf_ok(c))


def hop_positions(c):
    b = c['buffer']
    return dict(count=c['size'] == c.k, **buf_ok(c), ends=ends(c, c, c.ks[0], c['coo_slice'].f['it'].idx, c.k, [getattr(b.pos1, k) for k in 'xyz'], [getattr(b.pos2, k) for k in 'xyz']))


def hop_mods(c):
    t = c
    m = c.a(0).hopping_registry.energies[c.ks[0]]
    u = c['buffer'].unit_hopping
    return dict(first=Implies(c.k == 0, forall(0, u.rows * u.cols, lambda e: forall(0, c['size'], lambda j: same(c['buffer'].hoppings[e * c['size'] + j], flat(c['buffer'].unit_hopping, e))))),
                **buf_ok(c))


def hop_i(c):
    t = c.top
    r, k = term(c)
    return dict(at=c['data'].idx == c.k * (k * t['size']))


def hop_j(c):
    t = c.top
    r, k = term(c)
    a = c.ks[-1]
    return {'at': c['data'].idx == a * (k * t['size']) + c.k * t['size'], 'room': a * k + k <= r * k,
            'body:fits': And((a * k + c.k) / k == a, (a * k + c.k) % k == c.k)}


def hop_q(c):
    t = c.top
    r, k = term(c)
    a, b = c.ks[-2:]
    z = t['size']
    return {'at': c['data'].idx == a * (k * z) + b * z + c.k, 'left': And(0 <= c.k, c.k <= z), 'body:left': c.k < z,
            'room': a * k + b + 1 <= r * k, 'rest': (a * k + b + 1) * z <= (r * k) * z, 'fits': (r * k) * z <= (r * k) * t['buffer'].size}


HOP_LOOPS = [None, None, None, hop_slices, hop_positions, hop_mods, hop_i, hop_j, hop_q]

for s in SC:
    for what in ('System', 'Boundary'):
        CONTRACTS += [
            Contract(HM + '::apply_to_hoppings_impl', name=HM + '::apply_to_hoppings_impl<%s,%s>' % (s, what), modifies=[], callback=2, shallow=True, throws=MAY,
                     calls=lambda c, i, j, v, s=s: hop_call(c, i, j, v, s), external=hop_external, loops=HOP_LOOPS,
                     verify=lambda d, s=s, what=what: sink(s)(d) and any(x.get('type', {}).get('qualType', '').endswith(what) for x in d['inner'] if x['kind'] == 'TemplateArgument'),
                     requires=lambda c: sy.wf(c.a(0)) + rwf(c.a(0).site_registry) + rwf(c.a(0).hopping_registry) + hop_ok(c, c.a(1))),
        ]
