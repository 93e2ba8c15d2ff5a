"""Model: what is derived from the definition is cleared by every change of it, and built from all of it in a fixed order
(Model.*, leads/Leads.*, hamiltonian/HamiltonianModifiers.cpp, hamiltonian/Hamiltonian.cpp)."""
from .common import *
from dv.lib import Over, uf, flat_leaves, ISSET
from dv.engine import ThrowEx
from .registry import wf as rwf, acceptable, named, blank, CONTRACTS as REG, SITE, HOP

MO = 'cpb::Model'
LE = 'cpb::Leads'
HM = 'cpb::HamiltonianModifiers'
AO = z3.ArraySort(I, OPQ)
KINDS = {'cpb::SiteStateModifier': 0, 'cpb::PositionModifier': 1, 'cpb::SiteGenerator': 2, 'cpb::HoppingGenerator': 3}


def _pack(it, ct, args):
    """a modifier is stored as it was given: its kind and contents determine the stored object"""
    x = args[0]
    if not isinstance(x, S) or x.tn not in KINDS:
        raise Unsupported('structure modifier from %s' % getattr(x, 'tn', x))
    return dict(kind=z3.IntVal(KINDS[x.tn]), id=uf(it, 'stored', OPQ, [x]))


def lead_structure(it, foundation, spec):
    return uf(it, 'lead structure', OPQ, [foundation, spec])


def _structure(it, ct, args):
    if it.choose(uf(it, 'lead structure fails', B, args)):
        raise ThrowEx('std::runtime_error')
    i = lead_structure(it, *args)
    return dict(id=i, system=uf(it, 'system of lead', OPQ, [i]), indices=uf(it, 'indices of lead', OPQ, [i]))


def lead_ham(it, system, lattice, mods, dbl, cx):
    return uf(it, 'lead hamiltonian', OPQ, [system, lattice, mods, dbl, cx])


def lead_override(it, *args):
    return And(Not(args[-1]), uf(it, 'lead modifiers return complex values', B, args))


def lead_fails(it, *args):
    return uf(it, 'lead hamiltonian fails', B, args)


def _pair(it, ct, args):
    if it.choose(lead_override(it, *args)):
        raise ThrowEx('cpb::ComplexOverride')
    if it.choose(lead_fails(it, *args)):
        raise ThrowEx('std::runtime_error')
    return dict(id=lead_ham(it, *args))


SCALARS = ['float', 'std::complex<float>', 'double', 'std::complex<double>']
TYPES = {
    'cpb::System': 'opaque', 'cpb::Foundation': 'opaque',
    'cpb::leads::Structure': Over(dict(id=OPQ, system=OPQ, indices=OPQ), _structure),
    'cpb::leads::HamiltonianPair': Over(dict(id=OPQ), _pair),
    'cpb::StructureModifier': Over(dict(kind=I, id=OPQ), _pack),
}
TYPES.update(('Eigen::SparseMatrix<%s, 1>' % s, 'opaque') for s in SCALARS)


# ---- what a model is derived from -----------------------------------------------------------
def target(c, r):
    return NOTHING if isinstance(r, Ref) and r.path is None else c.deref(r)


def ham_null(h):
    """the matrix which the variant currently holds is absent"""
    v = h.variant_matrix
    return And([Implies(v.index == i, v.f[str(i)].null) for i in range(4)])


def isnull(r):
    return r.null


def has_symmetry(v):
    return Not(And([Not(at(v.symmetry.enabled_directions, i)) for i in range(3)]))


def gen(m):
    return Or(m.kind == 2, m.kind == 3)


def fold(it, what, mods, lo, k, x):
    """`what` applied for the modifiers lo..k-1 of the list, in order"""
    return uf(it, what, OPQ, [mods.e, lo, k, x])


def foldax(it, what, step, mods):
    """definition of fold, for the given list"""
    lo, k = qv(), qv()
    x = z3.Const('x!%d' % next(_ctr), OPQ)
    a, b = fold(it, what, mods, lo, k, x), fold(it, what, mods, lo, k + 1, x)
    return [z3.ForAll([lo, x], fold(it, what, mods, lo, lo, x) == x),
            z3.ForAll([lo, k, x], Implies(lo <= k, b == step(it, mods[k], a)), patterns=[a])]


import itertools
_ctr = itertools.count()


def step_f(it, m, f):
    return uf(it, 'apply to foundation', OPQ, [m, f])


def step_s(it, m, s):
    return uf(it, 'apply to system', OPQ, [m, s])


def step_a(it, m, f):
    return uf(it, 'attach lead', OPQ, [m, f])


def first_gen(c, v):
    """position of the first modifier that needs a system"""
    m = v.structure_modifiers
    q = z3.Const('first generator', I)
    return q, [And(0 <= q, q <= m.n), forall(0, q, lambda i: Not(gen(m[i]))), Implies(q < m.n, gen(m[q]))]


def base_foundation(c, v):
    it = c.it
    return Ite(ISSET(v.shape.contains), uf(it, 'new:cpb::Foundation', OPQ, [v.lattice, v.shape]),
               uf(it, 'new:cpb::Foundation', OPQ, [v.lattice, v.primitive]))


FIRST = z3.Const('first generator', I)


def sym_foundation(c, v):
    f = base_foundation(c, v)
    return Ite(has_symmetry(v), uf(c.it, 'apply symmetry', OPQ, [v.symmetry, f]), f)


def foundation(c, v, first):
    f = fold(c.it, 'fold foundation', v.structure_modifiers, z3.IntVal(0), first, sym_foundation(c, v))
    return fold(c.it, 'attach leads', v._leads.specs, z3.IntVal(0), v._leads.specs.n, f)


def base_system(c, v):
    it, f = c.it, foundation(c, v, FIRST)
    s = uf(it, 'new:cpb::System', OPQ, [v.site_registry, v.hopping_registry])
    s = uf(it, 'populate system', OPQ, [s, f])
    return Ite(has_symmetry(v), uf(it, 'populate boundaries', OPQ, [s, f, v.symmetry]), s)


def system_of(c, v, first):
    """every part of the definition, in the order in which it must be applied"""
    s = fold(c.it, 'fold system', v.structure_modifiers, first, v.structure_modifiers.n, base_system(c, v))
    return uf(c.it, 'remove invalid', OPQ, [s])


def structures_of(c, l, f):
    return And(l.structures.n == l.specs.n, forall(0, l.structures.n, lambda i: is_structure(c.it, l.structures[i], f, l.specs[i])))


def is_lead_ham(c, h, i):
    return h.id == lead_ham(c.it, c.this.structures[i].system, *[c.a(j) for j in range(4)])


def lead_structures(c, v, first):
    return structures_of(c, v._leads, foundation(c, v, first))


def is_structure(it, s, f, spec):
    i = lead_structure(it, f, spec)
    return And(s.id == i, s.system == uf(it, 'system of lead', OPQ, [i]), s.indices == uf(it, 'indices of lead', OPQ, [i]))


def any_double(m):
    return Or(exists(0, m.onsite.n, lambda i: m.onsite[i].is_double), exists(0, m.hopping.n, lambda i: m.hopping[i].is_double))


def any_complex(m):
    return Or(exists(0, m.onsite.n, lambda i: m.onsite[i].is_complex), exists(0, m.hopping.n, lambda i: m.hopping[i].is_complex))


def is_complex(c, v):
    lib = c.it.lib
    from .registry import real_mat
    cx = lambda r: exists(0, r.energies.n, lambda i: Not(real_mat(c, r.energies[i])))
    return Or(cx(v.site_registry), cx(v.hopping_registry), any_complex(v.hamiltonian_modifiers), has_symmetry(v), v.complex_override)


def simple(v):
    return Not(exists(0, v.structure_modifiers.n, lambda i: gen(v.structure_modifiers[i])))


def ham_args(c, v, sys):
    return [sys, v.lattice, v.hamiltonian_modifiers, v.wave_vector, simple(v)]


def matrix(it, i, args):
    return uf(it, 'matrix of ' + SCALARS[i], OPQ, args)


def overrides(it, i, args):
    """a modifier returns complex values although the matrix is real"""
    return uf(it, 'complex result in ' + SCALARS[i], B, args) if i in (0, 2) else z3.BoolVal(False)


def fails(it, i, args):
    return uf(it, 'no valid matrix of ' + SCALARS[i], B, args)


def is_ham(c, v, sys, h):
    """h is the matrix of the model for the scalar type it has"""
    va = h.variant_matrix
    a = ham_args(c, v, sys)
    return And([Implies(va.index == i, target(c, va.f[str(i)]) == matrix(c.it, i, a)) for i in range(4)])


def is_lead_hams(c, v):
    hs, st = v._leads.hamiltonians, v._leads.structures
    d = any_double(v.hamiltonian_modifiers)
    m = lambda i, cx: lead_ham(c.it, st[i].system, v.lattice, v.hamiltonian_modifiers, d, z3.BoolVal(cx))
    return And(hs.n == st.n, Or(forall(0, hs.n, lambda i: hs[i].id == m(i, True)), forall(0, hs.n, lambda i: hs[i].id == m(i, False))))


def coherent(c, v):
    """whatever has been built belongs to the current definition"""
    q, facts = first_gen(c, v)
    sys = sysval(c, v)
    return dict(
        no_system=Implies(isnull(v.f['_system']), And(ham_null(v._hamiltonian), v._leads.hamiltonians.n == 0)),
        structures=Implies(And(facts), Or(v._leads.structures.n == 0, lead_structures(c, v, q))),
        system=Implies(And([Not(isnull(v.f['_system']))] + facts), And(sys == system_of(c, v, q), lead_structures(c, v, q))),
        hamiltonian=Implies(Not(ham_null(v._hamiltonian)), is_ham(c, v, sys, v._hamiltonian)),
        leads=Or(v._leads.hamiltonians.n == 0, is_lead_hams(c, v)))


def wf(c, v):
    it = c.it
    m = v.structure_modifiers
    return rwf(v.site_registry) + rwf(v.hopping_registry) + [Not(reg_fails(it, v.lattice)), v.site_registry.names.n < 2**31 - 1, v.hopping_registry.names.n < 2**31 - 1,
                                                             forall(0, m.n, lambda i: And(0 <= m[i].kind, m[i].kind < 4))]


def inv(c, v):
    return wf(c, v) + list(coherent(c, v).items())


def cleared(v):
    return And(isnull(v.f['_system']), v._leads.structures.n == 0, ham_null(v._hamiltonian), v._leads.hamiltonians.n == 0)


def no_ham(v):
    return And(ham_null(v._hamiltonian), v._leads.hamiltonians.n == 0)


DERIVED = ['this._system', 'this._hamiltonian', 'this._leads.structures', 'this._leads.hamiltonians']
HAMS = DERIVED[1:2] + DERIVED[3:]
TIME1, TIME2 = ['this.system_build_time'], ['this.hamiltonian_build_time']


def method(fname, modifies, ensures=lambda c: {}, **kw):
    """a public operation: the invariant is assumed on entry and has to be re-established"""
    def ens(c):
        r = dict(ensures(c))
        r.update(('coherent:' + k, f) for k, f in coherent(c, c.this).items())
        return r
    th = kw.pop('throws', None)
    et = kw.pop('ensures_throw', None)

    def ens_throw(c):
        r = dict(et(c)) if et else {}
        r.update(('coherent:' + k, f) for k, f in coherent(c, c.this).items())
        return r
    return Contract(MO + "::" + fname, modifies=modifies, ensures=ens, requires=lambda c: inv(c, c.this), throws=th,
                    ensures_throw=ens_throw if th else None, **kw)


def add(typ, mods, ensures, structure=True, **kw):
    return method('add', (DERIVED if structure else HAMS) + mods, ensures, select=par(typ), name=MO + '::add(%s)' % typ, **kw)


def appended(f, want):
    def ens(c):
        n, o = f(c.this), f(c.old.this)
        return dict(one_more=n.n == o.n + 1, kept=same_prefix(n, o), last=want(c, n[o.n]))
    return ens


def same_prefix(n, o):
    i = qv()
    return z3.ForAll([i], Implies(And(0 <= i, i < o.n), And([z3.Select(x, i) == z3.Select(y, i) for (_, x), (_, y) in zip(leaves(n.e), leaves(o.e))])))


def stored(c, e):
    x = c.a(0)
    return And(e.kind == KINDS[x.tn], e.id == uf(c.it, 'stored', OPQ, [x]))


def site_ok(c):
    g = c.a(0)
    return c_accept(c, c.this.site_registry, g, True)


def c_accept(c, reg, g, site):
    class V:
        it = c.it

        @staticmethod
        def a(i):
            return [g.name, g.energy][i]
    return And(g.name != blank(c), Not(named(reg, g.name)), acceptable(V, site))


def smods(v):
    return v.structure_modifiers


def registered(f):
    def ens(c):
        n, o = f(c.this), f(c.old.this)
        return n.names.n == o.names.n + 1, n.names[o.names.n] == c.a(0).name, same(n.energies[o.names.n], c.a(0).energy)
    return ens


def lat_reg(c, which):
    return {f: uf(c.it, which + f, s, [c.this]) for f, s in ()}


def f3(v):
    return [at(v, i) for i in range(3)]


def eq3(a, b):
    return And([at(a, i) == at(b, i) for i in range(3)])


def make_args(c):
    return [c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)]


def holds(c, h, i, args):
    v = h.variant_matrix
    return And(v.index == i, Not(v.f[str(i)].null), target(c, v.f[str(i)]) == matrix(c.it, i, args))


def reg_of(it, which, lattice):
    v = it.types.mk(SITE if which == 'site' else HOP, 'reg', it)

    def go(x, path):
        if isinstance(x, S):
            return S(x.tn, {k: go(y, path + '.' + k) for k, y in x.f.items()})
        if isinstance(x, A):
            return A(go(x.n, path + '.n'), go(x.e, path + '[]'), x.kind)
        return uf(it, which + path, x.sort(), [lattice.sublattices, lattice.hoppings])
    return go(v, '')


def reg_fails(it, lattice):
    return uf(it, 'site registry fails', B, [lattice.sublattices, lattice.hoppings])


def same_reg(a, b):
    return And([x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))])


def ham_outcome(c, v, h, sys):
    """the Hamiltonian that make_hamiltonian has to return"""
    it, a = c.it, ham_args(c, v, sys)
    d, cx = any_double(v.hamiltonian_modifiers), is_complex(c, v)
    def pick(i, j):
        over = And(Not(cx), overrides(it, i, a))
        return And(Implies(Or(cx, over), holds(c, h, j, a)), Implies(Not(Or(cx, over)), holds(c, h, i, a)))
    return And(Implies(d, pick(2, 3)), Implies(Not(d), pick(0, 1)))


def ham_throws(c, v, sys):
    it, a = c.it, ham_args(c, v, sys)
    d, cx = any_double(v.hamiltonian_modifiers), is_complex(c, v)
    def pick(i, j):
        f = lambda k: And(Not(overrides(it, k, a)), fails(it, k, a))
        return Or(And(Not(cx), f(i)), And(Or(cx, overrides(it, i, a)), f(j)))
    return Or(And(d, pick(2, 3)), And(Not(d), pick(0, 1)))


NOTHING = z3.Const('no system', OPQ)


def sysval(c, v):
    return target(c, v.f['_system'])


def spec_is(c, e):
    d = c.a(0)
    return And(e.axis == If(d > 0, d, -d) - 1, e.sign == If(d > 0, z3.IntVal(1), z3.IntVal(-1)), e.shape.contains == c.a(1).contains,
               same(e.shape.vertices, c.a(1).vertices), eq3(e.shape.lattice_offset, c.a(1).lattice_offset))


def sys_req(c):
    v = c.this
    return first_gen(c, v)[1] + foldax(c.it, 'fold foundation', step_f, v.structure_modifiers) + foldax(c.it, 'fold system', step_s, v.structure_modifiers)\
        + [Or(v._leads.structures.n == 0, lead_structures(c, v, FIRST))]


def sys_throws(c):
    return z3.Const('make_system fails', B)


SYS = ['this._system', 'this._leads.structures', 'this.system_build_time']


def not_null(c):
    r = c.it.rv(c.ret_raw)
    return Not(r.null) if isinstance(r, Ref) else z3.BoolVal(True)


def kept(c):
    """nothing that is already built is built again"""
    o, n = c.old.this, c.this
    return dict(kept=Implies(Not(isnull(o.f['_system'])), And(Not(isnull(n.f['_system'])), sysval(c, n) == sysval(c.old, o),
                same(n._leads.structures, o._leads.structures), same(n.system_build_time, o.system_build_time))))


HSYS = ['this._hamiltonian', 'this.complex_override', 'this.hamiltonian_build_time']


def same_ham(c, a, b):
    v, w = a.variant_matrix, b.variant_matrix
    return And([v.index == w.index] + [Implies(v.index == i, And(Not(w.f[str(i)].null), target(c, v.f[str(i)]) == target(c, w.f[str(i)]))) for i in range(4)])


def coh(c):
    return {'coherent:' + k: f for k, f in coherent(c, c.this).items()}


OPT = lambda n: dict(trusted=True, modifies=n)

CONTRACTS = REG + [
    # trusted: the callees that build one step of the pipeline, as deterministic functions of what they are given
    Contract('cpb::StructureModifier::requires_system', trusted=True, modifies=[], returns=lambda c: gen(c.a(0))),
    Contract('cpb::StructureModifier::is_generator', trusted=True, modifies=[], returns=lambda c: gen(c.a(0))),
    Contract('cpb::StructureModifier::apply', trusted=True, modifies=['arg1'], select=par('Foundation'), name='cpb::apply(foundation)',
             throws=lambda c: uf(c.it, 'apply to foundation fails', B, [c.a(0), c.a(1)]), throw_type='std::exception',
             ensures=lambda c: c.a(1) == step_f(c.it, c.a(0), c.old.a(1))),
    Contract('cpb::StructureModifier::apply', trusted=True, modifies=['arg1'], select=par('System'), name='cpb::apply(system)',
             throws=lambda c: uf(c.it, 'apply to system fails', B, [c.a(0), c.a(1)]), throw_type='std::exception',
             ensures=lambda c: c.a(1) == step_s(c.it, c.a(0), c.old.a(1))),
    Contract('cpb::TranslationalSymmetry::apply', trusted=True, modifies=['arg0'],
             throws=lambda c: uf(c.it, 'symmetry fails', B, [c.this, c.a(0)]), throw_type='std::exception',
             ensures=lambda c: c.a(0) == uf(c.it, 'apply symmetry', OPQ, [c.this, c.old.a(0)])),
    Contract('cpb::detail::populate_system', trusted=True, modifies=['arg0'], ensures=lambda c: c.a(0) == uf(c.it, 'populate system', OPQ, [c.old.a(0), c.a(1)])),
    Contract('cpb::detail::populate_boundaries', trusted=True, modifies=['arg0'],
             ensures=lambda c: c.a(0) == uf(c.it, 'populate boundaries', OPQ, [c.old.a(0), c.a(1), c.a(2)])),
    Contract('cpb::detail::remove_invalid', trusted=True, modifies=['arg0'], ensures=lambda c: c.a(0) == uf(c.it, 'remove invalid', OPQ, [c.old.a(0)])),
    Contract('cpb::System::num_sites', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'number of sites', I, [c.this])),
    Contract('cpb::leads::create_attachment_area', trusted=True, modifies=['arg0'], throws=lambda c: uf(c.it, 'lead misses', B, [c.a(1), c.a(0)]),
             throw_type='std::runtime_error', ensures=lambda c: c.a(0) == step_a(c.it, c.a(1), c.old.a(0))),
    Contract('cpb::Lattice::set_offset', trusted=True, modifies=['this.offset'], throw_modifies=[], throw_type='std::logic_error',
             throws=lambda c: uf(c.it, 'offset too large', B, [c.this, c.a(0)]), ensures=lambda c: eq3(c.this.offset, c.a(0))),
    Contract('cpb::Lattice::site_registry', trusted=True, modifies=[], returns=lambda c: reg_of(c.it, 'site', c.this), ensures=lambda c: rwf(c.ret) + [c.ret.names.n < 2**31 - 1],
             throws=lambda c: reg_fails(c.it, c.this), throw_type='std::exception'),
    Contract('cpb::Lattice::hopping_registry', trusted=True, modifies=[], returns=lambda c: reg_of(c.it, 'hopping', c.this), ensures=lambda c: rwf(c.ret) + [c.ret.names.n < 2**31 - 1]),
] + [
    Contract('cpb::ham::make', select=inst(s), name='cpb::ham::make<%s>' % s, trusted=True, modifies=[],
             throws=lambda c, i=i: Or(overrides(c.it, i, make_args(c)), fails(c.it, i, make_args(c))),
             throw_type=lambda c, i=i: [(overrides(c.it, i, make_args(c)), 'cpb::ComplexOverride'), (None, 'std::exception')],
             ensures=lambda c, i=i: holds(c, c.ret, i, make_args(c)))
    for i, s in enumerate(SCALARS)
] + [
    Contract('cpb::Hamiltonian::reset', modifies=['this'], ensures=lambda c: dict(null=ham_null(c.this))),
    Contract('cpb::Hamiltonian::operator bool', modifies=[], ensures=lambda c: dict(set=c.ret == Not(ham_null(c.this)))),
    Contract(HM + '::any_complex', modifies=[], ensures=lambda c: dict(iff=c.ret == any_complex(c.this))),
    Contract(HM + '::any_double', modifies=[], ensures=lambda c: dict(iff=c.ret == any_double(c.this))),
    Contract(HM + '::clear', modifies=['this.onsite', 'this.hopping'], ensures=lambda c: dict(empty=And(c.this.onsite.n == 0, c.this.hopping.n == 0))),
    Contract(LE + '::clear_structure', modifies=['this.structures', 'this.hamiltonians'],
             ensures=lambda c: dict(cleared=And(c.this.structures.n == 0, c.this.hamiltonians.n == 0))),
    Contract(LE + '::clear_hamiltonian', modifies=['this.hamiltonians'], ensures=lambda c: dict(cleared=c.this.hamiltonians.n == 0)),
    # repeats until nothing is added (P14): here only a deterministic function of the leads and the foundation
    Contract(LE + '::create_attachment_area', trusted=True, modifies=['arg0'], throws=MAY,
             ensures=lambda c: c.a(0) == fold(c.it, 'attach leads', c.this.specs, z3.IntVal(0), c.this.specs.n, c.old.a(0))),
    Contract(LE + '::make_structure', modifies=['this.structures'], throws=MAY, throw_modifies=[],
             loops=[lambda c: dict(n=c['new_structures'].n == c.k, each=forall(0, c.k, lambda i: is_structure(c.it, c['new_structures'][i], c.a(0), c.this.specs[i])))],
             ensures=lambda c: dict(kept=Implies(c.old.this.structures.n > 0, same(c.this.structures, c.old.this.structures)),
                                    built=Implies(c.old.this.structures.n == 0, structures_of(c, c.this, c.a(0))))),
    Contract(LE + '::make_hamiltonian', modifies=['this.hamiltonians'], throws=MAY, throw_modifies=[],
             throw_type=lambda c: [(MAY(c), 'cpb::ComplexOverride'), (None, 'std::exception')],
             loops=[lambda c: dict(n=c['new_hamiltonians'].n == c.k, each=forall(0, c.k, lambda i: is_lead_ham(c, c['new_hamiltonians'][i], i)))],
             ensures=lambda c: dict(kept=Implies(c.old.this.hamiltonians.n > 0, same(c.this.hamiltonians, c.old.this.hamiltonians)),
                                    built=Implies(c.old.this.hamiltonians.n == 0, And(c.this.hamiltonians.n == c.this.structures.n, forall(0, c.this.structures.n, lambda i: is_lead_ham(c, c.this.hamiltonians[i], i)))))),
    Contract(MO + '::clear_structure', modifies=DERIVED, ensures=lambda c: dict(cleared=cleared(c.this))),
    Contract(MO + '::clear_hamiltonian', modifies=HAMS, ensures=lambda c: dict(cleared=no_ham(c.this))),
    add('Primitive', ['this.primitive'], lambda c: dict(set=eq3(c.this.primitive.size, c.a(0).size)),
        throws=lambda c: Or([And(c.this.lattice.vectors.n <= i, c.a(0).size[i] != 1) for i in range(3)])),
    add('Shape', ['this.shape', 'this.lattice.offset'],
        lambda c: dict(set=And(c.this.shape.contains == c.a(0).contains, same(c.this.shape.vertices, c.a(0).vertices), eq3(c.this.shape.lattice_offset, c.a(0).lattice_offset)),
                       offset=And([c.this.lattice.offset[i] == c.old.this.lattice.offset[i] - c.old.this.shape.lattice_offset[i] + c.a(0).lattice_offset[i] for i in range(3)])),
        throws=lambda c: uf(c.it, 'offset too large', B, [c.this.lattice, mkfix([c.this.lattice.offset[i] - c.this.shape.lattice_offset[i] + c.a(0).lattice_offset[i] for i in range(3)])])),
    add('TranslationalSymmetry', ['this.symmetry'], lambda c: dict(set=And(eq3(c.this.symmetry.length, c.a(0).length), eq3(c.this.symmetry.enabled_directions, c.a(0).enabled_directions)))),
    add('SiteStateModifier', ['this.structure_modifiers'], appended(smods, stored)),
    add('PositionModifier', ['this.structure_modifiers'], appended(smods, stored)),
    add('OnsiteModifier', ['this.hamiltonian_modifiers.onsite'], appended(lambda v: v.hamiltonian_modifiers.onsite, lambda c, e: same(e, c.a(0))), structure=False),
    add('HoppingModifier', ['this.hamiltonian_modifiers.hopping'], appended(lambda v: v.hamiltonian_modifiers.hopping, lambda c, e: same(e, c.a(0))), structure=False),
    add('SiteGenerator', ['this.structure_modifiers', 'this.site_registry.names', 'this.site_registry.energies'], lambda c: dict(appended(smods, stored)(c), registered=And(*registered(lambda v: v.site_registry)(c))),
        throws=lambda c: Not(c_accept(c, c.this.site_registry, c.a(0), True))),
    add('HoppingGenerator', ['this.structure_modifiers', 'this.hopping_registry.names', 'this.hopping_registry.energies'], lambda c: dict(appended(smods, stored)(c), registered=And(*registered(lambda v: v.hopping_registry)(c))),
        throws=lambda c: Not(c_accept(c, c.this.hopping_registry, c.a(0), False))),
    method('set_wave_vector', HAMS + ['this.wave_vector'], lambda c: dict(set=eq3(c.this.wave_vector, c.a(0)))),
    method('clear_hamiltonian_modifiers', HAMS + ['this.hamiltonian_modifiers', 'this.complex_override'],
           lambda c: dict(empty=And(c.this.hamiltonian_modifiers.onsite.n == 0, c.this.hamiltonian_modifiers.hopping.n == 0))),
    Contract(MO + '::is_multiorbital', modifies=[], requires=lambda c: wf(c, c.this)),
    Contract(MO + '::is_double', modifies=[], requires=lambda c: wf(c, c.this), ensures=lambda c: dict(iff=c.ret == any_double(c.this.hamiltonian_modifiers))),
    Contract(MO + '::is_complex', modifies=[], requires=lambda c: wf(c, c.this), ensures=lambda c: dict(iff=c.ret == is_complex(c, c.this))),
    method('attach_lead', DERIVED + ['this._leads.specs'], lambda c: dict(one_more=c.this._leads.specs.n == c.old.this._leads.specs.n + 1,
           kept=same_prefix(c.this._leads.specs, c.old.this._leads.specs),
           last=spec_is(c, c.this._leads.specs[c.old.this._leads.specs.n])),
           throws=lambda c: Or(c.a(0) == 0, c.this.lattice.vectors.n == 1, c.a(0) > c.this.lattice.vectors.n, -c.a(0) > c.this.lattice.vectors.n), throw_modifies=[]),
    method('clear_structure_modifiers', DERIVED + ['this.structure_modifiers', 'this.site_registry', 'this.hopping_registry'],
           lambda c: dict(empty=c.this.structure_modifiers.n == 0, sites=same_reg(c.this.site_registry, reg_of(c.it, 'site', c.this.lattice)),
                          hoppings=same_reg(c.this.hopping_registry, reg_of(c.it, 'hopping', c.this.lattice)))),
    Contract(MO + "::make_system", modifies=['this._leads.structures'], requires=lambda c: wf(c, c.this) + sys_req(c), throws=MAY, throw_modifies=['this._leads.structures'],
             loops=[lambda c: dict(fold=c['foundation'] == fold(c.it, 'fold foundation', c.this.structure_modifiers, z3.IntVal(0), c.k, sym_foundation(c, c.this))),
                    lambda c: dict(fold=c.deref(c['sys']) == fold(c.it, 'fold system', c.this.structure_modifiers, FIRST, FIRST + c.k, base_system(c, c.this)))],
             ensures_throw=lambda c: dict(leads=Or(c.this._leads.structures.n == 0, lead_structures(c, c.this, FIRST))),
             ensures=lambda c: dict(not_null=not_null(c), system=c.ret == system_of(c, c.this, FIRST), leads=lead_structures(c, c.this, FIRST))),
    Contract(MO + '::make_hamiltonian', modifies=SYS + ['this.complex_override'], requires=lambda c: inv(c, c.this) + sys_req(c) + [Not(isnull(c.this.f['_system']))],
             throws=lambda c: ham_throws(c, c.this, sysval(c, c.this)), ensures_throw=lambda c: dict(kept(c), **coh(c)),
             ensures=lambda c: dict(matrix=ham_outcome(c, c.old.this, c.ret, sysval(c, c.old.this)), **kept(c))),
    Contract(MO + '::system', modifies=SYS, requires=lambda c: inv(c, c.this) + sys_req(c),
             throws=MAY, throw_modifies=['this._leads.structures'] + TIME1,
             ensures=lambda c: dict(kept(c), not_null=not_null(c), built=And(Not(isnull(c.this.f['_system'])), c.ret == sysval(c, c.this)), **coh(c)),
             ensures_throw=lambda c: dict(coh(c), was_null=isnull(c.old.this.f['_system']))),
    Contract(MO + '::hamiltonian', modifies=SYS + HSYS, requires=lambda c: inv(c, c.this) + sys_req(c), throws=MAY, throw_modifies=SYS + ['this.complex_override'] + TIME2,
             ensures=lambda c: dict(kept(c), kept_matrix=Implies(Not(ham_null(c.old.this._hamiltonian)), same_ham(c, c.old.this._hamiltonian, c.this._hamiltonian)), 
                                    built=Not(ham_null(c.this._hamiltonian)), current=is_ham(c, c.this, sysval(c, c.this), c.this._hamiltonian), **coh(c)),
             ensures_throw=coh),
    Contract(MO + '::leads', modifies=SYS + HSYS + ['this._leads.hamiltonians'], requires=lambda c: inv(c, c.this) + sys_req(c), throws=MAY, throw_modifies=SYS + HSYS,
             ensures=lambda c: dict(kept(c), matrix=Not(ham_null(c.this._hamiltonian)), built=lead_structures(c, c.this, FIRST), current=is_lead_hams(c, c.this), **coh(c)), ensures_throw=coh),
    Contract(MO + '::eval', modifies=SYS + HSYS + ['this._leads.hamiltonians'], requires=lambda c: inv(c, c.this) + sys_req(c), throws=MAY, throw_modifies=SYS + HSYS,
             ensures=lambda c: dict(kept(c), system=Not(isnull(c.this.f['_system'])), matrix=Not(ham_null(c.this._hamiltonian)), leads=is_lead_hams(c, c.this), **coh(c)), ensures_throw=coh),
]

CONTRACTS += [
    Contract(MO + '::Model', select=lambda d: len([p for p in d.get('inner', ()) if p['kind'] == 'ParmVarDecl']) == 1 and 'Lattice' in d['type']['qualType'], modifies=['this'],
             throws=lambda c: reg_fails(c.it, c.a(0)),
             ensures=lambda c: dict(coh(c), empty=And(cleared(c.this), c.this.structure_modifiers.n == 0, c.this._leads.specs.n == 0, Not(c.this.complex_override)),
                                    sites=same_reg(c.this.site_registry, reg_of(c.it, 'site', c.a(0))), hoppings=same_reg(c.this.hopping_registry, reg_of(c.it, 'hopping', c.a(0))))),
]
