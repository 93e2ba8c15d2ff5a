"""Lattice: the definitions it accepts and how it reports them (Lattice.*)."""
from .common import *
from dv.lib import uf, flat_leaves
from .registry import wf as rwf, onsite_ok, CONTRACTS as REG, SITE, HOP, blank, same_energy, zero_mat
from .registry import RG, MAXINT

LA = 'cpb::Lattice'
TYPES = {}
QUOTED = "__anonymous__{}"


def value(x):
    return x._value if isinstance(x, S) else x


MARK = z3.Function('id in use', I, I)       # always 0: only there to tell the solver which ids matter


def marks():
    x = qv()
    return [z3.ForAll([x], MARK(x) == 0, patterns=[MARK(x)])]


# --- what is always true of a lattice -----------------------------------------------------------------------------------
def ids(m, get):
    """entries have distinct names, and distinct ids which count from zero"""
    i, j = qv(), qv()
    return [m.n >= 0, m.n < MAXINT,
            z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < m.n), And(m[i].first != m[j].first, get(m[i]) != get(m[j])))),
            forall(0, m.n, lambda i: And(0 <= get(m[i]), get(m[i]) < m.n)),
            forall(0, m.n, lambda x: Implies(MARK(x) == 0, Or(get(m[m.n - 1]) == x, exists(0, m.n, lambda i: get(m[i]) == x))), MARK)]


def uid(p):
    return value(p.second.unique_id)


def aid(p):
    return value(p.second.alias_id)


def fid(p):
    return value(p.second.family_id)


def subs_wf(s):
    return ids(s, uid) + [forall(0, s.n, lambda i: And(s[i].second.energy.rows == s[i].second.energy.cols, s[i].second.energy.rows > 0)),
                          forall(0, s.n, lambda i: exists(0, s.n, lambda j: And(uid(s[j]) == aid(s[i]), aid(s[j]) == aid(s[i]))))]


def rel(t):
    return fvals(t.relative_index)


def term_ok(t, n):
    return And(MARK(value(t.f['from'])) == 0, MARK(value(t.to)) == 0, 0 <= value(t.f['from']), value(t.f['from']) < n, 0 <= value(t.to), value(t.to) < n, Or(value(t.f['from']) != value(t.to), *[x != 0 for x in rel(t)]))


def terms(h, f):
    return h[f].second.terms


def hops_wf(h, nsub):
    f, k = qv(), qv()
    return ids(h, fid) + [forall(0, h.n, lambda i: And(h[i].second.energy.rows > 0, h[i].second.energy.cols > 0, terms(h, i).n >= 0)),
                          z3.ForAll([f, k], Implies(And(0 <= f, f < h.n, 0 <= k, k < terms(h, f).n), term_ok(terms(h, f)[k], nsub)))]


def wf(l):
    return marks() + subs_wf(l.sublattices) + hops_wf(l.hoppings, l.sublattices.n) + [l.vectors.n >= 1, l.vectors.n <= 3]


def named(m, s):
    return exists(0, m.n, lambda i: m[i].first == s)


def entry_same(a, i, b, j):
    return And([x == y for x, y in zip(flat_leaves_of(a[i]), flat_leaves_of(b[j]))])


def flat_leaves_of(v):
    return [x for _, x in leaves(v)]


def frozen(c, *names):
    return And([same(c.this.f[n], c.old.this.f[n]) for n in names])


SUB = ['vectors', 'sublattices', 'hoppings', 'offset', 'min_neighbors']


def invariant(fs):
    return {'inv%d' % i: f for i, f in enumerate(fs)}


# --- sublattices --------------------------------------------------------------------------------------------------------
def stored(c, m, e):
    """the matrix m is the Hermitian matrix whose upper triangle is that of e"""
    i, j = qv(), qv()
    return And(m.rows == e.rows, m.cols == e.rows,
               z3.ForAll([i, j], Implies(And(0 <= i, i < e.rows, 0 <= j, j < e.rows),
                                         And(m.d.re[i][j] == Ite(i <= j, e.d.re[i][j], e.d.re[j][i]), m.d.im[i][j] == Ite(i <= j, e.d.im[i][j], -e.d.im[j][i])))))


def vec_same(a, b):
    return And([x == y for x, y in zip(fvals(a), fvals(b))])


def appended(c, position, alias):
    """exactly one sublattice was added, with the next id"""
    s, o = c.this.sublattices, c.old.this.sublattices
    n = o.n
    return dict(size=s.n == n + 1, name=s[n].first == c.a(0), id=uid(s[n]) == n, alias=aid(s[n]) == alias, position=vec_same(s[n].second.position, position),
                kept=forall(0, n, lambda i: entry_same(s, i, o, i)), **invariant(subs_wf(s)))


def unchanged(c):
    return dict(unchanged=frozen(c, *SUB))


def scalar_energy(c, m, v):
    return And(m.rows == 1, m.cols == 1, m.d.re[0][0] == v, m.d.im[0][0] == 0)


def name_taken(c, s):
    return Or(s == blank(c), named(c.this.sublattices, s))


def sub_at(c):
    return c.this.sublattices[c.old.this.sublattices.n].second


def add_sublattice(kind):
    def throws(c):
        e = c.a(2)
        bad = Not(onsite_ok(c, e)) if kind == 'Matrix' else (e.n == 0 if kind == 'Vector' else z3.BoolVal(False))
        return Or(name_taken(c, c.a(0)), bad)

    def ensures(c):
        e, m = c.a(2), sub_at(c).energy
        d = appended(c, c.a(1), c.old.this.sublattices.n)
        if kind == 'Matrix':
            d['energy'] = stored(c, m, e)
        elif kind == 'Vector':
            i, j = qv(), qv()
            d['energy'] = And(m.rows == e.n, m.cols == e.n, z3.ForAll([i, j], Implies(And(0 <= i, i < e.n, 0 <= j, j < e.n), And(m.d.re[i][j] == Ite(i == j, e[i], z3.RealVal(0)), m.d.im[i][j] == 0))))
        else:
            d['energy'] = scalar_energy(c, m, e)
        return d
    sel_ = {'Matrix': lambda d: 'MatrixXcd' in d['type']['qualType'] or 'Matrix<std::complex' in d['type']['qualType'],
            'Vector': lambda d: 'VectorXd' in d['type']['qualType'], 'scalar': lambda d: d['type']['qualType'].rstrip(')').endswith('double') or 'Cartesian, double' in d['type']['qualType']}[kind]
    return Contract(LA + '::add_sublattice', select=sel_, name=LA + '::add_sublattice(%s)' % kind, modifies=['this.sublattices'], throw_modifies=[],
                    requires=lambda c: wf(c.this) + [c.this.sublattices.n + 1 < MAXINT] + ([c.a(2).rows >= 0, c.a(2).cols >= 0] if kind == 'Matrix' else [c.a(2).n >= 0] if kind == 'Vector' else []),
                    throws=throws, ensures=ensures, ensures_throw=unchanged)


def original(c):
    """index of the sublattice with the given name"""
    s = c.old.this.sublattices
    i = qv()
    return lambda fn: exists(0, s.n, lambda i: And(s[i].first == c.a(1), fn(s[i])))


def add_alias():
    def ensures(c):
        n = c.old.this.sublattices.n
        s = c.this.sublattices
        d = appended(c, c.a(2), aid(s[n]))
        d['original'] = original(c)(lambda o: And(aid(s[n]) == aid(o), same(s[n].second.energy.rows, o.second.energy.rows), energy_same(s[n].second.energy, o.second.energy)))
        return d
    return Contract(LA + '::add_alias', modifies=['this.sublattices'], throw_modifies=[], requires=lambda c: wf(c.this) + [c.this.sublattices.n + 1 < MAXINT],
                    throws=lambda c: Or(name_taken(c, c.a(0)), Not(named(c.this.sublattices, c.a(1)))), ensures=ensures, ensures_throw=unchanged)


def energy_same(a, b):
    return And(a.rows == b.rows, a.cols == b.cols, a.d.re == b.d.re, a.d.im == b.d.im)


# --- hoppings -----------------------------------------------------------------------------------------------------------
def register(kind):
    def throws(c):
        e = c.a(1)
        return Or(c.a(0) == blank(c), named(c.this.hoppings, c.a(0)), Or(e.rows == 0, e.cols == 0) if kind == 'Matrix' else False)

    def ensures(c):
        h, o = c.this.hoppings, c.old.this.hoppings
        n, e = o.n, c.a(1)
        m = h[n].second.energy
        return dict(size=h.n == n + 1, name=h[n].first == c.a(0), id=fid(h[n]) == n, terms=terms(h, n).n == 0, kept=forall(0, n, lambda i: family_same(h, i, o, i)), **invariant(hops_wf(h, c.this.sublattices.n)),
                    energy=mat_same(m, e) if kind == 'Matrix' else And(m.rows == 1, m.cols == 1, m.d.re[0][0] == e.re, m.d.im[0][0] == e.im))
    return Contract(LA + '::register_hopping_energy', select=(lambda d: 'Matrix' in d['type']['qualType']) if kind == 'Matrix' else (lambda d: 'Matrix' not in d['type']['qualType']),
                    name=LA + '::register_hopping_energy(%s)' % kind, modifies=['this.hoppings'], throw_modifies=[],
                    requires=lambda c: wf(c.this) + [c.this.hoppings.n + 1 < MAXINT] + ([c.a(1).rows >= 0, c.a(1).cols >= 0] if kind == 'Matrix' else []), throws=throws, ensures=ensures, ensures_throw=unchanged)


def mat_same(a, b):
    i, j = qv(), qv()
    return And(a.rows == b.rows, a.cols == b.cols, z3.ForAll([i, j], Implies(And(0 <= i, i < a.rows, 0 <= j, j < a.cols), And(a.d.re[i][j] == b.d.re[i][j], a.d.im[i][j] == b.d.im[i][j]))))


def term_same(a, b):
    return And([x == y for x, y in zip(rel(a), rel(b))] + [value(a.f['from']) == value(b.f['from']), value(a.to) == value(b.to)])


def term_opposite(a, b):
    return And([x == -y for x, y in zip(rel(a), rel(b))] + [value(a.f['from']) == value(b.to), value(a.to) == value(b.f['from'])])


def family_same(a, i, b, j):
    return And(a[i].first == b[j].first, fid(a[i]) == fid(b[j]), energy_same(a[i].second.energy, b[j].second.energy), terms(a, i).n == terms(b, j).n,
               forall(0, terms(b, j).n, lambda k: term_same(terms(a, i)[k], terms(b, j)[k])))


def lookup(name, m, get, by_id):
    """the entry with the given name or id"""
    def mine(c, p):
        return (get(p) == value(c.a(0))) if by_id else (p.first == c.a(0))

    def ensures(c):
        s = c.this.f[m]
        return dict(entry=exists(0, s.n, lambda i: And(mine(c, s[i]), And([x == y for x, y in zip(flat_leaves_of(s[i].second), flat_leaves_of(c.deref(c.ret) if not isinstance(c.ret, S) else c.ret))]))))
    return Contract(LA + '::' + name, select=(lambda d: 'ID' in d['type']['qualType'].split('(')[1]) if by_id else (lambda d: 'ID' not in d['type']['qualType'].split('(')[1]),
                    name=LA + '::%s(%s)' % (name, 'id' if by_id else 'name'), modifies=[], requires=lambda c: wf(c.this),
                    throws=lambda c: Not(exists(0, c.this.f[m].n, lambda i: mine(c, c.this.f[m][i]))), ensures=ensures)



def anonymous(it, n):
    return uf(it, 'format', STR, [it.lib.strlit(QUOTED), n])


# a hopping from sublattice i to sublattice j in family f
def connects(c, t, i, j):
    s = c.old.this.sublattices
    return And([x == y for x, y in zip(rel(t), fvals(c.a(0)))] + [value(t.f['from']) == uid(s[i]), value(t.to) == uid(s[j])])


def candidate(c, i, j):
    s = c.old.this.sublattices
    return S('cpb::Lattice::HoppingTerm', {'relative_index': c.a(0), 'from': s[i].second.unique_id, 'to': s[j].second.unique_id})


def is_new(h, t):
    f, k = qv(), qv()
    return z3.ForAll([f, k], Implies(And(0 <= f, f < h.n, 0 <= k, k < terms(h, f).n), Not(Or(term_same(t, terms(h, f)[k]), term_opposite(t, terms(h, f)[k])))))


def accepted(c, energy):
    """the hopping is valid for a matrix of this shape"""
    s, h = c.old.this.sublattices, c.old.this.hoppings
    i, j = qv(), qv()
    ok = And(Not(And(c.a(1) == c.a(2), *[x == 0 for x in fvals(c.a(0))])), s[i].second.energy.rows == energy.rows, s[j].second.energy.cols == energy.cols, is_new(h, candidate(c, i, j)))
    return z3.Exists([i, j], And(0 <= i, i < s.n, 0 <= j, j < s.n, s[i].first == c.a(1), s[j].first == c.a(2), ok))


def family_grown(c, g, f):
    """family g of the new table is family f of the old one with the new hopping at its end"""
    s, h, o = c.old.this.sublattices, c.this.hoppings, c.old.this.hoppings
    t = terms(h, g)
    i, j = qv(), qv()
    return And(h[g].first == o[f].first, fid(h[g]) == fid(o[f]), energy_same(h[g].second.energy, o[f].second.energy), t.n == terms(o, f).n + 1, forall(0, terms(o, f).n, lambda k: term_same(t[k], terms(o, f)[k])),
               z3.Exists([i, j], And(0 <= i, i < s.n, 0 <= j, j < s.n, s[i].first == c.a(1), s[j].first == c.a(2), term_same(t[terms(o, f).n], candidate(c, i, j)))))


def hopping_common(c):
    return wf(c.this) + [forall(0, c.this.hoppings.n, lambda f: terms(c.this.hoppings, f).n < MAXINT)]


def add_hopping_named():
    def throws(c):
        h = c.old.this.hoppings
        return Not(exists(0, h.n, lambda f: And(h[f].first == c.a(3), accepted(c, h[f].second.energy))))

    def ensures(c):
        h, o = c.this.hoppings, c.old.this.hoppings
        return dict(size=h.n == o.n, added=forall(0, o.n, lambda f: Implies(o[f].first == c.a(3), family_grown(c, f, f))),
                    others=forall(0, o.n, lambda f: Implies(o[f].first != c.a(3), family_same(h, f, o, f))), **invariant(hops_wf(h, c.this.sublattices.n)))

    def seen(c, fams, k=None):
        h = c.top.this.hoppings
        t = c.top['candidate']
        f, q = qv(), qv()
        before = And(0 <= f, f < h.n, 0 <= q, q < terms(h, f).n, Or(f < fams, And(f == fams, q < k)) if k is not None else f < fams)
        return dict(new=z3.ForAll([f, q], Implies(before, Not(Or(term_same(t, terms(h, f)[q]), term_opposite(t, terms(h, f)[q]))))))
    return Contract(LA + '::add_hopping', select=lambda d: d['type']['qualType'].count('string_view') == 3 or d['type']['qualType'].split('(')[1].count('string') == 3, name=LA + '::add_hopping(name)',
                    modifies=['this.hoppings'], throw_modifies=[], requires=hopping_common, throws=throws, ensures=ensures, ensures_throw=unchanged,
                    loops=[lambda c: seen(c, c.k), lambda c: seen(c, c.ks[0], c.k)])



def matrix_of(c, kind):
    """the energy a hopping is given, as a matrix"""
    e = c.a(3)
    if kind == 'Matrix':
        return e
    z = lambda x: defarr(z3.ArraySort(I, R), lambda i: defarr(R, lambda j: x))
    return S('mat', {'rows': Int(1), 'cols': Int(1), 'd': S('complex', {'re': z(e.re), 'im': z(e.im)})})


def add_hopping_anonymous(kind):
    def eq(c, m):
        if kind == 'Matrix':
            return mat_same(m, c.a(3))
        return And(m.rows == 1, m.cols == 1, m.d.re[0][0] == c.a(3).re, m.d.im[0][0] == c.a(3).im)

    def shape(c):
        return S('mat', {'rows': c.a(3).rows, 'cols': c.a(3).cols, 'd': None}) if kind == 'Matrix' else S('mat', {'rows': Int(1), 'cols': Int(1), 'd': None})

    def known(c):
        h = c.old.this.hoppings
        return exists(0, h.n, lambda f: eq(c, h[f].second.energy))

    def fresh_name(c):
        return anonymous(c.it, c.old.this.hoppings.n)

    def throws(c):
        h = c.old.this.hoppings
        e = shape(c)
        bad = Or(e.rows == 0, e.cols == 0, named(h, fresh_name(c)))
        return Or(Not(accepted(c, e)), And(Not(known(c)), bad))

    def ensures(c):
        h, o = c.this.hoppings, c.old.this.hoppings
        n = o.n
        i, j = qv(), qv()
        s = c.old.this.sublattices
        first = And(h.n == n + 1, h[n].first == fresh_name(c), fid(h[n]) == n, eq(c, h[n].second.energy), terms(h, n).n == 1,
                    z3.Exists([i, j], And(0 <= i, i < s.n, 0 <= j, j < s.n, s[i].first == c.a(1), s[j].first == c.a(2), term_same(terms(h, n)[0], candidate(c, i, j)))),
                    forall(0, n, lambda f: family_same(h, f, o, f)))
        f, g = qv(), qv()
        there = And(h.n == n, z3.Exists([f], And(0 <= f, f < n, eq(c, o[f].second.energy), family_grown(c, f, f), z3.ForAll([g], Implies(And(0 <= g, g < n, g != f), family_same(h, g, o, g))))))
        return dict(known=Implies(known(c), there), new=Implies(Not(known(c)), first), **invariant(hops_wf(h, c.this.sublattices.n)))

    def unchanged_families(c):
        h, o = c.this.hoppings, c.old.this.hoppings
        return dict(size=h.n == o.n, kept=forall(0, o.n, lambda f: family_same(h, f, o, f)), rest=frozen(c, 'vectors', 'sublattices', 'offset', 'min_neighbors'))
    return Contract(LA + '::add_hopping', select=lambda d: d['type']['qualType'].count('string_view') == 2 and (('Matrix' in d['type']['qualType']) == (kind == 'Matrix')), name=LA + '::add_hopping(%s)' % kind,
                    modifies=['this.hoppings'], requires=lambda c: hopping_common(c) + [c.this.hoppings.n + 1 < MAXINT] + ([c.a(3).rows >= 0, c.a(3).cols >= 0] if kind == 'Matrix' else []),
                    throws=throws, ensures=ensures, ensures_throw=unchanged_families)



# --- queries ------------------------------------------------------------------------------------------------------------
def any_sub(c, fn):
    s = c.this.sublattices
    return exists(0, s.n, lambda i: fn(s[i].second.energy))


def diagonal_zero(c, m):
    return forall(0, m.rows, lambda i: c.it.lib.tiny(sel(sel(m.d, i), i)))


def unit_position(l, index, extra):
    """origin of a unit cell plus the position of a sublattice"""
    out = []
    for x in range(3):
        t = fvals(l.offset)[x]
        for d in range(3):
            t = t + Ite(l.vectors.n > d, z3.ToReal(fvals(index)[d]) * fvals(l.vectors[d])[x], z3.RealVal(0))
        out.append(t + extra[x])
    return out


def partial_position(c):
    l, idx, p = c.this, c.a(0), fvals(c['position'])
    d = {}
    for n in range(4):
        want = []
        for x in range(3):
            t = fvals(l.offset)[x]
            for q in range(n):
                t = t + z3.ToReal(fvals(idx)[q]) * fvals(l.vectors[q])[x]
            want.append(t)
        d['after%d' % n] = Implies(c.k == n, And([u == v for u, v in zip(p, want)]))
    return d


def calc_position():
    def ensures(c):
        s, l = c.this.sublattices, c.this
        z = [z3.RealVal(0)] * 3
        cell = Implies(c.a(1) == blank(c), And([u == v for u, v in zip(fvals(c.ret), unit_position(l, c.a(0), z))]))
        site = Implies(c.a(1) != blank(c), exists(0, s.n, lambda i: And(s[i].first == c.a(1), *[u == v for u, v in zip(fvals(c.ret), unit_position(l, c.a(0), fvals(s[i].second.position)))])))
        return dict(cell=cell, site=site)
    return Contract(LA + '::calc_position', modifies=[], requires=lambda c: wf(c.this), throws=lambda c: And(c.a(1) != blank(c), Not(named(c.this.sublattices, c.a(1)))), ensures=ensures, loops=[partial_position])


def translated(it, vectors, p):
    return mkfix([uf(it, 'translate %d' % i, R, [vectors, p]) for i in range(3)])


def too_far(c):
    t = fvals(translated(c.it, c.this.vectors, c.a(0)))
    lim = z3.RealVal(LIMIT)
    return Or([Or(x > lim, -x > lim) for x in t])


LIMIT = '0.550000011920928955078125'       # the float 0.55f


def same_lattice(a, b, *skip):
    return And([same(a.f[n], b.f[n]) for n in SUB if n not in skip])


def canonical(p):
    return aid(p) == uid(p)


def num_unique(c):
    """number of sublattices which are not aliases"""
    s = c.this.sublattices
    return PS(defarr(I, lambda i: Ite(canonical(s[i]), Int(1), Int(0))), s.n)


def site_registry():
    def fits(c, j):
        s = c.this.sublattices
        return Implies(canonical(s[j]), uid(s[j]) < num_unique(c))

    def entry(c, reg, j):
        s = c.this.sublattices
        return Implies(canonical(s[j]), listed(reg, uid(s[j]), s[j]))

    def inv(c):
        reg = S('t', {'names': c['names'], 'energies': c['energies']})
        n = num_unique(c.top)
        return dict(size=And(reg.names.n == n, reg.energies.n == n), fits=forall(0, c.k, lambda j: fits(c.top, j)), entries=forall(0, c.k, lambda j: entry(c.top, reg, j)))
    return Contract(LA + '::site_registry', modifies=[], requires=lambda c: wf(c.this), throws=lambda c: Not(forall(0, c.this.sublattices.n, lambda j: fits(c, j))),
                    ensures=lambda c: dict(size=And(c.ret.names.n == num_unique(c), c.ret.energies.n == num_unique(c)), entries=forall(0, c.this.sublattices.n, lambda j: entry(c, c.ret, j))), loops=[inv])


QUERIES = [
    calc_position(), site_registry(),
    Contract(LA + '::translate_coordinates', trusted=True, modifies=[], returns=lambda c: translated(c.it, c.this.vectors, c.a(0))),
    Contract(LA + '::set_offset', modifies=['this.offset'], throw_modifies=[], requires=lambda c: wf(c.this), throws=too_far, ensures=lambda c: dict(offset=vec_same(c.this.offset, c.a(0))), ensures_throw=unchanged),
    Contract(LA + '::with_offset', modifies=[], requires=lambda c: wf(c.this), throws=too_far, ensures=lambda c: dict(offset=vec_same(c.ret.offset, c.a(0)), rest=same_lattice(c.ret, c.this, 'offset'))),
    Contract(LA + '::with_min_neighbors', modifies=[], requires=lambda c: wf(c.this), ensures=lambda c: dict(number=c.ret.min_neighbors == c.a(0), rest=same_lattice(c.ret, c.this, 'min_neighbors'))),
    Contract(LA + '::has_diagonal_terms', modifies=[], requires=lambda c: wf(c.this), ensures=lambda c: dict(iff=c.ret == any_sub(c, lambda m: Not(diagonal_zero(c, m))))),
    Contract(LA + '::has_onsite_energy', modifies=[], requires=lambda c: wf(c.this), ensures=lambda c: dict(iff=c.ret == any_sub(c, lambda m: Not(zero_mat(c, m))))),
    Contract(LA + '::make_unique_sublattice_id', modifies=[], requires=lambda c: wf(c.this), throws=lambda c: name_taken(c, c.a(0)), ensures=lambda c: dict(next=value(c.ret) == c.this.sublattices.n)),
    Contract(LA + '::hopping_registry', modifies=[], requires=lambda c: wf(c.this), ensures=lambda c: dict(size=And(c.ret.names.n == c.this.hoppings.n, c.ret.energies.n == c.this.hoppings.n),
             entries=forall(0, c.this.hoppings.n, lambda f: listed(c.ret, fid(c.this.hoppings[f]), c.this.hoppings[f]))),
             loops=[lambda c: dict(size=And(c['names'].n == c.this.hoppings.n, c['energies'].n == c.this.hoppings.n),
                                   entries=forall(0, c.k, lambda f: listed(S('t', {'names': c['names'], 'energies': c['energies']}), fid(c.this.hoppings[f]), c.this.hoppings[f])))]),
]


def listed(reg, id, pair):
    return And(reg.names[id] == pair.first, energy_same(reg.energies[id], pair.second.energy))


# --- the optimised unit cell --------------------------------------------------------------------------------------------
def describes(site, sub):
    d = sub.second
    return And(value(site.unique_id) == uid(sub), value(site.alias_id) == aid(sub), site.norb == d.energy.cols, vec_same(site.position, d.position))


def cell_sites(s, subs):
    """one site for every sublattice, ordered by the number of orbitals and then by alias"""
    a, b = qv(), qv()
    pair = And(0 <= a, a < b, b < s.n)
    return dict(size=s.n == subs.n, described=forall(0, s.n, lambda a: exists(0, subs.n, lambda i: describes(s[a], subs[i]))), all=forall(0, subs.n, lambda i: exists(0, s.n, lambda a: describes(s[a], subs[i]))),
                unique=z3.ForAll([a, b], Implies(pair, value(s[a].unique_id) != value(s[b].unique_id))),
                sorted=z3.ForAll([a, b], Implies(pair, Or(s[a].norb < s[b].norb, And(s[a].norb == s[b].norb, value(s[a].alias_id) <= value(s[b].alias_id))))))


def is_hop(h, t, to, fam, conj):
    return And([x == (-y if conj else y) for x, y in zip(rel(h), rel(t))] + [h.to_sub_idx == to, value(h.family_id) == fam, h.is_conjugate == conj])


def done(h, f, k, fams, nterms):
    rng = And(0 <= f, f < h.n, 0 <= k, k < terms(h, f).n)
    return And(rng, f < fams) if nterms is None else And(rng, Or(f < fams, And(f == fams, k < nterms)))


def cell_hoppings(s, h, fams, nterms=None):
    """every term is known from both of its ends, and nothing else is"""
    d = {}
    for name, conj in (('forward', False), ('conjugate', True)):
        f, k, a, b = qv(), qv(), qv(), qv()
        t = terms(h, f)[k]
        here, there = value(t.to if conj else t.f['from']), value(t.f['from'] if conj else t.to)
        d['complete_' + name] = z3.ForAll([f, k, a, b], Implies(And(done(h, f, k, fams, nterms), 0 <= a, a < s.n, 0 <= b, b < s.n, value(s[a].unique_id) == here, value(s[b].unique_id) == there),
                                                               exists(0, s[a].hoppings.n, lambda q: is_hop(s[a].hoppings[q], t, b, fid(h[f]), conj))))
        a, q, f, k = qv(), qv(), qv(), qv()
        x, t = s[a].hoppings[q], terms(h, f)[k]
        here, there = value(t.to if conj else t.f['from']), value(t.f['from'] if conj else t.to)
        d['origin_' + name] = z3.ForAll([a, q], Implies(And(0 <= a, a < s.n, 0 <= q, q < s[a].hoppings.n, x.is_conjugate == conj), And(0 <= x.to_sub_idx, x.to_sub_idx < s.n, z3.Exists([f, k],
            And(done(h, f, k, fams, nterms), is_hop(x, t, x.to_sub_idx, fid(h[f]), conj), value(s[a].unique_id) == here, value(s[x.to_sub_idx].unique_id) == there)))))
    return d


def unit_cell():
    def populate(c):
        s, subs = c.top.this.sites, c.top.a(0).sublattices
        return dict(size=s.n == subs.n, empty=forall(0, s.n, lambda a: And(MARK(a) == 0, s[a].hoppings.n == 0)),
                    placed=forall(0, c.k, lambda i: describes(s[uid(subs[i])], subs[i])),
                    filled=forall(0, s.n, lambda a: Implies(MARK(a) == 0, exists(0, subs.n, lambda i: And(uid(subs[i]) == a, Implies(i < c.k, And(value(s[a].unique_id) == a, describes(s[a], subs[i]))))))))

    def families(c):
        s, l = c.top.this.sites, c.top.a(0)
        return dict(cell_sites(s, l.sublattices), **cell_hoppings(s, l.hoppings, c.k))

    def each(c):
        s, l = c.top.this.sites, c.top.a(0)
        d = dict(cell_sites(s, l.sublattices))
        a, b = qv(), qv()
        for name, conj in (('forward', False), ('conjugate', True)):
            t = terms(l.hoppings, c.ks[0])[c.k - 1]
            here, there = value(t.to if conj else t.f['from']), value(t.f['from'] if conj else t.to)
            n = s[a].hoppings.n
            last = lambda m: And(n >= m, is_hop(s[a].hoppings[n - m], t, b, fid(l.hoppings[c.ks[0]]), conj))
            d['step:' + name] = z3.ForAll([a, b], Implies(And(c.k > 0, 0 <= a, a < s.n, 0 <= b, b < s.n, value(s[a].unique_id) == here, value(s[b].unique_id) == there), Or(last(1), last(2))))
        if c.prev is not None:
            p = c.prev.top.this.sites
            a, q = qv(), qv()
            x, y = s[a].hoppings, p[a].hoppings
            same_hop = [u == v for (_, u), (_, v) in zip(leaves(x[q]), leaves(y[q]))]
            d['step:kept'] = z3.ForAll([a, q], Implies(And(0 <= a, a < s.n, 0 <= q, q < y.n), And(x.n >= y.n, *same_hop)), patterns=[u for _, u in leaves(y[q])])
            for n, f in cell_hoppings(s, l.hoppings, c.ks[0], c.k - 1).items():
                if 'complete' in n:
                    d['step:earlier_' + n] = f
        return dict(d, **cell_hoppings(s, l.hoppings, c.ks[0], c.k))

    def ensures(c):
        s, l = c.this.sites, c.a(0)
        return dict(cell_sites(s, l.sublattices), **cell_hoppings(s, l.hoppings, l.hoppings.n))
    return Contract('cpb::OptimizedUnitCell::OptimizedUnitCell', select=lambda d: not d.get('isImplicit') and 'Lattice' in d['type']['qualType'], requires=lambda c: wf(c.a(0)), ensures=ensures, loops=[populate, families, each], bounds=True, heavy=7)


CELL = [unit_cell()]


def term_count(l, s, f):
    """scalar hoppings of sublattice s in the terms of family f, one after the other"""
    h, u = l.hoppings, uid(l.sublattices[s])
    e = h[f].second.energy
    return lambda k: Ite(value(terms(h, f)[k].f['from']) == u, e.cols, Int(0)) + Ite(value(terms(h, f)[k].to) == u, e.rows, Int(0))


def general(fn, *xs):
    """the array fn(*xs) as an instance of the same named array for all arguments"""
    qs = [qv() for _ in xs]
    return z3.substitute(fn(*qs), *zip(qs, [x if z3.is_expr(x) else Int(x) for x in xs]))


def term_counts(l, s, f):
    return general(lambda a, b: defarr(I, term_count(l, a, b)), s, f)


def family_count(l, s):
    return general(lambda a: defarr(I, lambda f: PS(term_counts(l, a, f), terms(l.hoppings, f).n)), s)


def scalar_hoppings(l, s):
    return l.sublattices[s].second.energy.cols - 1 + PS(family_count(l, s), l.hoppings.n)


def max_hoppings():
    def is_max(c, r, n):
        l = c.top.this if hasattr(c, 'top') and c.k is not None else c.this
        return dict(upper=forall(0, n, lambda s: scalar_hoppings(l, s) <= r), reached=Or(r == 0, exists(0, n, lambda s: scalar_hoppings(l, s) == r)), positive=r >= 0)

    def subs(c):
        return is_max(c, c.top['result'], c.k)

    def fams(c):
        l, s = c.top.this, c.ks[0]
        return dict(is_max(c, c.top['result'], s), count=c.top['num_scalar_hoppings'] == l.sublattices[s].second.energy.cols - 1 + PS(family_count(l, s), c.k))

    def each(c):
        l, s, f = c.top.this, c.ks[0], c.ks[1]
        return dict(is_max(c, c.top['result'], s), count=c.top['num_scalar_hoppings'] == l.sublattices[s].second.energy.cols - 1 + PS(family_count(l, s), f) + PS(term_counts(l, s, f), c.k))
    return Contract(LA + '::max_hoppings', modifies=[], requires=lambda c: wf(c.this), ensures=lambda c: is_max(c, c.ret, c.this.sublattices.n), loops=[subs, fams, each])


def new_lattice():
    def ensures(c):
        v = c.this.vectors
        z = lambda x: And([c.it.lib.tiny(y) for y in fvals(x)])
        a, b, d = c.a(0), c.a(1), c.a(2)
        n = Ite(z(b), Int(1), Int(2))
        return dict(first=vec_same(v[0], a), second=Implies(Not(z(b)), vec_same(v[1], b)), third=Implies(Not(z(d)), vec_same(v[n], d)), size=v.n == n + Ite(z(d), Int(0), Int(1)),
                    empty=And(c.this.sublattices.n == 0, c.this.hoppings.n == 0, c.this.min_neighbors == 1, *[x == 0 for x in fvals(c.this.offset)]))
    return Contract(LA + '::Lattice', select=lambda d: not d.get('isImplicit') and d['type']['qualType'].count('Cartesian') == 3, ensures=ensures)


CONTRACTS = REG + [add_sublattice(k) for k in ('Matrix', 'Vector', 'scalar')] + [add_alias()] + [register('Matrix'), register('scalar')] + \
    [lookup('sublattice', 'sublattices', uid, True), lookup('sublattice', 'sublattices', uid, False), lookup('hopping_family', 'hoppings', fid, True), lookup('hopping_family', 'hoppings', fid, False)] + \
    [add_hopping_named(), add_hopping_anonymous('Matrix'), add_hopping_anonymous('scalar')] + QUERIES + CELL + [max_hoppings(), new_lattice()]
