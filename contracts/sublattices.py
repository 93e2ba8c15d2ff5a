"""CompressedSublattices: run-length encoded sublattice ids (system/CompressedSublattices.*)."""
from .common import *

CS = 'cpb::CompressedSublattices'


def blocks(v):
    """data of a CompressedSublattices value"""
    return v.data


def ids(v):
    return v.data.leaf("id", *list(v.data.e.f["id"].f)[:1])


def nsites(v):
    return v.data.leaf('num_sites')


def norbs(v):
    return v.data.leaf('num_orbitals')


def wf(v):
    return [forall(0, v.data.n, lambda i: nsites(v)[i] >= 0), v.data.n >= 0]


def starts(v, i):
    return PS(nsites(v), i)


CONTRACTS = [
    Contract(CS + '::add', modifies=['this.data'],
             requires=lambda c: [c.a(2) >= 0],
             ensures=lambda c: dict(
                 last_matches=And(c.this.data.n > 0),
                 block_count=c.this.data.n == If(And(c.old.this.data.n > 0, ids(c.old.this)[c.old.this.data.n - 1] == idv(c.a(0))),
                                                  c.old.this.data.n, c.old.this.data.n + 1),
                 prefix_kept=forall(0, c.this.data.n - 1, lambda i: same(c.this.data[i], c.old.this.data[i])),
                 last_id=ids(c.this)[c.this.data.n - 1] == idv(c.a(0)),
                 last_count=nsites(c.this)[c.this.data.n - 1] == c.a(2) + If(
                     c.this.data.n == c.old.this.data.n, nsites(c.old.this)[c.this.data.n - 1], 0),
                 last_orb=norbs(c.this)[c.this.data.n - 1] == If(
                     c.this.data.n == c.old.this.data.n, norbs(c.old.this)[c.this.data.n - 1], c.a(1)),
                 total=PS(nsites(c.this), c.this.data.n) == PS(nsites(c.old.this), c.old.this.data.n) + c.a(2),
             )),
    Contract(CS + '::decompressed_size', modifies=[],
             ensures=lambda c: dict(sum=c.ret == PS(nsites(c.this), c.this.data.n))),
    Contract(CS + '::decompressed', modifies=[],
             requires=lambda c: wf(c.this),
             loops=[lambda c: dict(filled=forall(0, c.k, lambda b: forall(
                 starts(c.this, b), starts(c.this, b + 1), lambda i: c['sublattices'][i] == ids(c.this)[b])),
                 size=c['sublattices'].n == PS(nsites(c.this), c.this.data.n))],
             ensures=lambda c: dict(
                 size=c.ret.n == PS(nsites(c.this), c.this.data.n),
                 ids=forall(0, c.this.data.n, lambda b: forall(
                     starts(c.this, b), starts(c.this, b + 1), lambda i: c.ret[i] == ids(c.this)[b])))),
    Contract(CS + '::filter', modifies=['this.data'],
             requires=lambda c: wf(c.this) + [c.a(0).n == PS(nsites(c.this), c.this.data.n)],
             loops=[None, lambda c: (lambda kp: dict(
                 counts=forall(0, c.k, lambda b: nsites(c.this)[b] == PS(kp, starts(c.old.this, b + 1)) - PS(kp, starts(c.old.this, b))),
                 total=PS(nsites(c.this), c.k) == PS(kp, starts(c.old.this, c.k)),
                 rest=And(c.this.data.n == c.old.this.data.n, forall(0, c.this.data.n, lambda b: And(ids(c.this)[b] == ids(c.old.this)[b], norbs(c.this)[b] == norbs(c.old.this)[b])))))(arr(c, lambda j: c.a(0)[j]))],
             ensures=lambda c: dict(
                 ids_kept=And(c.this.data.n == c.old.this.data.n, forall(0, c.this.data.n, lambda b: And(
                     ids(c.this)[b] == ids(c.old.this)[b], norbs(c.this)[b] == norbs(c.old.this)[b]))),
                 counts=(lambda kp: forall(0, c.this.data.n, lambda b: nsites(c.this)[b] ==
                        PS(kp, starts(c.old.this, b + 1)) - PS(kp, starts(c.old.this, b))))(
                            arr(c, lambda j: c.a(0)[j])),
                 total=PS(nsites(c.this), c.this.data.n) == PS(arr(c, lambda j: c.a(0)[j]), c.a(0).n),
             )),
    Contract(CS + '::start_index', modifies=[],
             requires=lambda c: wf(c.this),
             throws=lambda c: forall(0, c.this.data.n, lambda b: norbs(c.this)[b] != c.a(0)),
             ensures=lambda c: dict(first=exists(0, c.this.data.n, lambda b: And(
                 norbs(c.this)[b] == c.a(0), c.ret == starts(c.this, b),
                 forall(0, b, lambda q: norbs(c.this)[q] != c.a(0)))))),
    Contract(CS + '::verify', modifies=[],
             requires=lambda c: wf(c.this),
             throws=lambda c: Not(And(PS(nsites(c.this), c.this.data.n) == c.a(0),
                                      forall2(0, c.this.data.n, lambda i, j: ids(c.this)[i] != ids(c.this)[j]),
                                      forall2(0, c.this.data.n, lambda i, j: norbs(c.this)[i] <= norbs(c.this)[j])))),
]


def idv(s):
    return s.f['id'] if isinstance(s, S) and 'id' in s.f else (s.f['value'] if isinstance(s, S) and 'value' in s.f else
                                                               list(s.f.values())[0] if isinstance(s, S) else s)
for nm in ('alias_ids', 'site_counts', 'orbital_counts'):
    fld = {'alias_ids': ids, 'site_counts': nsites, 'orbital_counts': norbs}[nm]
    CONTRACTS.append(Contract(CS + '::' + nm, modifies=[], ensures=lambda c, fld=fld: dict(
        size=c.ret.n == c.this.data.n, vals=forall(0, c.ret.n, lambda i: c.ret[i] == fld(c.this)[i]))))
CONTRACTS.append(Contract(CS + '::CompressedSublattices', select=lambda d: len([x for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl']) == 3,
    requires=lambda c: [c.a(0).n == c.a(1).n, c.a(0).n == c.a(2).n, c.a(0).n >= 0],
    ensures=lambda c: dict(size=c.this.data.n == c.a(0).n,
                           runs=forall(0, c.a(0).n, lambda i: And(ids(c.this)[i] == c.a(0)[i], nsites(c.this)[i] == c.a(1)[i],
                                                                  norbs(c.this)[i] == c.a(2)[i])))))
