"""HoppingBlocks: COO blocks of bonds by family (system/HoppingBlocks.*)."""
from .common import *

HB = 'cpb::HoppingBlocks'


def rows(v):
    """row indices, by block and position"""
    return v.blocks.e.e.f['row']


def cols(v):
    return v.blocks.e.e.f['col']


def sizes(v):
    return v.blocks.e.n


def wf(v):
    b, i = qv(), qv()
    return [v.num_sites >= 0, v.blocks.n >= 0,
            forall(0, v.blocks.n, lambda b: v.blocks.e.n[b] >= 0),
            z3.ForAll([b, i], Implies(And(0 <= b, b < v.blocks.n, 0 <= i, i < sizes(v)[b]),
                                      And(0 <= rows(v)[b][i], rows(v)[b][i] < v.num_sites,
                                          0 <= cols(v)[b][i], cols(v)[b][i] < v.num_sites)))]


def ends_at(v, b, s):
    """array over the bonds of block b: how many of the two ends are site s"""
    return arr(None, lambda i: If(rows(v)[b][i] == s, 1, 0) + If(cols(v)[b][i] == s, 1, 0))


def deg(v, s, nb=None):
    """number of bond ends at site s in the first nb blocks"""
    return PS(arr(None, lambda b: PS(ends_at(v, b, s), sizes(v)[b])), v.blocks.n if nb is None else nb)


CONTRACTS = [
    Contract(HB + '::nnz', modifies=[], requires=lambda c: wf(c.this),
             ensures=lambda c: dict(total=c.ret == PS(sizes(c.this), c.this.blocks.n))),
    Contract(HB + '::add', modifies=['this.blocks'], requires=lambda c: wf(c.this) + [0 <= c.a(0)._value, c.a(0)._value < c.this.blocks.n],
             ensures=lambda c: dict(
                 blocks=c.this.blocks.n == c.old.this.blocks.n,
                 size=sizes(c.this)[fam(c)] == sizes(c.old.this)[fam(c)] + 1,
                 last=And(rows(c.this)[fam(c)][sizes(c.old.this)[fam(c)]] == c.a(1), cols(c.this)[fam(c)][sizes(c.old.this)[fam(c)]] == c.a(2)),
                 kept=forall(0, sizes(c.old.this)[fam(c)], lambda i: And(rows(c.this)[fam(c)][i] == rows(c.old.this)[fam(c)][i],
                                                                         cols(c.this)[fam(c)][i] == cols(c.old.this)[fam(c)][i])),
                 others=forall(0, c.this.blocks.n, lambda b: Implies(b != fam(c), And(
                     sizes(c.this)[b] == sizes(c.old.this)[b], rows(c.this)[b] == rows(c.old.this)[b],
                     cols(c.this)[b] == cols(c.old.this)[b]))))),
    Contract(HB + '::count_neighbors', modifies=[], requires=lambda c: wf(c.this),
             loops=[lambda c: dict(n=c['counts'].n == c.this.num_sites,
                                   deg=forall(0, c.this.num_sites, lambda s: c['counts'][s] == deg(c.this, s, c.k))),
                    lambda c: dict(n=c['counts'].n == c.this.num_sites,
                                   deg=forall(0, c.this.num_sites, lambda s: c['counts'][s] == deg(c.this, s, c.ks[-1]) +
                                              PS(ends_at(c.this, c.ks[-1], s), c.k)))],
             ensures=lambda c: dict(size=c.ret.n == c.this.num_sites,
                                    deg=forall(0, c.this.num_sites, lambda s: c.ret[s] == deg(c.this, s)))),
]




def fam(c):
    return c.a(0)._value


def keep01(c):
    return arr(None, lambda s: If(c.a(0)[s], 1, 0))


def kept(c, b):
    """array over the old bonds of block b: 1 if both ends are kept"""
    o = c.old.this
    return arr(None, lambda i: If(And(c.a(0)[rows(o)[b][i]], c.a(0)[cols(o)[b][i]]), 1, 0))


def filtered(c, b):
    """block b is the renumbered sequence of kept bonds"""
    o = c.old.this
    kp, nw = kept(c, b), keep01(c)
    return And(sizes(c.this)[b] == PS(kp, sizes(o)[b]),
               forall(0, sizes(o)[b], lambda i: Implies(kp[i] == 1, And(
                   rows(c.this)[b][PS(kp, i)] == PS(nw, rows(o)[b][i]),
                   cols(c.this)[b][PS(kp, i)] == PS(nw, cols(o)[b][i])))))


def only_kept(c, b):
    """every bond of block b is a bond which was kept"""
    o = c.old.this
    kp, nw = kept(c, b), keep01(c)
    return forall(0, sizes(c.this)[b], lambda j: exists(0, sizes(o)[b], lambda i: And(c.a(0)[rows(o)[b][i]], c.a(0)[cols(o)[b][i]], rows(c.this)[b][j] == PS(nw, rows(o)[b][i]), cols(c.this)[b][j] == PS(nw, cols(o)[b][i]))))


def last_block(c):
    if c.prev is None:
        return {}
    b, v = z3.simplify(c.k - 1), c.this
    o, t = c.old.this, c['new_index']
    R, C = rows(v)[b], cols(v)[b]
    nw = keep01(c)
    # the renumbering table at both ends of every bond, then the bond's origin
    table = forall(0, sizes(o)[b], lambda i: And(t[rows(o)[b][i]] == PS(nw, rows(o)[b][i]), t[cols(o)[b][i]] == PS(nw, cols(o)[b][i])))
    return {'step:table': table, 'step:only': only_kept(c, b), 'step:in_range': forall(0, sizes(v)[b], lambda i: And(0 <= rows(v)[b][i], rows(v)[b][i] < v.num_sites, 0 <= cols(v)[b][i], cols(v)[b][i] < v.num_sites))}


def within(v, nb):
    b, i = qv(), qv()
    return And(forall(0, nb, lambda b: sizes(v)[b] >= 0),
               z3.ForAll([b, i], Implies(And(0 <= b, b < nb, 0 <= i, i < sizes(v)[b]), And(0 <= rows(v)[b][i], rows(v)[b][i] < v.num_sites, 0 <= cols(v)[b][i], cols(v)[b][i] < v.num_sites))))


def unchanged(c, b):
    return And(sizes(c.this)[b] == sizes(c.old.this)[b], rows(c.this)[b] == rows(c.old.this)[b], cols(c.this)[b] == cols(c.old.this)[b])


CONTRACTS += [
    Contract(HB + '::filter', modifies=['this'], requires=lambda c: wf(c.this) + [c.a(0).n == c.this.num_sites],
             loops=[lambda c: dict(n=c['new_index'].n == c.a(0).n, count=And(c['count'] == PS(keep01(c), c.k), c['count'] >= 0),
                                   index=forall(0, c.k, lambda i: c['new_index'][i] == PS(keep01(c), i)),
                                   in_range=forall(0, c.k, lambda i: And(0 <= c['new_index'][i], Implies(c.a(0)[i], c['new_index'][i] < c['count'])))),
                    lambda c: dict(last_block(c), done=forall(0, c.k, lambda b: filtered(c, b)), only=forall(0, c.k, lambda b: only_kept(c, b)), in_range=within(c.this, c.k), sites=And(c.this.num_sites == PS(keep01(c), c.a(0).n), c.this.num_sites >= 0),
                                   count=c.this.blocks.n == c.old.this.blocks.n,
                                   rest=forall(c.k, c.this.blocks.n, lambda b: unchanged(c, b))),
                    None],
             ensures=lambda c: dict(sites=c.this.num_sites == PS(keep01(c), c.a(0).n),
                                    blocks=c.this.blocks.n == c.old.this.blocks.n,
                                    bonds=forall(0, c.this.blocks.n, lambda b: filtered(c, b)),
                                    only=forall(0, c.this.blocks.n, lambda b: only_kept(c, b)),
                                    in_range=And(c.this.num_sites >= 0, within(c.this, c.this.blocks.n)))),
]


def data_wf(d):
    """serialized blocks: every pair holds two arrays of the same length"""
    return [d.n >= 0, forall(0, d.n, lambda b: And(d.e.f['first'].n[b] >= 0, d.e.f['first'].n[b] == d.e.f['second'].n[b]))]


def same_block(v, b, d):
    return And(sizes(v)[b] == d.e.f['first'].n[b], forall(0, sizes(v)[b], lambda i: And(
        rows(v)[b][i] == d.e.f['first'].e[b][i], cols(v)[b][i] == d.e.f['second'].e[b][i])))


CONTRACTS += [
    Contract(HB + '::HoppingBlocks', select=lambda d: len([x for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl']) == 3,
             requires=lambda c: data_wf(c.a(1)),
             loops=[lambda c: dict(n=c.this.blocks.n == c.k, done=forall(0, c.k, lambda b: same_block(c.this, b, c.a(1)))),
                    lambda c: dict(n=c['block'].n == c.a(1).e.f['first'].n[c.ks[-1]],
                                   got=forall(0, c.k, lambda i: And(c['block'][i].row == c.a(1).e.f['first'].e[c.ks[-1]][i],
                                                                    c['block'][i].col == c.a(1).e.f['second'].e[c.ks[-1]][i])))],
             ensures=lambda c: dict(sites=c.this.num_sites == c.a(0), blocks=c.this.blocks.n == c.a(1).n,
                                    bonds=forall(0, c.a(1).n, lambda b: same_block(c.this, b, c.a(1))))),
    Contract(HB + '::get_serialized_blocks', modifies=[], requires=lambda c: wf(c.this),
             loops=[lambda c: dict(n=c['data'].n == c.k, done=forall(0, c.k, lambda b: same_block(c.this, b, c['data']))),
                    lambda c: dict(n=And(c['row'].n == sizes(c.this)[c.ks[-1]], c['col'].n == sizes(c.this)[c.ks[-1]], c['n'] == c.k),
                                   got=forall(0, c.k, lambda i: And(rows(c.this)[c.ks[-1]][i] == c['row'][i],
                                                                    cols(c.this)[c.ks[-1]][i] == c['col'][i])))],
             ensures=lambda c: dict(n=c.ret.n == c.this.blocks.n, bonds=forall(0, c.this.blocks.n, lambda b: And(
                 c.ret.e.f['first'].n[b] == c.ret.e.f['second'].n[b], same_block(c.this, b, c.ret))))),
    Contract(HB + '::add_sites', modifies=['this.num_sites'], ensures=lambda c: dict(n=c.this.num_sites == c.old.this.num_sites + c.a(0))),
    Contract(HB + '::reserve', modifies=[], requires=lambda c: wf(c.this) + [c.a(0).n <= c.this.blocks.n, forall(0, c.a(0).n, lambda i: c.a(0)[i] >= 0)],
             loops=[lambda c: dict()]),
]


def bad_indices(c):
    n = c.this.num_sites
    out = lambda a: exists(0, a.n, lambda i: Or(a[i] < 0, a[i] >= n))
    return Or(c.a(1).n != c.a(2).n, out(c.a(1)), out(c.a(2)))


def is_bond(c, r, k, i):
    lo, hi = If(c.a(1)[i] > c.a(2)[i], c.a(2)[i], c.a(1)[i]), If(c.a(1)[i] > c.a(2)[i], c.a(1)[i], c.a(2)[i])
    return And(r == lo, k == hi)


def app_ens(c):
    f = fam(c)
    R, C, N = rows(c.this)[f], cols(c.this)[f], sizes(c.this)[f]
    R0, C0, N0 = rows(c.old.this)[f], cols(c.old.this)[f], sizes(c.old.this)[f]
    return dict(
        blocks=c.this.blocks.n == c.old.this.blocks.n,
        ascending=forall2(0, N, lambda i, j: Or(R[i] < R[j], And(R[i] == R[j], C[i] < C[j]))),
        kept=forall(0, N0, lambda i: exists(0, N, lambda j: And(R[j] == R0[i], C[j] == C0[i]))),
        added=forall(0, c.a(1).n, lambda i: exists(0, N, lambda j: is_bond(c, R[j], C[j], i))),
        nothing_else=forall(0, N, lambda j: Or(exists(0, N0, lambda i: And(R[j] == R0[i], C[j] == C0[i])),
                                               exists(0, c.a(1).n, lambda i: is_bond(c, R[j], C[j], i)))),
        others=forall(0, c.this.blocks.n, lambda b: Implies(b != f, unchanged(c, b))))


CONTRACTS += [
    Contract(HB + '::append', modifies=['this.blocks'],
             requires=lambda c: wf(c.this) + [c.a(1).n >= 0, c.a(2).n >= 0, 0 <= fam(c), fam(c) < c.this.blocks.n],
             throws=bad_indices,
             loops=[lambda c: dict(
                 n=sizes(c.this)[fam(c)] == sizes(c.old.this)[fam(c)] + c.k,
                 old=forall(0, sizes(c.old.this)[fam(c)], lambda i: And(rows(c.this)[fam(c)][i] == rows(c.old.this)[fam(c)][i],
                                                                        cols(c.this)[fam(c)][i] == cols(c.old.this)[fam(c)][i])),
                 new=forall(0, c.k, lambda i: is_bond(c, rows(c.this)[fam(c)][sizes(c.old.this)[fam(c)] + i],
                                                      cols(c.this)[fam(c)][sizes(c.old.this)[fam(c)] + i], i)),
                 new_at=forall(sizes(c.old.this)[fam(c)], sizes(c.this)[fam(c)], lambda j: is_bond(
                     c, rows(c.this)[fam(c)][j], cols(c.this)[fam(c)][j], j - sizes(c.old.this)[fam(c)])),
                 others=forall(0, c.this.blocks.n, lambda b: Implies(b != fam(c), unchanged(c, b))))],
             ensures=app_ens),
]
