"""Leads (leads/*): direction, slice of the junction, numbering of the lead sites."""
from .common import *
from dv.lib import uf
from .foundation import fwf, lattice_wf, dims

LD = 'cpb::leads'


def bound(it, s, l, k, side):
    """lattice coordinates of the box around a shape"""
    return uf(it, 'bound %d %d' % (k, side), z3.IntSort(), [s.vertices, l.vectors])


def rng(v, k):
    return at(v.data, k)


def lattice(c):
    return c.deref(c.a(0).f['lattice'])


def low(f, k):
    return at(f.bounds.f['first'], k)


CONTRACTS = [
    Contract(LD + '::Spec::Spec', modifies=['this'], requires=lambda c: [c.a(0) != 0, c.a(0) >= -3, c.a(0) <= 3],
             ensures=lambda c: dict(axis=And(c.this.axis >= 0, c.this.axis < 3), direction=c.a(0) == c.this.sign * (c.this.axis + 1), sign=Or(c.this.sign == 1, c.this.sign == -1))),
    Contract(LD + '::Structure::lead_index', modifies=[],
             ensures=lambda c: dict(missing=Implies(forall(0, c.this.indices.n, lambda i: c.this.indices[i] != c.a(0)), c.ret == -1),
                                    first=Implies(exists(0, c.this.indices.n, lambda i: c.this.indices[i] == c.a(0)), And(
                                        0 <= c.ret, c.ret < c.this.indices.n, c.this.indices[c.ret] == c.a(0), forall(0, c.ret, lambda i: c.this.indices[i] != c.a(0)))))),
    Contract('cpb::detail::find_bounds', modifies=[], trusted=True,
             ensures=lambda c: dict(**{'lo%d' % k: And(at(c.ret.f['first'], k) == bound(c.it, c.a(0), c.a(1), k, 0), -2**29 < at(c.ret.f['first'], k), at(c.ret.f['first'], k) < 2**29) for k in range(3)},
                                    **{'hi%d' % k: And(at(c.ret.f['second'], k) == bound(c.it, c.a(0), c.a(1), k, 1), -2**29 < at(c.ret.f['second'], k), at(c.ret.f['second'], k) < 2**29) for k in range(3)})),
    Contract(LD + '::detail::shape_slice', modifies=[], requires=lambda c: fwf(c.a(0)) + [And(-2**29 < low(c.a(0), k), low(c.a(0), k) < 2**29) for k in range(3)], loops=[None],
             ensures=lambda c: {'direction%d' % k: (lambda lo, hi: And(
                 rng(c.ret, k).start == Ite(lo >= 0, lo, Int(0)), rng(c.ret, k).end == Ite(hi + 1 <= dims(c.a(0))[k], hi + 1, dims(c.a(0))[k])))(
                     bound(c.it, c.a(1), lattice(c), k, 0) - low(c.a(0), k), bound(c.it, c.a(1), lattice(c), k, 1) - low(c.a(0), k)) for k in range(3)}),
]
