"""Shapes: construction rules and the `contains` functions (system/Shape.*)."""
from .common import *
from .helpers import ref, cref


def pos(c):
    return [ref(c.a(0), k) for k in 'xyz']


def close(a, b):
    """num::approx_equal for single precision"""
    d, m = a - b, a + b
    d, m = Ite(d >= 0, d, -d), Ite(m >= 0, m, -m)
    return Or(d <= z3.Q(1, 2**23) * m, d <= z3.Q(1, 2**126))


def crosses(c, p):
    """array over the sides: 1 where the ray to the left of position p crosses side i (vertices i and i-1)"""
    xs, ys, n = c.this.x, c.this.y, c.this.x.n
    px, py = pos(c)[0][p], pos(c)[1][p]

    def f(i):
        j = Ite(i == 0, n - 1, i - 1)
        k = (xs[j] - xs[i]) / (ys[j] - ys[i])
        return Ite(And(Not(close(ys[i], ys[j])), (ys[i] > py) != (ys[j] > py), px > k * (py - ys[i]) + xs[i]), Int(1), Int(0))
    return arr(c, f)


def odd(k):
    return k % 2 == 1


def dot(c, p):
    a, b = c.a(0), c.a(1)
    return sum((at(a, i) - at(b, i)) * (pos3(c)[i][p] - at(b, i)) for i in range(3))


def between(c, p):
    a, b = c.a(0), c.a(1)
    return And(sum((at(a, i) - at(b, i)) * (pos3(c)[i][p] - at(b, i)) for i in range(3)) >= 0,
               sum((at(b, i) - at(a, i)) * (pos3(c)[i][p] - at(a, i)) for i in range(3)) >= 0)


def ends_apart(c, p):
    a, b = c.a(0), c.a(1)
    return And(Or([at(a, i) != at(b, i) for i in range(3)]), Or([pos3(c)[i][p] != at(b, i) for i in range(3)]), Or([pos3(c)[i][p] != at(a, i) for i in range(3)]))


def pos3(c):
    return [ref(c.a(2), k) for k in 'xyz']


def apart(c, p):
    """neither of the two lines of the angle is a point"""
    a, b = c.a(0), c.a(1)
    return And(Or([at(a, i) != at(b, i) for i in range(3)]), Or([pos3(c)[i][p] != at(b, i) for i in range(3)]))


def corners(c):
    """the eight corners of a box of the given width around the center"""
    return And([c.ret.n == 8] + [at(c.ret[i], k) == at(c.a(1), k) + at(c.a(0), k) * z3.Q(1 if i >> k & 1 else -1, 2) for i in range(8) for k in range(3)])


CONTRACTS = [
    Contract('cpb::Primitive::Primitive', modifies=['this'], throws=lambda c: Or(c.a(0) <= 0, c.a(1) <= 0, c.a(2) <= 0), throw_type='std::logic_error',
             ensures=lambda c: dict(size=And([at(c.this.size, i) == c.a(i) for i in range(3)]))),
    Contract('cpb::detail::WithinPolygon::WithinPolygon', requires=lambda c: [c.a(0).n >= 0], select=lambda d: 'Vertices' in d['type']['qualType'],
             ensures=lambda c: dict(size=And(c.this.x.n == c.a(0).n, c.this.y.n == c.a(0).n),
                                    vertices=forall(0, c.a(0).n, lambda i: And(c.this.x[i] == at(c.a(0)[i], 0), c.this.y[i] == at(c.a(0)[i], 1)))),
             loops=[lambda c: dict(filled=forall(0, c.k, lambda i: And(c.this.x[i] == at(c.a(0)[i], 0), c.this.y[i] == at(c.a(0)[i], 1))), size=And(c.this.x.n == c.a(0).n, c.this.y.n == c.a(0).n))]),
    Contract('cpb::detail::WithinPolygon::operator()', modifies=[], requires=lambda c: cref(c.a(0)) + [c.this.x.n == c.this.y.n, c.this.x.n >= 0, c.this.x.n < 2**31],
             loops=[lambda c: dict(at=And(0 <= c.k, c['j'] == Ite(c.k == 0, c.this.x.n - 1, c.k - 1)), size=c['is_within'].n == pos(c)[0].n,
                                   parity=forall(0, pos(c)[0].n, lambda p: c['is_within'][p] == odd(PS(crosses(c, p), c.k))))],
             ensures=lambda c: dict(size=c.ret.n == pos(c)[0].n,
                                    inside=forall(0, pos(c)[0].n, lambda p: c.ret[p] == odd(PS(crosses(c, p), c.this.x.n))))),
    Contract('cpb::detail::is_acute_angle', modifies=[], requires=lambda c: cref(c.a(2)),
             steps=lambda c: dict(lengths=forall(0, c.ret.n, lambda p: Implies(apart(c, p), And(c['ba_length'] > 0, c['bc_length'][p] > 0))),
                                 product=forall(0, c.ret.n, lambda p: Implies(apart(c, p), c['ba_length'] * c['bc_length'][p] > 0)),
                                 cosine=forall(0, c.ret.n, lambda p: Implies(apart(c, p), c['cos_theta'][p] * (c['ba_length'] * c['bc_length'][p]) == dot(c, p))),
                                 sign=forall(0, c.ret.n, lambda p: Implies(apart(c, p), (c['cos_theta'][p] >= 0) == (dot(c, p) >= 0)))),
             ensures=lambda c: dict(size=c.ret.n == ref(c.a(2), 'x').n,
                                    acute=forall(0, c.ret.n, lambda p: Implies(apart(c, p), c.ret[p] == (dot(c, p) >= 0))))),
    Contract('cpb::Shape::Shape', select=lambda d: 'Vertices' in d['type']['qualType'], requires=lambda c: [c.a(0).n >= 0],
             throws=lambda c: c.a(0).n < 2, throw_type='std::logic_error',
             ensures=lambda c: dict(vertices=same(c.this.vertices, c.a(0)))),
    Contract('cpb::freeform_vertices', modifies=[],
             ensures=lambda c: dict(corners=corners(c))),
    Contract('cpb::within_line', modifies=[], requires=lambda c: cref(c.a(2)),
             ensures=lambda c: dict(size=c.ret.n == ref(c.a(2), 'x').n,
                                    between=forall(0, c.ret.n, lambda p: Implies(ends_apart(c, p), c.ret[p] == between(c, p))))),
]
