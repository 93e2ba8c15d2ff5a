"""Slicing, concatenation and range helpers (numeric/dense.hpp, detail/algorithm.hpp, detail/slice.hpp)."""
from .common import *

DA = 'cpb::CartesianArray'
SL = 'cpb::Sliced<std::vector<int>>'
SI = 'cpb::SliceIndex'


def keep(c):
    return arr(c, lambda j: c.a(1)[j])


def ptypes(d):
    return [p['type']['qualType'] for p in d.get('inner', []) if p['kind'] == 'ParmVarDecl']


def int32(*xs):
    return [And(-2**30 < x, x < 2**30) for x in xs]


def vecs(v):
    return [v.x, v.y, v.z]


def cart(v, n=None):
    r = [v.x.n == v.y.n, v.x.n == v.z.n, v.x.n >= 0]
    return r


def ref(v, k):
    return getattr(v, k + '_ref')


def cref(v):
    return [v.x_ref.n == v.y_ref.n, v.x_ref.n == v.z_ref.n, v.x_ref.n >= 0]


def view(fn, const):
    lo = (lambda c: c.a(0)) if fn == 'segment' else (lambda c: Int(0))
    n = (lambda c: c.a(1)) if fn == 'segment' else (lambda c: c.a(0))
    return Contract(DA + '::' + fn, modifies=[], name=DA + '::' + fn + (' const' if const else ''),
                    select=lambda d: ('const' in d['type']['qualType'].split(')')[1]) == const,
                    requires=lambda c: cart(c.this) + [0 <= lo(c), 0 <= n(c), lo(c) + n(c) <= c.this.x.n],
                    ensures=lambda c: dict([(k, And(c.deref(ref(c.ret, k)).n == n(c), forall(0, n(c), lambda i: c.deref(ref(c.ret, k))[i] == getattr(c.this, k)[lo(c) + i]))) for k in 'xyz']))


def shift(op, sgn):
    return Contract(SI + '::operator' + op, modifies=['this.start', 'this.end'], select=lambda d: len(ptypes(d)) == 1,
                    requires=lambda c: int32(c.this.start, c.this.end, c.a(0)),
                    ensures=lambda c: dict(shifted=And(c.this.start == c.old.this.start + sgn * c.a(0), c.this.end == c.old.this.end + sgn * c.a(0))))


def step(op, sgn):
    return [Contract(SI + '::operator' + op, modifies=['this.start', 'this.end'], select=lambda d: not ptypes(d), name=SI + '::operator%s (prefix)' % op,
                     requires=lambda c: int32(c.this.start, c.this.end),
                     ensures=lambda c: dict(shifted=And(c.this.start == c.old.this.start + sgn, c.this.end == c.old.this.end + sgn))),
            Contract(SI + '::operator' + op, modifies=['this.start', 'this.end'], select=lambda d: len(ptypes(d)) == 1, name=SI + '::operator%s (postfix)' % op,
                     requires=lambda c: int32(c.this.start, c.this.end),
                     ensures=lambda c: dict(shifted=And(c.this.start == c.old.this.start + sgn, c.this.end == c.old.this.end + sgn),
                                            old=And(c.ret.start == c.old.this.start, c.ret.end == c.old.this.end)))]


CONTRACTS = [
    Contract('cpb::make_integer_range', modifies=[], select=lambda d: 'double' in d['type']['qualType'].split('(')[0], name='cpb::make_integer_range<double>',
             requires=lambda c: [c.a(0) >= 0, c.a(0) < 2**31],
             loops=[lambda c: dict(n=c['result'].n == c.a(0), lo=0 <= c.k, prefix=forall(0, c.k, lambda i: c['result'][i] == z3.ToReal(i)))],
             ensures=lambda c: dict(size=c.ret.n == c.a(0), element=forall(0, c.a(0), lambda i: c.ret[i] == z3.ToReal(i)))),
    Contract(SI + '::size', modifies=[], requires=lambda c: [c.this.end - c.this.start < 2**31, c.this.end - c.this.start >= -2**31],
             ensures=lambda c: dict(count=c.ret == Ite(c.this.end > c.this.start, c.this.end - c.this.start, Int(0)))),
    Contract('cpb::slice', modifies=[], name='cpb::slice<ArrayXf, ArrayXb>',
             requires=lambda c: [c.a(0).n == c.a(1).n, c.a(0).n >= 0, c.a(0).n < 2**31],
             loops=[lambda c: dict(size=c['result'].n == PS(keep(c), c.a(1).n), count=c['count'] == PS(keep(c), c.k),
                                   kept=forall(0, c.k, lambda i: Implies(c.a(1)[i], c['result'][PS(keep(c), i)] == c.a(0)[i])))],
             ensures=lambda c: dict(size=c.ret.n == PS(keep(c), c.a(1).n),
                                    kept=forall(0, c.a(0).n, lambda i: Implies(c.a(1)[i], c.ret[PS(keep(c), i)] == c.a(0)[i])))),
    Contract('cpb::concat', modifies=[], name='cpb::concat<ArrayXf>', select=lambda d: 'Ref<' in d['type']['qualType'],
             requires=lambda c: [c.a(0).n >= 0, c.a(1).n >= 0],
             ensures=lambda c: dict(size=c.ret.n == c.a(0).n + c.a(1).n,
                                    first=forall(0, c.a(0).n, lambda i: c.ret[i] == c.a(0)[i]),
                                    second=forall(0, c.a(1).n, lambda i: c.ret[c.a(0).n + i] == c.a(1)[i]))),
    Contract('cpb::concat', modifies=[], name='cpb::concat(CartesianArray)', select=lambda d: 'CartesianArray ' in d['type']['qualType'],
             requires=lambda c: cref(c.a(0)) + cref(c.a(1)),
             ensures=lambda c: dict([(k, And(getattr(c.ret, k).n == ref(c.a(0), k).n + ref(c.a(1), k).n,
                                         forall(0, ref(c.a(0), k).n, lambda i: getattr(c.ret, k)[i] == ref(c.a(0), k)[i]),
                                         forall(0, ref(c.a(1), k).n, lambda i: getattr(c.ret, k)[ref(c.a(0), k).n + i] == ref(c.a(1), k)[i]))) for k in 'xyz'])),
    view('segment', True), view('head', True), view('segment', False), view('head', False),
    Contract(DA + '::operator[]', modifies=[], name=DA + '::operator[] const', select=lambda d: 'const' in d['type']['qualType'].split(')')[1],
             requires=lambda c: cart(c.this) + [0 <= c.a(0), c.a(0) < c.this.x.n],
             ensures=lambda c: dict(xyz=And([c.ret[i] == getattr(c.this, k)[c.a(0)] for i, k in enumerate('xyz')]))),
    Contract(DA + '::resize', modifies=['this.x', 'this.y', 'this.z'], requires=lambda c: cart(c.this) + [c.a(0) >= 0],
             ensures=lambda c: dict(size=And([getattr(c.this, k).n == c.a(0) for k in 'xyz']))),
    Contract(DA + '::conservativeResize', modifies=['this.x', 'this.y', 'this.z'], requires=lambda c: cart(c.this) + [c.a(0) >= 0],
             ensures=lambda c: dict(size=And([getattr(c.this, k).n == c.a(0) for k in 'xyz']),
                                    kept=And([forall(0, Ite(c.a(0) < c.old.this.x.n, c.a(0), c.old.this.x.n), lambda i, k=k: getattr(c.this, k)[i] == getattr(c.old.this, k)[i]) for k in 'xyz']))),
    shift('+=', 1), shift('-=', -1),
] + step('++', 1) + step('--', -1) + [

    Contract('cpb::SliceIndexND<3>::size', modifies=[], requires=lambda c: [And(0 <= x, x < 1000) for i in range(3) for x in (side(c, i).start, side(c, i).end)],
             ensures=lambda c: dict(product=c.ret == width(side(c, 0)) * width(side(c, 1)) * width(side(c, 2)))),
    Contract('cpb::arrayref', modifies=[], name='cpb::arrayref(vector&)', select=lambda d: 'vector' in d['type']['qualType'] and 'const' not in d['type']['qualType'],
             requires=lambda c: [c.a(0).n >= 0, c.a(0).n < 2**31],
             ensures=lambda c: dict(one=And(c.ret.ndim == 1, at(c.ret.shape, 0) == c.a(0).n))),
    Contract('cpb::visit_slices', modifies=['arg2', 'arg3'],
             requires=lambda c: [c.a(1) >= 1, c.a(1) < 2**31, c.a(2).n == 0, c.a(3).n == 0, c.a(0).n >= 0, c.a(0).n < 2**31],
             loops=[lambda c: slices_inv(c, c['__begin1'].f['it'].idx, c.k),
                    lambda c: dict(at=And(c['s'].f['it'].idx <= c['it'].idx, c['it'].idx <= c['s'].f['it'].idx + c.a(1), c['it'].idx <= c.a(0).n),
                                   n=c.a(2).n == c['it'].idx, copied=forall(0, c['it'].idx, lambda i: c.a(2)[i] == c.a(0)[i]))],
             ensures=lambda c: dict(every_element_once=And(c.a(2).n == c.a(0).n, forall(0, c.a(0).n, lambda i: c.a(2)[i] == c.a(0)[i])),
                                    no_empty_slice=forall(0, c.a(3).n, lambda i: And(1 <= c.a(3)[i], c.a(3)[i] <= c.a(1))),
                                    only_last_shorter=forall(0, c.a(3).n - 1, lambda i: c.a(3)[i] == c.a(1)))),
]


def side(c, i):
    return c.this.data[i]


def width(s):
    return Ite(s.end > s.start, s.end - s.start, Int(0))


def slices_inv(c, b, k):
    n, step, el, sz = c.a(0).n, c.a(1), c.a(2), c.a(3)
    return dict(at=And(0 <= b, b <= n), visited=el.n == b, copied=forall(0, b, lambda i: el[i] == c.a(0)[i]), count=sz.n == k,
                sizes=forall(0, k, lambda i: And(1 <= sz[i], sz[i] <= step)), full=forall(0, k - 1, lambda i: sz[i] == step),
                last=Implies(And(b < n, k > 0), sz[k - 1] == step))
