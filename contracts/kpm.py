"""KPM: energy scaling, damping kernels, the number of moments and the validation of requests."""
from .common import *
from dv.lib import TRANS

from dv.lib import uf
from dv.lib import Sparse
from .sparse import wf as swf
TYPES = {'Eigen::SparseMatrix<std::complex<double>, 1>': Sparse('std::complex<double>'), 'Eigen::SparseMatrix<std::complex<double>, 1, int>': Sparse('std::complex<double>'), 'cpb::Model': 'opaque', 'cpb::kpm::Core': 'opaque', 'cpb::Chrono': 'opaque', 'cpb::Hamiltonian': 'opaque', 'cpb::System': 'opaque'}
SIN, COS, TAN, SINH = (TRANS[k] for k in ('sin', 'cos', 'tan', 'sinh'))
PI = z3.RealVal('13176795/4194304')     # constant::pi, a float


def trig():
    z = z3.RealVal(0)
    y = z3.Const('y!r', R)
    return [SIN(z) == 0, COS(z) == 1, SINH(z) == 0, z3.ForAll([y], Implies(y != 0, SINH(y) != 0), patterns=[SINH(y)]), z3.ForAll([y], Implies(And(y > 0, y <= PI / 2), TAN(y) != 0), patterns=[TAN(y)])]


def rounded(r, n):
    """the smallest number of moments that is not below the request and leaves a multiple of four after the first two"""
    return dict(least=And(r >= n, r >= 2), multiple=(r - 2) % 4 == 0, close=r < Ite(n > 2, n, Int(2)) + 4)


def jackson(N, n):
    Np = z3.ToReal(N) + 1
    n = z3.ToReal(n)
    return ((Np - n) * COS(PI * n / Np) + SIN(PI * n / Np) / TAN(PI / Np)) / Np


def lorentz(lam, N, n):
    return SINH(lam * (1 - z3.ToReal(n) / z3.ToReal(N))) / SINH(lam)


def formula(f):
    return lambda c: dict(size=c.ret.n == c.a(-1), first=Implies(c.a(-1) > 0, c.ret[0] == 1), formula=forall(0, c.a(-1), lambda n: c.ret[n] == f(c, c.a(-1), n)))


def scale(c, tol):
    lo, hi, a, b = c.a(0), c.a(1), c.this.a, c.this.b
    return dict(positive=a > 0, inside=And(lo - b > -a, hi - b < a), centre=Or(b == (hi + lo) / 2, b == 0))


CONTRACTS = [
    Contract('cpb::kpm::round_num_moments', modifies=[], requires=lambda c: [c.a(0) < 2**62, c.a(0) >= -2**62], loops=[lambda c: dict(n=And(c['n'] >= c.old.a(0), c['n'] >= 2, c['n'] < Ite(c.old.a(0) > 2, c.old.a(0), Int(2)) + 4, forall(c.old.a(0), c['n'], lambda q: (q - 2) % 4 != 0)))],
             ensures=lambda c: rounded(c.ret, c.old.a(0))),
    Contract('cpb::jackson_coefficients', modifies=[], requires=lambda c: trig() + [c.a(0) >= 0, c.a(0) < 2**31], ensures=formula(lambda c, N, n: jackson(N, n))),
    Contract('cpb::lorentz_coefficients', modifies=[], requires=lambda c: trig() + [c.a(1) >= 0, c.a(1) < 2**31, c.a(0) > 0], ensures=formula(lambda c, N, n: lorentz(c.a(0), N, n))),
    Contract('cpb::dirichlet_coefficients', modifies=[], requires=lambda c: [c.a(0) >= 0, c.a(0) < 2**31], ensures=formula(lambda c, N, n: z3.RealVal(1))),
]


# --- requests: checked against the model before anything is computed -----------------------------------------------
def ham(c):
    return uf(c.it, 'hamiltonian of', OPQ, [c.top.this.model])


def rows(c):
    return uf(c.it, 'rows of', I, [ham(c)])


def index(c, i):
    return And(0 <= i, i < rows(c))


def many(c, v):
    return forall(0, v.n, lambda k: index(c, v[k]))


def system_size(c):
    return uf(c.it, 'size of hamiltonian', I, [uf(c.it, 'system of', OPQ, [c.top.this.model])])


def real(c, v, n):
    """no imaginary part (up to the rounding Eigen's isZero allows)"""
    return c.it.lib.all_tiny(n, lambda i: v[i].im)


def scalar_fits(c):
    a, b, op = c.a(1), c.a(2), c.a(3)
    return Or(uf(c.it, 'is complex', B, [c.top.this.model]), And(real(c, a, a.n), real(c, b, b.n), real(c, op.val, op.outer[op.rows])))


def vectors(c):
    n, a, b, op = system_size(c), c.a(1), c.a(2), c.a(3)
    return And(a.n == n, Or(b.n == 0, b.n == n), Or(op.rows * op.cols == 0, And(op.rows == n, op.cols == n)))


GREEN = ['this.core', 'this.calculation_timer']
CONTRACTS += [
    Contract('cpb::Model::hamiltonian', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'hamiltonian of', OPQ, [c.this])),
    Contract('cpb::Hamiltonian::rows', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'rows of', I, [c.this])),
    Contract('cpb::Chrono::tic', trusted=True, modifies=['this']),
    Contract('cpb::Chrono::toc', trusted=True, modifies=['this']),
    # what computing needs: indices inside the matrix
    Contract('cpb::kpm::Core::greens', trusted=True, modifies=['this'], requires=lambda c: [index(c, c.a(0)), index(c, c.a(1))]),
    Contract('cpb::kpm::Core::greens_vector', trusted=True, modifies=['this'], requires=lambda c: [index(c, c.a(0)), many(c, c.a(1))]),
    Contract('cpb::KPM::calc_greens', modifies=GREEN, throw_type='std::logic_error', throw_modifies=[], throws=lambda c: Or(Not(index(c, c.a(0))), Not(index(c, c.a(1))))),
    Contract('cpb::KPM::calc_greens_vector', modifies=GREEN, throw_type='std::logic_error', throw_modifies=[], throws=lambda c: Or(Not(index(c, c.a(0))), Not(many(c, c.a(1))))),
]
CONTRACTS += [
    Contract('cpb::Model::is_complex', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'is complex', B, [c.this])),
    Contract('cpb::System::hamiltonian_size', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'size of hamiltonian', I, [c.this])),
    Contract('cpb::Model::system', trusted=True, modifies=[], returns=lambda c: uf(c.it, 'system of', OPQ, [c.this])),
    Contract('cpb::kpm::Core::moments', trusted=True, modifies=['this'], requires=lambda c: [vectors(c), scalar_fits(c)]),
    Contract('cpb::KPM::moments', modifies=GREEN, throw_type='std::runtime_error', throw_modifies=[], requires=lambda c: swf(c.a(3)),
             throws=lambda c: Not(And(vectors(c), scalar_fits(c)))),
]
for t in ('double', 'float'):
    CONTRACTS += [
        Contract('cpb::kpm::Scale<%s>::Scale' % t, select=lambda d: len([p for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl']) == 2, modifies=['this'],
                 requires=lambda c: [c.a(0) < c.a(1)], ensures=lambda c: scale(c, 0)),
        Contract('cpb::kpm::Scale<%s>::operator()' % t, modifies=[], requires=lambda c: [c.this.a > 0],
                 ensures=lambda c: dict(size=c.ret.n == c.a(0).n, scaled=forall(0, c.a(0).n, lambda i: c.ret[i] * c.this.a + c.this.b == c.a(0)[i]))),
    ]


def wanted(num):
    """enough moments for the broadening, rounded up"""
    def f(c):
        x = num(c) / c.a(-1)
        return dict(enough=z3.ToReal(c.ret) > x, **rounded(c.ret, z3.ToInt(x) + 1))
    return f


def damped(c):
    m, m0 = c.a(0), c.old.a(0)
    return dict(size=m.n == m0.n)


CONTRACTS += [
    Contract('cpb::jackson_moments', modifies=[], requires=lambda c: [c.a(0) > 0, PI / c.a(0) < 2**60], ensures=wanted(lambda c: PI)),
    Contract('cpb::dirichlet_moments', modifies=[], requires=lambda c: [c.a(0) > 0, PI / c.a(0) < 2**60], ensures=wanted(lambda c: PI)),
    Contract('cpb::lorentz_moments', modifies=[], requires=lambda c: [c.a(0) > 0, c.a(1) > 0, c.a(0) / c.a(1) < 2**60], ensures=wanted(lambda c: c.a(0))),
    Contract('cpb::kpm::lorentz_kernel', modifies=[], throws=lambda c: c.a(0) <= 0, throw_type='std::invalid_argument', use_at_calls=False),
]
