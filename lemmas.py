"""The lemmas the solver is given as facts, each proved here by induction (base case and step) on every run."""
import time
import z3
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
And, Or, Not, Implies, ForAll = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll


def sums(S):
    """prefix sums: F(a, n) = a[0] + ... + a[n-1]"""
    A = z3.ArraySort(I, S)
    F = z3.Function('F', A, I, S)
    a, b = z3.Consts('a b', A)
    n, i, p = z3.Ints('n i p')
    v = z3.Const('v', S)
    j = z3.Int('j')
    zero = z3.IntVal(0) if S == I else z3.RealVal(0)
    unfold = lambda x, k: F(x, k) == z3.If(k <= 0, zero, F(x, k - 1) + x[k - 1])      # the definition
    st = z3.Store(a, i, v)
    upd = lambda k: F(st, k) == F(a, k) + z3.If(And(0 <= i, i < k), v - a[i], zero)
    nonneg = lambda k: Implies(ForAll([j], Implies(And(0 <= j, j < k), a[j] >= 0)), F(a, k) >= 0)
    mono = lambda k: Implies(ForAll([j], Implies(And(p < j, j < k), a[j] >= 0)), F(a, p) + a[p] <= F(a, k))
    same = lambda k: Implies(ForAll([j], Implies(And(0 <= j, j < k), a[j] == b[j])), F(a, k) == F(b, k))
    t = str(S)
    yield 'sum-update-base ' + t, [n <= 0, unfold(st, n), unfold(a, n)], upd(n)
    yield 'sum-update-step ' + t, [n >= 0, upd(n), unfold(st, n + 1), unfold(a, n + 1)], upd(n + 1)
    yield 'sum-nonnegative-base ' + t, [n <= 0, unfold(a, n)], nonneg(n)
    yield 'sum-nonnegative-step ' + t, [n >= 0, nonneg(n), unfold(a, n + 1)], nonneg(n + 1)
    yield 'sum-monotone-base ' + t, [p >= 0, unfold(a, p + 1)], mono(p + 1)
    yield 'sum-monotone-step ' + t, [p >= 0, n > p, mono(n), unfold(a, n + 1)], mono(n + 1)
    yield 'sum-equal-base ' + t, [n <= 0, unfold(a, n), unfold(b, n)], same(n)
    yield 'sum-equal-step ' + t, [n >= 0, same(n), unfold(a, n + 1), unfold(b, n + 1)], same(n + 1)


def pigeonhole():
    A = z3.ArraySort(I, I)
    q, m = z3.Consts('q m', A)
    n, N, k, i = z3.Ints('n N k i')
    inj = lambda q, m, n, N: ForAll([k], Implies(And(0 <= k, k < n), And(0 <= q[k], q[k] < N, m[q[k]] == k)))
    # for all q, m, n: an injection of n indices into N indices has n <= N; induction on N
    yield 'pigeonhole-base', [n >= 0, inj(q, m, n, z3.IntVal(0))], n <= 0
    # step: when N is in the image, the last index takes its place
    last = q[n - 1]
    q2, m2 = z3.Store(q, m[N], last), z3.Store(m, last, m[N])
    yield 'pigeonhole-step-unused', [n >= 0, N >= 0, inj(q, m, n, N + 1), ForAll([k], Implies(And(0 <= k, k < n), q[k] != N))], inj(q, m, n, N)
    yield 'pigeonhole-step-used', [n >= 1, N >= 0, inj(q, m, n, N + 1), 0 <= m[N], m[N] < n, q[m[N]] == N], inj(q2, m2, n - 1, N)
    yield 'pigeonhole-step-cases', [n >= 0, N >= 0, inj(q, m, n, N + 1), Not(ForAll([k], Implies(And(0 <= k, k < n), q[k] != N)))], And(n >= 1, 0 <= m[N], m[N] < n, q[m[N]] == N)
    # an index without preimage can be added
    yield 'pigeonhole-room', [n >= 0, N >= 0, inj(q, m, n, N), 0 <= i, i < N, m[i] < 0], inj(z3.Store(q, n, i), z3.Store(m, i, n), n + 1, N)


LEMMAS = dict(sums=lambda: list(sums(I)) + list(sums(R)), pigeonhole=lambda: list(pigeonhole()))


def prove(name, timeout=20):
    out = []
    for label, hyps, goal in LEMMAS[name]():
        s = z3.Solver()
        s.set('timeout', timeout * 1000)
        t0 = time.time()
        s.add(*hyps, Not(goal))
        r = s.check()
        out.append(dict(name='lemma:' + label, line=None, status='proved' if r == z3.unsat else str(r), backend='z3', time=round(time.time() - t0, 3), cover=None, goal=None if r == z3.unsat else str(goal)[:400], model=None))
    return out


if __name__ == '__main__':
    for n in LEMMAS:
        for o in prove(n):
            print(o['name'], o['status'], o['time'])
