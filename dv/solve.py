"""Discharging obligations: z3 (several configurations), then cvc5."""
import itertools
import z3, time, subprocess, os, multiprocessing as mp, tempfile
from .values import *
from .engine import has_quant
from .lib import PS, PSR


def strip_goal(goal, hyps):
    """Split a goal into (hyps, atomic goal) pairs: conjunctions, implications, universals."""
    g = goal
    if z3.is_and(g):
        for c in g.children():
            yield from strip_goal(c, hyps)
        return
    if z3.is_implies(g):
        yield from strip_goal(g.arg(1), hyps + [g.arg(0)])
        return
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        yield from strip_goal(body, hyps)
        return
    if z3.is_not(g):
        x = g.arg(0)
        if z3.is_or(x):
            for c in x.children():
                yield from strip_goal(z3.Not(c), hyps)
            return
        if z3.is_quantifier(x) and x.is_exists():
            vs = [z3.FreshConst(x.var_sort(i), 'sk') for i in range(x.num_vars())]
            yield from strip_goal(z3.Not(z3.substitute_vars(x.body(), *reversed(vs))), hyps)
            return
        if z3.is_not(x):
            yield from strip_goal(x.arg(0), hyps)
            return
    yield hyps, g


def ground_ps(fs):
    """Prefix-sum terms without bound variables (also inside quantified formulas)."""
    out = {}
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 2 and x.decl().name() in ('PS', 'PSR') and not has_var(x):
                t = x.decl()(x.arg(0), z3.simplify(x.arg(1)))
                out[t.get_id()] = t
            st.extend(x.children())
    return list(out.values())


def ps_arrays(fs):
    out, seen, st = {}, set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 2 and x.decl().name() in ('PS', 'PSR') and not has_var(x.arg(0)):
                out[x.arg(0).get_id()] = (x.decl(), x.arg(0))
            st.extend(x.children())
    return list(out.values())


def norm_ps(f):
    """Simplify the index of every ground prefix-sum term."""
    subs, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 2 and x.decl().name() in ('PS', 'PSR'):
                n = z3.simplify(x.arg(1))
                if not z3.eq(n, x.arg(1)):
                    subs.append((x, x.decl()(x.arg(0), n)))
            st.extend(x.children())
    return z3.substitute(f, *subs) if subs else f


def has_var(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def ps_facts(fs, limit=24):
    """Instances of the prefix-sum lemmas (each proved by induction in lemmas.py)."""
    facts = []
    ts = ground_ps(fs)
    known = set(t.get_id() for t in ts)
    # every summed array at every summation bound that occurs (arrays may occur under a bound index only)
    arrs = ps_arrays(fs)
    idxs = {}
    for t in ts:
        if not z3.is_int_value(t.arg(1)):
            idxs[t.arg(1).get_id()] = t.arg(1)
    if len(arrs) * len(idxs) <= 40:
        for F, a in arrs:
            for x in idxs.values():
                t = F(a, x)
                if t.get_id() not in known:
                    known.add(t.get_id())
                    ts.append(t)
        limit = max(limit, 40)
    base = len(ts)
    for t in ts:
        a, n, F = t.arg(0), t.arg(1), t.decl()
        zero = z3.IntVal(0) if F.range() == I else z3.RealVal(0)
        nm1 = z3.simplify(n - 1)
        # point update
        if z3.is_store(a):
            i, v = a.arg(1), a.arg(2)
            w = F(a.arg(0), n)
            facts.append(t == w + z3.If(z3.And(0 <= i, i < n), v - z3.Select(a.arg(0), i), zero))
            if w.get_id() not in known:
                known.add(w.get_id())
                ts.append(w)
        # unfolding
        facts.append(z3.If(n <= 0, t == zero, t == F(a, nm1) + z3.Select(a, nm1)))
        # non-negative when no summand is negative
        j = z3.FreshConst(I, 'nn')
        facts.append(z3.Or(t >= zero, z3.And(0 <= j, j < n, z3.Select(a, j) < zero)))
    ts = ts[:limit]
    for i, t in enumerate(ts):
        for u in ts[i + 1:]:
            if not z3.eq(t.decl(), u.decl()):
                continue
            a, n, b, m = t.arg(0), t.arg(1), u.arg(0), u.arg(1)
            zero = z3.IntVal(0) if t.decl().range() == I else z3.RealVal(0)
            d = z3.simplify(n - m)
            const = z3.is_int_value(d)
            if z3.eq(a, b):
                if const and abs(d.as_long()) <= 1:
                    continue
                for (x, p, y, q) in ((t, n, u, m), (u, m, t, n)):
                    # p < q: x + a[p] <= y unless a summand in (p, q) is negative
                    j = z3.FreshConst(I, 'mono')
                    facts.append(z3.Implies(p < q, z3.Or(
                        p < 0, x + z3.Select(a, p) <= y,
                        z3.And(p < j, j < q, z3.Select(a, j) < zero))))
                    facts.append(z3.Implies(p < q, z3.Or(
                        p >= 0, x <= y, z3.And(0 <= j, j < q, z3.Select(a, j) < zero))))
                facts.append(z3.Implies(n == m, t == u))
            elif const and d.as_long() != 0:
                if abs(d.as_long()) == 1:
                    # compare at the common prefix
                    q = n if d.as_long() < 0 else m
                    x, y = t.decl()(a, q), t.decl()(b, q)
                    j = z3.FreshConst(I, 'diff')
                    facts.append(z3.Or(x == y, z3.And(0 <= j, j < q, z3.Select(a, j) != z3.Select(b, j))))
            else:
                j = z3.FreshConst(I, 'diff')
                facts.append(z3.Implies(n == m, z3.Or(
                    t == u, z3.And(0 <= j, j < n, z3.Select(a, j) != z3.Select(b, j)))))
    return facts


def name_lambdas(f):
    """Ground lambda terms become definitional arrays (so that prefix sums over them are shared)."""
    subs, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda() and not has_free_var(x):
                a = defarr(x.sort().range(), lambda j: z3.substitute_vars(x.body(), j))
                if z3.is_const(a):
                    subs.append((x, a))
            continue
        st.extend(x.children())
    return z3.substitute(f, *subs) if subs else f


def has_free_var(x, depth=0):
    if z3.is_var(x):
        return z3.get_var_index(x) >= depth
    if z3.is_quantifier(x):
        return has_free_var(x.body(), depth + x.num_vars())
    return any(has_free_var(c, depth) for c in x.children())


def all_defs(fs, done=None):
    done = set()
    out = []
    todo = list(fs)
    while todo:
        f = todo.pop()
        for nm in def_consts(f):
            if nm not in done:
                done.add(nm)
                d = def_fact(nm)
                out.append(d)
                todo.append(d)
    return out


def str_facts(fs):
    lits = {}
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() == 0 and x.sort() == STR and x.decl().name().startswith('str:'):
            lits[x.decl().name()] = x
        st.extend(x.children())
    return [z3.Distinct(*lits.values())] if len(lits) > 1 else []


CONFIGS = [
    ('z3', {}),
    ('z3-ematch', {'smt.mbqi': False, 'auto_config': False}),
    ('z3-arith2', {'smt.arith.solver': 2, 'smt.mbqi': False, 'auto_config': False}),
]


def nonlinear(g):
    seen, st = set(), [g]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for a in x.children() if not z3.is_rational_value(a) and not z3.is_int_value(a)) > 1:
            return True
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not z3.is_int_value(x.arg(1)) and not z3.is_rational_value(x.arg(1)):
            return True
        st.extend(x.children())
    return False


def nonlinear_any(f):
    """nonlinear, also inside quantifiers"""
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if not z3.is_app(x):
            continue
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for a in x.children() if not is_num(a)) > 1:
            return True
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not is_num(x.arg(1)):
            return True
        st.extend(x.children())
    return False


def relevant(hyps, goal):
    """For a quantifier-free nonlinear goal: the quantifier-free assumptions about its own constants only."""
    from .engine import const_names
    if has_quant(goal) or not nonlinear(goal):
        return None
    names = const_names(goal, set())
    if len(names) > 14:
        return None
    out = []
    for h in conj(hyps):
        if not has_quant(h):
            hn = const_names(h, set())
            if hn and hn <= names:
                out.append(h)
    return out


def generalise(goal):
    """The goal with the compound factors of its integer products replaced by unknowns (the result implies it)."""
    subs, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_mul(t):
            for a in t.children():
                if (z3.is_add(a) or z3.is_mul(a)) and z3.is_int(a):
                    subs.append((a, z3.FreshInt('g')))
                    seen.add(a.get_id())
        for a in t.children():
            go(a)
    go(goal)
    return z3.substitute(goal, *subs) if subs else None


def check_one(hyps, goal, tmo, want_model=True):
    """('proved'|'refuted'|'unknown', backend, seconds, model); fewer facts are tried first."""
    few = relevant(hyps, goal)
    if few is not None:
        t0 = time.time()
        for g in (generalise(goal), goal):
            if g is None:
                continue
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*few)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return 'proved', 'z3-local', time.time() - t0, None
    small = [h for h in hyps if h.get_id() not in OPTIONAL]
    if len(small) < len(hyps):
        r = check_with(small, goal, tmo * 0.4, quick=True)
        if r[0] == 'proved':
            return r
    r = check_with(hyps, goal, tmo)
    if r[0] == 'unknown' and not has_quant(goal):
        ground = [h for h in conj(hyps) if not has_quant(h)]
        if len(ground) < len(conj(hyps)):
            q = check_with(ground, goal, tmo * 0.5, quick=True)
            if q[0] == 'proved':
                return q
    return r


_sk = {}


def skolem(f, pos=True):
    """Existentials in positive position outside quantifiers become constants (one per formula)."""
    if z3.is_quantifier(f):
        if f.is_lambda() or f.is_exists() != pos:
            return f
        key = (f.get_id(), pos)
        if key not in _sk:
            vs = [z3.FreshConst(f.var_sort(i), 'w') for i in range(f.num_vars())]
            _sk[key] = (f, skolem(z3.substitute_vars(f.body(), *reversed(vs)), pos))
        return _sk[key][1]
    if z3.is_and(f):
        return z3.And([skolem(c, pos) for c in f.children()])
    if z3.is_or(f):
        return z3.Or([skolem(c, pos) for c in f.children()])
    if z3.is_not(f):
        return z3.Not(skolem(f.arg(0), not pos))
    if z3.is_implies(f):
        return z3.Implies(skolem(f.arg(0), not pos), skolem(f.arg(1), pos))
    return f


MULI = z3.Function('mul!i', I, I, I)
MULR = z3.Function('mul!r', R, R, R)
DIVI = z3.Function('div!i', I, I, I)
MODI = z3.Function('mod!i', I, I, I)
DIVR = z3.Function('div!r', R, R, R)


def is_num(a):
    return z3.is_int_value(a) or z3.is_rational_value(a)


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)


def tree(f, memo):
    if z3.is_app(f) and f.decl().kind() in ARITH and f.num_args():
        return f.decl()(*[tree(x, memo) for x in f.children()])
    return abstract(f, memo)


def monomials(t):
    """A sum of products with the products of unknowns as uninterpreted functions."""
    op = t.decl().kind() if z3.is_app(t) else None
    if op in ARITH and op != z3.Z3_OP_MUL:
        return t.decl()(*[monomials(x) for x in t.children()])
    if op != z3.Z3_OP_MUL:
        return t
    xs = []

    def flat_(u):
        for x in u.children():
            flat_(x) if z3.is_mul(x) else xs.append(monomials(x))
    flat_(t)
    ys = sorted([x for x in xs if not is_num(x)], key=lambda x: (x.hash(), x.get_id()))
    if not ys:
        return t
    g = MULI if t.sort() == I else MULR
    r = ys[-1]
    for y in ys[-2::-1]:
        r = g(y, r)
    for x in xs:
        if is_num(x):
            r = x * r
    return r


def commute():
    out = []
    for g, s in ((MULI, I), (MULR, R)):
        a, b, c = [z3.FreshConst(s, 'm') for _ in range(3)]
        out.append(z3.ForAll([a, b], g(a, b) == g(b, a), patterns=[g(a, b)]))
        out.append(z3.ForAll([a, b, c], g(a, g(b, c)) == g(b, g(a, c)), patterns=[g(a, g(b, c))]))
    return out


def abstract(f, memo):
    """Nonlinear products, quotients and remainders as uninterpreted functions (proves less, never more)."""
    k = f.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(f):
        vs = [z3.FreshConst(f.var_sort(i), 'ab') for i in range(f.num_vars())]
        b = abstract(z3.substitute_vars(f.body(), *reversed(vs)), memo)
        r = f if f.is_lambda() else (z3.ForAll if f.is_forall() else z3.Exists)(vs, b)
    elif z3.is_app(f) and f.decl().kind() in ARITH and f.sort() in (I, R):
        t = tree(f, memo)
        r = monomials(z3.simplify(t, som=True) if memo.get('som') and nonlinear_any(t) else t)
    elif z3.is_app(f) and f.num_args():
        xs = [abstract(x, memo) for x in f.children()]
        op = f.decl().kind()
        r = None
        if op is None:
            pass
        elif op == z3.Z3_OP_IDIV and not is_num(xs[1]):
            r = DIVI(*xs)
        elif op == z3.Z3_OP_MOD and not is_num(xs[1]):
            r = MODI(*xs)
        elif op == z3.Z3_OP_DIV and not is_num(xs[1]):
            r = DIVR(*xs)
        if r is None:
            r = f if all(z3.eq(a, b) for a, b in zip(xs, f.children())) else f.decl()(*xs)
    else:
        r = f
    memo[k] = (f, r)
    return r


def instances(f, cands, left):
    """The formula with the universal quantifiers in positive position instantiated, in all combinations."""
    if z3.is_quantifier(f):
        if not f.is_forall() or len(cands) ** f.num_vars() > left or any(f.var_sort(i) != I for i in range(f.num_vars())):
            return []
        out = []
        for combo in itertools.product(cands, repeat=f.num_vars()):
            out += instances(z3.substitute_vars(f.body(), *combo), cands, left // len(cands) ** f.num_vars())
        return out
    if z3.is_implies(f):
        return [z3.Implies(f.arg(0), x) for x in instances(f.arg(1), cands, left)]
    if z3.is_and(f) and has_quant(f):
        return [y for x in f.children() if has_quant(x) for y in instances(x, cands, left)]
    return [f]


def unknowns(goal):
    """Constants of a goal that stand for its universally quantified variables."""
    out, seen, st = [], set(), [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.sort() == I and x.decl().name().startswith('sk!'):
                out.append(x)
            st.extend(x.children())
    return sorted(out, key=lambda x: x.decl().name())


def check_with(hyps, goal, tmo, quick=False):
    fs = [skolem(name_lambdas(f)) for f in hyps + [z3.Not(goal)]]
    fs = fs + all_defs(fs)
    fs = [norm_ps(f) for f in fs]
    fs = fs + ps_facts(fs)
    fs = fs + str_facts(fs)
    t0 = time.time()
    refuted = None
    model = None
    if any(nonlinear_any(f) for f in fs):
        cands = unknowns(goal)
        if cands and len(cands) <= 6:
            fs = fs + [x for h in fs[:-1] if has_quant(h) and nonlinear_any(h) for x in instances(h, cands, 40)]
        for som in (False, True):
            memo = {'som': som}
            s = z3.Solver()
            s.set('timeout', int(min(tmo * 0.2, 3) * 1000))
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            s.add(*[z3.simplify(abstract(z3.simplify(f), memo)) for f in fs])
            if som:
                s.add(*commute())
            if s.check() == z3.unsat:
                return 'proved', 'z3-linear', time.time() - t0, None
    for (nm, opts), share in zip(CONFIGS, (0.3, 0.3, 0.2)):
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000 * share))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return 'proved', nm, time.time() - t0, None
        if r == z3.sat:
            return 'refuted', nm, time.time() - t0, model_of(s.model())
        if quick and nm == 'z3-ematch':
            break
    if not quick and any(has_store(f) for f in fs):
        # reads of updated arrays by cases, so that quantifiers match the array itself
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000 * 0.3))
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.add(*[z3.simplify(f, expand_select_store=True) for f in fs])
        if s.check() == z3.unsat:
            return 'proved', 'z3-cases', time.time() - t0, None
    r = cvc5_check(fs, tmo * 0.4)
    if r == 'unsat':
        return 'proved', 'cvc5', time.time() - t0, None
    return 'unknown', '-', time.time() - t0, None


def has_store(f):
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_STORE:
                return True
            st.extend(x.children())
    return False


def cvc5_check(fs, tmo):
    s = z3.Solver()
    s.add(*fs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(tmo * 1000), f.name], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=tmo + 5)
        return r.stdout.decode().split('\n')[0].strip()
    except Exception:
        return 'error'
    finally:
        os.unlink(f.name)


def model_of(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if v is not None:
                s = str(v)
                if len(s) < 300:
                    out[d.name()] = s
    return out


def witnesses(fs, sort):
    """Constants that may witness an existential: loop counters first, then skolems."""
    out, seen, st = {}, set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.sort() == sort and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm.startswith('k#') or nm.startswith('sk') or nm.startswith('w!'):
                    out[nm] = x
            st.extend(x.children())
    key = lambda nm: (0 if nm.startswith('k#') else 1, nm)
    return [out[n] for n in sorted(out, key=key)][:5]


def check_split(hyps, g, tmo):
    """check_one, trying witnesses for an existential goal."""
    if not (z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1):
        return check_one(hyps, g, tmo)
    total = 0.0
    r = check_one(hyps, g, tmo * 0.4)
    if r[0] != 'unknown':
        return r
    total += r[2]
    for w in witnesses(hyps, g.var_sort(0)):
        body = z3.substitute_vars(g.body(), w)
        ok = True
        backs = set()
        for h2, g2 in strip_goal(body, hyps):
            st, be, t, m = check_one(h2, g2, tmo * 0.4)
            total += t
            backs.add(be)
            if st != 'proved':
                ok = False
                break
        if ok:
            return 'proved', '+'.join(sorted(backs)) or 'z3', total, None
    st, be, t, m = check_one(hyps, g, tmo)
    return st, be, total + t, m


def stated(goal, pc):
    """The goal is one of the assumptions, up to simplification (quantified goals only)."""
    gs = conj([z3.simplify(goal)])
    gs = [g for g in gs if not z3.is_true(g)]
    if not any(z3.is_quantifier(g) for g in gs):
        return False
    hs = conj(list(pc) + [z3.simplify(h) for h in pc if z3.is_quantifier(h) or z3.is_and(h)])
    ids = {h.get_id() for h in hs}
    return all(g.get_id() in ids for g in gs)


def conj(fs):
    out, st = [], list(fs)
    while st:
        f = st.pop()
        if z3.is_and(f):
            st += f.children()
        else:
            out.append(f)
    return out


def cover(o, tmo):
    t0 = time.time()
    fs = list(o.pc)
    fs = fs + all_defs(fs) + str_facts(fs)
    s = z3.Solver()
    s.set('timeout', int(min(tmo, 3) * 1000))
    s.add(*fs)
    x = s.check()
    return dict(status='vacuous' if x == z3.unsat else 'proved', backend='z3', time=time.time() - t0, cover=str(x))


DEADLINE = None         # past this moment nothing more is tried: what is left counts as not discharged
_PARTS = None
_OBLS = None
_TMO = 10


def _work(k):
    """One part of one obligation: (status, back end, time, model, goal)."""
    i, part = _PARTS[k]
    o = _OBLS[i]
    try:
        if part is None:
            return cover(o, _TMO)
        hyps, g = part
        if DEADLINE and time.time() > DEADLINE:
            return dict(status='unknown', backend='-', time=0.0, model=None, goal='time limit of the check: ' + str(g)[:1500])
        st, be, t, m = check_split(hyps, g, _TMO)
        return dict(status=st, backend=be, time=t, model=m, goal=None if st == 'proved' else str(g)[:2000])
    except z3.Z3Exception as e:
        return dict(status='unknown', backend='-', time=0.0, model=None, goal='z3: %s' % e)


def discharge(obls, tmo=10, jobs=8):
    """Discharge in parallel, each obligation split into its conjuncts; fork keeps the terms."""
    global _OBLS, _TMO, _PARTS
    _OBLS, _TMO = obls, tmo
    out = [dict(fn=o.fn, name=o.name, line=o.line, expect=o.expect) for o in obls]
    parts, got = [], {}
    for i, o in enumerate(obls):
        got[i] = []
        if o.expect == 'trivial':
            out[i].update(status='proved', backend='simplifier', time=0.0)
        elif o.expect == 'reachable':
            parts.append((i, None))
        elif stated(o.goal, o.pc):
            out[i].update(status='proved', backend='hypothesis', time=0.0)
        else:
            parts += [(i, p) for p in strip_goal(o.goal, list(o.pc))]
    _PARTS = parts
    if parts:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(jobs, len(parts))) as p:
            for (i, _), r in zip(parts, p.imap(_work, range(len(parts)), chunksize=1)):
                got[i].append(r)
    for i, rs in got.items():
        r = out[i]
        if 'status' in r:
            continue
        if obls[i].expect == 'reachable':
            r.update(rs[0])
            continue
        bad = [x for x in rs if x['status'] != 'proved']
        t = sum(x['time'] for x in rs)
        if bad:
            r.update(status=bad[0]['status'], backend=bad[0]['backend'], time=t, model=bad[0]['model'], goal=bad[0]['goal'])
        else:
            r.update(status='proved', backend='+'.join(sorted({x['backend'] for x in rs})) or 'z3', time=t)
    # a function whose every exit contradicts its assumptions would be proved vacuously
    exits = {}
    for r in out:
        if r['name'] == 'cover:exit':
            exits.setdefault(r['fn'], []).append(r)
    for fn, rs in exits.items():
        if any(r['status'] != 'vacuous' for r in rs):
            for r in rs:
                r['status'] = 'proved'
    return out
