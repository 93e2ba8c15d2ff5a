"""Symbolic values: z3 leaves in a tree of structs / sequences / references."""
import z3, re, hashlib

STR = z3.DeclareSort('Str')
OPQ = z3.DeclareSort('Opaque')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """A construct outside the verifier's subset (never a violation)."""


class SpecMismatch(Exception):
    """A contract refers to something the current source no longer has (never a violation)."""


OPTIONAL = {}    # facts a proof attempt may leave out at first (kept alive here)


class LV:
    """An lvalue: a root object and a path of selectors ('f', name) / ('i', index)."""
    __slots__ = ('root', 'sels')

    def __init__(self, root, sels=()):
        self.root, self.sels = root, tuple(sels)

    def f(self, name):
        return LV(self.root, self.sels + (('f', name),))

    def i(self, idx):
        return LV(self.root, self.sels + (('i', idx),))

    def __repr__(self):
        return self.root + ''.join('.%s' % s[1] if s[0] == 'f' else '[%s]' % s[1] for s in self.sels)


class S:
    """Struct value."""
    __slots__ = ('tn', 'f')

    def __init__(self, tn, f):
        object.__setattr__(self, 'tn', tn)
        object.__setattr__(self, 'f', f)

    def __getattr__(self, n):
        try:
            return self.f[n]
        except KeyError:
            raise SpecMismatch('no field %s in %s (has %s)' % (n, self.tn, list(self.f)))

    def __getitem__(self, i):
        if isinstance(i, int):
            return self.f[str(i)]
        return self.f[i]

    def upd(self, n, v):
        d = dict(self.f)
        d[n] = v
        return S(self.tn, d)

    def __repr__(self):
        return '%s{%s}' % (self.tn, ', '.join('%s=%s' % kv for kv in self.f.items()))


class A:
    """Sequence value: length and element tree lifted to arrays indexed by Int."""
    __slots__ = ('n', 'e', 'kind')

    def __init__(self, n, e, kind='vec'):
        self.n, self.e, self.kind = n, e, kind

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return sel(self.e, i)

    def leaf(self, *names):
        """The z3 array of one (possibly nested) field."""
        e = self.e
        for n in names:
            e = e.f[n]
        return e

    def __repr__(self):
        return 'A(n=%s, %s)' % (self.n, self.e)


class It:
    """Iterator or raw pointer into a sequence."""
    __slots__ = ('path', 'idx')

    def __init__(self, path, idx):
        self.path, self.idx = path, idx

    def __repr__(self):
        return 'It(%r, %s)' % (self.path, self.idx)


class Ref:
    """Pointer or reference to an object (path), possibly null."""
    __slots__ = ('path', 'null')

    def __init__(self, path, null=None):
        self.path, self.null = path, null if null is not None else z3.BoolVal(False)

    def __repr__(self):
        return 'Ref(%r)' % (self.path,)


class Clo:
    """Lambda closure."""
    __slots__ = ('params', 'body', 'vars', 'this', 'node', 'chain', 'decl')

    def __init__(self, params, body, vars, this, node, chain, decl=None):
        self.params, self.body, self.vars, self.this = params, body, vars, this
        self.node, self.chain, self.decl = node, chain, decl


class CB:
    """A callback parameter of which nothing is known: the contract says what it may be called with."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Fn:
    """Reference to a function declaration."""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class Lazy:
    def __getitem__(self, i):
        return self.at(i)

    """A value defined pointwise (used for Eigen elementwise expressions)."""
    __slots__ = ('n', 'at')

    def __init__(self, n, at):
        self.n, self.at = n, at


class LMat:
    """A matrix defined pointwise."""
    __slots__ = ('rows', 'cols', 'at')

    def __init__(self, rows, cols, at):
        self.rows, self.cols, self.at = rows, cols, at


def is_leaf(v):
    return isinstance(v, z3.ExprRef)


def sel(t, i):
    if is_leaf(t):
        if z3.is_app(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)):
            i = z3.simplify(i)
        if z3.is_store(t) and z3.eq(t.arg(1), i):
            return t.arg(2)
        return z3.Select(t, i)
    if isinstance(t, S):
        return S(t.tn, {k: sel(v, i) for k, v in t.f.items()})
    if isinstance(t, A):
        return A(sel(t.n, i), sel(t.e, i), t.kind)
    raise Unsupported('select in %r' % (t,))


def sto(t, i, v):
    if is_leaf(t):
        if not is_leaf(v):
            raise Unsupported('store of %r into leaf array' % (v,))
        if z3.is_app(i) and i.num_args() == 2 and z3.is_int_value(i.arg(0)):
            i = z3.simplify(i)
        if z3.is_store(t) and z3.eq(t.arg(1), i):
            t = t.arg(0)
        if z3.is_select(v) and z3.eq(v.arg(0), t) and z3.eq(v.arg(1), i):
            return t        # an unchanged element
        return z3.Store(t, i, conv_sort(v, t.sort().range()))
    if isinstance(t, S):
        if isinstance(v, S):
            return S(t.tn, {k: sto(x, i, v.f[k]) if k in v.f else x for k, x in t.f.items()})
    if isinstance(t, A) and isinstance(v, A):
        return A(sto(t.n, i, v.n), sto(t.e, i, v.e), t.kind)
    raise Unsupported('store of %r into %r' % (v, t))


def conv_sort(v, s):
    if v.sort() == s:
        return v
    if s == R and v.sort() == I:
        return z3.ToReal(v)
    if s == I and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if s == R and v.sort() == B:
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if s == B and v.sort() == I:
        return v != 0
    if s == B and v.sort() == R:
        return v != 0
    raise Unsupported('conversion of %s from %s to %s' % (v, v.sort(), s))


def lift_const(t, n=0):
    """A lifted element tree whose every element is t (a constant sequence)."""
    if is_leaf(t):
        return z3.K(I, t)
    if isinstance(t, S):
        return S(t.tn, {k: lift_const(v) for k, v in t.f.items()})
    if isinstance(t, A):
        return A(lift_const(t.n), lift_const(t.e), t.kind)
    raise Unsupported('constant sequence of %r' % (t,))


def leaves(v, pre=()):
    """(path, leaf) pairs of a value tree."""
    if is_leaf(v):
        yield pre, v
    elif isinstance(v, S):
        for k, x in v.f.items():
            yield from leaves(x, pre + (k,))
    elif isinstance(v, A):
        yield pre + ('#n',), v.n
        yield from leaves(v.e, pre + ('#e',))
    elif isinstance(v, It):
        yield pre + ('#idx',), v.idx


def same(a, b):
    """Structural equality of two values as a z3 formula."""
    if is_leaf(a) and is_leaf(b):
        if a.sort() != b.sort():
            if a.sort() == R or b.sort() == R:
                return conv_sort(a, R) == conv_sort(b, R)
            if a.sort() == B:
                return a == conv_sort(b, B)
            return conv_sort(a, b.sort()) == b
        return a == b
    if isinstance(a, S) and isinstance(b, S):
        ks = [k for k in a.f if k in b.f]
        return z3.And([same(a.f[k], b.f[k]) for k in ks if not _noteq(a.f[k])] or [z3.BoolVal(True)])
    if isinstance(a, A) and isinstance(b, A):
        return z3.And(a.n == b.n, same_elems(a, b, z3.IntVal(0), a.n))
    if isinstance(a, It) and isinstance(b, It):
        return a.idx == b.idx
    if isinstance(a, Ref) and isinstance(b, Ref):
        return z3.BoolVal(repr(a.path) == repr(b.path))
    raise Unsupported('equality of %r and %r' % (a, b))


def _noteq(v):
    return isinstance(v, (Clo, Fn))


_qc = [0]


def qv(name='q'):
    _qc[0] += 1
    return z3.Int('%s!%d' % (name, _qc[0]))


def same_elems(a, b, lo, hi):
    """Elements of a and b agree on [lo, hi)."""
    i = qv()
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), same(a[i], b[i])))


def forall_range(lo, hi, fn, name='q'):
    i = qv(name)
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), fn(i)))


def exists_range(lo, hi, fn, name='q'):
    i = qv(name)
    return z3.Exists([i], z3.And(lo <= i, i < hi, fn(i)))


# ---- definitional arrays: symbols that stand for lambda j. body(j), closed over parameters ----
# DEFS[name] = (function declaration or constant, body, parameter placeholders, range sort)
DEFS = {}
JD = z3.Int('j!def')
_depth = [0]
_BOUND = re.compile(r'^(q|lam|dj|jd|pq)!\d+$|^[a-z]+!\d+$')
_hash_cache = {}


def P_(i):
    return z3.Int('p!def%d' % i)


def _walk(f, into_defs=False):
    """Every subterm (definition bodies too if asked)."""
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if into_defs and x.decl().name() in DEFS:
                st.append(DEFS[x.decl().name()][1])
            st.extend(x.children())


def _is_bound_name(nm):
    return bool(re.match(r'^(q|lam|dj|jd|pq)!\d+$', nm))


def const_names(f, out, expand=True):
    """Names of the uninterpreted constants in f (definitional arrays expanded)."""
    for x in _walk(f, expand):
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if nm not in DEFS and nm != 'j!def' and not nm.startswith(('str:', 'p!def', 'jd!')):
                out.add(nm)
    return out


def def_consts(f):
    """Definition symbols used in f."""
    out = {}
    for x in _walk(f):
        if z3.is_app(x) and x.decl().name() in DEFS:
            out[x.decl().name()] = x.decl()
    return out


def contains(t, c):
    for x in _walk(t, True):
        if z3.eq(x, c):
            return True
    return False


def defarr(sort, fn):
    """The array lambda j. fn(j) as a named symbol (same body -> same symbol), closed over bound variables."""
    J = z3.Int('jd!%d' % _depth[0])
    _depth[0] += 1
    try:
        body = z3.simplify(conv_sort(fn(J), sort))
    finally:
        _depth[0] -= 1
    return mkdef(sort, body, J)


def _bound_consts(body, J):
    out = []
    seen, st = set(), [body]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and _is_bound_name(x.decl().name()) and not z3.eq(x, J):
                out.append(x)
            st.extend(reversed(x.children()))
    return out


def mkdef(sort, body, J):
    if z3.is_select(body) and z3.eq(body.arg(1), J) and not contains(body.arg(0), J):
        return body.arg(0)
    ps = _bound_consts(body, J)
    canon = z3.substitute(body, (J, JD), *[(p, P_(i) if p.sort() == I else z3.Const('p!def%d' % i, p.sort())) for i, p in enumerate(ps)])
    places = [P_(i) if p.sort() == I else z3.Const('p!def%d' % i, p.sort()) for i, p in enumerate(ps)]
    key = canon.sexpr() + ':' + str(sort) + ':' + str(len(ps))
    nm = 'def:' + hashlib.sha256(key.encode()).hexdigest()[:12]
    if nm not in DEFS:
        if ps:
            d = z3.Function(nm, *([p.sort() for p in ps] + [z3.ArraySort(I, sort)]))
        else:
            d = z3.Const(nm, z3.ArraySort(I, sort)).decl()
        DEFS[nm] = (d, canon, places, sort)
    return DEFS[nm][0](*ps)


def def_fact(nm):
    d, body, places, sort = DEFS[nm]
    j = qv('dj')
    vs = [z3.Const('pq!%d%s' % (i, '' if p.sort() == I else 'x'), p.sort()) for i, p in enumerate(places)]
    a = d(*vs)
    b = z3.substitute(body, (JD, j), *list(zip(places, vs)))
    return z3.ForAll(vs + [j], z3.Select(a, j) == b, patterns=[z3.Select(a, j)])


def msub(t, *pairs):
    """Substitution of constants that also goes through definitional arrays."""
    ds = def_consts(t)
    funs = []
    for nm, d in ds.items():
        _, body, places, sort = DEFS[nm]
        nb = msub(body, *pairs)
        if z3.eq(nb, body):
            continue
        J = z3.Int('jd!%d' % (900 + _depth[0]))
        _qc[0] += 1
        vs = [z3.Const('pq!%d%03d' % (_qc[0], i), p.sort()) for i, p in enumerate(places)]
        nb = z3.substitute(nb, (JD, J), *list(zip(places, vs)))
        app = mkdef(sort, z3.simplify(nb), J)
        if not places:
            funs.append((d, app, True))
        else:
            funs.append((d, z3.substitute(app, *[(v, z3.Var(i, v.sort())) for i, v in enumerate(vs)]), False))
    t = z3.substitute(t, *(list(pairs) + [(d(), e) for d, e, c in funs if c]))
    fs = [(d, e) for d, e, c in funs if not c]
    return z3.substitute_funs(t, *fs) if fs else t
