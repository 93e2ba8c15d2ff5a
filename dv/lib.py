"""Models of the library functions (std::, Eigen::, fmt) the verified code calls.

Every model here is a trusted assumption; the ones a run actually used are listed in the evidence.
"""

import z3, re
from .values import *
from .types import norm, head_args
from .engine import *
from .expr import tdiv

PS = z3.Function('PS', z3.ArraySort(I, I), I, I)          # PS(a, n) = a[0] + ... + a[n-1]
TRANS = {k: z3.Function('trans.' + k, R, R) for k in ('sin', 'cos', 'tan', 'sinh', 'exp', 'cosh')}
PSR = z3.Function('PSR', z3.ArraySort(I, R), I, R)
SQRT = z3.Function('SQRT', R, R)
CONCAT = z3.Function('CONCAT', STR, STR, STR)
STRLEN = z3.Function('STRLEN', STR, I)
TINY = z3.Function('TINY', R, B)
TINYC = z3.Function('TINYC', R, R, B)
_MR = z3.ArraySort(I, z3.ArraySort(I, R))
UPPER = z3.Function('UPPER', I, I, _MR, _MR, B)
TOSTR = z3.Function('TOSTR', I, STR)


def ps(a, n):
    return (PSR if a.sort().range() == R else PS)(a, n)


def is_seq(v):
    return isinstance(v, (A, Lazy))


def is_mat(v):
    return isinstance(v, LMat) or isinstance(v, S) and v.tn == 'mat'


def mat_at(m, i, j):
    return m.at(i, j) if isinstance(m, LMat) else sel(sel(m.d, i), j)


def is_fix(v):
    return isinstance(v, S) and v.tn.startswith('fix')


def fixn(v):
    return int(v.tn[3:])


def mkfix(vals):
    return S('fix%d' % len(vals), {str(i): v for i, v in enumerate(vals)})


def fvals(v):
    return [v.f[str(i)] for i in range(fixn(v))]


def at(v, i):
    if isinstance(v, Lazy):
        return v.at(i)
    if isinstance(v, A):
        return v[i]
    if is_fix(v):
        return fix_get(v, i)
    raise Unsupported('element of %r' % (v,))


def seqlen(v):
    return z3.IntVal(fixn(v)) if is_fix(v) else v.n


def sel_at(seq, i):
    return at(seq, i)


def extract_has_body(d):
    return any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ()))


ISSET = z3.Function('is_set', OPQ, B)


def flat_leaves(it, v):
    """Everything the value consists of, through pointers."""
    k = 0
    while isinstance(v, LV):
        v = it.read(v)
    if isinstance(v, Ref):
        out = [v.null]
        if v.path is not None and not z3.is_true(v.null):
            out += flat_leaves(it, v.path)
        return out
    if isinstance(v, It):
        return flat_leaves(it, v.path) + [v.idx]
    if isinstance(v, Seg):
        return flat_leaves(it, v.lv) + [v.lo, v.n]
    if isinstance(v, Lazy):
        v = it.force(v)
    if isinstance(v, S):
        return [x for f in v.f.values() for x in flat_leaves(it, f)]
    if isinstance(v, A):
        return [v.n] + flat_leaves(it, v.e)
    return [v]


def uf(it, name, sort, vals):
    """An unknown but deterministic function of the values."""
    xs = [x for v in vals for x in flat_leaves(it, v)]
    nm = 'uf:%s:%s' % (name, ','.join(str(x.sort()) for x in xs))
    if not xs:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([x.sort() for x in xs] + [sort]))(*xs)


INT_BITS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
            'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}


class Over:
    """How a contract module wants a type to be modelled."""

    def __init__(self, fields, construct=None):
        self.fields, self._construct = fields, construct

    def mk(self, types, name, it, lift):
        from .types import leafvar
        return S(self.name, {f: types.mk(s, name + '.' + f, it, lift) if isinstance(s, str) else leafvar(name + '.' + f, s, lift) for f, s in self.fields.items()})

    def construct(self, it, ct, args):
        if len(args) == 1 and isinstance(args[0], S) and args[0].tn == self.name:
            return args[0]
        if self._construct is None:
            raise Unsupported('construction of ' + self.name)
        return S(self.name, self._construct(it, ct, args))


class Sparse:
    """A compressed sparse matrix: sizes and the three arrays of the format."""
    FIELDS = (('rows', 'int'), ('cols', 'int'), ('outer', 'std::vector<int>'), ('inner', 'std::vector<int>'))

    def __init__(self, scalar):
        self.scalar = scalar

    def mk(self, types, name, it, lift):
        f = {k: types.mk(t, name + '.' + k, it, lift) for k, t in self.FIELDS}
        f['val'] = types.mk('std::vector<%s>' % self.scalar, name + '.val', it, lift)
        return S(self.name, f)

    def construct(self, it, ct, args):
        if len(args) == 1 and isinstance(args[0], S) and args[0].tn in (self.name, 'assembly', 'affine'):
            return args[0]
        if not args:
            args = [z3.IntVal(0), z3.IntVal(0)]
        if len(args) == 2 and all(is_leaf(a) and a.sort() == I for a in args):
            none = lambda x: z3.K(I, z3.K(I, x))
            zero = z3.RealVal(0)
            d = S('complex', {'re': none(zero), 'im': none(zero)}) if 'complex' in self.scalar else none(zero)
            m = lambda x: S('mat', {'rows': args[0], 'cols': args[1], 'd': x})
            return S('assembly', {'rows': args[0], 'cols': args[1], 'has': m(none(z3.BoolVal(False))), 'val': m(d)})
        raise Unsupported('construction of a sparse matrix from %r' % ([getattr(a, 'tn', type(a)) for a in args],))


VOID = S("void", {})


def is_sparse(v):
    return isinstance(v, S) and v.tn.startswith('Eigen::SparseMatrix') and 'outer' in v.f


def call_effect(it, f, buf, others):
    """What an external function leaves in the buffer it is given: unknown, but determined by its arguments."""
    xs = [f, buf] + list(others)
    return A(buf.n, _map_leaves(buf.e, lambda p, x: uf(it, 'call' + p, x.sort(), xs)), buf.kind)


def _map_leaves(v, f, p=''):
    if isinstance(v, S):
        return S(v.tn, {k: _map_leaves(x, f, p + '.' + k) for k, x in v.f.items()})
    return f(p, v)


def ext_result(j, sort, k):
    """What the k-th call of an external function leaves in the j-th array it is given (an array of elements)."""
    return z3.Function('external result %d %s' % (j, sort), I, z3.ArraySort(I, sort))(k)


def Ctx_(it):
    from .engine import Ctx
    c = Ctx(it, it.frames[0], it.roots, args=it.args0)
    c.__dict__.update(old=Ctx(it, it.frames[0], it.entry_roots, args=it.args0), frame=it.frames[-1])
    return c


DEBUG_EXT = False


class Lib:
    def __init__(self):
        self.strs = {}
        self.used = set()

    def use(self, what):
        self.used.add(what)

    # ------------------------------------------------------------------ values
    def strlit(self, s):
        s = s.strip('"') if isinstance(s, str) else str(s)
        if s not in self.strs:
            self.strs[s] = z3.Const('str:' + s, STR)
        return self.strs[s]

    def global_var(self, name, n):
        if name == 'nullopt':
            return S('nullopt', {})
        if name == 'ignore':
            return S('ignore', {})
        if name == 'pi':
            return z3.Real('const:pi')
        raise Unsupported('global ' + name)

    def seq_of(self, it, vals, t):
        if not vals:
            return it.default_value(t, 'init')
        e = it._lift_fresh_tree(vals[0])
        for i, v in enumerate(vals):
            e = sto(e, z3.IntVal(i), v)
        return A(z3.IntVal(len(vals)), e)

    # ------------------------------------------------------------------ helpers
    def pure(self, it, clo, args, n, lo=None, hi=None, idx=None):
        """Result of a side-effect free closure call as a term."""
        npc, nw = len(it.pc), len(it.wlog)
        g = list(it.guards)
        it.noFork += 1
        try:
            if idx is not None:
                it.guards = it.guards + [z3.And(lo <= idx, idx < hi)]
            r = it.rv(it.call_closure(clo, args, n))
        except (NeedFork, ThrowEx):
            raise Unsupported('closure passed to a library algorithm branches or throws')
        finally:
            it.noFork -= 1
            it.guards = g
        if len(it.pc) != npc or len(it.wlog) != nw:
            raise Unsupported('closure passed to a library algorithm has effects')
        return r

    def named_array(self, it, sort, at_):
        """An array defined pointwise."""
        return defarr(sort, at_)

    def total(self, it, v):
        """Sum of a sequence."""
        if is_fix(v):
            r = None
            for x in fvals(v):
                x = it.num(x)
                r = x if r is None else r + x
            return r
        probe = at(v, qv())
        if not is_leaf(probe):
            raise Unsupported('sum of structured elements')
        s = I if probe.sort() == B else probe.sort()
        if isinstance(v, A) and probe.sort() != B:
            return ps(v.e, v.n)
        a = self.named_array(it, s, lambda j: conv_sort(at(v, j), s))
        return ps(a, v.n)

    def ends(self, a, b):
        if not (isinstance(a, It) and isinstance(b, It)):
            raise Unsupported('iterator range')
        return a.path, a.idx, b.idx

    # ------------------------------------------------------------------ special forms
    def special_call(self, it, name, n, d):
        if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof') and len(n['inner']) == 2:
            x = it.expr(n['inner'][1])
            if name == 'addressof':
                return (Ref(x),) if isinstance(x, LV) else (x,)
            return (x,)
        return None

    def method_override(self, it, name, lv, args, n):
        return None

    def construct_override(self, it, q, ct, inner, n):
        return None

    # ------------------------------------------------------------------ free functions
    def function(self, it, name, args, n):
        f = getattr(self, 'f_' + name, None)
        if f is None:
            raise Unsupported('library function ' + name)
        self.use(name)
        return f(it, args, n)

    def f_make_shared(self, it, a, n):
        t = it.ty(n)
        k = it.types.kind(t)
        if k[0] != 'sptr':
            raise Unsupported('make_shared of ' + t)
        ek = it.types.kind(k[1])
        args = [(lambda y=y: y) for y in a]
        if ek[0] == 'rec':
            if len(a) == 1 and isinstance(it.deref_all(a[0]), S) and it.deref_all(a[0]).tn == ek[1]:
                v = it.deref_all(a[0])
            else:
                cs = [d for d in it.all_ctors(ek[2]) if not d.get('isImplicit') and len(params_of(d)) == len(a)]
                if len(cs) != 1:
                    raise Unsupported('make_shared of ' + t)
                v = it.construct(ek, cs[0]['type']['qualType'], args, n)
        elif ek[0] == 'opaque':
            v = uf(it, 'new:' + ek[1], OPQ, a)
        else:
            v = self.construct(it, ek, k[1], '', args, n)
        root = 'heap%%%d' % it._tick()
        it.roots[root] = v
        return Ref(LV(root), z3.BoolVal(False))

    def ext_call(self, it, f, args, n):
        """Call of a std::function: it may write to the arrays it is given by reference."""
        vals = [it.rv(a) for a in args]
        vals = [it.deref_all(v) if isinstance(v, Ref) else v for v in vals]
        flat_ = lambda v: v.lazy(it) if isinstance(v, Seg) else S(v.tn, {k: flat_(x) for k, x in v.f.items()}) if isinstance(v, S) and 'BasicCartesianArrayRef' in v.tn else it.deref_all(v) if isinstance(v, (Ref, LV)) else v
        vals = [flat_(v) for v in vals]
        if it.contract.external is not None and '@ext' in it.roots:
            it.note_call('external', it.contract.external, '@ext', [f] + vals, n)
        bufs = [v for v in vals if isinstance(v, S) and 'BasicArrayRef' in v.tn]
        if not bufs:
            return self.ext_views(it, f, args, vals, n)
        if len(bufs) != 1 or not isinstance(bufs[0].f.get('data'), It):
            raise Unsupported('call of an external function')
        b = bufs[0]
        lv = b.f['data'].path
        others = [b.f['data'].idx, b.f['ndim'], b.f['is_row_major'], b.f['shape']] + [v for v in vals if v is not b]
        old = it.read(lv)
        if DEBUG_EXT: print('EXT', [z3.simplify(x) for x in flat_leaves(it, f)], '|', old, '|', [str(z3.simplify(x)) for o in others for x in flat_leaves(it, o)])
        it.write(lv, call_effect(it, f, old, others))

    def ext_views(self, it, f, args, vals, n):
        """A std::function which is given views of arrays (it may change those) or returns a value: both unknown."""
        nr = it.read(LV('@ext').f('n')) if '@ext' in it.roots else it.fresh('ext', I)
        if '@ext' in it.roots:
            nr = nr - 1     # counted already
        views = []
        for a in args:
            v = a if isinstance(a, Seg) else it.rv(a)
            v = it.deref_all(v) if isinstance(v, Ref) else v
            if isinstance(v, Seg):
                views.append(v)
            elif isinstance(v, S) and ('BasicCartesianArrayRef<false>' in v.tn or 'BasicCartesianArrayRef<0>' in v.tn):
                views += [v.f[k] for k in ('x_ref', 'y_ref', 'z_ref')]
        for j, w in enumerate(views):
            if isinstance(w, Ref):
                w = Seg(w.path, z3.IntVal(0), seqlen(it.deref_all(w)))
            if isinstance(w, LV):
                w = Seg(w, z3.IntVal(0), seqlen(it.deref_all(w)))
            if not isinstance(w, Seg):
                raise Unsupported('call of an external function with %r' % (w,))
            base = it.deref_all(w.lv)
            e = ext_result(j, base.e.sort().range(), nr)
            w.assign(it, Lazy(w.n, lambda i, e=e: e[i]))
        t = it.ty(n)
        if t in ('void', None):
            return VOID
        v = it.types.mk(t, 'external%d' % it._tick(), it)
        if it.contract.returned is not None:
            c = Ctx_(it)
            for g in it.contract.returned(c, f, v, *vals):
                it.assume(g)
        it.roots['@ret'] = v
        return v

    def f_now(self, it, a, n):
        return it.fresh('now', OPQ)

    def f_apply_visitor(self, it, a, n):
        vis, lv = a[0], it.as_lv(a[1])
        v = it.read(lv)
        k = 0
        while isinstance(v, Ref) and k < 4:
            lv = v.path
            v = it.read(lv)
            k += 1
        vs = it.deref_all(vis)
        if not (isinstance(v, S) and v.tn.startswith('mapbox::util::variant<') and isinstance(vs, S)):
            raise Unsupported('apply_visitor of %r' % (vs,))
        _, rec = it.ix.record(vs.tn)
        alts = head_args(v.tn)[1]
        for i, t in enumerate(alts):
            if i == len(alts) - 1 or it.choose(v.index == i):
                cands = []
                for d in rec.get('inner', ()):
                    ms = [d] if d.get('kind') == 'CXXMethodDecl' else d.get('inner', ()) if d.get('kind') == 'FunctionTemplateDecl' else ()
                    for m in ms:
                        if m.get('kind') == 'CXXMethodDecl' and m.get('name') == 'operator()' and it.ix.definition(m['id']):
                            ps_ = params_of(m)
                            pt = ps_[0]['type'].get('desugaredQualType', ps_[0]['type']['qualType']) if len(ps_) == 1 else ''
                            if pt and it.types._argkey(norm(pt)[0]) == it.types._argkey(t):
                                cands.append(m)
                if len(cands) != 1:
                    raise Unsupported('visitor %s for %s' % (vs.tn, t))
                return it.call_decl(cands[0], [lv.f(str(i))], it.as_lv(vis), n)

    def make_variant(self, it, k, inner, xs):
        if len(xs) == 1 and isinstance(xs[0], S) and xs[0].tn.startswith('mapbox::util::variant<'):
            return xs[0]
        t = it.types._argkey(it.ty(strip_casts(inner[0]))) if inner else None
        for i, a in enumerate(k[1]):
            if it.types._argkey(a) == t:
                f = {'index': z3.IntVal(i)}
                for j, b in enumerate(k[1]):
                    f[str(j)] = xs[0] if i == j else it.types.mk(b, 'unset#%d' % it._tick(), it)
                return S('mapbox::util::variant<%s>' % ', '.join(k[1]), f)
        raise Unsupported('variant from ' + str(t))

    def f_epsilon(self, it, a, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        if t == 'float':
            return z3.Q(1, 2**23)
        if t == 'double':
            return z3.Q(1, 2**52)
        raise Unsupported('epsilon of ' + t)

    def f_min(self, it, a, n):
        if len(a) == 0:
            t = n['type'].get('desugaredQualType', n['type']['qualType'])
            if t == 'float':
                return z3.Q(1, 2**126)
            if t == 'double':
                return z3.Q(1, 2**1022)
            return self.int_limit(t, False)
        if len(a) != 2:
            raise Unsupported('min')
        x, y = it.rv(a[0]), it.rv(a[1])
        if isinstance(x, It) and isinstance(y, It) and repr(x.path) == repr(y.path):
            return It(x.path, z3.If(y.idx < x.idx, y.idx, x.idx))
        return z3.If(y < x, y, x)

    def int_limit(self, t, top):
        if t not in INT_BITS:
            raise Unsupported('limits of ' + t)
        b, signed = INT_BITS[t]
        if signed:
            b -= 1
        return z3.IntVal(2**b - 1 if top else (-2**b if signed else 0))

    def f_max(self, it, a, n):
        if len(a) == 0:
            return self.int_limit(n['type'].get('desugaredQualType', n['type']['qualType']), True)
        if len(a) != 2:
            raise Unsupported('max')
        x, y = it.rv(a[0]), it.rv(a[1])
        if isinstance(x, It) and isinstance(y, It) and repr(x.path) == repr(y.path):
            return It(x.path, z3.If(x.idx < y.idx, y.idx, x.idx))
        return z3.If(x < y, y, x)

    def f_abs(self, it, a, n):
        x = it.rv(a[0])
        if isinstance(x, S) and x.tn == 'complex':
            return SQRT(x.re * x.re + x.im * x.im)
        return self.map1(it, x, lambda v: z3.If(v >= 0, v, -v))

    f_fabs = f_abs

    def f_sqrt(self, it, a, n):
        x = it.rv(a[0])
        if is_seq(x):
            z = z3.Const('z!r', R)
            it.assume(z3.ForAll([z], z3.Implies(z >= 0, z3.And(SQRT(z) >= 0, SQRT(z) * SQRT(z) == z)), patterns=[SQRT(z)]))
            return Lazy(seqlen(x), lambda i: SQRT(at(x, i)))
        r = SQRT(x)
        it.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    def trans(self, it, name, a):
        """An uninterpreted function of the reals; contracts state what they need to know about it."""
        x = it.rv(a[0])
        f = TRANS[name]
        if is_seq(x):
            return Lazy(seqlen(x), lambda i: f(at(x, i)))
        return f(conv_sort(x, R))

    def f_sin(self, it, a, n):
        return self.trans(it, 'sin', a)

    def f_cos(self, it, a, n):
        return self.trans(it, 'cos', a)

    def f_tan(self, it, a, n):
        return self.trans(it, 'tan', a)

    def f_sinh(self, it, a, n):
        return self.trans(it, 'sinh', a)

    def f_floor(self, it, a, n):
        return z3.ToReal(z3.ToInt(it.rv(a[0])))

    def f_round(self, it, a, n):
        x = it.rv(a[0])
        h = z3.Q(1, 2)
        return z3.ToReal(z3.If(x >= 0, z3.ToInt(x + h), -z3.ToInt(h - x)))

    def f_ceil(self, it, a, n):
        return -z3.ToReal(z3.ToInt(-it.rv(a[0])))

    def f_swap(self, it, a, n):
        x, y = it.rv(a[0]), it.rv(a[1])
        it.write(a[0], y)
        it.write(a[1], x)

    def f_begin(self, it, a, n):
        return It(it.as_lv(a[0]), z3.IntVal(0))

    f_cbegin = f_begin

    def f_end(self, it, a, n):
        lv = it.as_lv(a[0])
        return It(lv, seqlen(it.deref_all(lv)))

    f_cend = f_end

    def f_next(self, it, a, n):
        x = it.rv(a[0])
        k = it.rv(a[1]) if len(a) > 1 else z3.IntVal(1)
        return It(x.path, x.idx + k)

    def f_prev(self, it, a, n):
        x = it.rv(a[0])
        k = it.rv(a[1]) if len(a) > 1 else z3.IntVal(1)
        return It(x.path, x.idx - k)

    def f_distance(self, it, a, n):
        return it.rv(a[1]).idx - it.rv(a[0]).idx

    def f_make_pair(self, it, a, n):
        return S('pair', {'first': it.rv(a[0]), 'second': it.rv(a[1])})

    def f_make_tuple(self, it, a, n):
        return S('tuple', {str(i): it.rv(x) for i, x in enumerate(a)})

    def f_tie(self, it, a, n):
        return S('tie', {str(i): Ref(x) if isinstance(x, LV) else x for i, x in enumerate(a)})

    def f_format(self, it, a, n):
        return it.fresh('format', STR)

    def f_to_string(self, it, a, n):
        return TOSTR(it.rv(a[0]))

    # algorithms over iterators that are classes of the code base: the algorithm's own loop
    def rec_op(self, it, op, xs, n):
        v = it.deref_all(xs[0])
        q, rec = it.ix.record(v.tn)
        if rec is None:
            raise Unsupported('%s of %s' % (op, v.tn))
        for d in rec.get('inner', ()):
            ds = d.get('inner', ()) if d.get('kind') == 'FriendDecl' else (d,)
            for f in ds:
                if f.get('name') == op and f.get('kind') in ('CXXMethodDecl', 'FunctionDecl'):
                    k = len(params_of(f))
                    if f['kind'] == 'CXXMethodDecl' and k == len(xs) - 1:
                        return it.call_decl(f, xs[1:], it.as_lv(xs[0]), n)
                    if f['kind'] == 'FunctionDecl' and k == len(xs):
                        return it.call_decl(f, xs, None, n)
        raise Unsupported('no %s in %s' % (op, v.tn))

    def rec_loop(self, it, first, last, n, body):
        """for (; first != last; ++first) body(*first); returns the final iterator."""
        lv, le = it.as_lv(it.rv(first), 'first'), it.as_lv(it.rv(last), 'last')

        def cond():
            return it.rv(self.rec_op(it, 'operator!=', [lv, le], n))
        cond.op, cond.l, cond.r = '!=', (lambda: it.rv(lv)), (lambda: it.rv(le))
        it.loop(dict(n, id='alg:' + n['id']), cond, lambda: self.rec_op(it, 'operator++', [lv], n),
                lambda: body(self.rec_op(it, 'operator*', [lv], n)))
        return it.rv(lv)

    def is_rec_iter(self, it, x):
        v = it.deref_all(x)
        return isinstance(v, S) and any(isinstance(y, It) for y in v.f.values())

    def f_accumulate(self, it, a, n):
        if self.is_rec_iter(it, a[0]):
            acc = it.as_lv(it.rv(a[2]), 'acc')
            clo = it.rv(a[3])
            self.rec_loop(it, a[0], a[1], n, lambda x: it.write(acc, it.rv(it.call_closure(clo, [acc, x], n))))
            return it.rv(acc)
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq = it.deref_all(path)
        init = it.rv(a[2])
        a0, a1 = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(a0) and z3.is_int_value(a1) and a1.as_long() - a0.as_long() <= 8:
            for q in range(a0.as_long(), a1.as_long()):
                x = path.i(z3.IntVal(q))
                if len(a) > 3:
                    init = conv_sort(it.rv(it.call_closure(it.rv(a[3]), [init, x], n)), init.sort())
                else:
                    init = init + conv_sort(it.rv(x), init.sort())
            return init
        if len(a) > 3:
            clo = it.rv(a[3])
            acc = it.fresh('acc', init.sort())
            j = it.fresh('j')
            r = self.pure(it, clo, [acc, path.i(j)], n, lo, hi, j)
            r = conv_sort(r, init.sort())
            d = z3.simplify(r - acc)
            if mentions(d, acc):
                raise Unsupported('accumulate with a non-additive function')
            arr = self.named_array(it, init.sort(), lambda q: msub(d, (j, q)))
        elif is_leaf(seq.e) and seq.e.sort().range() == init.sort():
            arr = seq.e
        else:
            arr = self.named_array(it, init.sort(), lambda q: conv_sort(at(seq, q), init.sort()))
        lo_ = z3.simplify(lo)
        if z3.is_int_value(lo_) and lo_.as_long() == 0:
            return init + ps(arr, hi)
        return init + ps(arr, hi) - ps(arr, lo)

    def pred_of(self, it, a, n, clo, what):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        it.deref_all(path)
        j = it.fresh('j')
        p = it.bool_of(self.pure(it, clo, [path.i(j)], n, lo, hi, j))
        return path, lo, hi, lambda q: msub(p, (j, q))

    def f_count_if(self, it, a, n):
        path, lo, hi, p = self.pred_of(it, a, n, it.rv(a[2]), 'count_if')
        arr = self.named_array(it, I, lambda q: z3.If(p(q), z3.IntVal(1), z3.IntVal(0)))
        r = ps(arr, hi) if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0 else ps(arr, hi) - ps(arr, lo)
        it.assume(z3.And(0 <= r, z3.Implies(lo <= hi, r <= hi - lo)))
        return r

    def f_find_if(self, it, a, n):
        if self.is_rec_iter(it, a[0]):
            clo = it.rv(a[2])

            def body(x):
                if it.choose(it.bool_of(it.rv(it.call_closure(clo, [x], n)))):
                    raise BreakEx()
            return self.rec_loop(it, a[0], a[1], n, body)
        path, lo, hi, p = self.pred_of(it, a, n, it.rv(a[2]), 'find_if')
        return It(path, self.first(it, lo, hi, p))

    def first(self, it, lo, hi, p):
        r = it.fresh('found')
        it.assume(z3.And(lo <= r, z3.Or(r <= hi, r == lo)))
        it.assume(z3.Implies(r < hi, p(r)))
        q = qv()
        it.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < r), z3.Not(p(q)))))
        return r

    def f_find(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq, x = it.deref_all(path), it.rv(a[2])
        return It(path, self.first(it, lo, hi, lambda q: same(at(seq, q), x)))

    def f_any_of(self, it, a, n):
        path, lo, hi, p = self.pred_of(it, a, n, it.rv(a[2]), 'any_of')
        return exists_range(lo, hi, p)

    def f_all_of(self, it, a, n):
        path, lo, hi, p = self.pred_of(it, a, n, it.rv(a[2]), 'all_of')
        return forall_range(lo, hi, p)

    def f_none_of(self, it, a, n):
        path, lo, hi, p = self.pred_of(it, a, n, it.rv(a[2]), 'none_of')
        return forall_range(lo, hi, lambda q: z3.Not(p(q)))

    def f_max_element(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq = it.deref_all(path)
        r = it.fresh('maxel')
        q = qv()
        it.assume(z3.And(lo <= r, z3.Or(r < hi, r == lo)))
        it.assume(z3.ForAll([q], z3.Implies(z3.And(lo <= q, q < hi), at(seq, q) <= at(seq, r))))
        return It(path, r)

    def f_fill(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        x = it.rv(a[2])
        seq = it.deref_all(path)
        old = seq
        e = it.havoc_value(seq.e, 'fill')
        new = A(seq.n, e, seq.kind)
        q = qv()
        it.assume(z3.ForAll([q], same(new[q], ite(z3.And(lo <= q, q < hi), x, old[q]))))
        it.write(path, new)

    def out_write(self, it, dst, count, val):
        """Write val(0..count-1) through an output iterator."""
        seq = it.deref_all(dst.path)
        d = dst.idx
        it.oblige('output-range', z3.And(d >= 0, d + count <= seqlen(seq)))
        new = it.force(Lazy(seq.n, lambda i: ite(z3.And(d <= i, i < d + count), val(i - d), seq[i])))
        it.write(dst.path, A(seq.n, new.e, seq.kind))
        return It(dst.path, d + count)

    def f_transform(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq = it.deref_all(path)
        j = it.fresh('j')
        dst = it.rv(a[2])
        if len(a) == 4:
            r = self.pure(it, it.rv(a[3]), [path.i(j)], n, lo, hi, j)
        else:
            raise Unsupported('binary transform')
        j0 = j
        return self.out_write(it, dst, hi - lo, lambda q: subst_tree(r, j0, z3.simplify(lo + q)))

    def f_copy(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq = it.deref_all(path)
        return self.out_write(it, it.rv(a[2]), hi - lo, lambda q: at(seq, z3.simplify(lo + q)))

    def f_copy_n(self, it, a, n):
        x = it.rv(a[0])
        seq = it.deref_all(x.path)
        return self.out_write(it, it.rv(a[2]), it.rv(a[1]), lambda q: at(seq, z3.simplify(x.idx + q)))

    def f_is_sorted(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        seq = it.deref_all(path)
        i, j = qv(), qv()
        return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), at(seq, i) <= at(seq, j)))

    def less(self, it, x, y, clo=None, n=None):
        """x < y by a comparator or the element type's own operator<."""
        if clo is not None:
            return it.bool_of(self.pure(it, clo, [x, y], n))
        if is_leaf(x):
            return x < y
        return self.elem_op(it, 'operator<', x, y, n)

    def elem_eq(self, it, x, y, n=None):
        if is_leaf(x):
            return x == y
        return self.elem_op(it, 'operator==', x, y, n)

    def elem_op(self, it, op, x, y, n):
        """A user-defined comparison of two struct values."""
        if not isinstance(x, S):
            raise Unsupported('%s of %r' % (op, x))
        for d in it.ix.by_id.values():
            if d.get('name') == op and d['kind'] in ('FunctionDecl', 'CXXMethodDecl') and extract_has_body(d):
                ps_ = [c for c in d.get('inner', ()) if c['kind'] == 'ParmVarDecl']
                if len(ps_) == 2:
                    k = it.types.kind(it.types.resolve(ps_[0]['type'].get('desugaredQualType', ps_[0]['type']['qualType']))[0])
                    if k[0] == 'rec' and k[1] == x.tn:
                        it.noFork += 1
                        try:
                            return it.bool_of(it.rv(it.inline(d, [x, y], None, n or {'id': 'op'})))
                        except (NeedFork, ThrowEx):
                            raise Unsupported('comparison branches')
                        finally:
                            it.noFork -= 1
        raise Unsupported('no %s for %s' % (op, x.tn))

    def f_sort(self, it, a, n):
        """The range becomes sorted and is a permutation of what it was."""
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        clo = it.rv(a[2]) if len(a) > 2 else None
        old = it.deref_all(path)
        new = A(old.n, it.havoc_value(old.e, 'sorted'), old.kind)
        i, j = qv(), qv()
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(self.less(it, at(new, j), at(new, i), clo, n)))))
        perm = self.permutation(it, old, new, lo, hi)
        if is_leaf(old.e):
            it.assume(self.distinct(old, lo, hi) == self.distinct(new, lo, hi))
        it.write(path, new)
        return perm

    def f_stable_sort(self, it, a, n):
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        clo = it.rv(a[2]) if len(a) > 2 else None
        perm = self.f_sort(it, a, n)
        new = it.deref_all(path)
        i, j = qv(), qv()
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi, z3.Not(self.less(it, at(new, i), at(new, j), clo, n))), perm[i] < perm[j])))

    def permutation(self, it, old, new, lo, hi):
        p, q = it.fresh('perm', z3.ArraySort(I, I)), it.fresh('pinv', z3.ArraySort(I, I))
        i = qv()
        inr = lambda x: z3.And(lo <= x, x < hi)
        it.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(p[i]), q[p[i]] == i, same(at(new, i), at(old, p[i])))),
                            patterns=self.pats(new, i) + [p[i]]), opt=True)
        it.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(q[i]), p[q[i]] == i, same(at(old, i), at(new, q[i])))),
                            patterns=self.pats(old, i) + [q[i]]), opt=True)
        it.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), same(at(new, i), at(old, i)))))
        return p

    def pats(self, seq, i):
        out = []
        for _, l in leaves(at(seq, i)):
            if z3.is_select(l) and not z3.is_quantifier(l.arg(0)) and z3.eq(l.arg(1), i):
                out.append(l)
        return out

    def distinct(self, seq, lo, hi):
        i, j = qv(), qv()
        return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), at(seq, i) != at(seq, j)))

    def f_unique(self, it, a, n):
        """One representative of every run of equal adjacent elements, in order."""
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        if len(a) > 2:
            raise Unsupported('unique with a predicate')
        old = it.deref_all(path)
        new = A(old.n, it.havoc_value(old.e, 'unique'), old.kind)
        r = it.fresh('uend')
        f, g = it.fresh('ufrom', z3.ArraySort(I, I)), it.fresh('uto', z3.ArraySort(I, I))
        i, j = qv(), qv()
        it.assume(z3.And(lo <= r, z3.Or(r <= hi, r == lo), (r > lo) == (hi > lo)))
        it.assume((r == hi) == z3.Or(hi <= lo, z3.ForAll([i], z3.Implies(z3.And(lo < i, i < hi), z3.Not(self.elem_eq(it, at(old, i - 1), at(old, i), n))))))
        it.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), z3.And(
            lo <= f[i], f[i] < hi, f[i] >= i, g[f[i]] == i, same(at(new, i), at(old, f[i])))), patterns=self.pats(new, i) + [f[i]]), opt=True)
        it.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < r), f[i] < f[j]), patterns=[z3.MultiPattern(f[i], f[j])]), opt=True)
        it.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.And(
            lo <= g[j], g[j] < r, f[g[j]] <= j, self.elem_eq(it, at(new, g[j]), at(old, j), n))), patterns=self.pats(old, j) + [g[j]]), opt=True)
        it.assume(z3.ForAll([i], z3.Implies(z3.And(lo < i, i < r), z3.Not(self.elem_eq(it, at(new, i - 1), at(new, i), n)))), opt=True)
        it.write(path, new)
        return It(path, r)

    def f_remove_if(self, it, a, n, pred=None):
        """The elements that stay move to the front, in order; position = number of kept ones before."""
        path, lo, hi = self.ends(it.rv(a[0]), it.rv(a[1]))
        clo = it.rv(a[2])
        old = it.deref_all(path)
        j = it.fresh('j')
        if pred is None:
            p = it.bool_of(self.pure(it, clo, [sel_at(old, j)], n, lo, hi, j))
        else:
            p = pred(at(old, j))
        keep = defarr(I, lambda q: z3.If(msub(p, (j, q)), z3.IntVal(0), z3.IntVal(1)))
        pos = lambda x: ps(keep, x) - ps(keep, lo) if not (z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0) else ps(keep, x)
        new = A(old.n, it.havoc_value(old.e, 'removed'), old.kind)
        r = lo + pos(hi)
        f = it.fresh('rfrom', z3.ArraySort(I, I))
        i, k = qv(), qv()
        it.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < r), z3.And(
            lo <= f[i], f[i] < hi, f[i] >= i, keep[f[i]] == 1, lo + pos(f[i]) == i, same(at(new, i), at(old, f[i])))),
            patterns=self.pats(new, i) + [f[i]]))
        it.assume(z3.ForAll([i, k], z3.Implies(z3.And(lo <= i, i < k, k < r), f[i] < f[k]), patterns=[z3.MultiPattern(f[i], f[k])]))
        it.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi, keep[i] == 1), z3.And(
            lo + pos(i) < r, f[lo + pos(i)] == i, same(at(new, lo + pos(i)), at(old, i)))), patterns=self.pats(old, i)))
        it.assume(z3.And(lo <= r, z3.Or(r <= hi, hi < lo)))
        it.write(path, new)
        return It(path, r)

    def f_remove(self, it, a, n):
        v = it.rv(a[2])
        return self.f_remove_if(it, a, n, pred=lambda x: same(x, v))

    def f_isnan(self, it, a, n):
        return z3.BoolVal(False)

    # ------------------------------------------------------------------ operators
    def affine(self, it, v):
        """a sparse matrix as h * base + i * identity"""
        if v.tn == 'affine':
            return v
        if is_sparse(v):
            return S('affine', {'rows': v.rows, 'cols': v.cols, 'base': uf(it, 'matrix', OPQ, [v]), 'h': z3.RealVal(1), 'i': z3.RealVal(0)})
        raise Unsupported('arithmetic with %s' % v.tn)

    def affine_op(self, it, op, p, q):
        mix = lambda a, h, i: S('affine', dict(a.f, h=z3.simplify(h), i=z3.simplify(i)))
        if op in ('*', '/') and is_leaf(q) or op == '*' and is_leaf(p):
            p, q = (p, q) if is_leaf(q) else (q, p)
            q = conv_sort(q, R)
            a = self.affine(it, p)
            return mix(a, a.h * q, a.i * q) if op == '*' else mix(a, a.h / q, a.i / q)
        if op in ('+', '-'):
            a, b = self.affine(it, p), self.affine(it, q)
            sg = 1 if op == '+' else -1
            if not (z3.is_rational_value(b.h) and b.h.as_fraction() == 0 or z3.eq(a.base, b.base)):
                raise Unsupported('sum of different matrices')
            it.oblige('same-size', z3.And(a.rows == b.rows, a.cols == b.cols), None)
            return mix(a, a.h + sg * b.h, a.i + sg * b.i)
        raise Unsupported('sparse ' + op)

    def operator(self, it, op, xs, n):
        a = xs[0]
        va = it.rv(a)
        if op in ('*', '/', '+', '-') and len(xs) == 2:
            p, q = it.deref_all(va), it.deref_all(xs[1])
            if any(isinstance(v, S) and (v.tn == 'affine' or is_sparse(v)) for v in (p, q)):
                return self.affine_op(it, op, p, q)
        if op in ('==', '!=') and len(xs) == 2:
            for p, q in ((va, it.rv(xs[1])), (it.rv(xs[1]), va)):
                if isinstance(p, Ref) and isinstance(q, Ref) and q.path is None:
                    return p.null if op == '==' else z3.Not(p.null)
        k = 0
        nul = []
        while isinstance(va, Ref) and k < 4:
            nul.append(va.null)
            a = va.path
            va = it.read(a)
            k += 1
        if isinstance(va, It):
            return self.iter_op(it, op, a, va, xs, n)
        if op in ('[]', '()'):
            idx = [it.rv(x) for x in xs[1:]]
            if op == '()' and is_leaf(va) and va.sort() == STR:       # "..."_format(...)
                idx = [it.deref_all(x) for x in xs[1:]]
                if all(is_leaf(x) for x in idx):
                    r = uf(it, 'format', STR, [va] + idx)
                    if str(va).startswith('str:') and re.sub(r'\{[^}]*\}', '', str(va)[4:]):
                        it.assume(r != self.strlit(''))       # the text around the fields is kept
                    return r
                return it.fresh('format', STR)
            return self.index(it, a, va, idx, n)
        if op in ('*', '->') and len(xs) == 1 and nul:
            it.oblige('pointer-not-null', z3.Not(nul[-1]), n.get('range', {}).get('begin', {}).get('line'))
            return a
        if op in ('*', '->') and len(xs) == 1:
            return it.pointee(va, n) if op == '*' else va
        if len(xs) == 1:
            if op == '-':
                return self.map1(it, va, lambda v: -v)
            if op == '!':
                return self.map1(it, va, lambda v: z3.Not(v))
            if op in ('++', '--') and is_leaf(va):
                it.write(a, va + (1 if op == '++' else -1))
                return a
            raise Unsupported('operator ' + op)
        b = it.rv(xs[1])
        while isinstance(b, Ref):
            if b.path is None or isinstance(va, Ref):
                break
            b = it.read(b.path)
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '%='):
            if isinstance(a, (Seg, DiagV)):
                return a.assign(it, self.binop(it, op[:-1], a.lazy(it), b, n))
            if not isinstance(a, LV):
                raise Unsupported('compound assignment to a view')
            r = self.binop(it, op[:-1], va, b, n)
            it.write(a, r)
            return a
        return it.arith(op, va, b, None, n) if is_leaf(va) and is_leaf(b) and va.sort() != STR \
            and va.sort() != OPQ else self.binop(it, op, va, b, n)

    def iter_op(self, it, op, a, va, xs, n):
        if op == '*':
            it.check_bounds(va, n)
            return va.path.i(va.idx)
        if op == '->':
            it.check_bounds(va, n)
            return Ref(va.path.i(va.idx))
        if op in ('++', '--'):
            one = z3.IntVal(1 if op == '++' else -1)
            new = It(va.path, z3.simplify(va.idx + one))
            it.write(a, new)
            return va if len(xs) > 1 else a
        if op == '[]':
            p = It(va.path, va.idx + it.rv(xs[1]))
            it.check_bounds(p, n)
            return p.path.i(p.idx)
        b = it.rv(xs[1])
        if op in ('+=', '-='):
            it.write(a, It(va.path, va.idx + b if op == '+=' else va.idx - b))
            return a
        return it.ptr_arith(op, va, b)

    def index(self, it, a, va, idx, n):
        if isinstance(va, LMat) and len(idx) == 2:
            it.oblige('bounds', z3.And(0 <= idx[0], idx[0] < va.rows, 0 <= idx[1], idx[1] < va.cols), line_of_(n))
            return va.at(idx[0], idx[1])
        if isinstance(va, S) and va.tn == 'mat' and len(idx) == 2:
            it.oblige('bounds', z3.And(0 <= idx[0], idx[0] < va.rows, 0 <= idx[1], idx[1] < va.cols), line_of_(n))
            return it.as_lv(a).i(idx[0]).i(idx[1])
        if isinstance(va, A) and va.kind == 'map':
            return self.map_index(it, a, va, idx[0], n)
        i = idx[0]
        if not is_leaf(i) or i.sort() != I:
            raise Unsupported('index %r' % (i,))
        if is_fix(va):
            it.oblige('bounds', z3.And(0 <= i, i < fixn(va)), line_of_(n))
            if isinstance(a, LV):
                return a.i(z3.simplify(i))
            return fix_get(va, i)
        if is_seq(va):
            it.oblige('bounds', z3.And(0 <= i, i < va.n), line_of_(n))
            if isinstance(a, LV) and isinstance(va, A):
                return a.i(z3.simplify(i))
            return at(va, i)
        if isinstance(va, S):
            its = [x for x in va.f.values() if isinstance(x, It)]
            raise Unsupported('index into ' + va.tn)
        raise Unsupported('index into %r' % (va,))

    def map_find(self, it, va, key):
        r = it.fresh('slot')
        q = qv()
        it.assume(z3.And(0 <= r, r <= va.n))
        it.assume(z3.Implies(r < va.n, same(va.e.f['first'] if False else va[r].f['first'], key)))
        it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < r), z3.Not(same(va[q].f['first'], key))),
                            patterns=[next(l for _, l in leaves(va[q].f['first']))]))
        it.assume(z3.Implies(r == va.n, z3.ForAll([q], z3.Implies(
            z3.And(0 <= q, q < va.n), z3.Not(same(va[q].f['first'], key))))))
        return r

    def map_index(self, it, a, va, key, n):
        r = self.map_find(it, va, key)
        lv = it.as_lv(a)
        if it.choose(r < va.n):
            return lv.i(r).f('second')
        e = va.e
        dflt = it.zero_like(sel(e.f['second'], z3.IntVal(0)))
        new = A(va.n + 1, sto(e, va.n, S('pair', {'first': key, 'second': dflt})), 'map')
        it.write(lv, new)
        return lv.i(va.n).f('second')

    # elementwise
    def map1(self, it, x, f):
        if is_leaf(x):
            return f(x)
        if is_fix(x):
            return mkfix([f(v) for v in fvals(x)])
        if is_seq(x):
            return Lazy(x.n, lambda i: self.map1(it, at(x, i), f))
        if isinstance(x, S) and x.tn == 'complex':
            return S('complex', {'re': f(x.re), 'im': f(x.im)})
        raise Unsupported('elementwise operation on %r' % (x,))

    def binop(self, it, op, a, b, n):
        if is_leaf(a) and is_leaf(b) and a.sort() == OPQ and b.sort() == OPQ and op in ('-', '+'):
            return uf(it, 'opaque' + op, OPQ, [a, b])
        if isinstance(a, Ref) and isinstance(b, Ref):
            return it.arith(op, a, b)
        if op in ('==', '!='):
            if isinstance(a, S) and a.tn in ('tie', 'tuple') or isinstance(b, S) and b.tn in ('tie', 'tuple'):
                f = z3.And([same(self.tv(it, a, i), self.tv(it, b, i)) for i in range(len(a.f))])
                return f if op == '==' else z3.Not(f)
            if is_leaf(a) and is_leaf(b):
                f = same(a, b)
                return f if op == '==' else z3.Not(f)
            if isinstance(a, S) and isinstance(b, S) and a.tn == b.tn and a.tn in ('complex', 'pair'):
                f = same(a, b)
                return f if op == '==' else z3.Not(f)
            if is_mat(a) and is_mat(b):
                i, j = qv(), qv()
                f = z3.And(a.rows == b.rows, a.cols == b.cols, z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < a.rows, 0 <= j, j < a.cols), same(mat_at(a, i, j), mat_at(b, i, j)))))
                return f if op == '==' else z3.Not(f)
            if isinstance(a, A) and isinstance(b, A) and not self.is_eigen_array(n):
                f = same(a, b)
                return f if op == '==' else z3.Not(f)
        if op == '<' and isinstance(a, S) and a.tn in ('tie', 'tuple'):
            return self.lex(it, a, b, 0)
        if is_leaf(a) and is_leaf(b):
            if a.sort() == STR and b.sort() == STR and op == '+':
                return CONCAT(a, b)
            if a.sort() in (I, R, B) and b.sort() in (I, R, B):
                return it.arith(op, a, b, None, n)
            raise Unsupported('operator %s on %s' % (op, a.sort()))
        if isinstance(a, S) and a.tn == 'complex' or isinstance(b, S) and b.tn == 'complex':
            if (is_leaf(a) or a.tn == 'complex') and (is_leaf(b) or b.tn == 'complex'):
                return self.cplx(op, a, b)
        if is_fix(a) or is_fix(b):
            if is_seq(a) or is_seq(b):
                raise Unsupported('mixed size expression')
            k = fixn(a) if is_fix(a) else fixn(b)
            f = lambda v, i: v.f[str(i)] if is_fix(v) else v
            if op in ('==', '!=') and n.get('type', {}).get('qualType') in ('bool', '_Bool'):
                r = z3.And([same(f(a, i), f(b, i)) for i in range(k)])
                return r if op == '==' else z3.Not(r)
            return mkfix([self.binop(it, op, f(a, i), f(b, i), n) for i in range(k)])
        if is_seq(a) or is_seq(b):
            k = a.n if is_seq(a) else b.n
            if is_seq(a) and is_seq(b) and not z3.eq(z3.simplify(a.n), z3.simplify(b.n)):
                it.oblige('same-size', a.n == b.n, line_of_(n))
            f = lambda v, i: at(v, i) if is_seq(v) else v
            return Lazy(k, lambda i: self.binop(it, op, f(a, i), f(b, i), n))
        raise Unsupported('operator %s on %r and %r' % (op, a, b))

    def is_eigen_array(self, n):
        try:
            t = n['inner'][1]['type']
            s = t.get('desugaredQualType', t['qualType'])
            return 'vector' not in s
        except Exception:
            return True

    def tv(self, it, t, i):
        x = t.f[str(i)]
        return it.deref_all(x) if isinstance(x, (Ref, LV)) else x

    def lex(self, it, a, b, i):
        if i >= len(a.f):
            return z3.BoolVal(False)
        x, y = self.tv(it, a, i), self.tv(it, b, i)
        return z3.Or(x < y, z3.And(x == y, self.lex(it, a, b, i + 1)))

    def cplx(self, op, a, b):
        def c(v):
            if is_leaf(v):
                return S('complex', {'re': conv_sort(v, R), 'im': z3.RealVal(0)})
            return v
        a, b = c(a), c(b)
        if op in ('+', '-'):
            f = (lambda x, y: x + y) if op == '+' else (lambda x, y: x - y)
            return S('complex', {'re': f(a.re, b.re), 'im': f(a.im, b.im)})
        if op == '*':
            for p, q in ((a, b), (b, a)):
                if z3.is_rational_value(q.im) and q.im.as_fraction() == 0:
                    return S('complex', {'re': p.re * q.re, 'im': p.im * q.re})
            return S('complex', {'re': a.re * b.re - a.im * b.im, 'im': a.re * b.im + a.im * b.re})
        raise Unsupported('complex ' + op)

    def assign_op(self, it, lv, rhs, n):
        while isinstance(rhs, Ref) and not self.wants_ref(it, lv):
            rhs = it.read(rhs.path)
        if isinstance(lv, S) and lv.tn == 'tie':
            for k, x in lv.f.items():
                v = rhs.f[k] if k in rhs.f else list(rhs.f.values())[int(k)]
                if isinstance(x, Ref):
                    it.write(x.path, v)
            return lv
        if isinstance(lv, (Seg, DiagV)):
            return lv.assign(it, rhs)
        if not isinstance(lv, LV):
            raise Unsupported('assignment to %r' % (lv,))
        cur = it.read(lv)
        while isinstance(cur, Ref) and not isinstance(rhs, Ref):
            lv = cur.path
            cur = it.read(lv)
        if is_leaf(cur) and is_leaf(rhs):
            rhs = conv_sort(rhs, cur.sort())
        if isinstance(cur, S) and cur.tn == 'complex' and is_leaf(rhs) and rhs.sort() in (R, I):
            rhs = S('complex', {'re': conv_sort(rhs, R), 'im': z3.RealVal(0)})
        if isinstance(rhs, S) and rhs.tn == 'pair' and isinstance(cur, S) and cur.tn == 'tie':
            return self.assign_op(it, cur, rhs, n)
        if isinstance(cur, A) and is_leaf(rhs) and rhs.sort() != OPQ:
            rhs = Lazy(cur.n, lambda i, r=rhs: r)
        if isinstance(cur, A) and isinstance(rhs, A):
            rhs = A(rhs.n, rhs.e, cur.kind)
        it.write(lv, rhs)
        return lv

    def wants_ref(self, it, lv):
        try:
            return isinstance(it.read(lv), Ref)
        except Exception:
            return False

    # ------------------------------------------------------------------ construction
    def construct(self, it, k, t, ct, inner, n):
        xs = None
        if k[0] == 'vec':
            if not inner:
                return it.default_value(t, 'vec')
            xs = [it.rv(a) for a in it.args_of(inner)]
            if len(xs) == 1 and is_seq(xs[0]):
                return it.force(xs[0])
            if is_leaf(xs[0]) and xs[0].sort() == I and 'initializer_list' not in ct:
                isvec = head_args(it.types.resolve(t)[0])[0].endswith('vector')
                e = it.types.mk(k[1], 'new#%d' % it._tick(), it, 1)
                if isvec:
                    v = xs[1] if len(xs) > 1 else it.zero(k[1])
                    e = lift_const(it.convert_to(v, it.types.kind(k[1]), k[1]))
                return A(xs[0], e)
            if len(xs) == 2 and isinstance(xs[0], It) and is_leaf(xs[1]) and head_args(it.types.resolve(t)[0])[0].endswith('Map') and 'const' in t:
                # a read-only view of memory
                seq, lo = it.deref_all(xs[0].path), xs[0].idx
                it.oblige('bounds', z3.And(xs[1] >= 0, lo >= 0, lo + xs[1] <= seq.n), line_of_(n))
                return it.force(Lazy(xs[1], lambda i: at(seq, lo + i)))
            if len(xs) >= 2 and isinstance(xs[0], It) and isinstance(xs[1], It):
                path, lo, hi = self.ends(xs[0], xs[1])
                seq = it.deref_all(path)
                return it.force(Lazy(hi - lo, lambda i: at(seq, lo + i)))
            if is_fix(xs[0]):
                return self.seq_of(it, fvals(xs[0]), t)
            raise Unsupported('construction of ' + t)
        if k[0] == 'fix':
            if not inner:
                return it.default_value(t, 'fix')
            xs = [it.rv(a) for a in it.args_of(inner)]
            if len(xs) == 1 and is_fix(xs[0]):
                return mkfix([it.convert_to(v, it.types.kind(k[1]), k[1]) for v in fvals(xs[0])])
            if len(xs) == 1 and is_seq(xs[0]):
                return mkfix([at(xs[0], z3.IntVal(i)) for i in range(k[2])])
            if len(xs) == k[2]:
                return mkfix([it.convert_to(v, it.types.kind(k[1]), k[1]) for v in xs])
            raise Unsupported('construction of ' + t)
        if k[0] == 'pair':
            if not inner:
                return it.default_value(t, 'pair')
            xs = [it.rv(a) for a in it.args_of(inner)]
            if len(xs) == 1 and isinstance(xs[0], S) and xs[0].tn == 'pair':
                return xs[0]
            if len(xs) == 2:
                return S('pair', {'first': it.convert_to(xs[0], it.types.kind(k[1]), k[1]),
                                  'second': it.convert_to(xs[1], it.types.kind(k[2]), k[2])})
        if k[0] == 'complex':
            xs = [it.rv(a) for a in it.args_of(inner)]
            if not xs:
                return it.zero(t)
            if len(xs) == 1 and isinstance(xs[0], S):
                return xs[0]
            im = xs[1] if len(xs) > 1 else z3.RealVal(0)
            return S('complex', {'re': conv_sort(xs[0], R), 'im': conv_sort(im, R)})
        if k[0] == 'str':
            if not inner:
                return self.strlit('')
            xs = [it.rv(a) for a in it.args_of(inner)]
            if is_leaf(xs[0]) and xs[0].sort() == STR:
                return xs[0]
            if isinstance(xs[0], It):
                v = it.read(xs[0].path)
                if is_leaf(v):
                    return v
            return it.fresh('string', STR)
        if not inner:
            return it.default_value(t, 'obj')
        if k[0] == 'over':
            return it.types.over[k[1]].construct(it, ct, [it.deref_all(a) for a in it.args_of(inner)])
        xs = [it.rv(a) for a in it.args_of(inner)]
        if k[0] == 'opaque' and it.types.over.get(k[1]) and not (len(xs) == 1 and is_leaf(xs[0]) and xs[0].sort() == OPQ):
            return uf(it, 'new:' + k[1], OPQ, xs)
        if k[0] == 'variant':
            return self.make_variant(it, k, inner, xs)
        if len(xs) == 1:
            return xs[0]
        if k[0] == 'iter' and len(xs) == 1:
            return xs[0]
        raise Unsupported('construction of %s from %d arguments' % (t, len(xs)))

    # ------------------------------------------------------------------ methods
    def method(self, it, name, lv, args, n):
        v = it.rv(lv)
        k = 0
        while isinstance(v, Ref) and k < 4:
            if name == 'get' or name == 'reset' or name == 'operator bool':
                break
            lv = v.path
            v = it.read(lv)
            k += 1
        self.use('.' + name)
        if isinstance(v, Ref):
            if name == 'get':
                return v
            if name == 'operator bool':
                return z3.Not(v.null)
            if name == 'reset' and not args:
                it.write(lv, Ref(v.path, z3.BoolVal(True)))
                return
        if isinstance(v, Seg):
            v = v.lazy(it)
        if isinstance(v, A) and v.kind == 'map':
            m = getattr(self, 'map_m_' + name, None)
            if m:
                return m(it, lv, v, args, n)
        if is_seq(v):
            m = getattr(self, 'seq_' + name, None)
            if m:
                return m(it, lv, v, args, n)
        if is_fix(v):
            m = getattr(self, 'fix_' + name, None) or getattr(self, 'seq_' + name, None)
            if m:
                return m(it, lv, v, args, n)
        if is_mat(v):
            if name == 'rows':
                return v.rows
            if name == 'cols':
                return v.cols
            if name == 'size':
                return v.rows * v.cols
            m = getattr(self, 'mat_' + name, None)
            if m:
                return m(it, lv, v, args, n)
        if isinstance(v, S) and v.tn == 'affine' and name in ('makeCompressed', 'markAsRValue'):
            return v if name == 'markAsRValue' else VOID
        if isinstance(v, S) and v.tn in ('assembly', 'affine') and name == 'swap' or is_sparse(v) and name == 'swap':
            o = it.deref_all(args[0])
            it.write(it.as_lv(args[0]), v)
            it.write(lv, o)
            return VOID
        if isinstance(v, S) and v.tn == 'assembly':
            m = getattr(self, 'assembly_' + name, None)
            if m:
                return m(it, lv, v, args, n)
        if is_sparse(v):
            r = self.sparse_method(it, name, lv, v, args, n)
            if r is not None:
                return r
        if isinstance(v, S) and v.tn == 'complex':
            if name in ('real', 'imag'):
                return v.f['re' if name == 'real' else 'im']
        if is_leaf(v) and v.sort() == STR:
            if name == 'empty':
                return v == self.strlit('')
            if name in ('size', 'length'):
                it.assume(STRLEN(v) >= 0)
                return STRLEN(v)
            if name in ('c_str', 'str', 'operator basic_string', 'operator std::string') or name.startswith('operator '):
                return v
            if name == 'clear':
                it.write(lv, self.strlit(''))
                return
        if name == 'operator bool' and is_leaf(v) and v.sort() == OPQ:
            return ISSET(v)
        if name.startswith('operator '):
            return v
        raise Unsupported('method %s on %s' % (name, v.tn if isinstance(v, S) else type(v).__name__))

    # sequences (std::vector, Eigen dynamic arrays and expressions)
    def seq_size(self, it, lv, v, args, n):
        return seqlen(v)

    seq_rows = seq_length = seq_size

    def seq_cols(self, it, lv, v, args, n):
        return z3.IntVal(1)

    def seq_empty(self, it, lv, v, args, n):
        return seqlen(v) == 0

    def seq_begin(self, it, lv, v, args, n):
        return It(it.as_lv(lv), z3.IntVal(0))

    seq_cbegin = seq_data = seq_begin

    def seq_end(self, it, lv, v, args, n):
        return It(it.as_lv(lv), seqlen(v))

    seq_cend = seq_end

    def seq_push_back(self, it, lv, v, args, n):
        x = it.rv(args[0])
        while isinstance(x, Ref):
            x = it.read(x.path)
        it.write(lv, A(v.n + 1, sto(v.e, v.n, x), v.kind))

    def seq_emplace_back(self, it, lv, v, args, n):
        if isinstance(v.e, S) and v.e.tn in it.types.over and it.types.over[v.e.tn] != 'opaque':
            x = it.types.over[v.e.tn].construct(it, '', [it.deref_all(y) for y in args])
            return it.write(lv, A(v.n + 1, sto(v.e, v.n, x), v.kind))
        xs = [it.rv(a) for a in args]
        if len(xs) == 1 and (is_leaf(v.e) or isinstance(xs[0], (S, A)) and type(xs[0]) == type(v.e)):
            return self.seq_push_back(it, lv, v, args, n)
        if isinstance(v.e, S) and len(v.e.f) == len(xs):
            x = S(v.e.tn, dict(zip(v.e.f.keys(), xs)))
            return it.write(lv, A(v.n + 1, sto(v.e, v.n, x), v.kind))
        if not xs:
            x = it.zero_like(sel(v.e, z3.IntVal(0)))
            return it.write(lv, A(v.n + 1, sto(v.e, v.n, x), v.kind))
        if isinstance(v.e, S):
            q, rec = it.ix.record(v.e.tn)
            cs = [d for d in it.all_ctors(rec) if not d.get('isImplicit') and len(params_of(d)) == len(args)] if rec else []
            if len(cs) == 1:
                x = it.construct(('rec', q, rec), cs[0]['type']['qualType'], [(lambda y=y: y) for y in args], n)
                return it.write(lv, A(v.n + 1, sto(v.e, v.n, x), v.kind))
        raise Unsupported('emplace_back')

    def seq_pop_back(self, it, lv, v, args, n):
        it.oblige('nonempty', v.n > 0, line_of_(n))
        it.write(lv, A(v.n - 1, v.e, v.kind))

    def seq_clear(self, it, lv, v, args, n):
        it.write(lv, A(z3.IntVal(0), v.e, v.kind))

    def seq_reserve(self, it, lv, v, args, n):
        pass

    seq_shrink_to_fit = seq_reserve

    def seq_resize(self, it, lv, v, args, n):
        k = it.rv(args[0])
        if len(args) > 1:
            x = it.rv(args[1])
        else:
            x = None
        # old elements are kept for std::vector; Eigen's resize leaves them unspecified
        e = it.havoc_value(v.e, 'resize')
        new = A(k, e, v.kind)
        t = it_type(n)
        if 'vector' in t:
            if x is None:
                x = it.zero_like(v[qv()])
            q = qv()
            it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), same(new[q], ite(q < v.n, v[q], x)))))
        it.oblige('nonnegative-size', k >= 0, line_of_(n))
        it.write(lv, new)

    def seq_conservativeResize(self, it, lv, v, args, n):
        k = it.rv(args[0])
        e = it.havoc_value(v.e, 'resize')
        new = A(k, e, v.kind)
        q = qv()
        it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k, q < v.n), same(new[q], v[q]))))
        it.write(lv, new)

    def seq_assign(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        if is_leaf(xs[0]):
            it.write(lv, A(xs[0], lift_const(self.conv_like(xs[1], v.e)), v.kind))
            return
        raise Unsupported('assign')

    def conv_like(self, x, e):
        if is_leaf(x) and is_leaf(e):
            return conv_sort(x, e.sort().range())
        return x

    def seq_front(self, it, lv, v, args, n):
        it.oblige('nonempty', v.n > 0, line_of_(n))
        return lv.i(z3.IntVal(0)) if isinstance(lv, LV) else at(v, z3.IntVal(0))

    def seq_back(self, it, lv, v, args, n):
        it.oblige('nonempty', v.n > 0, line_of_(n))
        return lv.i(z3.simplify(v.n - 1)) if isinstance(lv, LV) else at(v, v.n - 1)

    def seq_at(self, it, lv, v, args, n):
        i = it.rv(args[0])
        if not it.choose(z3.And(0 <= i, i < v.n)):
            raise ThrowEx('std::out_of_range')
        return lv.i(i) if isinstance(lv, LV) else at(v, i)

    def seq_coeff(self, it, lv, v, args, n):
        return self.index(it, lv, v, [it.rv(args[0])], n)

    seq_coeffRef = seq_coeff

    def seq_swap(self, it, lv, v, args, n):
        w = it.rv(args[0])
        it.write(lv, w)
        it.write(args[0], v)

    def seq_erase(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        if len(xs) == 1:
            p, q_ = xs[0].idx, xs[0].idx + 1
            it.oblige('bounds', z3.And(0 <= p, p < v.n), line_of_(n))
        else:
            p, q_ = xs[0].idx, xs[1].idx
        if z3.eq(z3.simplify(q_), z3.simplify(v.n)):
            it.write(lv, A(z3.simplify(p), v.e, v.kind))
            return It(it.as_lv(lv), p)
        d = q_ - p
        new = it.force(Lazy(v.n - d, lambda i: ite(i < p, v[i], v[i + d])))
        it.write(lv, A(new.n, new.e, v.kind))
        return It(it.as_lv(lv), p)

    def seq_insert(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        if len(xs) == 3 and all(isinstance(x, It) for x in xs):
            p, (path, lo, hi) = xs[0].idx, self.ends(xs[1], xs[2])
            seq = it.deref_all(path)
            m = hi - lo
            new = it.force(Lazy(v.n + m, lambda i: ite(i < p, v[i], ite(i < p + m, at(seq, lo + i - p), v[i - m]))))
            it.write(lv, A(new.n, new.e, v.kind))
            return It(it.as_lv(lv), p)
        if len(xs) == 2:
            p = xs[0].idx
            new = it.force(Lazy(v.n + 1, lambda i: ite(i < p, v[i], ite(i == p, xs[1], v[i - 1]))))
            it.write(lv, A(new.n, new.e, v.kind))
            return It(it.as_lv(lv), p)
        raise Unsupported('insert')

    def segment(self, it, lv, v, lo, k, n):
        it.oblige('segment-in-range', z3.And(lo >= 0, k >= 0, lo + k <= seqlen(v)), line_of_(n))
        if isinstance(lv, LV):
            return Seg(lv, lo, k)
        return Lazy(k, lambda i: at(v, lo + i))

    def sparse_method(self, it, name, lv, v, args, n):
        part = {'valuePtr': 'val', 'innerIndexPtr': 'inner', 'outerIndexPtr': 'outer'}.get(name)
        if part:
            return It(it.as_lv(lv).f(part), z3.IntVal(0))
        if name in ('rows', 'outerSize'):
            return v.rows
        if name in ('cols', 'innerSize'):
            return v.cols
        if name == 'size':
            return v.rows * v.cols
        if name == 'nonZeros':
            return v.outer[v.rows]
        if name == 'resizeNonZeros' or name == 'reserve':
            a = it.rv(args[0])
            k = lambda w: A(a if name == 'resizeNonZeros' else z3.If(w.n > a, w.n, a), w.e, w.kind)
            if not is_leaf(a):
                return None
            it.write(lv, S(v.tn, dict(v.f, inner=k(v.inner), val=k(v.val))))
            return VOID
        return None

    # a matrix filled element by element: which elements were inserted and their values
    def assembly_insert(self, it, lv, v, args, n):
        r, c = it.rv(args[0]), it.rv(args[1])
        it.oblige('bounds', z3.And(0 <= r, r < v.rows, 0 <= c, c < v.cols), line_of_(n))
        it.oblige('inserted-once', z3.Not(v.has.d[r][c]), line_of_(n))
        lv = it.as_lv(lv)
        it.write(lv.f('has').i(r).i(c), z3.BoolVal(True))
        return lv.f('val').i(r).i(c)

    def assembly_rows(self, it, lv, v, args, n):
        return v.rows

    def assembly_cols(self, it, lv, v, args, n):
        return v.cols

    def assembly_setIdentity(self, it, lv, v, args, n):
        it.oblige('square', v.rows == v.cols, line_of_(n))
        it.write(lv, S('affine', {'rows': v.rows, 'cols': v.cols, 'base': it.fresh('identity', OPQ), 'h': z3.RealVal(0), 'i': z3.RealVal(1)}))
        return VOID

    def assembly_reserve(self, it, lv, v, args, n):
        return VOID

    assembly_makeCompressed = assembly_reserve

    def assembly_markAsRValue(self, it, lv, v, args, n):
        return v

    def seq_head(self, it, lv, v, args, n):
        return self.segment(it, lv, v, z3.IntVal(0), it.rv(args[0]), n)

    def seq_tail(self, it, lv, v, args, n):
        k = it.rv(args[0])
        return self.segment(it, lv, v, seqlen(v) - k, k, n)

    def seq_segment(self, it, lv, v, args, n):
        return self.segment(it, lv, v, it.rv(args[0]), it.rv(args[1]), n)

    def seq_setConstant(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        k = xs[0] if len(xs) > 1 else v.n
        if isinstance(lv, Seg):
            return it.write(lv, Lazy(k, lambda i: xs[-1]))
        it.write(lv, A(k, lift_const(self.conv_like(xs[-1], v.e)), v.kind))

    def seq_setZero(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        k = xs[0] if xs else v.n
        if isinstance(lv, Seg):
            return it.write(lv, Lazy(k, lambda i: it.zero_like(v.at(i))))
        it.write(lv, A(k, lift_const(it.zero_like(v[qv()])), v.kind))

    def seq_sum(self, it, lv, v, args, n):
        return self.total(it, v)

    def seq_count(self, it, lv, v, args, n):
        return self.total(it, v)

    def seq_any(self, it, lv, v, args, n):
        if is_fix(v):
            return z3.Or([conv_sort(x, B) for x in fvals(v)])
        return exists_range(z3.IntVal(0), v.n, lambda q: conv_sort(at(v, q), B))

    def seq_all(self, it, lv, v, args, n):
        if is_fix(v):
            return z3.And([conv_sort(x, B) for x in fvals(v)])
        return forall_range(z3.IntVal(0), v.n, lambda q: conv_sort(at(v, q), B))

    def seq_maxCoeff(self, it, lv, v, args, n):
        if is_fix(v):
            r = fvals(v)[0]
            for x in fvals(v)[1:]:
                r = z3.If(x > r, x, r)
            return r
        r = it.fresh('max', at(v, qv()).sort())
        q = qv()
        it.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < v.n), at(v, q) <= r)))
        it.assume(z3.Implies(v.n > 0, z3.Exists([q], z3.And(0 <= q, q < v.n, at(v, q) == r))))
        return r

    def seq_prod(self, it, lv, v, args, n):
        if not is_fix(v):
            raise Unsupported('prod of a dynamic array')
        r = None
        for x in fvals(v):
            r = it.num(x) if r is None else r * it.num(x)
        return r

    def seq_array(self, it, lv, v, args, n):
        return lv

    seq_matrix = seq_eval = seq_derived = seq_asDiagonal = seq_noalias = seq_transpose = seq_const_cast_derived = seq_array

    def seq_cast(self, it, lv, v, args, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        f = None
        m = re.search(r'scalar_cast_op<[^,]*(?:<[^>]*>)?, *([a-z ]+)>', t)
        if m:
            tgt = m.group(1).strip()
            kk = it.types.kind(tgt)[0]
            f = {'real': lambda x: conv_sort(x, R), 'int': lambda x: to_int(x), 'bool': lambda x: conv_sort(x, B)}.get(kk)
        if f is None:
            f = lambda x: x
        return self.map1(it, v, f)

    def seq_cwiseProduct(self, it, lv, v, args, n):
        return self.binop(it, '*', v, it.rv(args[0]), n)

    def seq_cwiseAbs2(self, it, lv, v, args, n):
        return self.binop(it, '*', v, v, n)

    def seq_cwiseSqrt(self, it, lv, v, args, n):
        return self.f_sqrt(it, [v], n)

    def seq_select(self, it, lv, v, args, n):
        a, b = it.rv(args[0]), it.rv(args[1])
        k = seqlen(v)
        for w in (a, b):
            if is_seq(w):
                it.oblige('select-size', seqlen(w) == k, line_of_(n))
        g = lambda w: is_seq(w) or is_fix(w)
        f = lambda w, i: at(w, i) if g(w) else w
        if is_fix(v):
            return mkfix([ite(x, f(a, i), f(b, i)) for i, x in enumerate(fvals(v))])
        return Lazy(k, lambda i: ite(at(v, i), f(a, i), f(b, i)))

    def seq_conjugate(self, it, lv, v, args, n):
        return self.map1c(it, v, lambda c: S('complex', {'re': c.re, 'im': -c.im}))

    def map1c(self, it, v, f):
        return Lazy(v.n, lambda i: f(at(v, i)) if isinstance(at(v, i), S) else at(v, i))

    def seq_unaryExpr(self, it, lv, v, args, n):
        j = it.fresh('j')
        r = self.pure(it, it.rv(args[0]), [at(v, j)], n, z3.IntVal(0), seqlen(v), j)
        return Lazy(seqlen(v), lambda q: subst_tree(r, j, q))

    def seq_dot(self, it, lv, v, args, n):
        w = it.rv(args[0])
        while isinstance(w, Ref):
            w = it.read(w.path)
        if is_fix(v) and is_fix(w):
            r = None
            for x, y in zip(fvals(v), fvals(w)):
                r = x * y if r is None else r + x * y
            return r
        if not is_leaf(at(v, qv())):
            # Eigen conjugates the first factor
            re = Lazy(seqlen(v), lambda i: at(v, i).re * at(w, i).re + at(v, i).im * at(w, i).im)
            im = Lazy(seqlen(v), lambda i: at(v, i).re * at(w, i).im - at(v, i).im * at(w, i).re)
            return S('complex', {'re': self.total(it, re), 'im': self.total(it, im)})
        return self.total(it, Lazy(seqlen(v), lambda i: at(v, i) * at(w, i)))

    def seq_squaredNorm(self, it, lv, v, args, n):
        r = self.seq_dot(it, lv, v, [v], n)
        return r.re if isinstance(r, S) else r

    def seq_norm(self, it, lv, v, args, n):
        return self.f_sqrt(it, [self.seq_squaredNorm(it, lv, v, args, n)], n)

    def seq_abs(self, it, lv, v, args, n):
        return self.map1(it, v, lambda x: z3.If(x >= 0, x, -x))

    seq_cwiseAbs = seq_abs

    # fixed size
    def fix_x(self, it, lv, v, args, n):
        return lv.f('0') if isinstance(lv, LV) else v.f['0']

    def fix_y(self, it, lv, v, args, n):
        return lv.f('1') if isinstance(lv, LV) else v.f['1']

    def fix_z(self, it, lv, v, args, n):
        return lv.f('2') if isinstance(lv, LV) else v.f['2']

    def fix_cross(self, it, lv, v, args, n):
        w = it.rv(args[0])
        a, b = fvals(v), fvals(w)
        return mkfix([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def fix_setZero(self, it, lv, v, args, n):
        it.write(lv, mkfix([it.zero_like(x) for x in fvals(v)]))

    def fix_setConstant(self, it, lv, v, args, n):
        x = it.rv(args[0])
        it.write(lv, mkfix([conv_sort(x, y.sort()) for y in fvals(v)]))

    def fix_cast(self, it, lv, v, args, n):
        return self.seq_cast(it, lv, v, args, n)

    # matrices.  Eigen's isZero()/isUpperTriangular() compare with a tolerance: "tiny" is that test on one
    # coefficient, about which only tiny(0) is assumed
    def tiny(self, x):
        if isinstance(x, S):
            return z3.Or(z3.And(x.re == 0, x.im == 0), TINYC(x.re, x.im))
        return z3.Or(x == 0, TINY(x))

    def all_tiny(self, n, f):
        return forall_range(z3.IntVal(0), n, lambda q: self.tiny(f(q)))

    def all_tiny2(self, m):
        i, j = qv(), qv()
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < m.rows, 0 <= j, j < m.cols), self.tiny(mat_at(m, i, j))))

    def upper_triangular(self, m):
        """m.isUpperTriangular() as a value of the matrix."""
        return UPPER(m.rows, m.cols, *[x for _, x in leaves(m.d)])

    def mat_resize(self, it, lv, v, args, n):
        r, k = [it.rv(a) for a in args]
        it.oblige('nonnegative-size', z3.And(r >= 0, k >= 0), line_of_(n))
        v = it.force(v)
        # the elements are unspecified after a change of the size
        it.write(lv, S('mat', {'rows': r, 'cols': k, 'd': it.havoc_value(v.d, 'resize')}))

    def mat_isUpperTriangular(self, it, lv, v, args, n):
        v = it.force(v)
        return self.upper_triangular(v)

    def mat_isZero(self, it, lv, v, args, n):
        return self.all_tiny2(v)

    def seq_isZero(self, it, lv, v, args, n):
        if is_fix(v):
            return z3.And([self.tiny(x) for x in fvals(v)])
        return self.all_tiny(v.n, lambda q: at(v, q))

    def mat_imag(self, it, lv, v, args, n):
        p = mat_at(v, qv(), qv())
        return LMat(v.rows, v.cols, lambda i, j: mat_at(v, i, j).im if isinstance(p, S) else z3.RealVal(0))

    def mat_real(self, it, lv, v, args, n):
        p = mat_at(v, qv(), qv())
        return LMat(v.rows, v.cols, lambda i, j: mat_at(v, i, j).re if isinstance(p, S) else mat_at(v, i, j))

    def seq_imag(self, it, lv, v, args, n):
        return Lazy(v.n, lambda i: at(v, i).im if isinstance(at(v, i), S) else z3.RealVal(0))

    def seq_real(self, it, lv, v, args, n):
        return Lazy(v.n, lambda i: at(v, i).re if isinstance(at(v, i), S) else at(v, i))

    def conj(self, x):
        return S('complex', {'re': x.re, 'im': -x.im}) if isinstance(x, S) else x

    def mat_cast(self, it, lv, v, args, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        m = re.search(r'scalar_cast_op<[^,]*(?:<[^>]*>)?, *([a-z ]+)>', t)
        if m and it.types.kind(m.group(1).strip())[0] != 'real':
            raise Unsupported('matrix cast to ' + m.group(1))
        return v

    def mat_flat(self, it, v):
        """The elements of a matrix in storage order (row-major: EIGEN_DEFAULT_TO_ROW_MAJOR), read only."""
        v = it.force(v)
        return Lazy(v.rows * v.cols, lambda e: sel(sel(v.d, e / v.cols), e % v.cols))

    def mat_begin(self, it, lv, v, args, n):
        return It(it.as_lv(it.force(self.mat_flat(it, v)), 'flat!'), z3.IntVal(0))

    mat_data = mat_begin

    def mat_end(self, it, lv, v, args, n):
        return It(it.as_lv(it.force(self.mat_flat(it, v)), 'flat!'), v.rows * v.cols)

    def mat_adjoint(self, it, lv, v, args, n):
        return LMat(v.cols, v.rows, lambda i, j: self.conj(mat_at(v, j, i)))

    def mat_transpose(self, it, lv, v, args, n):
        return LMat(v.cols, v.rows, lambda i, j: mat_at(v, j, i))

    def mat_conjugate(self, it, lv, v, args, n):
        return LMat(v.rows, v.cols, lambda i, j: self.conj(mat_at(v, i, j)))

    def mat_selfadjointView(self, it, lv, v, args, n):
        t = it.ty(n)
        mode = t.rsplit(',', 1)[-1].strip(' >U&u') if 'SelfAdjointView<' in t else ''
        if mode not in ('1', '2'):
            raise Unsupported('selfadjointView of ' + t)
        it.oblige('square', v.rows == v.cols, line_of_(n))
        g = v.at if isinstance(v, LMat) else lambda i, j: sel(sel(v.d, i), j)

        def entry(i, j):
            own = i <= j if mode == '2' else i >= j
            a, b = g(i, j), g(j, i)
            if isinstance(a, S):
                return S('complex', {'re': z3.If(own, a.re, b.re), 'im': z3.If(own, a.im, -b.im)})
            return z3.If(own, a, b)
        return LMat(v.rows, v.cols, entry)

    def mat_diagonal(self, it, lv, v, args, n):
        k = z3.If(v.rows <= v.cols, v.rows, v.cols)
        if isinstance(lv, LV):
            return DiagV(lv, k)
        return Lazy(k, lambda i: mat_at(v, i, i))

    def mat_array(self, it, lv, v, args, n):
        return lv

    mat_matrix = mat_eval = mat_derived = mat_array

    # static Eigen constructors
    def f_Constant(self, it, a, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        xs = [it.rv(x) for x in a]
        if len(xs) == 2:
            return Lazy(xs[0], lambda i: xs[1])
        if len(xs) == 3:
            return LMat(xs[0], xs[1], lambda i, j: xs[2])
        k = it.types.kind(self.plain(t))
        if k[0] == 'fix':
            return mkfix([it.convert_to(xs[0], it.types.kind(k[1]), k[1])] * k[2])
        raise Unsupported('Constant ' + t)

    def plain(self, t):
        """The matrix type inside a CwiseNullaryOp."""
        i = t.find('Eigen::Matrix<')
        if i < 0:
            i = t.find('Eigen::Array<')
        if i < 0:
            return t
        d = 0
        for j in range(i, len(t)):
            if t[j] == '<':
                d += 1
            if t[j] == '>':
                d -= 1
                if d == 0:
                    return t[i:j + 1]
        return t

    def f_Zero(self, it, a, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        k = it.types.kind(self.plain(t))
        if k[0] == 'fix':
            return mkfix([it.zero(k[1])] * k[2])
        z = it.zero(k[1])
        if len(a) == 2:
            return LMat(it.rv(a[0]), it.rv(a[1]), lambda i, j: z)
        return Lazy(it.rv(a[0]), lambda i: z)

    def f_Ones(self, it, a, n):
        t = n['type'].get('desugaredQualType', n['type']['qualType'])
        k = it.types.kind(self.plain(t))
        one = it.convert_to(z3.IntVal(1), it.types.kind(k[1]), k[1])
        if k[0] == 'fix':
            return mkfix([one] * k[2])
        return Lazy(it.rv(a[0]), lambda i: one)

    # maps
    def map_m_find(self, it, lv, v, args, n):
        return It(it.as_lv(lv), self.map_find(it, v, it.rv(args[0])))

    def map_m_count(self, it, lv, v, args, n):
        r = self.map_find(it, v, it.rv(args[0]))
        return z3.If(r < v.n, z3.IntVal(1), z3.IntVal(0))

    def map_m_at(self, it, lv, v, args, n):
        r = self.map_find(it, v, it.rv(args[0]))
        if not it.choose(r < v.n):
            raise ThrowEx('std::out_of_range')
        return lv.i(r).f('second') if isinstance(lv, LV) else v[r].f['second']

    def map_m_insert(self, it, lv, v, args, n):
        if len(args) != 1:
            raise Unsupported('insert')
        p = it.deref_all(args[0])
        if not isinstance(p, S) or 'first' not in p.f:
            raise Unsupported('insert of %r' % (p,))
        r = self.map_find(it, v, p.f['first'])
        if it.choose(r < v.n):
            return S('pair', {'first': It(it.as_lv(lv), r), 'second': z3.BoolVal(False)})
        it.write(lv, A(v.n + 1, sto(v.e, v.n, S('pair', {'first': p.f['first'], 'second': p.f['second']})), 'map'))
        return S('pair', {'first': It(it.as_lv(lv), v.n), 'second': z3.BoolVal(True)})

    def map_m_erase(self, it, lv, v, args, n):
        x = it.rv(args[0])
        if not is_leaf(x):
            raise Unsupported('erase of %r' % (x,))
        r = self.map_find(it, v, x)
        if not it.choose(r < v.n):
            return z3.IntVal(0)
        new = it.force(Lazy(v.n - 1, lambda i: ite(i < r, v[i], v[i + 1])))
        it.write(lv, A(new.n, new.e, 'map'))
        return z3.IntVal(1)

    def map_m_emplace(self, it, lv, v, args, n):
        xs = [it.rv(a) for a in args]
        r = self.map_find(it, v, xs[0])
        if it.choose(r < v.n):
            return S('pair', {'first': It(it.as_lv(lv), r), 'second': z3.BoolVal(False)})
        it.write(lv, A(v.n + 1, sto(v.e, v.n, S('pair', {'first': xs[0], 'second': xs[1]})), 'map'))
        return S('pair', {'first': It(it.as_lv(lv), v.n), 'second': z3.BoolVal(True)})


def subst_tree(v, a, b):
    if is_leaf(v):
        return msub(v, (a, b))
    if isinstance(v, S):
        return S(v.tn, {k: subst_tree(x, a, b) for k, x in v.f.items()})
    if isinstance(v, A):
        return A(subst_tree(v.n, a, b), subst_tree(v.e, a, b), v.kind)
    raise Unsupported('closure result %r' % (v,))


def to_int(x):
    if x.sort() == R:
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    return conv_sort(x, I)


class DiagV:
    """The diagonal of a stored matrix, as an lvalue."""

    def __init__(self, lv, n):
        self.lv, self.n = lv, n

    def lazy(self, it):
        m = it.deref_all(self.lv)
        return Lazy(self.n, lambda i: mat_at(m, i, i))

    def assign(self, it, rhs):
        m = it.deref_all(self.lv)
        if isinstance(rhs, (Seg, DiagV)):
            rhs = rhs.lazy(it)
        it.oblige('same-size', seqlen(rhs) == self.n)
        def f(i, j):
            old, new = mat_at(m, i, j), at(rhs, i)
            if isinstance(old, S) and is_leaf(new):
                new = S('complex', {'re': conv_sort(new, R), 'im': z3.RealVal(0)})
            return ite(i == j, new, old)
        it.write(self.lv, LMat(m.rows, m.cols, f))
        return self


class Seg:
    """A writable contiguous part of a stored sequence (Eigen head/segment/tail)."""

    def __init__(self, lv, lo, k):
        self.lv, self.lo, self.n = lv, lo, k

    def lazy(self, it):
        base = it.deref_all(self.lv)
        return Lazy(self.n, lambda i: at(base, self.lo + i))

    def assign(self, it, rhs):
        base = it.deref_all(self.lv)
        if is_leaf(rhs):
            rhs = Lazy(self.n, lambda i, r=rhs: r)
        if isinstance(rhs, Seg):
            rhs = rhs.lazy(it)
        it.oblige('same-size', seqlen(rhs) == self.n)
        lo, k = self.lo, self.n
        if is_fix(base):
            it.write(self.lv, mkfix([ite(z3.And(lo <= i, i < lo + k), at(rhs, z3.IntVal(i) - lo), v) for i, v in enumerate(fvals(base))]))
            return self
        new = it.force(Lazy(base.n, lambda i: ite(z3.And(lo <= i, i < lo + k), at(rhs, i - lo), base[i])))
        it.write(self.lv, A(base.n, new.e, base.kind))
        return self


def it_type(n):
    """Type of the object a member call is made on."""
    m = strip_casts(n['inner'][0])
    t = m['inner'][0]['type']
    return t.get('desugaredQualType', t['qualType'])


def line_of_(n):
    r = n.get('range', {}).get('begin', {})
    return r.get('line') or r.get('expansionLoc', {}).get('line')


def mentions(t, c):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return False
