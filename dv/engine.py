"""Symbolic execution of clang AST, one function at a time, against contracts.

Paths are enumerated by deterministic replay of branch decisions.  Loops are cut at their
invariants (with automatically recognised induction variables), calls to functions that have a
contract use the contract, calls to other functions of the code base are inlined.
"""
import itertools
import z3, copy
from .values import *
from .types import Types, norm, UNSIGNED, head_args
from . import extract


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    def __init__(self, what):
        self.what = what


class PathEnd(Exception):
    """This path needs no further execution."""


class Restart(Exception):
    pass


class NeedFork(Exception):
    pass


class Frame:
    def __init__(self, fn, chain):
        self.fn = fn
        self.vars = {}      # decl id -> LV | value binding
        self.names = {}     # source name -> decl id (latest)
        self.this = None    # LV
        self.chain = chain


class Obl:
    def __init__(self, fn, name, pc, goal, expect='valid', line=None):
        self.fn, self.name, self.pc, self.goal, self.expect, self.line = fn, name, pc, goal, expect, line


_may = itertools.count()


def MAY(c):
    """`throws=MAY`: the function may throw, the contract does not say when"""
    return z3.Bool('may throw %d' % next(_may))


class Contract:
    """Specification of one function.  See contracts/*.py."""

    def __init__(self, fn, requires=None, ensures=None, throws=None, modifies=(), loops=(),
                 select=None, name=None, use_at_calls=True, ensures_throw=None, setup=None,
                 pure=False, hints=None, trusted=False, inline=(), lemmas=(), unroll=0, exact_throw=True,
                 returns=None, replay=None, throw_type=None, throw_modifies=None, math=None, bound_note=None, instances=None,
                 callback=None, calls=None, verify=None, external=None, steps=None, shallow=False, bounds=False, heavy=0, returned=None):
        self.returned = returned        # c, function, result, args -> what is assumed of the result of a std::function
        self.heavy = heavy              # starts first, with so many solver processes
        self.bounds = bounds            # index bounds are used once proved
        self.shallow = shallow          # no closed forms for loops inside the loops being summarised (faster)
        self.steps = steps              # c -> facts proved at the exit before the postconditions
        self.external = external        # c, function, args -> what holds whenever a std::function is called
        self.callback = callback        # index of the parameter which is an arbitrary callback
        self.calls = calls              # c, args of the call -> what holds whenever the callback is called
        self.verify = verify            # decl -> bool: the instantiation on which the contract is verified
        self.throw_type = throw_type
        self.throw_modifies = throw_modifies    # what may have changed when the function throws
        self.fn = fn
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.throws = throws            # c -> Bool: throws exactly when (on the pre-state)
        self.ensures_throw = ensures_throw
        self.modifies = modifies
        self.loops = list(loops)
        self.select = select            # decl -> bool
        self.name = name or fn
        self.use_at_calls = use_at_calls
        self.setup = setup
        self.pure = pure
        self.hints = hints
        self.trusted = trusted
        self.inline = set(inline)
        self.unroll = unroll
        self.returns = returns
        self.replay = replay


class Ctx:
    """What a contract can talk about."""

    def __init__(self, it, frame, roots, old=None, ret=None, pre=None, k=None, args=None, exc=None, this=None):
        self.__dict__.update(dict(it=it, _frame=frame, _roots=roots, old=old, ret=ret, pre=pre, k=k,
                                  _args=args, exc=exc, _this=this))

    def a(self, i):
        """Value of the i-th parameter (dereferenced)."""
        b = self._args[i]
        return self._val(b)

    def _val(self, b):
        if isinstance(b, LV):
            v = self.it.read(b, self._roots)
        else:
            v = b
        n = 0
        while isinstance(v, Ref) and n < 4:
            v = self.it.read(v.path, self._roots)
            n += 1
        if type(v).__name__ == 'Seg':
            lo, base, n = v.lo, self._val(v.lv), v.n
            return Lazy(n, lambda i: base[lo + i])
        return v

    @property
    def this(self):
        return self._val(self._this if self._this is not None else self._frame.this)

    def deref(self, v):
        return self._val(v)

    @property
    def ncalls(self):
        """how many times the callback parameter has been called"""
        return self._roots['@calls'].n

    @property
    def top(self):
        """The same state seen from the function under contract (not from an inlined callee)."""
        c = Ctx(self.it, self.it.frames[0], self._roots, args=self.it.args0)
        c.__dict__['ks'] = self.__dict__.get('ks', [])
        return c

    def read(self, lv):
        return self._val(lv)

    def __getitem__(self, name):
        it = self.it
        did = self._frame.names.get(name)
        if did is None:
            did = it.rename_local(self._frame, name)
        return self._val(self._frame.vars[did])

    def has(self, name):
        return name in self._frame.names

    def raw(self, name):
        did = self._frame.names.get(name)
        if did is None:
            did = self.it.rename_local(self._frame, name)
        b = self._frame.vars[did]
        return self.it.read(b, self._roots) if isinstance(b, LV) else b

    def range_idx(self):
        """Position of the innermost range-for / iterator loop variable (its hidden __begin)."""
        return self.it.cur_range_idx(self._frame, self._roots)


class Interp:
    MAX_PATHS = 600
    MAX_INLINE = 40

    def __init__(self, index, contracts, lib, types=None, baseline=None):
        self.ix = index
        self.types = types or Types(index)
        self.contracts = contracts      # qualified name -> [Contract]
        self.lib = lib
        self.baseline = baseline or {}
        self.qf = None

    # ------------------------------------------------------------------ state
    def reset(self):
        self.roots = {}
        self.pc = []
        self.frames = []
        self.cnt = 0
        self.di = 0
        self.sandbox = 0
        self.wlog = []
        self.noFork = 0
        self.objs = 0
        self.guards = []
        self.decs = []
        self.gcnt = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', 300)
        self.solver_pc = 0
        self.depth = 0
        self.forloop = []
        self.ks = []
        self.used_models = self.used_models if hasattr(self, 'used_models') else set()

    def fresh(self, name, sort=I):
        self.cnt += 1
        return z3.Const('%s#%d' % (name, self.cnt), sort)

    def fact_range(self, v, n, lift):
        if lift == 0:
            self.assume(z3.And(0 <= v, v < n))
            return
        idx = [qv() for _ in range(lift)]
        x = v
        for j in idx:
            x = x[j]
        self.assume(z3.ForAll(idx, z3.And(0 <= x, x < n)))

    def fact_nonneg(self, v, lift):
        if lift == 0:
            self.assume(v >= 0)
        else:
            qs = [qv() for _ in range(lift)]
            t = v
            for q in qs:
                t = z3.Select(t, q)
            self.assume(z3.ForAll(qs, t >= 0, patterns=[t]))

    def fact_distinct_keys(self, a):
        if not is_leaf(a.e.f['first']):
            return
        i, j = qv(), qv()
        k = a.e.f['first']
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < a.n),
                                                 z3.Select(k, i) != z3.Select(k, j)),
                              patterns=[z3.MultiPattern(z3.Select(k, i), z3.Select(k, j))]))

    def new_object(self, t, name):
        self.objs += 1
        root = '%s@%d' % (name, self.objs)
        self.roots[root] = None
        self.roots[root] = self.types.mk(t, root, self)
        return root

    def assume(self, f, opt=False):
        if self.guards:
            f = z3.Implies(z3.And(self.guards), f)
        if opt:
            OPTIONAL[f.get_id()] = f
        self.pc.append(f)

    def oblige(self, name, goal, line=None, kind=None):
        if self.sandbox:
            return
        self.oblige_(name, goal, line)
        if name == 'bounds' and self.contract is not None and self.contract.bounds:      # proved, then used
            self.assume(z3.Implies(z3.And(list(self.guards)), goal) if self.guards else goal)

    def oblige_(self, name, goal, line):
        if self.di < self.dec_given:
            return      # already generated by the path this one was forked from
        if z3.is_true(z3.simplify(goal)) if z3.is_bool(goal) else False:
            self.trivial += 1
            self.obls.append(Obl(self.fname, name, None, None, 'trivial'))
            return
        pc = list(self.pc) + list(self.guards)
        self.obls.append(Obl(self.fname, name, pc, goal, 'valid', line))

    # ------------------------------------------------------------------ decisions
    def choose(self, c, line=None):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.noFork:
            raise NeedFork()
        if self.di < len(self.dec):
            d = self.dec[self.di]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                d = True
                self.worklist.append(list(self.dec) + [False])
                if len(self.worklist) + self.npaths > self.MAX_PATHS:
                    raise Unsupported('too many paths')
            else:
                d = ft
            self.dec.append(d)
        self.di += 1
        f = c if d else z3.simplify(z3.Not(c))
        self.pc.append(f)
        self.decs.append(f)
        return d

    def feasible(self, c):
        while self.solver_pc < len(self.pc):
            f = self.pc[self.solver_pc]
            if not has_quant(f):
                self.solver.add(f)
            self.solver_pc += 1
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    # ------------------------------------------------------------------ memory
    def read(self, lv, roots=None):
        roots = self.roots if roots is None else roots
        if lv.root not in roots:
            raise Unsupported('dangling root ' + lv.root)
        v = roots[lv.root]
        for s in lv.sels:
            n = 0
            while isinstance(v, Ref) and n < 4:
                v = self.read(v.path, roots)
                n += 1
            if s[0] == 'f':
                if isinstance(v, S):
                    if s[1] not in v.f:
                        raise Unsupported('no field %s in %s (%r)' % (s[1], v.tn, lv))
                    v = v.f[s[1]]
                elif isinstance(v, A) and s[1] == '#n':
                    v = v.n
                else:
                    raise Unsupported('field %s of %r' % (s[1], v))
            else:
                v = self.elem(v, s[1])
        return v

    def elem(self, v, i):
        if isinstance(v, A):
            return v[i]
        if isinstance(v, Lazy):
            return v.at(i)
        if isinstance(v, S) and v.tn.startswith('fix'):
            return fix_get(v, i)
        if isinstance(v, S) and v.tn == 'mat':
            return A(v.cols, sel(v.d, i))
        raise Unsupported('index into %r' % (v,))

    def resolve(self, lv):
        """Follow references stored on the way so that the path is physical."""
        root, sels = lv.root, ()
        v = self.roots.get(root)
        for s in lv.sels:
            n = 0
            while isinstance(v, Ref) and n < 4:
                root, sels = v.path.root, v.path.sels
                v = self.read(v.path)
                n += 1
            sels = sels + (s,)
            v = self.read(LV(root, sels))
        return LV(root, sels)

    def write(self, lv, val, init=False):
        if hasattr(type(lv), 'assign'):
            return lv.assign(self, val)
        lv = self.resolve(lv)
        if lv.root.startswith('flat!'):
            raise Unsupported('write through the flat view of a matrix')
        if isinstance(val, LMat):
            val = self.force(val)
        if isinstance(val, Lazy):
            old = self.roots.get(lv.root) if not lv.sels else self.read(lv)
            if isinstance(old, S) and old.tn.startswith('fix'):
                val = S(old.tn, {str(i): val.at(z3.IntVal(i)) for i in range(int(old.tn[3:]))})
            else:
                val = self.force(val)
        if not init:
            self.wlog.append(lv)
        if not lv.sels:
            old = self.roots.get(lv.root)
            self.roots[lv.root] = self.coerce(val, old)
            return
        self.roots[lv.root] = self._upd(self.roots[lv.root], lv.sels, val)

    def coerce(self, val, old):
        if is_leaf(val) and is_leaf(old) and val.sort() != old.sort():
            return conv_sort(val, old.sort())
        return val

    def _upd(self, v, sels, val):
        if not sels:
            return self.coerce(val, v)
        s = sels[0]
        if s[0] == 'f':
            if isinstance(v, A) and s[1] == '#n':
                return A(val, v.e, v.kind)
            if not isinstance(v, S):
                raise Unsupported('write to field %s of %r' % (s[1], v))
            return v.upd(s[1], self._upd(v.f.get(s[1]), sels[1:], val))
        i = s[1]
        if isinstance(v, A):
            return A(v.n, sto(v.e, i, self._upd(v[i], sels[1:], val)), v.kind)
        if isinstance(v, S) and v.tn.startswith('fix'):
            return fix_set(v, i, lambda o: self._upd(o, sels[1:], val))
        if isinstance(v, S) and v.tn == 'mat':
            row = A(v.cols, sel(v.d, i))
            new = self._upd(row, sels[1:], val)
            return v.upd('d', sto(v.d, i, new.e))
        raise Unsupported('indexed write to %r' % (v,))

    def rv(self, x):
        """Value of an expression result (lvalue-to-rvalue)."""
        if isinstance(x, LV):
            x = self.read(x)
        if hasattr(type(x), 'lazy'):
            return x.lazy(self)
        return x

    def deref_all(self, x):
        v = self.rv(x)
        while isinstance(v, Ref):
            v = self.read(v.path)
        return v

    def as_lv(self, x, name='tmp'):
        """An lvalue for x: itself, the target of a reference, or a fresh temporary."""
        if isinstance(x, LV):
            v = self.roots.get(x.root) if not x.sels else None
            try:
                v = self.read(x)
            except Unsupported:
                return x
            if isinstance(v, Ref) and getattr(v, 'null', None) is not None and z3.is_false(v.null) and False:
                return v.path
            return x
        if isinstance(x, It):
            pass
        self.cnt += 1
        root = '%s%%%d' % (name, self.cnt)
        if isinstance(x, (Lazy, LMat)):
            x = self.force(x)
        self.roots[root] = x
        return LV(root)

    def force(self, v):
        """Turn a pointwise value into a stored sequence."""
        if isinstance(v, LMat):
            i, j = qv('z'), qv('z')
            probe = v.at(i, j)
            d = self._lift_fresh2(probe)
            el = sel(sel(d, i), j)
            for (_, l), (_, r) in zip(leaves(el), leaves(probe)):
                self.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < v.rows, 0 <= j, j < v.cols), l == r), patterns=[l]))
            return S('mat', {'rows': v.rows, 'cols': v.cols, 'd': d})
        if not isinstance(v, Lazy):
            return v
        i = qv('z')
        probe = v.at(i)
        e = self._lift_fresh(probe)
        a = A(v.n, e)
        ls, rs = list(leaves(a[i])), list(leaves(probe))
        if len(ls) == len(rs):
            for (_, l), (_, r) in zip(ls, rs):
                self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), conv_sort(l, r.sort()) == r), patterns=[l]))
        else:
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), same(a[i], probe)), patterns=[ls[0][1]]))
        return a

    def _lift_fresh2(self, t):
        if is_leaf(t):
            return self.fresh('mat', z3.ArraySort(I, z3.ArraySort(I, t.sort())))
        return S(t.tn, {k: self._lift_fresh2(x) for k, x in t.f.items()})

    def _lift_fresh(self, t):
        if is_leaf(t):
            return self.fresh('seq', z3.ArraySort(I, t.sort()))
        if isinstance(t, S):
            return S(t.tn, {k: self._lift_fresh(x) for k, x in t.f.items()})
        if isinstance(t, A):
            return A(self._lift_fresh(t.n), self._lift_fresh(t.e), t.kind)
        raise Unsupported('sequence of %r' % (t,))

    _lift_fresh_tree = _lift_fresh

    def zero_like(self, t):
        if is_leaf(t):
            if t.sort() == I:
                return z3.IntVal(0)
            if t.sort() == R:
                return z3.RealVal(0)
            if t.sort() == B:
                return z3.BoolVal(False)
            if t.sort() == STR:
                return self.lib.strlit('')
            if t.sort().kind() == z3.Z3_ARRAY_SORT:
                return t
            return self.fresh('zero', t.sort())
        if isinstance(t, S):
            return S(t.tn, {k: self.zero_like(x) for k, x in t.f.items()})
        if isinstance(t, A):
            return A(z3.IntVal(0), t.e, t.kind)
        raise Unsupported('zero of %r' % (t,))

    def havoc_value(self, v, name):
        if is_leaf(v):
            return self.fresh(name, v.sort())
        if isinstance(v, S):
            return S(v.tn, {k: self.havoc_value(x, name + '.' + k) for k, x in v.f.items()})
        if isinstance(v, A):
            n = self.fresh(name + '.n', v.n.sort())
            if n.sort() == I:
                self.pc.append(n >= 0)
            return A(n, self.havoc_value(v.e, name + '[]'), v.kind)
        if isinstance(v, It):
            return It(v.path, self.fresh(name + '.idx'))
        if isinstance(v, Ref):
            path = None
            if v.path is not None:
                root = '%s^%d' % (name, self._tick())
                self.roots[root] = self.havoc_value(self.read(v.path), name + '^')
                path = LV(root)
            return Ref(path, self.fresh(name + '.null', B))
        if isinstance(v, (Clo, Fn)) or v is None:
            return v
        if isinstance(v, Lazy):
            return self.havoc_value(self.force(v), name)
        raise Unsupported('havoc of %r' % (v,))

    # ------------------------------------------------------------------ names
    def rename_local(self, frame, name):
        """The contract names a local that no longer exists: map it by declaration order."""
        base = self.baseline.get(self.fname, {}).get('locals')
        if base and frame is self.frames[0] if self.frames else False:
            names = [n for n, t in base]
            if name in names:
                cur = local_decls(frame.fn)
                if len(cur) == len(base):
                    k = names.index(name)
                    if cur[k][1] == base[k][1]:
                        did = frame.names.get(cur[k][0])
                        if did is not None:
                            return did
        raise SpecMismatch('contract of %s refers to local %r, which is not in scope' % (self.fname, name))

    def cur_range_idx(self, frame, roots):
        for did, nm in reversed(self.forloop):
            b = frame.vars.get(did)
            for fr in reversed(self.frames):
                if did in fr.vars:
                    b = fr.vars[did]
                    break
            v = self.read(b, roots) if isinstance(b, LV) else b
            while isinstance(v, S):
                its = [x for x in v.f.values() if isinstance(x, It)]
                if not its:
                    raise SpecMismatch('range loop without a position')
                v = its[0]
            if isinstance(v, It):
                return v.idx
        raise SpecMismatch('no enclosing range loop')

    # ------------------------------------------------------------------ verification of a function
    def verify(self, contract, decl):
        """All obligations of `decl` against `contract`."""
        self.obls = []
        self.deps = {decl['id']: decl}
        self.used_contracts = set()
        self.trivial = 0
        self.fname = contract.name
        self.contract = contract
        self.loopmap = None
        self.modcache = {}
        self.extra_mods = {}
        self.sumcache, self.dryid, self.dryids = {}, 0, itertools.count(1)
        self.covers = []
        self.npaths = 0
        for attempt in range(6):
            try:
                self.obls, self.trivial, self.covers, self.npaths = [], 0, [], 0
                self.worklist = [[]]
                while self.worklist:
                    self.dec = self.worklist.pop()
                    self.dec_given = len(self.dec)
                    self.npaths += 1
                    self._one_path(contract, decl)
                return self.obls
            except Restart:
                self.sandbox = self.noFork = 0
                continue
        raise Unsupported('loop modification analysis does not stabilise')

    def _one_path(self, contract, decl):
        self.reset()
        owner = self.ix.owner.get(decl['id'])
        fr = Frame(decl, ())
        self.frames = [fr]
        if owner is not None and decl['kind'] != 'FunctionDecl' and decl.get('storageClass') != 'static':
            q = self.ix.qual[owner['id']]
            self.roots['this'] = None
            if decl['kind'] == 'CXXConstructorDecl':
                self.roots['this'] = self.default_record(q, owner)
            else:
                self.roots['this'] = self.types.mk(q, 'this', self)
            fr.this = LV('this')
        args = []
        for i, p in enumerate(params_of(decl)):
            t = ptype(p)
            nm = p.get('name', 'arg%d' % i)
            k = self.types.kind(t)
            root = 'arg%d' % i
            self.roots[root] = None
            if k[0] == 'ref':
                kk = self.types.kind(k[1])
                self.roots[root] = self.types.mk(k[1], nm, self)
            elif k[0] == 'iter':
                raise Unsupported('iterator parameter needs setup')
            else:
                self.roots[root] = self.types.mk(t, nm, self)
            fr.vars[p['id']] = LV(root)
            if 'name' in p:
                fr.names[p['name']] = p['id']
            args.append(LV(root))
        if contract.setup:
            contract.setup(self, fr, args)
        if contract.callback is not None:
            self.roots['arg%d' % contract.callback] = CB(contract)
            self.roots['@calls'] = S('calls', {'n': z3.IntVal(0)})
        if contract.external is not None:
            self.roots['@ext'] = S('calls', {'n': z3.IntVal(0)})
        self.args0 = args
        self.entry_roots = dict(self.roots)
        self.entry_objs = set(self.roots)
        ctx0 = Ctx(self, fr, self.roots, args=args)
        ctx0.__dict__['old'] = ctx0
        for f in flat(contract.requires(ctx0)):
            self.assume(f[1] if isinstance(f, tuple) else f)
        self.npre = len(self.pc)
        self.cover('precondition')
        try:
            ret = self.run_body(decl, fr, args)
        except PathEnd:
            return
        except ThrowEx as e:
            self.exit_throw(contract, fr, args, e)
            return
        self.exit_normal(contract, fr, args, ret)

    def cover(self, name):
        if self.di < self.dec_given or self.sandbox:
            return
        self.obls.append(Obl(self.fname, 'cover:' + name, list(self.pc), None, 'reachable'))

    def exit_normal(self, contract, fr, args, ret):
        # results that are references are dereferenced for the contract
        rvl = ret
        old = Ctx(self, fr, self.entry_roots, args=args)
        old.__dict__['old'] = old
        c = Ctx(self, fr, self.roots, old=old, ret=self.deref_ret(ret), args=args)
        c.__dict__['ret_raw'] = ret
        if contract.hints:
            for h in flat(contract.hints(c)):
                self.assume(h)
        if contract.throws not in (None, MAY):
            self.oblige('no-exception', z3.Not(contract.throws(old)))
        if contract.steps:      # intermediate facts: proved, then used
            for lab, f in labelled(contract.steps(c), 'step'):
                self.oblige('step:' + lab, f)
                self.assume(f)
        for lab, f in labelled(contract.ensures(c), 'post'):
            self.oblige('ensures:' + lab, f)
        self.check_frame(contract)
        if sum(1 for o in self.obls if o.name == 'cover:exit') < 6:
            self.cover('exit')

    def deref_ret(self, ret):
        if ret is None:
            return None
        v = self.rv(ret)
        n = 0
        while isinstance(v, Ref) and n < 4:
            v = self.read(v.path)
            n += 1
        return self.force(v) if isinstance(v, (Lazy, LMat)) else v

    def exit_throw(self, contract, fr, args, e):
        old = Ctx(self, fr, self.entry_roots, args=args)
        old.__dict__['old'] = old
        c = Ctx(self, fr, self.roots, old=old, ret=None, args=args, exc=e.what)
        if contract.throws is None:
            self.oblige('no-exception(%s)' % e.what, z3.BoolVal(False))
        elif contract.throws is not MAY:
            self.oblige('throws-only-if', contract.throws(old))
        if contract.ensures_throw:
            for lab, f in labelled(contract.ensures_throw(c), 'post-throw'):
                self.oblige('ensures-on-throw:' + lab, f)
        self.check_frame(contract, contract.throw_modifies)

    def check_frame(self, contract, mods=None):
        mods = contract.modifies if mods is None else mods
        if mods is None:
            return
        for lv in self.wlog:
            if lv.root not in self.entry_objs or lv.root in ('@calls', '@ext'):
                continue
            fr = self.frames[0]
            allowed = False
            if lv.root == 'this' and fr.fn['kind'] == 'CXXConstructorDecl':
                continue
            # parameters passed by value are private
            if lv.root.startswith('arg') and lv.root[3:].isdigit():
                p = params_of(fr.fn)[int(lv.root[3:])]
                if self.types.kind(ptype(p))[0] != 'ref':
                    continue
            path = lv.root + ''.join('.' + s[1] for s in lv.sels if s[0] == 'f')
            for m in mods:
                if path == m or path.startswith(m + '.') or m == '*' or m.startswith(path + '.') and False:
                    allowed = True
            if not allowed and not self.unchanged_semantically(lv):
                self.oblige('frame:%s-is-not-modified' % path, z3.BoolVal(False))

    def unchanged_semantically(self, lv):
        return False

    def run_body(self, decl, fr, args):
        """Execute constructor initialisers and the body; returns the result."""
        if decl['kind'] == 'CXXConstructorDecl':
            self.ctor_inits(decl, fr)
        body = extract.body_of(decl)
        try:
            self.stmt(body)
        except ReturnEx as r:
            return r.v
        return None

    def default_record(self, q, rec):
        f = {}
        for (n, t, d, qt) in self.types.fields(rec):
            f[n] = self.default_value(t, q + '.' + n)
        return S(q, f)

    def default_value(self, t, name):
        """Value of a default-constructed (or uninitialised) object."""
        k = self.types.kind(t)
        if k[0] == 'vec':
            e = self.types.mk(k[1], 'uninit.' + name + '#%d' % self._tick(), self, 1)
            return A(z3.IntVal(0), e)
        if k[0] == 'map':
            e = S('pair', {'first': self.types.mk(k[1], 'uninit.' + name + '#%d' % self._tick(), self, 1),
                           'second': self.types.mk(k[2], 'uninit2.' + name + '#%d' % self._tick(), self, 1)})
            return A(z3.IntVal(0), e, 'map')
        if k[0] == 'rec':
            f = {}
            for (n, ft, d, qt) in self.types.fields(k[2]):
                init = init_of(d)
                if init is not None and self.frames:
                    f[n] = self.rv(self.expr(init))
                    want = self.types.kind(ft)
                    if is_leaf(f[n]) and want[0] == 'real':
                        f[n] = conv_sort(f[n], R)
                else:
                    f[n] = self.default_value(ft, name + '.' + n)
            return S(k[1], f)
        if k[0] == 'fix':
            return S('fix%d' % k[2], {str(i): self.default_value(k[1], name) for i in range(k[2])})
        if k[0] == 'mat':
            return S('mat', {'rows': z3.IntVal(0), 'cols': z3.IntVal(0),
                             'd': self.types.mk(k[1], 'uninit.' + name + '#%d' % self._tick(), self, 2)})
        if k[0] == 'variant':
            # mapbox: the first alternative, default constructed
            v = self.types.mk(t, 'variant.' + name + '#%d' % self._tick(), self)
            v.f['index'] = z3.IntVal(0)
            v.f['0'] = self.default_value(k[1][0], name)
            return v
        if k[0] in ('ptr', 'sptr'):
            return Ref(None, z3.BoolVal(True))
        if k[0] == 'str':
            return self.lib.strlit('')
        if k[0] == 'ref':
            return None
        if k[0] == 'iter':
            return None
        return self.types.mk(t, 'uninit.' + name + '#%d' % self._tick(), self)

    def _tick(self):
        self.cnt += 1
        return self.cnt

    def ctor_inits(self, decl, fr):
        done = set()
        owner = self.ix.owner.get(decl['id'])
        for c in decl.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            inner = c.get('inner', [])
            if 'anyInit' in c:
                fname = c['anyInit']['name']
                done.add(fname)
                if not inner:
                    continue
                e = inner[0]
                if e.get('kind') == 'CXXDefaultInitExpr':
                    fd = self.ix.by_id.get(c['anyInit']['id'])
                    init = init_of(fd) if fd else None
                    if init is None:
                        raise Unsupported('default member initialiser of ' + fname)
                    e = init
                ft = c['anyInit']['type']
                t = ft.get('desugaredQualType', ft['qualType'])
                self.init_var(fr.this.f(fname), t, e)
            elif 'baseInit' in c and inner:
                v = self.rv(self.expr(inner[0]))
                if isinstance(v, S):
                    for k, x in v.f.items():
                        self.write(fr.this.f(k), x, init=True)
            elif inner:
                # delegating constructor
                v = self.rv(self.expr(inner[0]))
                self.write(fr.this, v, init=True)
        return done

    def init_var(self, lv, t, e):
        """Initialise the object at lv (of C++ type t) from expression e."""
        k = self.types.kind(t)
        x = self.expr(e)
        if k[0] == 'ref':
            target = self.as_lv(x)
            self.put(lv, Ref(target))
            return
        if hasattr(type(x), 'lazy') and k[0] == 'vec' and 'Ref<' in t:
            self.put(lv, x)         # a view
            return
        v = self.rv(x)
        v = self.convert_to(v, k, t)
        self.put(lv, v)

    def put(self, lv, v):
        if isinstance(v, Lazy):
            v = self.force(v)
        if not lv.sels:
            self.roots[lv.root] = v
            return
        parent = LV(lv.root, lv.sels[:-1])
        pv = self.read(parent)
        if isinstance(pv, S) and lv.sels[-1][0] == 'f':
            base = self.resolve(parent)
            nv = pv.upd(lv.sels[-1][1], v)
            if base.sels:
                self.roots[base.root] = self._upd(self.roots[base.root], base.sels, nv)
            else:
                self.roots[base.root] = nv
            return
        self.write(lv, v, init=True)

    def convert_to(self, v, k, t):
        if is_leaf(v):
            if k[0] == 'real':
                return conv_sort(v, R)
            if k[0] == 'int' and v.sort() == B:
                return conv_sort(v, I)
            if k[0] == 'bool':
                return conv_sort(v, B)
        if isinstance(v, Lazy):
            if k[0] == 'fix':
                return S('fix%d' % k[2], {str(i): v.at(z3.IntVal(i)) for i in range(k[2])})
            return self.force(v)
        if isinstance(v, LMat) and k[0] == 'mat':
            return self.force(v)
        return v

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        if not n or 'kind' not in n:
            return
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        # expression statement
        self.expr(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d.get('kind') == 'VarDecl':
                self.declare(d)
            elif d.get('kind') in ('TypeAliasDecl', 'TypedefDecl', 'UsingDecl', 'StaticAssertDecl',
                                   'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl', 'UsingShadowDecl'):
                pass
            else:
                raise Unsupported('declaration ' + str(d.get('kind')))

    def declare(self, d):
        fr = self.frames[-1]
        t = d['type'].get('desugaredQualType', d['type']['qualType'])
        init = init_of(d)
        root = '%s~%s~%s' % (d.get('name', 'v'), d['id'], len(self.frames))
        lv = LV(root)
        k = self.types.kind(t)
        if init is None:
            self.roots[root] = self.default_value(t, d.get('name', 'v'))
        elif k[0] == 'ref':
            x = self.expr(init)
            if isinstance(x, LV):
                fr.vars[d['id']] = x
                fr.names[d.get('name', '')] = d['id']
                return
            v = self.rv(x)
            if isinstance(v, Lazy):
                v = self.force(v)
            self.roots[root] = v
        else:
            x = self.expr(init)
            v = self.convert_to(self.rv(x), k, t)
            if isinstance(v, Lazy):
                v = self.force(v)
            self.roots[root] = v
        fr.vars[d['id']] = lv
        fr.names[d.get('name', '')] = d['id']

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise ReturnEx(None)
        fr = self.frames[-1]
        x = self.expr(inner[0])
        ft = fr.fn['type']['qualType'] if fr.fn else ''
        rt = ret_type(ft)
        if fr.fn is not None and fr.fn.get('kind') != 'Lambda':
            k = self.types.kind(rt) if rt not in ('auto', 'void') else ('?',)
            view = k[0] == 'vec' and hasattr(type(x), 'lazy') and head_args(rt)[0] in ('Eigen::Ref', 'Ref') and not head_args(rt)[1][0].endswith('const')
            if k[0] != 'ref' and not rt.endswith('&') and not view:
                x = self.rv(x)
                if k[0] in ('real', 'int', 'bool', 'fix'):
                    x = self.convert_to(x, k, rt)
        elif not rt.endswith('&'):
            x = self.rv(x)
        raise ReturnEx(x)

    def s_IfStmt(self, n):
        inner = [c for c in n.get('inner', ())]
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        c = self.cond(inner[0])
        if c:
            self.stmt(inner[1])
        elif len(inner) > 2:
            self.stmt(inner[2])

    def cond(self, e):
        """Branch on a boolean expression (short circuit operators fork)."""
        if callable(e):
            return self.choose(self.bool_of(self.rv(e())))
        x = strip_paren(e)
        if x.get('kind') == 'BinaryOperator' and x.get('opcode') in ('&&', '||'):
            l, r = x['inner']
            a = self.try_pure(x)
            if a is not None:
                return self.choose(a)
            if x['opcode'] == '&&':
                return self.cond(l) and self.cond(r)
            return self.cond(l) or self.cond(r)
        v = self.bool_of(self.rv(self.expr(e)))
        return self.choose(v)

    def try_pure(self, e):
        """Evaluate && / || / ?: without forking if it has no effects; None otherwise."""
        snap = (dict(self.roots), len(self.pc), len(self.wlog), self.cnt, len(self.obls), self.di)
        self.noFork += 1
        g = list(self.guards)
        try:
            v = self.pure_bool(e)
            ok = len(self.wlog) == snap[2] and len(self.pc) == snap[1]
        except (NeedFork, ThrowEx, ReturnEx, PathEnd):
            ok = False
        finally:
            self.noFork -= 1
            self.guards = g
        if ok:
            return v
        self.roots = snap[0]
        del self.pc[snap[1]:]
        self.solver_pc = min(self.solver_pc, snap[1]) if self.solver_pc > snap[1] else self.solver_pc
        del self.wlog[snap[2]:]
        self.cnt = snap[3]
        del self.obls[snap[4]:]
        return None

    def pure_bool(self, e):
        x = strip_paren(e)
        if x.get('kind') == 'BinaryOperator' and x.get('opcode') in ('&&', '||'):
            l = self.pure_bool(x['inner'][0])
            self.guards.append(l if x['opcode'] == '&&' else z3.Not(l))
            r = self.pure_bool(x['inner'][1])
            self.guards.pop()
            return z3.And(l, r) if x['opcode'] == '&&' else z3.Or(l, r)
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '!':
            return z3.Not(self.pure_bool(x['inner'][0]))
        return self.bool_of(self.rv(self.expr(x)))

    def bool_of(self, v):
        if isinstance(v, Ref):
            return z3.Not(v.null)
        if not is_leaf(v):
            raise Unsupported('condition %r' % (v,))
        return conv_sort(v, B)

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.rv(self.expr(inner[-2]))
        body = inner[-1]
        cases = []
        cur = None
        items = list(body.get('inner', ()))
        flatitems = []

        def push(s):
            if s.get('kind') == 'CaseStmt':
                flatitems.append(('case', s['inner'][0]))
                push(s['inner'][-1])
            elif s.get('kind') == 'DefaultStmt':
                flatitems.append(('default', None))
                push(s['inner'][-1])
            else:
                flatitems.append(('stmt', s))
        for s in items:
            push(s)
        start = None
        dflt = None
        for j, (k, x) in enumerate(flatitems):
            if k == 'default':
                dflt = j
            if k == 'case' and start is None:
                if self.choose(v == self.rv(self.expr(x))):
                    start = j
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for (k, x) in flatitems[start:]:
                if k == 'stmt':
                    self.stmt(x)
        except BreakEx:
            pass

    # ---- loops
    def s_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init:
            self.stmt(init)
        self.loop(n, cond, inc, lambda: self.stmt(body))

    def s_WhileStmt(self, n):
        inner = n['inner']
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        self.loop(n, inner[0], None, lambda: self.stmt(inner[1]))

    def s_DoStmt(self, n):
        inner = n['inner']
        # body once, then while
        try:
            self.stmt(inner[0])
        except ContinueEx:
            pass
        except BreakEx:
            return
        self.loop(n, inner[1], None, lambda: self.stmt(inner[0]))

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        init, rng, beg, end, cond, inc, var, body = inner
        if init:
            self.stmt(init)
        self.stmt(rng)
        self.stmt(beg)
        self.stmt(end)
        did = beg['inner'][0]['id']
        self.forloop.append((did, beg['inner'][0].get('name')))

        def run():
            self.stmt(var)
            self.stmt(body)
        try:
            self.loop(n, cond, inc, run)
        finally:
            self.forloop.pop()

    def loop_key(self, n):
        return self.frames[-1].chain + (n['id'],)

    def loop_spec(self, key):
        if self.loopmap is None:
            self.loopmap = {}
            order = self.collect_loops(self.frames[0].fn, ())
            for i, k in enumerate(order):
                self.loopmap[k] = i
            self.nloops = len(order)
            self.loop_fns = order
        i = self.loopmap.get(key)
        specs = self.contract.loops
        if i is None:
            return None, None
        if isinstance(specs, dict):
            return i, specs.get(i)
        if i < len(specs):
            return i, specs[i]
        return i, None

    def collect_loops(self, decl, chain, depth=0):
        out = []
        if depth > 12:
            return out

        def walk(x):
            if not isinstance(x, dict) or not x:
                return
            k = x.get('kind')
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                out.append(chain + (x['id'],))
            if k == 'LambdaExpr':
                for c in x.get('inner', ()):
                    if c.get('kind') == 'CompoundStmt':
                        walk(c)
                return
            for c in x.get('inner', ()):
                walk(c)
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                d = self.callee_decl(x)
                if d is not None and not self.contract_for(d):
                    df = self.ix.definition(d['id'])
                    if df is not None and df['id'] != decl['id']:
                        out.extend(self.collect_loops(df, chain + (x['id'],), depth + 1))
        for c in decl.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXCtorInitializer'):
                walk(c)
        return out

    def loop(self, n, cond, inc, body):
        key = self.loop_key(n)
        idx, spec = self.loop_spec(key)
        label = 'loop%s' % ('?' if idx is None else idx)
        if spec is None and (self.contract.unroll or True):
            if self.try_unroll(n, cond, inc, body):
                return
        fr = self.frames[-1]
        entry_roots = dict(self.roots)
        outer = list(self.ks)
        mods = self.loop_mods(key, cond, inc, body)
        closed = self.summarise(key, mods, cond, inc, body)
        # invariant holds on entry
        k0 = z3.IntVal(0)
        pre = Ctx(self, fr, entry_roots, args=self.args0)
        old = Ctx(self, self.frames[0], self.entry_roots, args=self.args0)
        old.__dict__['old'] = old

        def ctx(k):
            c = Ctx(self, fr, dict(self.roots), old=old, pre=pre, k=k, args=self.args0,
                    this=self.frames[0].this)
            c.__dict__['ks'] = outer
            c.__dict__['prev'] = None       # the state at the start of the iteration, where preservation is proved
            return c
        if spec and not self.sandbox:
            for lab, f in labelled(spec(ctx(k0)), 'inv'):
                self.oblige('%s:entry:%s' % (label, lab), f)
        # havoc
        self.havoc_mods(mods, closed)
        k = self.last_k
        if spec and not self.sandbox:
            c = ctx(k)
            for lab, f in labelled(spec(c), 'inv'):
                self.assume(f)
        self.auto_inv(cond, mods, entry_roots, k)
        wstart = len(self.wlog)
        go = self.cond(cond) if cond else True
        if self.noFork:
            raise NeedFork()
        if not go:
            # the iteration that would prove preservation is a separate path
            self.post_loop_writes(mods)
            return
        self.ks = outer + [k]
        start = ctx(k)
        if spec and not self.sandbox:        # facts of every iteration: proved at its start, then used
            for lab, f in [x for x in labelled(spec(ctx(k)), 'inv', True)]:
                self.oblige('%s:%s' % (label, lab), f)
                self.assume(f)
        # this decision forks between 'one more iteration' (prove preservation) and whatever
        # leaves the loop from inside the body
        try:
            try:
                body()
            except ContinueEx:
                pass
            if inc:
                self.expr(inc)
        except (ReturnEx, ThrowEx):
            self.ks = outer
            self.check_mods(key, mods, wstart, entry_roots)
            self.post_loop_writes(mods)
            raise
        except BreakEx:
            self.ks = outer
            self.check_mods(key, mods, wstart, entry_roots)
            self.post_loop_writes(mods)
            return
        self.check_mods(key, mods, wstart, entry_roots)
        if spec and not self.sandbox:
            c = ctx(k + 1)
            c.__dict__['prev'] = start
            for lab, f in labelled(spec(c), 'inv'):
                self.oblige('%s:preserved:%s' % (label, lab), f)
                if lab.startswith('step:'):
                    self.assume(f)
        raise PathEnd()

    def post_loop_writes(self, mods):
        for (root, path) in mods:
            if root in self.entry_objs:
                while path and path[-1] == '*':
                    path = path[:-1]
                sels = tuple(('i', z3.IntVal(0)) if p == '*' else ('f', p) for p in path)
                self.wlog.append(LV(root, sels))

    def try_unroll(self, n, cond, inc, body):
        """Execute a loop whose condition is concrete in every iteration."""
        if callable(cond):
            return False
        snap = self.snapshot()
        self.sandbox += 1
        self.noFork += 1
        ok = True
        try:
            # a dry probe: is the first condition concrete?
            v = z3.simplify(self.bool_of(self.rv(self.expr(cond)))) if cond else z3.BoolVal(True)
            ok = z3.is_true(v) or z3.is_false(v)
            if ok and z3.is_true(v) and cond:
                ok = self.small_const_trip(n, cond)
        except (NeedFork, ThrowEx):
            ok = False
        finally:
            self.sandbox -= 1
            self.noFork -= 1
            self.restore(snap)
        if not ok:
            return False
        for _ in range(64):
            v = z3.simplify(self.bool_of(self.rv(self.expr(cond)))) if cond else z3.BoolVal(True)
            if z3.is_false(v):
                return True
            if not z3.is_true(v):
                raise Unsupported('loop with partly concrete bound')
            try:
                try:
                    body()
                except ContinueEx:
                    pass
                if inc:
                    self.expr(inc)
            except BreakEx:
                return True
        raise Unsupported('loop unrolling limit')

    def small_const_trip(self, n, cond):
        """Both sides of the comparison are concrete."""
        x = strip_paren(cond)
        if x.get('kind') in ('BinaryOperator', 'CXXOperatorCallExpr'):
            ops = x['inner'][-2:]
            vals = []
            for o in ops:
                v = self.rv(self.expr(o))
                if isinstance(v, It):
                    v = v.idx
                while isinstance(v, S) and v.f:
                    its = [y for y in v.f.values() if isinstance(y, It)]
                    if not its:
                        return False
                    v = its[0].idx
                if not is_leaf(v):
                    return False
                v = z3.simplify(v)
                if not z3.is_int_value(v):
                    return False
                vals.append(v.as_long())
            return all(abs(a) <= 64 for a in vals)
        return False

    def snap_frames(self):
        return [(f, dict(f.vars), dict(f.names)) for f in self.frames]

    def snapshot(self):
        return (dict(self.roots), len(self.pc), len(self.wlog), self.cnt, self.snap_frames(),
                list(self.guards), list(self.forloop), self.objs, list(self.ks))

    def restore(self, s):
        self.roots = s[0]
        del self.pc[s[1]:]
        if self.solver_pc > s[1]:
            self.solver = z3.Solver()
            self.solver.set('timeout', 300)
            self.solver_pc = 0
        del self.wlog[s[2]:]
        self.cnt = s[3]
        self.frames = [f for f, _, _ in s[4]]
        for f, v, nm in s[4]:
            f.vars, f.names = dict(v), dict(nm)
        self.guards = list(s[5])
        self.forloop = list(s[6])
        self.objs = s[7]
        self.ks = list(s[8])

    def mod_of(self, lv):
        out = []
        for s in lv.sels:
            out.append(s[1] if s[0] == 'f' else '*')
        return (lv.root, tuple(out))

    def loop_mods(self, key, cond, inc, body):
        """What a loop body writes (closed under the effect of havocking it)."""
        entry_keys = set(self.roots)
        ck = (key, frozenset(r for r in entry_keys if r.startswith('heap')))
        if ck in self.modcache:
            return self.modcache[ck]
        mods = {w for w in self.extra_mods.get(key, ()) if w[0] in entry_keys}
        for rnd in range(8):
            writes = set()
            ran = False
            for (start, end, conds, wr, k) in self.dry_run(mods, {}, cond, inc, body):
                writes |= wr
                ran = ran or end is not None
            new = set(mods)
            for w in writes:
                if w[0] in entry_keys and not covered(w, new):
                    new.add(w)
            new = minimise(new)
            if new == mods:
                break
            mods = new
        else:
            raise Unsupported('loop modification set does not stabilise')
        if ran:     # the body may be unreachable on this path only
            self.modcache[ck] = mods
        return mods

    def dry_run(self, mods, closed, cond, inc, body):
        """Execute one arbitrary iteration on every path: (start, end or None, conditions, writes, k)."""
        entry = self.snapshot()
        ks0 = list(self.ks)
        saved = (self.dec, self.di, self.worklist, self.dec_given, self.npaths, self.obls, self.decs)
        self.sandbox += 1
        work = [[]]
        out = []
        dryid = self.dryid
        self.dryid = next(self.dryids)
        try:
            while work:
                self.restore(entry)
                entry = self.snapshot()
                self.worklist = work
                self.dec = work.pop()
                self.dec_given = len(self.dec)
                self.di = 0
                self.obls = []
                self.decs = []
                if len(out) > 300:
                    raise Unsupported('too many paths in a loop body')
                self.havoc_mods(mods, closed)
                k = self.last_k
                self.ks = ks0 + [k]
                start = dict(self.roots)
                w0 = len(self.wlog)
                end = None
                try:
                    go = self.cond(cond) if cond else True
                    if go:
                        try:
                            body()
                        except ContinueEx:
                            pass
                        if inc:
                            self.expr(inc)
                        end = dict(self.roots)
                except (BreakEx, ReturnEx, ThrowEx, PathEnd):
                    pass
                out.append((start, end, list(self.decs), set(self.mod_of(lv) for lv in self.wlog[w0:]), k))
        finally:
            self.sandbox -= 1
            self.dryid = dryid
            self.restore(entry)
            self.dec, self.di, self.worklist, self.dec_given, self.npaths, self.obls, self.decs = saved
        return out

    def summarise(self, key, mods, cond, inc, body):
        """Closed forms (as a function of the iteration number k) of variables a loop changes in a
        way that depends only on k and the state before the loop: v0 + c*k, v0 + PS(G, k),
        last-value(k), and arrays filled at consecutive positions."""
        if not mods or (self.sandbox and self.contract.shallow):
            return {}
        ck = (self.dryid, key, tuple(self.dec[:self.di]) if self.di <= len(self.dec) else None, frozenset(mods))
        if ck[2] is not None and ck in self.sumcache:
            return self.sumcache[ck]
        closed = self._summarise(mods, cond, inc, body)
        if ck[2] is not None:
            self.sumcache[ck] = closed
        return closed

    def _summarise(self, mods, cond, inc, body):
        closed = {}
        allowed = set()
        for r, v in self.roots.items():
            collect_names(v, allowed)
        for f in self.pc:
            const_names(f, allowed)
        entry = {}
        for m in mods:
            if m[0] in self.roots and self.roots[m[0]] is not None:
                self.map_mod(self.roots[m[0]], m[1], lambda p, x, m=m: entry.__setitem__((m[0], p), x) or x, ())
        for rnd in range(4):
            found = {}
            all_runs = self.dry_run(mods, closed, cond, inc, body)
            runs = [r for r in all_runs if r[1] is not None]
            if not runs:
                break
            k = runs[0][4]
            ok_names = allowed | {k.decl().name()}
            for at, s0 in entry.items():
                if at in closed:
                    continue
                f = self.closed_form(at, s0, runs, k, ok_names, allowed)
                if f is not None:
                    found[at] = f
            if not found:
                break
            all_runs = None
            closed.update(found)
        self.history(closed, cond, inc, body, mods, allowed, all_runs)
        return closed

    def history(self, closed, cond, inc, body, mods, allowed, runs=None):
        """Iterations before the current one ran to completion: the disjunction of the path
        conditions under which an iteration completes, where they depend on k only."""
        runs = runs or self.dry_run(mods, closed, cond, inc, body)
        comp = [r for r in runs if r[1] is not None]
        closed['#history'] = None
        if not comp:
            return
        ok = allowed | {comp[0][4].decl().name()}
        k = comp[0][4]
        ds = []
        for (start, end, conds, wr, k2) in comp:
            ds.append(z3.And([c for c in conds if const_names(c, set()) <= ok] or [z3.BoolVal(True)]))
        h = z3.simplify(z3.Or(ds))
        if z3.is_true(h):
            return
        closed['#history'] = lambda j: msub(h, (k, j))

    def closed_form(self, at, s0, runs, k, ok, allowed):
        st, es, cs = None, [], []
        for (start, end, conds, wr, k2) in runs:
            a, b = leaf_at(start.get(at[0]), at[1]), leaf_at(end.get(at[0]), at[1])
            if a is None or b is None or not is_leaf(a) or not is_leaf(b):
                return None
            st = a
            es.append(z3.simplify(b))
            cs.append(conds)

        def clean(t, extra=()):
            return const_names(t, set()) <= ok

        def combine(vals):
            if all(z3.eq(v, vals[0]) for v in vals[1:]):
                return vals[0]
            if not all(clean(c) for c in flatten(cs)):
                return None
            r = vals[-1]
            for c, v in list(zip(cs, vals))[-2::-1]:
                r = z3.If(z3.And(c), v, r)
            return r
        s = st
        if s.sort() in (I, R):
            zero = z3.IntVal(0) if s.sort() == I else z3.RealVal(0)
            ds = []
            for e in es:
                d = z3.simplify(msub(e, (s, zero)))
                if not clean(d):
                    d = None
                    break
                if not z3.eq(z3.simplify(e - s - d), zero):
                    sv = z3.Solver()
                    sv.set('timeout', 500)
                    sv.add(e != s + d)
                    if sv.check() != z3.unsat:
                        d = None
                        break
                ds.append(d)
            if len(ds) == len(es):
                d = combine(ds)
                if d is not None:
                    dd = z3.simplify(d)
                    if z3.is_int_value(dd) or z3.is_rational_value(dd):
                        if z3.eq(dd, zero):
                            return lambda kk: s0
                        return lambda kk: s0 + (dd * kk if s.sort() == I else dd * z3.ToReal(kk)) \
                            if not (z3.is_int_value(dd) and dd.as_long() == 1) else s0 + kk
                    from .lib import ps
                    g = self.define(dd, k, s.sort(), allowed)
                    return lambda kk: s0 + ps(g, kk)
        if s.sort() in (I, R, B) or s.sort() == STR:
            if all(clean(e) for e in es):
                e = combine(es)
                if e is not None:
                    return lambda kk: z3.If(kk == 0, s0, msub(e, (k, kk - 1)))
        if s.sort().kind() == z3.Z3_ARRAY_SORT:
            return self.array_form(s, s0, es, cs, k, clean, combine, allowed)
        return None

    def array_form(self, s, s0, es, cs, k, clean, combine, allowed):
        """Closed form of an array filled or updated at consecutive positions (one element per iteration)."""
        # a nested array: every iteration updates the same outer element
        outer, inner = None, []
        for e in es:
            if z3.eq(e, s):
                inner.append(None)
                continue
            if z3.is_store(e) and z3.eq(e.arg(0), s) and e.arg(2).sort().kind() == z3.Z3_ARRAY_SORT:
                b = z3.simplify(e.arg(1))
                if outer is not None and not z3.eq(b, outer):
                    return None
                outer = b
                inner.append(e.arg(2))
            else:
                outer = False
                break
        if outer is not None and outer is not False and clean(outer) and k.decl().name() not in const_names(outer, set()):
            si, s0i = z3.simplify(z3.Select(s, outer)), z3.simplify(z3.Select(s0, outer))
            f = self.array_form(si, s0i, [x if x is not None else si for x in inner], cs, k, clean, combine, allowed)
            if f is None:
                return None
            return lambda kk: z3.Store(s0, outer, f(kk))
        idx = None
        vals = []
        for e in es:
            if z3.eq(e, s):
                vals.append(None)
                continue
            if e.decl().kind() != z3.Z3_OP_STORE or not z3.eq(e.arg(0), s):
                return None
            i, v = e.arg(1), e.arg(2)
            if not clean(i):
                return None
            if mentions_term(v, s):
                # v may refer to the old value at the same index only
                v = z3.simplify(msub(v, (z3.Select(s, i), z3.Select(s0, i))))
            if not clean(v):
                return None
            if idx is not None and not z3.eq(z3.simplify(i - idx), z3.IntVal(0)):
                return None
            idx = i
            vals.append(v)
        if idx is None:
            return None
        c0 = z3.simplify(idx - k)
        if k.decl().name() in const_names(c0, set()):
            return None
        vals = [v if v is not None else z3.Select(s0, idx) for v in vals]
        v = combine(vals)
        if v is None:
            return None
        g = self.define(v, k, s.sort().range(), allowed)

        def f(kk):
            a = self.fresh('arr', s.sort())
            j = qv('j')
            self.pc.append(z3.ForAll([j], z3.Select(a, j) == z3.If(
                z3.And(c0 <= j, j < c0 + kk), z3.Select(g, z3.simplify(j - c0)), z3.Select(s0, j)),
                patterns=[z3.Select(a, j)]))
            return a
        return f

    def define(self, d, k, sort, allowed):
        """The array g with g[j] = d[k := j] (depends on the state before the loop only)."""
        return defarr(sort, lambda j: msub(d, (k, j)))

    def havoc_mods(self, mods, closed):
        k = self.fresh('k')
        self.pc.append(k >= 0)
        self.last_k = k
        h = closed.get('#history')
        if h is not None:
            q = qv()
            self.pc.append(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), h(q))))
            self.pc.append(z3.Implies(k > 0, h(k - 1)))
        for (root, path) in sorted(mods):
            if root not in self.roots:
                continue

            def fn(p, x, root=root):
                c = closed.get((root, p))
                if c is not None:
                    return c(k)
                v = self.fresh('.'.join([root.split('~')[0]] + [str(q) for q in p]), x.sort())
                if p and p[-1] == '#n' and v.sort() == I:
                    self.pc.append(v >= 0)
                elif p and p[-1] == '#n' and v.sort() == z3.ArraySort(I, I):
                    q = qv()
                    self.pc.append(z3.ForAll([q], v[q] >= 0, patterns=[v[q]]))
                return v
            self.roots[root] = self.map_mod(self.roots[root], path, fn, ())

    def map_mod(self, v, path, fn, pre):
        """Apply fn to the leaves of v that a modification path covers."""
        if v is None:
            raise Unsupported('loop modifies an uninitialised object')
        if isinstance(v, Lazy):
            v = self.force(v)
        if not path:
            if is_leaf(v):
                return fn(pre, v)
            if isinstance(v, S):
                return S(v.tn, {k: self.map_mod(x, (), fn, pre + (k,)) for k, x in v.f.items()})
            if isinstance(v, A):
                return A(fn(pre + ('#n',), v.n), self.map_mod(v.e, (), fn, pre + ('#e',)), v.kind)
            if isinstance(v, It):
                return It(v.path, fn(pre + ('#idx',), v.idx))
            if isinstance(v, (Clo, Fn, Ref)):
                return v
            raise Unsupported('loop modifies %r' % (v,))
        p = path[0]
        if p == '*':
            if isinstance(v, A):
                return A(v.n, self.map_mod(v.e, path[1:], fn, pre + ('#e',)), v.kind)
            if isinstance(v, S) and v.tn.startswith('fix'):
                return S(v.tn, {i: self.map_mod(x, path[1:], fn, pre + (i,)) for i, x in v.f.items()})
            if isinstance(v, S) and v.tn == 'mat':
                return v.upd('d', self.map_mod(v.d, (), fn, pre + ('d',)))
            if is_leaf(v):
                return fn(pre, v)
            raise Unsupported('loop modifies elements of %r' % (v,))
        if isinstance(v, S):
            if p not in v.f:
                raise Unsupported('loop modifies field %s' % p)
            return v.upd(p, self.map_mod(v.f[p], path[1:], fn, pre + (p,)))
        if isinstance(v, A) and p == '#n':
            return A(fn(pre + ('#n',), v.n), v.e, v.kind)
        raise Unsupported('modification path %s of %r' % (path, v))

    def auto_inv(self, cond, mods, entry_roots, k):
        """Bounds that follow from the shape of the loop: the previous iteration's condition."""
        if not cond:
            return
        x = None if callable(cond) else strip_paren(cond)
        now = dict(self.roots)
        try:
            self.sandbox += 1
            self.noFork += 1
            l = r = None
            op = None
            if callable(cond):
                op, l, r = cond.op, cond.l, cond.r
            elif x.get('kind') == 'BinaryOperator' and x['opcode'] in ('<', '!=', '<=', '>', '>='):
                op = x['opcode']
                l, r = x['inner']
            elif x.get('kind') == 'CXXOperatorCallExpr':
                op = {'operator!=': '!=', 'operator<': '<'}.get(opname(x))
                l, r = x['inner'][1:]
            if op is None:
                return
            npc, cnt = len(self.pc), self.cnt
            lv, rv_ = self.pos_of(self.rv(self.expr(l))), self.pos_of(self.rv(self.expr(r)))
            self.roots = dict(entry_roots)
            l0, r0 = self.pos_of(self.rv(self.expr(l))), self.pos_of(self.rv(self.expr(r)))
            self.roots = now
            if any(z is None for z in (lv, rv_, l0, r0)):
                return
            if not z3.eq(z3.simplify(rv_), z3.simplify(r0)):
                return
            d = z3.simplify(lv - l0 - k)
            if op in ('<', '!=') and z3.is_int_value(d) and d.as_long() == 0:
                # advances by one from l0 while != / < r0
                if op == '!=':
                    self.assume(z3.Implies(l0 <= r0, lv <= r0))
                else:
                    self.assume(z3.Or(k == 0, lv <= r0))
            if op == '<=' and z3.is_int_value(d) and d.as_long() == 0:
                self.assume(z3.Or(k == 0, lv <= r0 + 1))
            d2 = z3.simplify(lv - l0 + k)
            if op in ('>', '>=') and z3.is_int_value(d2) and d2.as_long() == 0:
                self.assume(z3.Or(k == 0, lv >= (r0 if op == '>' else r0 - 1)))
        except (NeedFork, ThrowEx, Unsupported):
            pass
        finally:
            self.roots = now
            self.sandbox -= 1
            self.noFork -= 1

    def pos_of(self, v):
        v = self.rv(v)
        n = 0
        while isinstance(v, Ref) and n < 4:
            v = self.read(v.path)
            n += 1
        if isinstance(v, It):
            return v.idx
        if is_leaf(v) and v.sort() == I:
            return v
        if isinstance(v, S):
            its = [y for y in v.f.values() if isinstance(y, It)]
            if len(its) == 1:
                return its[0].idx
            for f in ('slice_idx', 'flat_idx'):
                if f in v.f and is_leaf(v.f[f]):
                    return v.f[f]
        return None

    def check_mods(self, key, mods, wstart, entry_roots):
        """Every write of the real iteration must be in the havocked set (soundness check)."""
        for lv in self.wlog[wstart:]:
            w = self.mod_of(lv)
            if w[0] in entry_roots and not covered(w, mods):
                # seen on another path only: widen and start again
                ex = self.extra_mods.setdefault(key, set())
                if w in ex or w[0].startswith('heap'):
                    raise Unsupported('loop write %s escapes the modification analysis' % (w,))
                ex.add(w)
                self.modcache, self.sumcache = {}, {}
                raise Restart()

    # ------------------------------------------------------------------ calls
    def callee_decl(self, n):
        """Declaration a call expression refers to, or None."""
        c = n['inner'][0]
        c = strip_casts(c)
        if c.get('kind') == 'DeclRefExpr':
            r = c['referencedDecl']
            return self.ix.by_id.get(r['id']) or None
        if c.get('kind') == 'MemberExpr':
            return self.ix.by_id.get(c.get('referencedMemberDecl'))
        return None

    def contract_for(self, d):
        q = self.ix.qual.get(d['id'])
        if q is None:
            return None
        for c in self.contracts.get(q, ()):
            if c.select is None or c.select(d):
                return c
        df = self.ix.definition(d['id'])
        if df is not None:
            q2 = self.ix.qual.get(df['id'])
            for c in self.contracts.get(q2, ()):
                if c.select is None or c.select(df):
                    return c
        return None

    def call_decl(self, d, args, this, n, force_inline=False):
        """Call a function of the code base: contract if it has one, else inline."""
        df = self.ix.definition(d['id'])
        c = self.contract_for(d)
        if c is not None and c.use_at_calls and not force_inline and \
                self.ix.qual.get(d['id']) not in self.contract.inline:
            return self.call_contract(c, df or d, args, this, n)
        if df is None:
            raise Unsupported('no body for %s' % self.ix.qual.get(d['id']))
        return self.inline(df, args, this, n)

    def inline(self, df, args, this, n):
        if len(self.frames) > self.MAX_INLINE:
            raise Unsupported('inlining too deep')
        for f in self.frames:
            if f.fn is not None and f.fn.get('id') == df['id']:
                raise Unsupported('recursive call of %s needs a contract' % df.get('name'))
        fr = Frame(df, self.frames[-1].chain + (n['id'],))
        self.deps[df['id']] = df
        self.bind_params(fr, params_of(df), args)
        fr.this = this
        self.frames.append(fr)
        depth = len(self.frames)
        try:
            if df['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(df, fr)
            try:
                self.stmt(extract.body_of(df))
                ret = None
            except ReturnEx as r:
                ret = r.v
        finally:
            del self.frames[depth - 1:]
        return ret

    def bind_params(self, fr, params, args):
        for i, p in enumerate(params):
            t = ptype(p)
            if i < len(args):
                a = args[i]
            else:
                init = init_of(p)
                if init is None:
                    raise Unsupported('missing argument')
                a = self.expr(init)
            k = self.types.kind(t)
            nm = p.get('name', 'p%d' % i)
            if k[0] == 'ref':
                if isinstance(a, LV):
                    v = self.read(a) if a.root in self.roots else None
                    if isinstance(v, Ref) and not self._wants_ref(k):
                        a = v.path
                    fr.vars[p['id']] = a
                else:
                    fr.vars[p['id']] = self.as_lv(a, nm)
            else:
                v = a if hasattr(type(a), 'lazy') and k[0] == 'vec' and 'Ref<' in t else self.convert_to(self.rv(a), k, t)
                root = '%s~%s~%d' % (nm, p['id'], len(self.frames) + 1)
                self.roots[root] = v
                fr.vars[p['id']] = LV(root)
            if p.get('name'):
                fr.names[p['name']] = p['id']

    def _wants_ref(self, k):
        kk = self.types.kind(k[1])
        return kk[0] in ('ptr', 'sptr', 'over')

    def call_back(self, cb, args, n):
        """A call of the unknown callback: allowed by the contract; nothing else is visible to it."""
        self.note_call('callback', cb.fn.calls, '@calls', [self.rv(a) for a in args], n)

    def note_call(self, what, spec, ghost, args, n):
        line = n.get('range', {}).get('begin', {}).get('line')
        c = Ctx(self, self.frames[0], self.roots, args=self.args0)
        c.__dict__.update(old=Ctx(self, self.frames[0], self.entry_roots, args=self.args0), frame=self.frames[-1])
        c.__dict__['ks'] = list(self.ks)
        c.__dict__['local'] = Ctx(self, self.frames[-1], self.roots, args=self.args0)
        for lab, f in labelled(spec(c, *args), 'call'):
            self.oblige(what + ':' + lab, f, line)
        k = LV(ghost).f('n')
        self.write(k, self.read(k) + 1)

    def call_closure(self, clo, args, n):
        if isinstance(clo, Fn):
            d = self.ix.by_id.get(clo.ref['id'])
            if d is None:
                raise Unsupported('call through ' + str(clo.ref.get('name')))
            return self.call_decl(d, args, None, n)
        fr = Frame(clo.node, self.frames[-1].chain + (n['id'],))
        fr.fn = clo.decl
        fr.vars = dict(clo.vars)
        fr.this = clo.this
        self.bind_params(fr, clo.params, args)
        self.frames.append(fr)
        depth = len(self.frames)
        # loops inside the lambda are keyed relative to where it was written
        saved = fr.chain
        fr.chain = clo.chain
        try:
            try:
                self.stmt(clo.body)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            del self.frames[depth - 1:]

    def call_contract(self, c, d, args, this, n):
        self.used_contracts.add(c.name)
        """Use a callee's contract: check requires, havoc the frame, assume ensures."""
        line = n.get('range', {}).get('begin', {}).get('line')
        vals = []
        fr = Frame(d, self.frames[-1].chain + (n['id'],))
        fr.this = this
        self.bind_params(fr, params_of(d), args)
        bound = [fr.vars[p['id']] for p in params_of(d)]
        is_ctor = d['kind'] == 'CXXConstructorDecl'
        pre_roots = dict(self.roots)
        pre = Ctx(self, fr, pre_roots, args=bound, this=this)
        pre.__dict__['old'] = pre
        for lab, f in labelled(c.requires(pre), 'pre'):
            self.oblige('call:%s:%s' % (c.name.split('::')[-1], lab), f, line)
        if c.throws is not None:
            t = c.throws(pre)
            if self.choose(t):
                tm = c.modifies if c.throw_modifies is None else c.throw_modifies
                if tm:
                    if self.noFork:
                        raise NeedFork()
                    self.havoc_frame(c, bound, this, tm)
                if c.ensures_throw is not None:
                    post = Ctx(self, fr, self.roots, old=pre, args=bound, this=this)
                    for lab, f in labelled(c.ensures_throw(post), 'post-throw'):
                        self.assume(f)
                ty = c.throw_type or c.name
                if callable(ty):
                    for cond, t in ty(pre):
                        ty = t
                        if cond is None or self.choose(cond):
                            break
                raise ThrowEx(ty)
        if self.noFork and c.modifies:
            raise NeedFork()
        self.havoc_frame(c, bound, this, [m for m in c.modifies or () if m.split('.')[0] != 'this'] if is_ctor else None)
        # result
        rt = ret_type(d['type']['qualType'])
        ret = None
        if c.returns is not None:
            ret = c.returns(Ctx(self, fr, self.roots, old=pre, args=bound, this=this))
        elif is_ctor:
            owner = self.ix.owner.get(d['id'])
            q = self.ix.qual[owner['id']]
            self.cnt += 1
            ret = self.types.mk(q, 'new%d' % self.cnt, self)
        elif rt != 'void':
            self.cnt += 1
            k = self.types.kind(rt)
            t = k[1] if k[0] == 'ref' else rt
            ret = self.types.mk(t, 'ret.%s#%d' % (c.name.split('::')[-1], self.cnt), self)
            if k[0] == 'ref' and isinstance(ret, Ref):
                ret = LVnew(self, ret)
        post = Ctx(self, fr, self.roots, old=pre, ret=self.deref_ret(ret) if ret is not None else None,
                   args=bound, this=LVnew(self, ret) if is_ctor else this)
        post.__dict__['ret_raw'] = ret
        for lab, f in labelled(c.ensures(post), 'post'):
            self.assume(f)
        self.used_contracts.add(c.name)
        return ret

    used_contracts = set()

    def havoc_frame(self, c, bound, this, mods=None):
        for m in (c.modifies if mods is None else mods) or ():
            parts = m.split('.')
            if parts[0] == 'this':
                lv = this
            elif parts[0].startswith('arg'):
                lv = bound[int(parts[0][3:])]
                v = self.read(lv)
                if isinstance(v, Ref):
                    lv = v.path
            else:
                raise Unsupported('modifies ' + m)
            for p in parts[1:]:
                v = self.read(lv)
                if isinstance(v, Ref):
                    lv = v.path
                lv = lv.f(p)
            v = self.read(lv)
            self.write(lv, self.havoc_value(v, m))

    # ------------------------------------------------------------------ expressions: in expr.py
    def expr(self, n):
        if callable(n):
            return n()
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['kind'])
        return m(n)


def LVnew(it, v):
    return it.as_lv(v)


# ---------------------------------------------------------------------- helpers
def flat(x):
    if x is None:
        return
    if isinstance(x, dict):
        for k, v in x.items():
            yield v
    elif isinstance(x, (list, tuple)) and not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, tuple):
        yield x[1]
    else:
        yield x


def labelled(x, dflt, body=False):
    """The named facts of a specification; those named 'body:…' hold at the start of an iteration."""
    if body:
        return [y for y in labelled_all(x, dflt) if y[0].startswith('body:')]
    return [y for y in labelled_all(x, dflt) if not y[0].startswith('body:')]


def labelled_all(x, dflt):
    if x is None:
        return []
    if isinstance(x, dict):
        return list(x.items())
    if is_leaf(x):
        return [(dflt, x)]
    out = []
    for i, y in enumerate(x):
        if isinstance(y, tuple):
            out.append(y)
        elif isinstance(y, dict):
            out += list(y.items())
        elif isinstance(y, list):
            out += labelled_all(y, '%s%d' % (dflt, i))
        else:
            out.append(('%s%d' % (dflt, i), y))
    return out


def has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def covered(w, mods):
    for m in mods:
        if m[0] == w[0] and w[1][:len(m[1])] == m[1]:
            return True
    return False


def minimise(mods):
    out = set()
    for m in mods:
        if not any(o != m and o[0] == m[0] and m[1][:len(o[1])] == o[1] for o in mods):
            out.add(m)
    return out


def leaf_at(v, path):
    for p in path:
        if v is None:
            return None
        if isinstance(v, S):
            v = v.f.get(p)
        elif isinstance(v, A):
            v = v.n if p == '#n' else v.e if p == '#e' else None
        elif isinstance(v, It) and p == '#idx':
            v = v.idx
        else:
            return None
    return v


def collect_names(v, out):
    if is_leaf(v):
        const_names(v, out)
    elif isinstance(v, S):
        for x in v.f.values():
            collect_names(x, out)
    elif isinstance(v, A):
        collect_names(v.n, out)
        collect_names(v.e, out)
    elif isinstance(v, It):
        collect_names(v.idx, out)
    elif isinstance(v, Ref):
        if v.null is not None:
            const_names(v.null, out)


def flatten(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from flatten(y)
        else:
            yield y


def mentions_term(t, c):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, c):
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    return False


def get_path(v, path):
    for p in path:
        if v is None:
            return None
        if isinstance(v, S):
            v = v.f.get(p)
        elif isinstance(v, A) and p == '#n':
            v = v.n
        else:
            return None
    return v


def diff_leaves(a, b, path):
    if is_leaf(a) and is_leaf(b):
        yield path, a, b
    elif isinstance(a, S) and isinstance(b, S):
        for k in a.f:
            if k in b.f:
                yield from diff_leaves(a.f[k], b.f[k], path + (k,))
    elif isinstance(a, It) and isinstance(b, It) and repr(a.path) == repr(b.path):
        yield path + ('#idx',), a.idx, b.idx
    elif isinstance(a, A) and isinstance(b, A):
        yield path + ('#n',), a.n, b.n


def strip_paren(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr') or \
            (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue')
             and n['inner'][0].get('kind') in ('ParenExpr', 'BinaryOperator', 'UnaryOperator', 'ExprWithCleanups', 'CXXOperatorCallExpr')):
        n = n['inner'][0]
    return n


def strip_casts(n):
    while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'ConstantExpr',
                            'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
        n = n['inner'][0]
    return n


def opname(n):
    c = strip_casts(n['inner'][0])
    return c.get('referencedDecl', {}).get('name')


def params_of(d):
    return [c for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def ptype(p):
    return p['type'].get('desugaredQualType', p['type']['qualType'])


def ret_type(fq):
    i = fq.find('(')
    # function type "R (args) quals"; R may itself contain parentheses rarely
    d = 0
    for j, ch in enumerate(fq):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            r = fq[:j].strip()
            if r == 'auto' and '->' in fq:
                return fq.split('->')[-1].strip()
            return r
    return fq[:i].strip()


def init_of(d):
    if d is None:
        return None
    for c in d.get('inner', ()):
        if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Comment') and \
                not c['kind'].endswith('Attr') and c['kind'] not in ('FullComment',):
            return c
    return None


def local_decls(fn):
    out = []

    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and n.get('name') and not n.get('isImplicit'):
            out.append((n['name'], n['type']['qualType']))
        if n.get('kind') == 'LambdaExpr':
            for c in n.get('inner', ()):
                if c.get('kind') == 'CompoundStmt':
                    walk(c)
            return
        for c in n.get('inner', ()):
            walk(c)
    walk(fn)
    return out


def fix_get(v, i):
    i = z3.simplify(i) if is_leaf(i) else z3.IntVal(i)
    if z3.is_int_value(i):
        return v.f[str(i.as_long())]
    n = int(v.tn[3:])
    r = v.f[str(n - 1)]
    for j in range(n - 2, -1, -1):
        r = ite(i == j, v.f[str(j)], r)
    return r


def fix_set(v, i, fn):
    i = z3.simplify(i)
    if z3.is_int_value(i):
        k = str(i.as_long())
        if k not in v.f:
            raise Unsupported('constant index out of range')
        return v.upd(k, fn(v.f[k]))
    return S(v.tn, {k: ite(i == int(k), fn(x), x) for k, x in v.f.items()})


def ite(c, a, b):
    if is_leaf(a) and is_leaf(b):
        if a.sort() != b.sort():
            if R in (a.sort(), b.sort()):
                a, b = conv_sort(a, R), conv_sort(b, R)
            else:
                a, b = conv_sort(a, I), conv_sort(b, I)
        return z3.If(c, a, b)
    if isinstance(a, S) and isinstance(b, S) and a.f.keys() == b.f.keys():
        return S(a.tn, {k: ite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, It) and isinstance(b, It) and repr(a.path) == repr(b.path):
        return It(a.path, z3.If(c, a.idx, b.idx))
    if isinstance(a, A) and isinstance(b, A):
        return A(z3.If(c, a.n, b.n), ite_tree(c, a.e, b.e), a.kind)
    raise Unsupported('conditional of %r and %r' % (a, b))


def ite_tree(c, a, b):
    if is_leaf(a):
        return z3.If(c, a, b)
    return S(a.tn, {k: ite_tree(c, a.f[k], b.f[k]) for k in a.f})
