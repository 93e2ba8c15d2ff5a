"""Expression evaluation."""
import z3
from .values import *
from .types import norm, head_args
from . import extract
from .engine import *


def tdiv(a, b):
    """C++ integer division (truncating)."""
    a_, b_ = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a_) and z3.is_int_value(b_) and b_.as_long() != 0:
        x, y = a_.as_long(), b_.as_long()
        q = abs(x) // abs(y)
        return z3.IntVal(q if (x < 0) == (y < 0) else -q)
    if z3.is_int_value(b_) and b_.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)),
                 z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))


def tmod(a, b):
    return a - b * tdiv(a, b)


def writable_view(t):
    """Eigen::Ref of something which is not const: assignments write through it"""
    h, a = head_args(t.replace('const Eigen::Ref', 'Eigen::Ref').strip())
    return h in ('Eigen::Ref', 'Ref') and bool(a) and not a[0].startswith('const ') and not a[0].endswith('const')


class Exec(Interp):
    # ---- wrappers
    def _inner(self, n):
        return self.expr(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = _inner
    e_ConstantExpr = e_CXXStdInitializerListExpr = _inner

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.expr(n['inner'][-1])

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n):
        v = str(n['value'])
        if n.get('type', {}).get('qualType') == 'float':
            # clang prints the shortest decimal: the value is the nearest single precision number
            from fractions import Fraction
            import struct
            v = str(Fraction(struct.unpack('f', struct.pack('f', float(v)))[0]))
        return z3.RealVal(v)

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ref(None, z3.BoolVal(True))

    def e_StringLiteral(self, n):
        return self.lib.strlit(n.get('value', ''))

    def e_UserDefinedLiteral(self, n):
        todo = list(n.get('inner', []))
        while todo:
            x = todo.pop()
            if x.get('kind') == 'StringLiteral':
                return self.lib.strlit(x.get('value', ''))
            todo += x.get('inner', [])
        return z3.Const('udl%d' % self._tick(), STR)

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero(self.ty(n))

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType', {}).get('qualType')
        if n.get('name') == 'sizeof':
            if t is None and n.get('inner'):
                t = self.ty(n['inner'][0])
            b, p = self.types.resolve(t)
            size = {'int': 4, 'float': 4, 'double': 8, 'long': 8, 'bool': 1, 'char': 1, 'unsigned int': 4,
                    'unsigned long': 8, 'std::complex<float>': 8, 'std::complex<double>': 16}.get(b)
            if size:
                return z3.IntVal(size)
        raise Unsupported('sizeof %s' % t)

    def zero(self, t):
        k = self.types.kind(t)
        if k[0] == 'int':
            return z3.IntVal(0)
        if k[0] == 'real':
            return z3.RealVal(0)
        if k[0] == 'bool':
            return z3.BoolVal(False)
        if k[0] == 'complex':
            return S('complex', {'re': z3.RealVal(0), 'im': z3.RealVal(0)})
        if k[0] == 'fix':
            return S('fix%d' % k[2], {str(i): self.zero(k[1]) for i in range(k[2])})
        if k[0] == 'ptr':
            return Ref(None, z3.BoolVal(True))
        if k[0] == 'rec':
            f = {}
            for (nm, ft, d, q) in self.types.fields(k[2]):
                init = init_of(d)
                f[nm] = self.rv(self.expr(init)) if init is not None else self.zero(ft)
            return S(k[1], f)
        return self.default_value(t, 'zero')

    def ty(self, n):
        t = n['type']
        return t.get('desugaredQualType', t['qualType'])

    # ---- names
    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        k = r['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for fr in (self.frames[-1],):
                if r['id'] in fr.vars:
                    b = fr.vars[r['id']]
                    if isinstance(b, LV) and not b.sels:
                        v = self.roots.get(b.root)
                        if isinstance(v, Ref) and self.is_ref_decl(r):
                            return v.path
                    return b
            d = self.ix.by_id.get(r['id'])
            if d is None:
                return self.lib.global_var(r['name'], n)
            init = init_of(d)
            if init is None:
                for nm, vd in self.ix.vars.items():
                    if vd.get('name') == r['name'] and init_of(vd) is not None:
                        init = init_of(vd)
            if init is None:
                return self.lib.global_var(r['name'], n)
            return self.rv(self.expr(init))
        if k == 'EnumConstantDecl':
            return self.enum_value(r)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Fn(r)
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('reference to ' + k)

    def is_ref_decl(self, r):
        t = r.get('type', {}).get('qualType', '')
        return t.rstrip().endswith('&')

    def enum_value(self, r):
        for d in self.ix.by_id.values():
            if d['kind'] == 'EnumDecl':
                v = -1
                for c in d.get('inner', ()):
                    if c.get('kind') != 'EnumConstantDecl':
                        continue
                    e = init_of(c)
                    v = v + 1
                    if e is not None:
                        v = int(e.get('value', e.get('inner', [{}])[0].get('value', v)))
                    if c['id'] == r['id']:
                        return z3.IntVal(v)
        raise Unsupported('enumerator ' + r['name'])

    def e_CXXThisExpr(self, n):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return Ref(fr.this)
            break
        raise Unsupported('this')

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        x = self.expr(base)
        name = n.get('name', '')
        d = self.ix.by_id.get(n.get('referencedMemberDecl'))
        if d is not None and d['kind'] == 'VarDecl':
            init = init_of(d)
            if init is not None:
                return self.rv(self.expr(init))
        if n.get('isArrow'):
            v = self.rv(x)
            lv = self.pointee(v, n)
        else:
            lv = self.as_lv(x)
            v = self.read(lv)
            k = 0
            while isinstance(v, Ref) and k < 4:
                lv = v.path
                v = self.read(lv)
                k += 1
        if name == '' or name is None:
            return lv
        r = lv.f(name)
        v = self.read(r)
        if isinstance(v, Ref) and d is not None and ptype(d).rstrip().endswith('&'):
            return v.path
        return r

    def pointee(self, v, n):
        if isinstance(v, Ref):
            self.oblige('pointer-not-null', z3.Not(v.null), line_of(n))
            if v.path is None:
                raise PathEnd()
            return v.path
        if isinstance(v, It):
            self.check_bounds(v, n)
            return v.path.i(v.idx)
        if isinstance(v, S) or is_leaf(v) and v.sort() == OPQ:
            return self.as_lv(v)        # an opaque pointer stands for the object it points to
        raise Unsupported('dereference of %r' % (v,))

    def check_bounds(self, v, n):
        seq = self.read(v.path)
        k = 0
        while isinstance(seq, Ref) and k < 4:
            seq = self.read(seq.path)
            k += 1
        if isinstance(seq, (A, Lazy)):
            self.oblige('bounds', z3.And(0 <= v.idx, v.idx < seq.n), line_of(n))
        elif isinstance(seq, S) and seq.tn.startswith('fix'):
            self.oblige('bounds', z3.And(0 <= v.idx, v.idx < int(seq.tn[3:])), line_of(n))

    # ---- casts
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n):
        raise Unsupported('reinterpret_cast')

    def cast(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        x = self.expr(e)
        if ck == 'LValueToRValue':
            return self.rv(x)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived',
                  'NullToPointer', 'BitCast'):
            if ck == 'NullToPointer':
                return Ref(None, z3.BoolVal(True))
            if ck == 'NoOp' and is_leaf(x) and n.get('kind') != 'ImplicitCastExpr':
                return self.convert_to(x, self.types.kind(self.ty(n)), self.ty(n))
            return x
        if ck == 'ArrayToPointerDecay':
            if isinstance(x, LV):
                return It(x, z3.IntVal(0))
            return x
        if ck == 'IntegralCast':
            v = self.rv(x)
            if is_leaf(v) and v.sort() == B:
                v = conv_sort(v, I)
            return v
        if ck in ('IntegralToFloating',):
            return conv_sort(self.rv(x), R)
        if ck == 'FloatingCast':
            return self.rv(x)
        if ck == 'FloatingToIntegral':
            v = self.rv(x)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return conv_sort(self.rv(x), B)
        if ck == 'PointerToBoolean':
            v = self.rv(x)
            if isinstance(v, Ref):
                return z3.Not(v.null)
            return z3.BoolVal(True)
        if ck == 'ToVoid':
            return None
        if ck == 'FloatingRealToComplex':
            return S('complex', {'re': conv_sort(self.rv(x), R), 'im': z3.RealVal(0)})
        raise Unsupported('cast ' + str(ck))

    # ---- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '!':
            return z3.Not(self.bool_of(self.rv(self.expr(e))))
        if op == '-':
            return -self.num(self.rv(self.expr(e)))
        if op == '+':
            return self.rv(self.expr(e))
        if op in ('++', '--'):
            lv = self.expr(e)
            if not isinstance(lv, LV):
                raise Unsupported('++ on a temporary')
            old = self.read(lv)
            one = z3.IntVal(1 if op == '++' else -1)
            if isinstance(old, It):
                new = It(old.path, old.idx + one)
            else:
                new = old + one
            self.write(lv, new)
            return old if n.get('isPostfix') else lv
        if op == '*':
            v = self.rv(self.expr(e))
            return self.pointee(v, n)
        if op == '&':
            x = self.expr(e)
            if isinstance(x, LV):
                if x.sels and x.sels[-1][0] == 'i':
                    return It(LV(x.root, x.sels[:-1]), x.sels[-1][1])
                return Ref(x)
            return x
        raise Unsupported('unary ' + op)

    def num(self, v):
        if is_leaf(v) and v.sort() == B:
            return conv_sort(v, I)
        return v

    def arith(self, op, a, b, t=None, n=None):
        if isinstance(a, It) or isinstance(b, It):
            return self.ptr_arith(op, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            eq = self.ref_eq(a, b)
            return eq if op == '==' else z3.Not(eq)
        if not (is_leaf(a) and is_leaf(b)):
            return self.lib.binop(self, op, a, b, n)
        if op in ('==', '!='):
            f = same(a, b)
            return f if op == '==' else z3.Not(f)
        if op in ('&&', '||'):
            a, b = self.bool_of(a), self.bool_of(b)
            return z3.And(a, b) if op == '&&' else z3.Or(a, b)
        if op in ('&', '|', '^') and a.sort() == B and b.sort() == B:
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        a, b = self.num(a), self.num(b)
        if a.sort() == OPQ or b.sort() == OPQ or a.sort() == STR:
            return self.lib.binop(self, op, a, b, n)
        if a.sort() != b.sort():
            a, b = conv_sort(a, R), conv_sort(b, R)
        if op == '+':
            return a + b
        if op == '-':
            r = a - b
            if t and self.types.is_unsigned(t):
                self.oblige('no-unsigned-wrap', r >= 0, line_of(n) if n else None)
            return r
        if op == '*':
            return a * b
        if op == '/':
            if a.sort() == I:
                self.oblige('no-division-by-zero', b != 0, line_of(n) if n else None)
                return tdiv(a, b)
            return a / b
        if op == '%':
            self.oblige('no-division-by-zero', b != 0, line_of(n) if n else None)
            return tmod(a, b)
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op in ('<<', '>>', '&', '|', '^'):
            x, y = z3.simplify(a), z3.simplify(b)
            if op == '<<' and z3.is_int_value(y):
                return a * (1 << y.as_long())
            if op == '&' and z3.is_int_value(y) and (y.as_long() + 1) & y.as_long() == 0:
                return a % (y.as_long() + 1)
        raise Unsupported('operator ' + op)

    def ref_eq(self, a, b):
        def isnull(x):
            return x.null if isinstance(x, Ref) else z3.BoolVal(False)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.path is None:
                return b.null
            if b.path is None:
                return a.null
            return z3.BoolVal(repr(a.path) == repr(b.path))
        raise Unsupported('pointer comparison')

    def ptr_arith(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if op == '-':
                return a.idx - b.idx
            if op in ('==', '!=', '<', '<=', '>', '>='):
                return {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y,
                        '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
                        '>=': lambda x, y: x >= y}[op](a.idx, b.idx)
        if isinstance(a, It) and is_leaf(b):
            return It(a.path, a.idx + b if op == '+' else a.idx - b)
        if isinstance(b, It) and is_leaf(a) and op == '+':
            return It(b.path, b.idx + a)
        raise Unsupported('pointer arithmetic ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        l, r = n['inner']
        if op == '=':
            x = self.rv(self.expr(r))
            lv = self.expr(l)
            if not isinstance(lv, LV):
                raise Unsupported('assignment to a temporary')
            self.assign(lv, x)
            return lv
        if op == ',':
            self.expr(l)
            return self.expr(r)
        if op in ('&&', '||'):
            v = self.try_pure(n)
            if v is not None:
                return v
            a = self.choose(self.bool_of(self.rv(self.expr(l))))
            if op == '&&':
                return self.bool_of(self.rv(self.expr(r))) if a else z3.BoolVal(False)
            return z3.BoolVal(True) if a else self.bool_of(self.rv(self.expr(r)))
        a = self.rv(self.expr(l))
        b = self.rv(self.expr(r))
        return self.arith(op, a, b, self.ty(n), n)

    def assign(self, lv, x):
        if isinstance(x, Lazy):
            cur = None
            try:
                cur = self.read(lv)
            except Unsupported:
                pass
            x = self.convert_to(x, ('fix', None, int(cur.tn[3:])) if isinstance(cur, S) and cur.tn.startswith('fix') else ('vec',), None)
        self.write(lv, x)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.rv(self.expr(r))
        lv = self.expr(l)
        a = self.rv(lv)
        v = self.arith(op, a, b, self.ty(n), n)
        t = self.types.kind(self.ty(n))
        if is_leaf(v) and t[0] == 'int' and v.sort() == R:
            v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        self.write(lv, v)
        return lv

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        snap = (dict(self.roots), len(self.pc), len(self.wlog), self.cnt, len(self.obls))
        cv = self.bool_of(self.rv(self.expr(c)))
        cs = z3.simplify(cv)
        if z3.is_true(cs):
            return self.expr(a)
        if z3.is_false(cs):
            return self.expr(b)
        snap = (dict(self.roots), len(self.pc), len(self.wlog), self.cnt, len(self.obls))
        self.noFork += 1
        g = list(self.guards)
        try:
            self.guards.append(cv)
            x = self.rv(self.expr(a))
            self.guards[-1] = z3.Not(cv)
            y = self.rv(self.expr(b))
            self.guards.pop()
            ok = len(self.wlog) == snap[2]
            if ok:
                r = ite(cv, x, y)
        except (NeedFork, ThrowEx, Unsupported, PathEnd):
            ok = False
        finally:
            self.noFork -= 1
            self.guards = g
        if ok:
            return r
        self.roots = snap[0]
        del self.pc[snap[1]:]
        if self.solver_pc > snap[1]:
            self.solver = z3.Solver()
            self.solver.set('timeout', 300)
            self.solver_pc = 0
        del self.wlog[snap[2]:]
        del self.obls[snap[4]:]
        if self.choose(cv):
            return self.expr(a)
        return self.expr(b)

    def e_ArraySubscriptExpr(self, n):
        b, i = n['inner']
        x = self.rv(self.expr(b))
        idx = self.rv(self.expr(i))
        if isinstance(x, It):
            p = It(x.path, x.idx + idx)
            self.check_bounds(p, n)
            return p.path.i(z3.simplify(p.idx))
        raise Unsupported('subscript of %r' % (x,))

    # ---- calls
    def args_of(self, nodes):
        """Evaluated arguments; trailing default arguments are left to the callee."""
        out = []
        for a in nodes:
            if not callable(a) and a.get('kind') == 'CXXDefaultArgExpr':
                break
            out.append(self.expr(a))
        return out

    def with_defaults(self, d, args):
        """Append default arguments from the declaration of d."""
        ps = params_of(d)
        i = len(args)
        decls = [d]
        x = d
        while x is not None and x.get('previousDecl'):
            x = self.ix.by_id.get(x['previousDecl'])
            if x is not None:
                decls.append(x)
        while i < len(ps):
            init = None
            for dd in decls:
                pp = params_of(dd)
                if i < len(pp):
                    init = init or init_of(pp[i])
            if init is None:
                break
            args = args + [self.expr(init)]
            i += 1
        return args

    def e_CallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        if callee.get('kind') == 'DeclRefExpr':
            r = callee['referencedDecl']
            if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                d = self.ix.by_id.get(r['id'])
                name = r['name']
                h = self.lib.special_call(self, name, n, d)
                if h is not None:
                    return h[0]
                args = self.args_of(n['inner'][1:])
                if d is not None and (self.ix.definition(d['id']) is not None or self.contract_for(d)):
                    return self.call_decl(d, self.with_defaults(d, args), None, n)
                return self.lib.function(self, name, args, n)
            v = self.rv(self.expr(callee))
            if isinstance(v, (Clo, Fn)):
                return self.call_closure(v, self.args_of(n['inner'][1:]), n)
        raise Unsupported('call of ' + str(callee.get('kind')))

    def e_CXXMemberCallExpr(self, n):
        m = strip_casts(n['inner'][0])
        if m.get('kind') != 'MemberExpr':
            raise Unsupported('member call through ' + str(m.get('kind')))
        d = self.ix.by_id.get(m.get('referencedMemberDecl'))
        base = m['inner'][0]
        name = m.get('name', '')
        x = self.expr(base)
        if m.get('isArrow'):
            v = self.rv(x)
            lv = x if isinstance(x, LV) and not isinstance(v, (Ref, It)) else self.pointee(v, n)
        else:
            lv = x
        args = self.args_of(n['inner'][1:])
        if d is not None and (self.ix.definition(d['id']) is not None or self.contract_for(d)):
            lv = self.as_lv(lv)
            v = self.read(lv)
            k = 0
            while isinstance(v, Ref) and k < 4:
                lv = v.path
                v = self.read(lv)
                k += 1
            over = self.lib.method_override(self, name, lv, args, n)
            if over is not None:
                return over[0]
            return self.call_decl(d, self.with_defaults(d, args), lv, n)
        return self.lib.method(self, name, lv, args, n)

    def e_CXXOperatorCallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        r = callee.get('referencedDecl', {})
        name = r.get('name')
        d = self.ix.by_id.get(r.get('id'))
        if name in ('operator()',):
            fv = self.expr(n['inner'][1])
            f = self.deref_all(fv)
            if isinstance(f, CB):
                return self.call_back(f, self.args_of(n['inner'][2:]), n)
            if is_leaf(f) and f.sort() == OPQ and 'function' in self.ty(n['inner'][1]):
                return self.lib.ext_call(self, f, self.args_of(n['inner'][2:]), n)
            if isinstance(f, Clo):
                args = self.args_of(n['inner'][2:])
                if d is not None and has_generic(f) and extract.has_body(d):
                    f = Clo(params_of(d), extract.body_of(d), f.vars, f.this, f.node, f.chain, d)
                return self.call_closure(f, args, n)
        if d is not None and (self.ix.definition(d['id']) is not None or self.contract_for(d)) and \
                not d.get('isImplicit'):
            if d['kind'] == 'CXXMethodDecl':
                lv = self.as_lv(self.expr(n['inner'][1]))
                v = self.read(lv)
                k = 0
                while isinstance(v, Ref) and k < 4:
                    lv = v.path
                    v = self.read(lv)
                    k += 1
                return self.call_decl(d, self.with_defaults(d, self.args_of(n['inner'][2:])), lv, n)
            return self.call_decl(d, self.args_of(n['inner'][1:]), None, n)
        if name == 'operator=':
            rhs = self.rv(self.expr(n['inner'][2]))
            lv = self.expr(n['inner'][1])
            return self.lib.assign_op(self, lv, rhs, n)
        xs = [self.expr(a) for a in n['inner'][1:]]
        return self.lib.operator(self, name[8:], xs, n)

    def e_CXXConstructExpr(self, n):
        t = self.ty(n)
        inner = [a for a in n.get('inner', ())]
        k = self.types.kind(t)
        ct = n.get('ctorType', {}).get('qualType', '')
        if '(lambda' in t or '(lambda' in n['type']['qualType']:
            return self.rv(self.expr(inner[0]))
        if len(inner) == 1 and self.contract.callback is not None and strip_casts(inner[0]).get('kind') == 'DeclRefExpr':
            v = self.deref_all(self.expr(inner[0]))
            if isinstance(v, CB):
                return v
        if k[0] == 'ptr' and inner:
            return self.rv(self.expr(inner[0]))
        if k[0] == 'rec':
            if len(inner) == 1 and self.is_copy_ctor(ct, k[1]):
                v = self.rv(self.expr(inner[0]))
                while isinstance(v, Ref):
                    v = self.read(v.path)
                return v
            return self.construct(k, ct, inner, n)
        real = [x for x in inner if x.get('kind') != 'CXXDefaultArgExpr']
        if len(real) == 1 and k[0] == 'vec' and writable_view(t):
            from . import lib
            x = self.expr(inner[0])
            if isinstance(x, LV):
                v = self.read(x)
                if isinstance(v, lib.Seg):
                    return v
                if isinstance(v, A):
                    return lib.Seg(x, z3.IntVal(0), v.n)
            if isinstance(x, lib.Seg):
                return x
            return self.rv(x)
        h = self.lib.construct(self, k, t, ct, inner, n)
        return h

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def is_copy_ctor(self, ct, q):
        i = ct.find('(')
        a = ct[i + 1:ct.rfind(')')].strip()
        if not a or ',' in strip_angles(a):
            return False
        b, p = norm(a)
        short = q.split('::')[-1].split('<')[0]
        return p != '' and b.split('<')[0].split('::')[-1] == short and b.split('<')[0].split('::')[-1] != '' and \
            (('<' not in b) or ('<' not in q) or self.types._argkey(b).split('::')[-1] == self.types._argkey(q).split('::')[-1]
             or '<' not in q.split('::')[-1])

    def construct(self, k, ct, inner, n):
        q, rec = k[1], k[2]
        over = self.lib.construct_override(self, q, ct, inner, n)
        if over is not None:
            return over[0]
        ctors = []
        for c in self.all_ctors(rec):
            if c['type']['qualType'].replace(' noexcept', '') == ct.replace(' noexcept', ''):
                ctors.append(c)
        if not ctors:
            nargs = len(inner)
            ctors = [c for c in self.all_ctors(rec) if not c.get('isImplicit') and
                     len(params_of(c)) == nargs and (self.ix.definition(c['id']) or extract.has_body(c))]
            if len(ctors) > 1:
                ctors = [c for c in ctors if loose(c['type']['qualType']) == loose(ct)] or ctors[:1]
        if not inner and (not ctors or ctors[0].get('explicitlyDefaulted') or ctors[0].get('isImplicit')):
            return self.default_value(self.ty(n), 'tmp')
        if not ctors:
            raise Unsupported('constructor %s of %s' % (ct, q))
        d = ctors[0]
        args = self.args_of(inner)
        args = self.with_defaults(d, args)
        df = self.ix.definition(d['id'])
        c = self.contract_for(d)
        if c is not None and c.use_at_calls:
            return self.rv(self.call_contract(c, df or d, args, None, n))
        if df is None:
            raise Unsupported('constructor of %s has no body' % q)
        root = 'obj%%%d' % self._tick()
        self.roots[root] = None
        self.roots[root] = self.default_record_raw(q, rec)
        self.inline(df, args, LV(root), n)
        # members with in-class initialisers not mentioned by the constructor
        return self.roots[root]

    def default_record_raw(self, q, rec):
        f = {}
        for (nm, t, d, qt) in self.types.fields(rec):
            init = init_of(d)
            if init is not None and init.get('kind') not in (None,):
                try:
                    x = self.rv(self.expr(init))
                    f[nm] = self.convert_to(x, self.types.kind(t), t)
                    continue
                except Unsupported:
                    pass
            f[nm] = self.default_value(t, nm)
        return S(q, f)

    def all_ctors(self, rec):
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXConstructorDecl':
                yield c
            if c.get('kind') == 'FunctionTemplateDecl':
                for x in c.get('inner', ()):
                    if x.get('kind') == 'CXXConstructorDecl':
                        yield x

    def e_InitListExpr(self, n):
        t = self.ty(n)
        k = self.types.kind(t)
        inner = n.get('inner', [])
        if 'array_filler' in n:
            inner = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']
        if k[0] in ('int', 'real', 'bool', 'ptr', 'opaque', 'str', 'sptr', 'complex') and len(inner) == 1:
            v = self.rv(self.expr(inner[0]))
            return self.convert_to(v, k, t)
        if k[0] in ('int', 'real', 'bool') and not inner:
            return self.zero(t)
        if k[0] == 'fix':
            if len(inner) == 1 and inner[0].get('kind') == 'InitListExpr' and 'array<' in t and self.types.kind(k[1])[0] in ('int', 'real', 'bool'):
                return self.expr(inner[0])      # the aggregate inside std::array
            vals = [self.convert_to(self.rv(self.expr(c)), self.types.kind(k[1]), k[1]) for c in inner]
            while len(vals) < k[2]:
                vals.append(self.zero(k[1]))
            return S('fix%d' % k[2], {str(i): v for i, v in enumerate(vals)})
        if k[0] == 'rec':
            fs = self.types.fields(k[2])
            f = {}
            for i, (nm, ft, d, q) in enumerate(fs):
                kk = self.types.kind(ft)
                if i < len(inner) and inner[i].get('kind') != 'CXXDefaultInitExpr':
                    x = self.expr(inner[i])
                    if kk[0] == 'ref':
                        f[nm] = Ref(self.as_lv(x))
                    else:
                        f[nm] = self.convert_to(self.rv(x), kk, ft)
                else:
                    init = init_of(d)
                    f[nm] = self.convert_to(self.rv(self.expr(init)), kk, ft) if init else self.zero(ft)
            return S(k[1], f)
        if len(inner) == 1:
            return self.rv(self.expr(inner[0]))
        if k[0] == 'vec' or t.find('[') >= 0:
            vals = [self.rv(self.expr(c)) for c in inner]
            return self.lib.seq_of(self, vals, t)
        if not inner:
            return self.default_value(t, 'init')
        raise Unsupported('initialiser list of ' + t)

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member initialiser')

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported('default argument')

    def e_LambdaExpr(self, n):
        inner = n['inner']
        rec = inner[0]
        body = [c for c in inner if c.get('kind') == 'CompoundStmt'][-1]
        caps = [c for c in inner[1:] if c.get('kind') != 'CompoundStmt']
        op = None
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                op = [x for x in c['inner'] if x.get('kind') == 'CXXMethodDecl'][0]
        fr = self.frames[-1]
        vars = dict(fr.vars)
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        for fd, ce in zip(fields, caps):
            t = ptype(fd)
            x = strip_casts(ce)
            while x.get('kind') in ('CXXConstructExpr',) and x.get('inner'):
                x = strip_casts(x['inner'][0])
            if x.get('kind') == 'DeclRefExpr' and not t.rstrip().endswith('&'):
                root = 'cap%%%d' % self._tick()
                self.roots[root] = self.rv(self.expr(x))
                vars[x['referencedDecl']['id']] = LV(root)
        return Clo(params_of(op), body, vars, fr.this, op, fr.chain, op)

    def e_CXXThrowExpr(self, n):
        t = '?'
        if n.get('inner'):
            t = n['inner'][0]['type']['qualType']
        raise ThrowEx(t)

    def s_CXXTryStmt(self, n):
        depth = len(self.frames)
        try:
            self.stmt(n['inner'][0])
            return
        except ThrowEx as e:
            del self.frames[depth:]
            for h in n['inner'][1:]:
                v = [x for x in h.get('inner', ()) if x.get('kind') == 'VarDecl']
                if v:
                    want = norm(v[0]['type'].get('desugaredQualType', v[0]['type']['qualType']))[0]
                    have = norm(e.what)[0]
                    exact = want.split('::')[-1] == have.split('::')[-1]
                    if not exact and have.startswith('std::') and self.ix.record(want)[1] is not None:
                        continue    # a library exception is not an instance of a class of this code base
                    if not exact and not self.choose(self.fresh('caught', B)):
                        continue
                body = [x for x in h.get('inner', ()) if x.get('kind') == 'CompoundStmt'][-1]
                self.stmt(body)
                return
            raise

    def e_CXXNewExpr(self, n):
        raise Unsupported('new')

    def e_CXXTypeidExpr(self, n):
        raise Unsupported('typeid')

    def e_CXXInheritedCtorInitExpr(self, n):
        raise Unsupported('inherited constructor')


def has_generic(clo):
    d = clo.decl
    return any('auto' in p['type']['qualType'] or 'type-parameter' in ptype(p) for p in clo.params)


def loose(s):
    import re
    s = re.sub(r'\b(const|cpb::|detail::|std::)', '', s)
    return re.sub(r'[\s]', '', s)


def strip_angles(s):
    out, d = '', 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out


def line_of(n):
    r = n.get('range', {}).get('begin', {})
    return r.get('line') or r.get('expansionLoc', {}).get('line')
