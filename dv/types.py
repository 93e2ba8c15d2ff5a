"""C++ type strings -> shapes of symbolic values."""
import re, z3
from .values import *

INTS = {'int', 'long', 'short', 'char', 'signed char', 'unsigned char', 'unsigned int',
        'unsigned long', 'unsigned short', 'unsigned', 'long long', 'unsigned long long',
        'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t',
        'std::ptrdiff_t', 'ptrdiff_t', 'std::size_t', 'size_t', 'idx_t', 'storage_idx_t',
        'cpb::idx_t', 'cpb::storage_idx_t', 'Eigen::Index', 'Index', 'long int', 'StorageIndex',
        'difference_type', 'size_type', 'std::vector::size_type'}
UNSIGNED = {'unsigned char', 'unsigned int', 'unsigned long', 'unsigned short', 'unsigned',
            'size_t', 'std::size_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t',
            'unsigned long long', 'size_type'}
FLOATS = {'float', 'double', 'long double'}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def norm(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct|typename|enum)\s+', '', s)
    changed = True
    ptr = ''
    while changed:
        changed = False
        s = s.strip()
        for suf in ('const', 'volatile', 'noexcept'):
            if s.endswith(' ' + suf) or (s.endswith('*' + suf)):
                s = s[:-len(suf)].strip()
                changed = True
        for pre in ('const ', 'volatile '):
            if s.startswith(pre):
                s = s[len(pre):]
                changed = True
        if s.endswith('&&'):
            s = s[:-2]
            ptr = '&' + ptr
            changed = True
        elif s.endswith('&'):
            s = s[:-1]
            ptr = '&' + ptr
            changed = True
        elif s.endswith('*'):
            s = s[:-1]
            ptr = '*' + ptr
            changed = True
    return s, ptr


def head_args(s):
    i = s.find('<')
    if i < 0 or not s.endswith('>'):
        return s, []
    # position of the last top-level template argument list
    d = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] == '>':
            d += 1
        elif s[j] == '<':
            d -= 1
            if d == 0:
                return s[:j], split_args(s[j + 1:-1])
    return s, []


VEC_HEADS = {'std::vector', 'vector', 'ArrayX', 'cpb::ArrayX', 'VectorX', 'cpb::VectorX',
             'std::initializer_list', 'initializer_list', 'std::deque'}
VEC_NAMES = {'ArrayXi': 'int', 'ArrayXf': 'float', 'ArrayXd': 'double', 'VectorXi': 'int',
             'VectorXf': 'float', 'VectorXd': 'double', 'ArrayXcf': 'std::complex<double>', 'ArrayXcd': 'std::complex<double>',
             'VectorXcf': 'std::complex<double>', 'VectorXcd': 'std::complex<double>'}
MAT_NAMES = {'MatrixXcd': 'std::complex<double>', 'MatrixXcf': 'std::complex<double>', 'MatrixXd': 'double', 'MatrixXf': 'float', 'MatrixXi': 'int'}
FIX_NAMES = {'Cartesian': ('float', 3), 'Vector3f': ('float', 3), 'Index3D': ('int', 3),
             'Vector3i': ('int', 3), 'Array3i': ('int', 3), 'Vector3b': ('bool', 3),
             'Array3f': ('float', 3), 'Vector2f': ('float', 2)}
STRS = {'std::string', 'std::basic_string', 'basic_string', 'string_view', 'std::string_view', 'cpb::string_view',
        'std::basic_string<char>', 'basic_string<char>', 'string', 'std::experimental::basic_string_view',
        'fmt::basic_string_view'}
MAP_HEADS = {'std::unordered_map', 'unordered_map', 'std::map', 'map'}


def leafvar(name, sort, lift):
    s = sort
    for _ in range(lift):
        s = z3.ArraySort(I, s)
    return z3.Const(name, s)


class Types:
    def __init__(self, index, overrides=None):
        self.ix = index
        self.over = overrides or getattr(index, 'overrides', None) or {}

    def fields(self, rec):
        """(name, type string, decl) of a record and its bases, bases first."""
        out = []
        for b in rec.get('bases', ()):
            t = b['type'].get('desugaredQualType', b['type']['qualType'])
            _, br = self.ix.record(norm(t)[0])
            if br is not None:
                out += self.fields(br)
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                t = c['type']
                out.append((c.get('name', '?'), t.get('desugaredQualType', t['qualType']), c, t['qualType']))
        return out

    def std_name(self, t):
        t = norm(t)[0]
        return 'std::' + t if t.startswith('complex<') else t

    def resolve(self, t):
        """Strip qualifiers and aliases: (base type, ptr suffix)."""
        t, p = norm(t)
        h, a = head_args(t)
        if len(a) == 1:
            h = h.split('::')[-1]
            if h == 'SparseMatrixRC':
                t = 'std::shared_ptr<const Eigen::SparseMatrix<%s, 1>>' % self.std_name(a[0])
            elif h == 'SparseMatrixX':
                t = 'Eigen::SparseMatrix<%s, 1>' % self.std_name(a[0])
        for _ in range(20):
            if t in INTS or t in FLOATS or t == 'bool' or t in STRS or t in VEC_NAMES or t in FIX_NAMES:
                return t, p
            a = self.ix.aliases.get(t) if 'cpb::' + t not in self.ix.records else None
            if a is None and not t.startswith('std::') and '::' in t and '<' not in t:
                # try the last components
                a = self.ix.aliases.get('cpb::' + t)
            if a is None or a == t:
                return t, p
            t, p2 = norm(a)
            p = p2 + p
        return t, p

    def is_unsigned(self, t):
        return self.resolve(t)[0] in UNSIGNED

    def kind(self, t):
        """('int'|'real'|'bool'|'str'|'vec'|'fix'|'map'|'rec'|'mat'|'ptr'|'ref'|'pair'|'complex'|'opaque', ...)"""
        b, p = self.resolve(t)
        if p.startswith('*') or p.endswith('*'):
            return ('ptr', b)
        if p:
            return ('ref', b)
        if b in self.over:
            return ('over', b) if self.over[b] != 'opaque' else ('opaque', b)
        if b.startswith('mapbox::util::variant<') and b.endswith('>'):
            return ('variant', tuple(head_args(b)[1]))
        if b in INTS:
            return ('int', b)
        if b in FLOATS:
            return ('real', b)
        if b in ('bool', '_Bool'):
            return ('bool',)
        if b in STRS or b.startswith('std::basic_string<') or b.startswith('basic_string<') \
                or 'basic_string_view' in b:
            return ('str',)
        last = b.split('::')[-1] if '<' not in b else b
        if last in VEC_NAMES:
            return ('vec', VEC_NAMES[last])
        if last in MAT_NAMES:
            return ('mat', MAT_NAMES[last])
        if last in FIX_NAMES:
            return ('fix',) + FIX_NAMES[last]
        h, args = head_args(b)
        if h in ('Eigen::Ref', 'Ref', 'Eigen::Map', 'Map'):
            return self.kind(args[0])
        if h in VEC_HEADS:
            return ('vec', args[0])
        if h in MAP_HEADS:
            return ('map', args[0], args[1])
        if h in ('std::pair', 'pair'):
            return ('pair', args[0], args[1])
        if h in ('std::complex', 'complex') or b == 'complex':
            return ('complex',)
        m = re.match(r'^(?:Eigen::)?(Matrix|Array)$', h)
        if m:
            try:
                r, c = int(args[1]), int(args[2])
            except (IndexError, ValueError):
                return ('opaque', b)
            if c == 1 or r == 1:
                n = r if c == 1 else c
                if n < 0:
                    return ('vec', args[0])
                return ('fix', args[0], n)
            return ('mat', args[0])
        m = re.match(r'^(.*)\[(\d+)\]$', b)
        if m:
            return ('fix', m.group(1).strip(), int(m.group(2)))
        if h in ('std::unique_ptr', 'std::shared_ptr', 'unique_ptr', 'shared_ptr'):
            return ('sptr', args[0])
        if h in ('std::array', 'array'):
            return ('fix', args[0], int(args[1]))
        if '__normal_iterator' in h or b.endswith('::const_iterator') or b.endswith('::iterator'):
            return ('iter', b)
        q, rec = self.ix.record(b)
        if rec is None and '<' in b:
            q, rec = self.find_spec(h, args)
        if rec is not None:
            if rec.get('kind') == 'EnumDecl':
                return ('int', 'int')
            if q in self.over:
                return ('opaque', q) if self.over[q] == 'opaque' else ('over', q)
            return ('rec', q, rec)
        e = self.enum(b)
        if e:
            return ('int', 'int')
        return ('opaque', b)

    def enum(self, b):
        for d in self.ix.by_id.values():
            if d['kind'] == 'EnumDecl' and d.get('name') == b.split('::')[-1]:
                return d
        return None

    def find_spec(self, h, args):
        """ClassTemplateSpecialization record by head and normalised arguments."""
        want = [self._argkey(a) for a in args]
        hs = h.split('::')[-1]
        best = None
        for q, r in self.ix.records.items():
            if r['kind'] != 'ClassTemplateSpecializationDecl' or r.get('name') != hs:
                continue
            have = [self._argkey(x) for x in head_args(q)[1]]
            if have == want or have[:len(want)] == want:
                if best is None or len(q) < len(best[0]):
                    best = (q, r)
        return best if best else (None, None)

    def _argkey(self, a):
        a = a.strip()
        if a == 'true':
            return '1'
        if a == 'false':
            return '0'
        b, p = self.resolve(a)
        h, args = head_args(b)
        h = h.split('::')[-1]
        h = {'ptrdiff_t': 'long', 'idx_t': 'long', 'storage_idx_t': 'int', 'size_t': 'unsigned long'}.get(h, h)
        if args:
            h += '<' + ','.join(self._argkey(x) for x in args) + '>'
        return h + p

    # ---- symbolic values -------------------------------------------------------------------
    def mk(self, t, name, it, lift=0):
        """A fresh symbolic value of type t; `it` collects facts and creates pointees."""
        k = self.kind(t)
        if k[0] == 'over':
            return self.over[k[1]].mk(self, name, it, lift)
        if k[0] == 'variant':
            f = {'index': leafvar(name + '.index', I, lift)}
            it.fact_range(f['index'], len(k[1]), lift)
            for i, a in enumerate(k[1]):
                f[str(i)] = self.mk(a, '%s.%d' % (name, i), it, lift)
            return S('mapbox::util::variant<%s>' % ', '.join(k[1]), f)
        if k[0] == 'int':
            v = leafvar(name, I, lift)
            if k[1] in UNSIGNED:
                it.fact_nonneg(v, lift)
            return v
        if k[0] == 'real':
            return leafvar(name, R, lift)
        if k[0] == 'bool':
            return leafvar(name, B, lift)
        if k[0] == 'str':
            return leafvar(name, STR, lift)
        if k[0] == 'complex':
            return S('complex', {'re': leafvar(name + '.re', R, lift), 'im': leafvar(name + '.im', R, lift)})
        if k[0] == 'vec':
            n = leafvar(name + '.n', I, lift)
            it.fact_nonneg(n, lift)
            return A(n, self.mk(k[1], name + '[]', it, lift + 1))
        if k[0] == 'mat':
            rows, cols = leafvar(name + '.rows', I, lift), leafvar(name + '.cols', I, lift)
            it.fact_nonneg(rows, lift)
            it.fact_nonneg(cols, lift)
            return S('mat', {'rows': rows, 'cols': cols, 'd': self.mk(k[1], name + '[][]', it, lift + 2)})
        if k[0] == 'fix':
            return S('fix%d' % k[2], {str(i): self.mk(k[1], '%s[%d]' % (name, i), it, lift)
                                      for i in range(k[2])})
        if k[0] == 'pair':
            return S('pair', {'first': self.mk(k[1], name + '.first', it, lift),
                              'second': self.mk(k[2], name + '.second', it, lift)})
        if k[0] == 'map':
            n = leafvar(name + '.n', I, lift)
            it.fact_nonneg(n, lift)
            a = A(n, S('pair', {'first': self.mk(k[1], name + '[].first', it, lift + 1),
                                'second': self.mk(k[2], name + '[].second', it, lift + 1)}), 'map')
            if lift == 0:
                it.fact_distinct_keys(a)
            return a
        if k[0] in ('ptr', 'ref', 'sptr'):
            if lift:
                return leafvar(name, OPQ, lift)
            root = it.new_object(k[1], name + '^')
            null = z3.Bool(name + '.null') if k[0] in ('sptr',) else z3.BoolVal(False)
            return Ref(LV(root), null)
        if k[0] == 'rec':
            f = {}
            for (n, ft, d, q) in self.fields(k[2]):
                f[n] = self.mk_field(ft, q, name + '.' + n, it, lift)
            return S(k[1], f)
        return leafvar(name, OPQ, lift)

    def mk_field(self, ft, q, name, it, lift):
        return self.mk(ft, name, it, lift)
