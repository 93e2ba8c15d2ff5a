"""Extraction of the verified text from /repo's current sources.

The functions are not re-typed: clang parses the translation unit that is compiled (same flags,
same headers as /opt/vp/build.sh) and its typed AST is dumped as JSON on every run.  The verifier
works on that AST.  What the extraction drops: comments, access control, `noexcept`, attributes,
cleanups/destructors (no destructor in the functions under contract has an observable effect),
and the bodies of library (std::, Eigen::) functions, which are replaced by the models in lib.py.
"""
import json, os, subprocess, hashlib, re

FLAGS = ['-std=c++11', '-DNDEBUG', '-I/opt/vp/cmake/compat', '-include', 'compat.hpp',
         '-isystem', '/usr/include/eigen3', '-Wno-everything']


def repo_flags(repo):
    return FLAGS + ['-I%s/tu/stub' % os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '-I%s/cppcore/include' % repo, '-I%s/cppcore/src' % repo]


class ExtractError(Exception):
    pass


def dump(tu, repo):
    """Run clang on `tu`, return the list of top level JSON nodes of namespace cpb."""
    cmd = ['clang++'] + repo_flags(repo) + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                                            '-Xclang', '-ast-dump-filter=cpb', tu]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s:\n%s' % (tu, r.stderr.decode()[:4000]))
    txt = r.stdout.decode()
    dec = json.JSONDecoder()
    out, i = [], 0
    while True:
        j = txt.find('{', i)
        if j < 0:
            break
        o, i = dec.raw_decode(txt, j)
        out.append(o)
    return out


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl',
         'CXXDestructorDecl')
RECORDS = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl',
           'ClassTemplatePartialSpecializationDecl')


def has_body(n):
    return any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ()))


def body_of(n):
    for c in n.get('inner', ()):
        if c.get('kind') == 'CompoundStmt':
            return c
    return None


def targ_str(a):
    if 'type' in a:
        return a['type'].get('desugaredQualType', a['type']['qualType'])
    if 'value' in a:
        return str(a['value'])
    for c in a.get('inner', ()):
        if c.get('kind') == 'TemplateArgument':
            return targ_str(c)
    return a.get('name', '?')


class Index:
    """All declarations of the translation unit by id and by qualified name."""

    def __init__(self, roots):
        self.by_id = {}
        self.by_name = {}      # qualified name -> [function decl with body]
        self.records = {}      # qualified record name -> record decl (complete)
        self.aliases = {}      # alias name -> type string
        self.defn = {}         # decl id -> definition decl
        self.parent = {}       # decl id -> qualified owner name
        self.owner = {}        # method id -> record decl
        self.vars = {}
        self.lambda_types = {}
        seen = set()
        for r in roots:
            self._walk(r, [], None, seen)
        for d in list(self.by_id.values()):
            p = d.get('previousDecl')
            if p and d['kind'] in FUNCS and has_body(d):
                self.defn[p] = d
                q = self.by_id.get(p)
                while q is not None and q.get('previousDecl'):
                    self.defn[q['previousDecl']] = d
                    q = self.by_id.get(q['previousDecl'])
        # out-of-line definitions: qualify by the class they belong to
        for d in self.by_id.values():
            if d['kind'] in FUNCS and has_body(d):
                q = self.qual.get(d['id'], d.get('name', ''))
                p = d.get('previousDecl')
                if p and p in self.qual and 'parentDeclContextId' in d:
                    q = self.qual[p]
                    self.qual[d['id']] = q
                    if p in self.owner:
                        self.owner[d['id']] = self.owner[p]
                if d['id'] not in self.patterns:
                    self.by_name.setdefault(q, []).append(d)

    qual = None

    def _walk(self, n, scope, rec, seen):
        if self.qual is None:
            self.qual = {}
            self.patterns = set()
        k = n.get('kind')
        if not k:
            return
        nid = n.get('id')
        if nid and k.endswith('Decl') and k != 'UsingShadowDecl':
            if nid in self.by_id and not ('inner' in n and 'inner' not in self.by_id[nid]):
                pass
            else:
                self.by_id[nid] = n
            if nid in seen and k == 'NamespaceDecl':
                return
            seen.add(nid)
        sc, rc = scope, rec
        name = n.get('name')
        if k == 'NamespaceDecl':
            sc = scope + [name or '(anon)']
        elif k in RECORDS:
            nm = name or '(anon)'
            if k == 'ClassTemplateSpecializationDecl':
                args = [targ_str(c) for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                nm += '<' + ', '.join(args) + '>'
            # out-of-line nested class definition: class A::B {...}
            pd = n.get('parentDeclContextId')
            if pd and pd in self.qual and n.get('previousDecl') in self.qual:
                sc = self.qual[n['previousDecl']].split('\0') if False else [self.qual[n['previousDecl']]]
            elif pd and pd in self.qual:
                sc = [self.qual[pd], nm]
            else:
                sc = scope + [nm]
            q = '::'.join(sc)
            self.qual[nid] = q
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ())):
                self.records.setdefault(q, n)
            rc = n
        elif k in FUNCS:
            q = '::'.join(scope + [name or '?'])
            self.qual[nid] = q
            if rec is not None:
                self.owner[nid] = rec
        elif k in ('TypeAliasDecl', 'TypedefDecl'):
            t = n.get('type', {})
            self.aliases.setdefault('::'.join(scope + [name]), t.get('desugaredQualType', t.get('qualType')))
            self.aliases.setdefault(name, t.get('desugaredQualType', t.get('qualType')))
        elif k == 'VarDecl' and name:
            self.vars.setdefault('::'.join(scope + [name]), n)
        if k == 'FunctionTemplateDecl':
            first = [c for c in n.get('inner', ()) if c.get('kind') in FUNCS][:1]
            self.patterns.update(c['id'] for c in first)
            pd = n.get('parentDeclContextId')
            if pd and pd in self.qual and pd in self.by_id and self.by_id[pd].get('kind') in RECORDS:
                # out-of-line definition of a member template
                sc, rc = [self.qual[pd]], self.by_id[pd]
        for c in n.get('inner', ()):
            if isinstance(c, dict) and c:
                self._walk(c, sc, rc, seen)

    def find(self, qname):
        """Function definitions with this qualified name (exact, then by suffix)."""
        if qname in self.by_name:
            return self.by_name[qname]
        res = []
        for q, ds in self.by_name.items():
            if q.endswith('::' + qname):
                res += ds
        return res

    def definition(self, nid):
        d = self.by_id.get(nid)
        if d is None:
            return None
        if has_body(d):
            return d
        r = self.defn.get(nid)
        if r is None and d.get('previousDecl'):
            return self.definition(d['previousDecl'])
        return r

    def record(self, name):
        """Find a record by (possibly unqualified) type name."""
        name = name.strip().replace('(anonymous namespace)', '(anon)')
        if name in self.records:
            return name, self.records[name]
        if 'cpb::' + name in self.records:
            return 'cpb::' + name, self.records['cpb::' + name]
        c = [q for q in self.records if q.endswith('::' + name)]
        if len(c) == 1:
            return c[0], self.records[c[0]]
        if len(c) > 1:
            c.sort(key=len)
            return c[0], self.records[c[0]]
        return None, None


def strip_node(n):
    """Structure of a node without ids and locations (for fingerprints)."""
    if isinstance(n, dict):
        return {k: strip_node(v) for k, v in n.items()
                if k not in ('id', 'loc', 'range', 'previousDecl', 'parentDeclContextId', 'isUsed',
                             'isReferenced', 'referencedMemberDecl', 'typeAliasDeclId', 'temp',
                             'mangledName', 'definitionData', 'closureType', 'dtor')
                and not (k == 'inner' and False)}
    if isinstance(n, list):
        return [strip_node(x) for x in n]
    return n


def fingerprint(n):
    s = json.dumps(strip_node(n), sort_keys=True)
    s = re.sub(r'0x[0-9a-f]+', '', s)
    s = re.sub(r'\(lambda at [^)]*\)', '(lambda)', s)
    return hashlib.sha256(s.encode()).hexdigest()[:16]
