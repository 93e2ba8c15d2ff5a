"""Deductive part of a check: extract from /repo, verify contract by contract, in parallel."""
import sys, os, re, time, json, hashlib, importlib, traceback, multiprocessing as mp
from . import extract, types, engine, expr, lib, solve
from .values import *

SKIP_KEYS = {'id', 'loc', 'range', 'previousDecl', 'parentDeclContextId', 'isUsed', 'isReferenced',
             'mangledName', 'referencedMemberDecl', 'isImplicit', 'typeAliasDeclId', 'nominatedNamespace',
             'typeDeclId', 'decl', 'loopId', 'temp'}


LAMBDA_AT = re.compile(r'\((?:lambda|anonymous \w+|unnamed \w+) at [^)]*\)')


def norm(n):
    """AST without positions and ids."""
    if isinstance(n, dict):
        return {k: norm(v) for k, v in n.items() if k not in SKIP_KEYS}
    if isinstance(n, list):
        return [norm(x) for x in n]
    if isinstance(n, str) and ' at /' in n:
        return LAMBDA_AT.sub('(lambda)', n)
    return n


def fingerprint(decls):
    h = hashlib.sha256()
    for d in sorted((json.dumps(norm(d), sort_keys=True) for d in decls)):
        h.update(d.encode())
    return h.hexdigest()[:16]


STMTS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'IfStmt', 'ReturnStmt', 'SwitchStmt', 'LambdaExpr',
         'CompoundStmt', 'DeclStmt', 'ContinueStmt', 'BreakStmt')


def shape(d):
    """Loops, branches and local names, in order: the structure the annotations hang on."""
    out = []

    def walk(n):
        k = n.get('kind')
        if k in STMTS:
            out.append(k)
        if k == 'VarDecl':
            out.append('v:' + str(n.get('name')))
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    walk(d)
    return out


def shapes(decls):
    h = hashlib.sha256()
    for d in sorted(json.dumps(shape(d)) for d in decls):
        h.update(d.encode())
    return h.hexdigest()[:16]


def load(mods):
    cs = []
    for m in mods:
        cs += importlib.import_module('contracts.' + m).CONTRACTS
    return cs


def type_overrides(mods):
    """How the contract modules want particular types to be modelled."""
    o = {}
    for m in mods:
        for k, v in getattr(importlib.import_module('contracts.' + m), 'TYPES', {}).items():
            if v != 'opaque':
                v.name = k
            o[k] = v
    return o


def one(ix, by, c, tmo, jobs):
    t0 = time.time()
    r = dict(name=c.name, fn=c.fn, status='unsupported', obligations=[], backends={}, bound=getattr(c, 'unroll', 0))
    decls = [d for d in ix.find(c.fn) if (c.select is None or c.select(d)) and (c.verify is None or c.verify(d))]
    if not decls:
        r.update(status='missing', error='no definition found in the translation unit', time=0)
        return r
    d = decls[0]
    it = expr.Exec(ix, by, lib.Lib())
    it.lib.it = it
    try:
        ob = it.verify(c, d)
    except (Unsupported, SpecMismatch) as e:
        r.update(error='%s: %s' % (type(e).__name__, str(e)[:300]))
        ob = None
    except RecursionError:
        r.update(error='recursion limit')
        ob = None
    except Exception as e:
        r.update(error='verifier error %s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc()[-1500:])
        ob = None
    deps = list(getattr(it, 'deps', {d['id']: d}).values())
    r['fingerprint'] = fingerprint(deps)
    r['shape'] = shapes(deps)
    r['inlined'] = sorted(set(ix.qual.get(x['id'], x.get('name', '?')) for x in deps if x is not d))
    r['uses'] = sorted(getattr(it, 'used_contracts', ()))
    r['models'] = sorted(it.lib.used)
    if ob is not None:
        r['paths'] = it.npaths
        r['gen_time'] = time.time() - t0
        # paths share prefixes: number obligations of equal name
        res = solve.discharge(ob, tmo, jobs)
        ok = True
        for x in res:
            good = x['status'] == 'proved'
            ok &= good
            r['obligations'].append(dict(name=x['name'], line=x.get('line'), status=x['status'], backend=x.get('backend'),
                                         time=round(x.get('time', 0), 3), cover=x.get('cover'),
                                         goal=None if good else (x.get('goal') or '')[:800],
                                         model=None if good else str(x.get('model'))[:1500]))
        n = len([o for o in r['obligations'] if not o['name'].startswith('cover:')])
        r['status'] = 'verified' if ok and n else ('failed' if n else 'vacuous')
    r['time'] = time.time() - t0
    return r


def deductive(repo, specs, tmo=10, jobs=8, only=None):
    """specs: [(tu path, [contract modules], [contract-name prefixes] or None)]"""
    results, notes, needed = [], [], {'sums'}
    for tu, mods, sel in specs:
        t0 = time.time()
        try:
            ix = extract.Index(extract.dump(tu, repo))
        except extract.ExtractError as e:
            notes.append(dict(tu=tu, error=str(e)[:2000]))
            continue
        notes.append(dict(tu=tu, parse_s=round(time.time() - t0, 2)))
        cs = load(mods)
        ix.overrides = type_overrides(mods)
        by = {}
        for c in cs:
            by.setdefault(c.fn, []).append(c)
        todo = [c for c in cs if not c.trusted and (sel is None or any(c.name.endswith(s) or s in c.name for s in sel))
                and (only is None or any(o in c.name for o in only))]
        trusted = [c.name for c in cs if c.trusted]
        notes[-1]['trusted'] = trusted
        results += pool(ix, by, todo, tmo, jobs)
        needed.update(x for m in mods for x in getattr(importlib.import_module('contracts.' + m), 'LEMMAS', ()))
    if only is None and results:
        import lemmas
        for x in sorted(needed):
            t0 = time.time()
            ob = lemmas.prove(x)
            results.append(dict(name='lemma ' + x, fn='lemmas.py', status='verified' if all(o['status'] == 'proved' for o in ob) else 'failed', obligations=ob, backends={}, bound=0,
                                fingerprint='lemma', shape='lemma', paths=1, time=time.time() - t0))
    return results, notes


def pool(ix, by, todo, tmo, jobs):
    ctx = mp.get_context('fork')
    out = {}
    running = []
    queue = sorted(enumerate(todo), key=lambda x: -getattr(x[1], 'heavy', 0))
    width = max(1, min(jobs, len(queue)))
    inner = 2 if len(queue) > 4 else 4

    def child(i, c, conn):
        sys.setrecursionlimit(20000)
        try:
            r = one(ix, by, c, tmo, max(inner, getattr(c, 'heavy', 0)))
        except BaseException as e:
            r = dict(name=c.name, fn=c.fn, status='unsupported', obligations=[], error='verifier error: %r' % (e,), time=0)
        conn.send(r)
        conn.close()
    while queue or running:
        while queue and len(running) < width:
            i, c = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, c, b))
            p.start()
            b.close()
            running.append((i, c, p, a, time.time()))
        done = False
        for x in list(running):
            i, c, p, a, t0 = x
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(name=c.name, fn=c.fn, status='unsupported', obligations=[], error='verifier process died', time=0)
                p.join()
            elif time.time() - t0 > max(450, tmo * 12) or (solve.DEADLINE and time.time() > solve.DEADLINE + 60):
                p.terminate()
                p.join()
                r = dict(name=c.name, fn=c.fn, status='unsupported', obligations=[], error='time limit', time=time.time() - t0)
            if r is not None:
                out[i] = r
                running.remove(x)
                done = True
        if not done:
            time.sleep(0.02)
    return [out[i] for i in sorted(out)]
