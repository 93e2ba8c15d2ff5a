import sys, time, importlib, traceback
sys.path.insert(0, '/verif')
from dv import extract, types, engine, expr, lib, solve, run
from dv.values import *

def main(tu, mods, only=None, tmo=int(__import__("os").environ.get("TMO", "10"))):
    t0 = time.time()
    ix = extract.Index(extract.dump(tu, __import__('os').environ.get('VERIF_REPO', '/repo')))
    print('parse %.1fs' % (time.time() - t0))
    cs = []
    for m in mods.split(','):
        cs += importlib.import_module('contracts.' + m).CONTRACTS
    ix.overrides = run.type_overrides(mods.split(','))
    by = {}
    for c in cs:
        by.setdefault(c.fn, []).append(c)
    for c in cs:
        if only and not any(o in c.name for o in only.split(';')):
            continue
        decls = [d for d in ix.find(c.fn) if (c.select is None or c.select(d)) and (c.verify is None or c.verify(d))]
        if c.trusted:
            continue
        if not decls:
            print('NO DECL', c.name)
            continue
        d = decls[0]
        it = expr.Exec(ix, by, lib.Lib())
        it.lib.it = it
        t0 = time.time()
        try:
            ob = it.verify(c, d)
        except (Unsupported, SpecMismatch) as e:
            print('%-50s %s: %s' % (c.name, type(e).__name__, str(e)[:300]))
            if '-v' in sys.argv:
                traceback.print_exc()
            continue
        t1 = time.time()
        res = solve.discharge(ob, tmo)
        bad = [r for r in res if r['status'] != 'proved']
        print('%-50s paths %d obls %d bad %d  gen %.1fs solve %.1fs' % (c.name, it.npaths, len(ob), len(bad), t1 - t0, time.time() - t1))
        for r in bad:
            print('    ', r['status'], r['name'], r.get('line'), r.get('goal', '')[:600], r.get('cover', ''))
            if '-m' in sys.argv: print(r.get('model'))

if __name__ == '__main__':
    main(*[a for a in sys.argv[1:] if not a.startswith('-')])
