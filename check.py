#!/usr/bin/env python3
"""Entry point of every check.

python3-vt check.py --property P05 [--tier quick|thorough]     run the check
python3-vt check.py --baseline [--property P05]                rewrite contracts/baseline.json
python3-vt check.py --property P05 --replay replay/P05-1.json  re-run a recorded failing case
"""
import sys, os, json, time, argparse, tempfile, shutil, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')

from config import PROPS
from dv import run, native, solve

BASELINE = os.path.join(VERIF, 'contracts', 'baseline.json')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

GLOBAL_ASSUMPTIONS = [
    'machine integers are treated as mathematical integers (overflow and narrowing are not checked by the proofs; the replay harness runs with UBSan)',
    'floating point is treated as exact real arithmetic in the proofs',
    'distinct reference parameters do not alias; destructors have no observable effect',
    'std:: and Eigen functions are replaced by the models in dv/lib.py (listed per run in coverage.library_models)',
    'termination is not proved',
    'clang 18 AST is taken as the meaning of the source; dv/ (the verification-condition generator) is trusted',
]


def read_findings(pid):
    out = {}
    try:
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                key = l.split('key=', 1)[1].split()[0]
                out[key] = l.split('key=' + key, 1)[1].strip()
    except FileNotFoundError:
        pass
    return out


def base_entry(pid, name):
    try:
        return json.load(open(BASELINE)).get(pid, {}).get(name)
    except FileNotFoundError:
        return None


class NativeRun:
    """Build and run the harness in a thread, keep the executable for directed search."""

    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.exe, self.error, self.res = None, None, None
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def go(self):
        try:
            t0 = time.time()
            self.exe = native.build(REPO, self.cfg['native'], self.cfg.get('sources', []), self.dir,
                                    extra=self.cfg.get('flags', ()))
            self.build_s = time.time() - t0
            scale = self.cfg.get('scale', 1.0) * (self.cfg.get('thorough_scale', 10) if self.tier == 'thorough' else 1)
            self.res = native.execute(self.exe, ['--seed', str(self.seed), '--scale', str(scale)],
                                      self.cfg.get('native_timeout', 400) * (6 if self.tier == 'thorough' else 1))
        except native.BuildError as e:
            self.error = str(e)
        except Exception as e:
            self.error = repr(e)

    def search(self, rounds=4, scale=3.0, budget=240):
        """Directed search after a failed obligation: other seeds, more cases."""
        if not self.exe:
            return None
        t0 = time.time()
        for i in range(rounds):
            left = budget - (time.time() - t0)
            if left < 10:
                break
            r = native.execute(self.exe, ['--seed', str(self.seed * 1000 + 17 + i), '--scale', str(scale * self.cfg.get('scale', 1.0))], left)
            if r['fails']:
                r['seed'] = self.seed * 1000 + 17 + i
                return r
        return None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def write_replay(pid, n, d):
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    p = os.path.join(VERIF, 'replay', '%s-%d.json' % (pid, n))
    json.dump(d, open(p, 'w'), indent=1)
    return os.path.relpath(p, VERIF)


def check(pid, tier, seed):
    t0 = time.time()
    cfg = PROPS[pid]
    nat = NativeRun(pid, cfg, tier, seed) if cfg.get('native') else None
    tmo = cfg.get('tmo', 10) * (4 if tier == 'thorough' else 1)
    # a check has 900 s: proofs stop in time for the search for a failing input
    solve.DEADLINE = t0 + (480 if tier == 'quick' else 7200)
    results, notes = run.deductive(REPO, [(os.path.join(VERIF, tu), m, s) for tu, m, s in cfg.get('specs', [])], tmo)
    undecided, suspects = [], []
    # ---- retry what failed
    for i, r in enumerate(results):
        b = base_entry(pid, r['name'])
        r['baseline'] = b
        if r['status'] == 'verified':
            continue
        if r['status'] == 'failed':
            for tu, m, s in cfg['specs']:
                again, _ = run.deductive(REPO, [(os.path.join(VERIF, tu), m, s)], tmo * 3, only=[r['name']])
                again = [x for x in again if x['name'] == r['name']]
                if again:
                    break
            if again and again[0]['status'] == 'verified':
                again[0]['baseline'] = b
                again[0]['retried'] = True
                results[i] = again[0]
                continue
            if again:
                again[0]['baseline'] = b
                r = results[i] = again[0]
        why = r.get('error') or 'obligation not discharged: ' + ', '.join(o['name'] for o in r['obligations'] if o['status'] != 'proved')
        if r['status'] == 'failed' and b and b['status'] == 'verified' and b['fingerprint'] != r.get('fingerprint'):
            suspects.append(r)
        elif not (b and b['status'] != 'verified'):
            undecided.append('%s: %s' % (r['name'], why))
    violations, known, fails = [], [], []
    kf = read_findings(pid)
    if nat:
        nat.t.join()
        if nat.error:
            undecided.append('harness: ' + nat.error)
        else:
            nr = nat.res
            nr['seed'] = seed
            fails = list(nr['fails'])
            if nr['timeout']:
                undecided.append('harness: time limit of %ss' % cfg.get('native_timeout', 400))
            for k, rest in nr['findings']:
                if k in kf:
                    known.append((k, kf[k]))
                else:
                    fails.append('%s %s' % (rest.split(' ', 1)[0], k + ': ' + rest))
            if not fails and suspects:
                more = nat.search(scale=cfg.get('search_scale', 3.0))
                if more:
                    fails = list(more['fails'])
                    nr = more
            if fails:
                p = write_replay(pid, 1, dict(property=pid, kind='failing input', seed=nr['seed'], case=fails[0].split(' ', 1)[0],
                                              failures=fails, stderr=nr['stderr'],
                                              failed_obligations=[dict(fn=s['name'], obligations=[o for o in s['obligations'] if o['status'] != 'proved'])
                                                                  for s in suspects],
                                              rerun='python3-vt check.py --property %s --replay <this file>' % pid))
                violations.append('VIOLATION property=%s replay=%s' % (pid, p))
                for f in fails[:4]:
                    print('  failing input: ' + f[:600])
    for s in suspects:
        bad = [o for o in s['obligations'] if o['status'] != 'proved']
        print('  failed obligation(s) in %s: %s' % (s['name'], ', '.join('%s (line %s, %s)' % (o['name'], o['line'], o['status']) for o in bad)))
    if suspects and not violations:
        strong = [s for s in suspects if s['baseline']['shape'] == s.get('shape')]
        if strong:
            p = write_replay(pid, 1, dict(property=pid, kind='failed obligation', contracts=[
                dict(fn=s['name'], obligations=[o for o in s['obligations'] if o['status'] != 'proved']) for s in strong],
                note='no failing input was found by the harness'))
            violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
        else:
            undecided += ['%s: restructured and not re-proved; decided by the bounded harness only' % s['name'] for s in suspects]
    # ---- evidence
    ev = evidence(pid, cfg, tier, seed, results, notes, nat, undecided, violations, known, t0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if nat:
        nat.close()
    for u in undecided:
        print('UNDECIDED (deductive part): ' + u[:300].replace('\n', ' '))
    for k, txt in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    obl = sum(len([o for o in r['obligations'] if not o['name'].startswith('cover:')]) for r in results)
    dis = sum(len([o for o in r['obligations'] if not o['name'].startswith('cover:') and o['status'] == 'proved']) for r in results)
    print('%s: %d functions under contract, %d/%d obligations discharged; harness %s; %.1fs' % (
        pid, len([r for r in results if r['obligations']]), dis, obl,
        '-' if not nat else ('error' if nat.error else '%d cases' % nat.res['cases']), time.time() - t0))
    for v in violations:
        print(v)
    if violations:
        return 1
    # nothing decided at all is an error of the check
    nothing = (not nat or nat.error or (nat.res['timeout'])) and not (results and all(r['status'] == 'verified' for r in results))
    if nothing:
        return 2
    return 0


def evidence(pid, cfg, tier, seed, results, notes, nat, undecided, violations, known, t0):
    def obls(r):
        return [o for o in r['obligations'] if not o['name'].startswith('cover:')]
    allo = [o for r in results for o in obls(r)]
    backs = {}
    for o in allo:
        if o['status'] == 'proved':
            backs[o['backend'] or '-'] = backs.get(o['backend'] or '-', 0) + 1
    models = sorted(set(m for r in results for m in r.get('models', ())))
    cov = dict(
        obligations=len(allo), discharged=len([o for o in allo if o['status'] == 'proved']),
        checker_cmd='python3-vt check.py --property %s --tier %s' % (pid, tier),
        trusted_base=['dv/ verification condition generator', 'clang 18 AST', 'z3 5.3.2', 'cvc5 1.1.2', 'dv/lib.py library models']
        + ['assumed contract: ' + t for n in notes for t in n.get('trusted', ())],
        back_ends=backs, solver_time_s=round(sum(o['time'] for o in allo), 2),
        functions=[dict(function=r['name'], status=r['status'], paths=r.get('paths'), obligations=len(obls(r)),
                        discharged=len([o for o in obls(r) if o['status'] == 'proved']),
                        precondition_reachable=[o['cover'] for o in r['obligations'] if o['name'] == 'cover:precondition'][:1],
                        inlined=r.get('inlined', []), uses_contracts_of=r.get('uses', []), error=r.get('error'),
                        fingerprint=r.get('fingerprint')) for r in results],
        library_models=models, extraction=notes, undecided=undecided, scope=cfg.get('note', ''),
    )
    if nat:
        if nat.error:
            cov['bounded_harness'] = dict(error=nat.error[:1000])
        else:
            n = nat.res
            cov['bounded_harness'] = dict(cases=n['cases'], checks=n['checks'], distinct=n['distinct'], covers=n['covers'],
                                          wall_s=n['wall'], build_s=round(nat.build_s, 1), bound=cfg.get('bound', 'sizes as generated in ' + cfg['native']))
            cov['evaluations'] = n['cases']
            cov['distinct_nontrivial'] = n['distinct']
            cov['rule'] = cfg.get('rule', 'one generated history or input per case, distinct by its full description; harness ' + cfg['native'])
            cov['samples'] = n['samples'] or ['-']
    return dict(property=pid, tier=tier, seed=seed, level=cfg['level'], coverage=cov, assumptions=GLOBAL_ASSUMPTIONS + cfg.get('assumptions', []),
                wall_s=round(time.time() - t0, 2), violations=len(violations))


def baseline(only):
    try:
        b = json.load(open(BASELINE))
    except FileNotFoundError:
        b = {}
    for pid, cfg in PROPS.items():
        if only and pid != only:
            continue
        results, notes = run.deductive(REPO, [(os.path.join(VERIF, tu), m, s) for tu, m, s in cfg.get('specs', [])], cfg.get('tmo', 10))
        b[pid] = {}
        for r in results:
            b[pid][r['name']] = dict(status=r['status'], fingerprint=r.get('fingerprint'), shape=r.get('shape'),
                                     obligations=len(r['obligations']))
            mark = '' if r['status'] == 'verified' else '   <-- ' + str(r.get('error') or [o['name'] for o in r['obligations'] if o['status'] != 'proved'])[:200]
            print('%s %-60s %s %d %.1fs%s' % (pid, r['name'], r['status'], len(r['obligations']), r['time'], mark))
    json.dump({k: b[k] for k in sorted(b)}, open(BASELINE, 'w'), indent=1, sort_keys=True)


def replay(pid, path):
    d = json.load(open(path))
    cfg = PROPS[pid]
    if d.get('kind') != 'failing input':
        print(json.dumps(d, indent=1))
        return 0
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        exe = native.build(REPO, cfg['native'], cfg.get('sources', []), tmp, extra=cfg.get('flags', ()))
        args = ['--seed', str(d['seed'])] + ([] if d['case'].startswith('?') else ['--only', d['case'].rstrip(':')])
        r = native.execute(exe, args, 300)
        print(json.dumps(r, indent=1))
        return 1 if r['fails'] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--baseline', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.baseline:
        baseline(a.property)
        sys.exit(0)
    if a.replay:
        sys.exit(replay(a.property, a.replay))
    sys.exit(check(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
