#!/usr/bin/env python3-vt
"""check.py <property>: extract, generate, discharge; replay on the real code; evidence."""
import importlib, json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)

import z3
from cxv import prove, driver
from cxv.ast import REPO


def known():
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+) (.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def lemma_results(lemmas, ms):
    """machine-checked lemmas over the contracts: (label, hyps, goal)"""
    res = []

    def work(l):
        lab, hyps, goal = l
        o = prove.discharge(Ob(hyps, goal), ms)
        return [o.status, o.solver, o.time]
    rs = prove.fork_map(lemmas, work, prove.NPROC)
    for l, r in zip(lemmas, rs):
        if isinstance(r, dict):
            r = ['unknown', '', 0.0]
        res.append((l[0], r[0], r[1], r[2]))
    return res


class Ob:
    def __init__(self, hyps, goal):
        self.hyps, self.goal, self.cand, self.name, self.reason, self.tags = list(hyps), goal, None, 'lemma', '', []
        self.status = self.solver = self.model = None


BASE = os.path.join(HERE, 'contracts', 'baseline.json')


def load_base():
    try:
        return json.load(open(BASE))
    except Exception:
        return {}


def alarms(results, base):
    """obligations proved on the unchanged tree that fail now because the function's extracted text changed.

    Same text: a failure can only be the solver running out of time (never an alarm) unless it has a counterexample.
    Changed loop structure: the contract's loop invariants cannot be matched to the loops, the proof is undecided."""
    out = []
    for r in results:
        b = base.get(r['function'])
        if not b or b['undecided'] or r.get('undecided'):
            continue
        same = r.get('digest') == b['digest']
        left = list(b['failed'])
        bad = []
        for f in r.get('failed', []):
            if f['name'] in left:
                left.remove(f['name'])
            elif f['status'] == 'refuted' or not same:
                if not str(f.get('reason') or '').startswith('out of time'):
                    bad.append(f)
        if not bad:
            continue
        if same and not any(f['status'] == 'refuted' for f in bad):
            continue
        if r.get('skeleton') != b['skeleton']:
            r['undecided'] = 'the loops of the function changed, its loop invariants do not apply; obligations not discharged: ' + ', '.join(f['name'] for f in bad[:4])
            continue
        out += [(r['function'], f) for f in bad]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('contracts.' + pid.lower())
    thorough = tier == 'thorough'
    ms = 30000 if thorough else 8000
    tl = 600 if thorough else getattr(mod, 'TLIMIT', 90)

    # the drivers are compiled and run while the proofs are going on
    drivers = list(getattr(mod, 'DRIVERS', []))
    dres = []
    dpid = None
    if drivers:
        rfd, wfd = os.pipe()
        dpid = os.fork()
        if dpid == 0:
            os.close(rfd)
            out = []
            for d in drivers:
                kw = dict(d)
                src, reps = kw.pop('src'), kw.pop('repo')
                kw.pop('what', None)
                try:
                    out.append(driver.run_driver(src, reps, timeout=3000 if thorough else 400, sanitize=thorough and kw.pop('sanitize', True), **{k: v for k, v in kw.items() if k != 'sanitize'}))
                except Exception:
                    out.append(dict(built=False, build_error=traceback.format_exc(), fails=[], cases=0, samples=[], out=''))
            with os.fdopen(wfd, 'wb') as f:
                f.write(json.dumps(out).encode())
            os._exit(0)
        os.close(wfd)

    results, lemmas = [], []
    gen_error = None
    try:
        units = mod.UNITS() if hasattr(mod, 'UNITS') else []
        results = prove.verify(units, ms=ms, tlimit=tl)
    except Exception:
        gen_error = traceback.format_exc()
    try:
        if hasattr(mod, 'LEMMAS'):
            lemmas = lemma_results(mod.LEMMAS(), ms)
    except Exception:
        gen_error = (gen_error or '') + traceback.format_exc()
    if dpid:
        buf = b''
        while True:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            buf += b
        os.waitpid(dpid, 0)
        dres = json.loads(buf.decode())

    # ------------------------------------------------------------ verdict
    kn = [(p, k, w) for p, k, w in known() if p == pid]
    kkeys = {k for _, k, _ in kn}
    fails = []
    hit = set()
    for d in dres:
        for key, text in d['fails']:
            if key in kkeys:
                hit.add(key)
            else:
                fails.append((key, text))
    failed_obl = []
    for r in results:
        for f in r.get('failed', []):
            failed_obl.append((r['function'], f))
    for lab, st, _, _ in lemmas:
        if st != 'proved':
            failed_obl.append(('lemma', dict(name=lab, status=st, kind='lemma', model=None, reason='')))
    base = load_base()
    if 'rebase' in sys.argv:
        base[pid] = {r['function']: dict(digest=r.get('digest'), skeleton=r.get('skeleton'), undecided=bool(r.get('undecided')),
                                         obligations=r['obligations'], failed=sorted(x['name'] for x in r.get('failed', []))) for r in results}
        json.dump(base, open(BASE, 'w'), indent=0, sort_keys=True)
    definite = alarms(results, base.get(pid, {}))
    undec = [(r['function'], r['undecided']) for r in results if r.get('undecided')]
    if gen_error:
        undec.append(('framework', gen_error[-1500:]))

    nobl = sum(r['obligations'] for r in results) + len(lemmas)
    nprv = sum(r['proved'] for r in results) + sum(1 for l in lemmas if l[1] == 'proved')
    solvers = {}
    for r in results:
        for s, k in r['solvers'].items():
            solvers[s] = solvers.get(s, 0) + k
    for l in lemmas:
        if l[1] == 'proved':
            solvers[l[2]] = solvers.get(l[2], 0) + 1

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, '%s.txt' % pid)
    viol = bool(fails) or bool(definite)
    with open(rpath, 'w') as f:
        f.write('property %s, tier %s, seed %d\n' % (pid, tier, seed))
        for fn, o in failed_obl:
            f.write('\nFAILED OBLIGATION %s :: %s [%s]\n' % (fn, o['name'], o['status']))
            if o.get('model'):
                f.write('  solver counterexample: %s\n' % json.dumps(o['model'])[:3000])
        for fn, u in undec:
            f.write('\nUNDECIDED %s: %s\n' % (fn, u))
        for key, text in fails:
            f.write('\nFAILING INPUT on the real code, key=%s: %s\n' % (key, text))
        for d, dr in zip(drivers, dres):
            f.write('\n--- driver %s (compiled with the real sources %s)\n%s\n%s\n' % (d['src'], ' '.join(d['repo']), dr.get('out', '')[-5000:], dr.get('build_error', '')))

    bounded = list(getattr(mod, 'BOUNDED', []))
    for d, dr in zip(drivers, dres):
        bounded.append('BOUNDED (not counted as proved): %s - %d cases on the compiled real code, %s' % (
            d.get('what', d['src']), dr.get('cases', 0), 'finished' if dr.get('finished') else 'did not finish: ' + str(dr.get('build_error') or dr.get('err') or '')[:400]))
    level = getattr(mod, 'LEVEL', 'proof')
    fns = [dict(function=r['function'], file=r.get('source'), ast_digest=r.get('digest'), obligations=r['obligations'], proved=r['proved'],
                back_ends=r['solvers'], solver_s=r.get('solver_time', 0), undecided=r.get('undecided'), inlined=r.get('inlined'),
                callee_contracts=r.get('uses'), vacuity=r.get('vacuity'), failed=[x['name'] for x in r.get('failed', [])]) for r in results]
    cov = dict(obligations=nobl, discharged=nprv, checker_cmd='python3-vt check.py %s' % pid,
               trusted_base=list(getattr(mod, 'TRUSTED', [])) + TRUSTED_COMMON,
               functions_under_contract=len(results), functions=fns, lemmas=[dict(lemma=l[0], status=l[1], back_end=l[2], seconds=round(l[3], 3)) for l in lemmas],
               back_ends=solvers, solver_seconds=round(sum(r.get('solver_time', 0) or 0 for r in results) + sum(l[3] for l in lemmas), 3),
               undecided=['%s: %s' % (a, b) for a, b in undec], failed_obligations=['%s :: %s' % (a, b['name']) for a, b in failed_obl],
               bounded=bounded,
               evaluations=sum(d.get('cases', 0) for d in dres), distinct_nontrivial=sum(d.get('distinct', 0) or 0 for d in dres),
               rule=getattr(mod, 'RULE', 'cases enumerated by the driver; each is a distinct input on which the property is not vacuous'),
               samples=[s for d in dres for s in d.get('samples', [])][:8],
               explanation=getattr(mod, 'EXPLANATION', ''))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + ASSUMPTIONS_COMMON, wall_s=round(time.time() - t0, 2), violations=len(fails) + len(definite))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)

    for p, k, w in kn:
        print('KNOWN-FINDING: property=%s %s' % (p, w))
    print('%s: %d functions under contract, %d/%d obligations discharged %s, %d bounded cases, %.1f s' % (
        pid, len(results), nprv, nobl, solvers, cov['evaluations'], ev['wall_s']))
    for fn, u in undec:
        print('  undecided: %s: %s' % (fn, u.strip().split('\n')[-1][:300]))
    for fn, o in failed_obl:
        print('  obligation not discharged: %s :: %s [%s]' % (fn, o['name'], o['status']))
    for d, dr in zip(drivers, dres):
        if not dr.get('finished'):
            print('  driver %s did not finish: %s' % (d['src'], (dr.get('build_error') or dr.get('err') or '')[:500]))
    for fn, o in definite:
        print('  FAILED OBLIGATION: %s :: %s [%s]' % (fn, o['name'], o['status']))
    if viol:
        for key, text in fails[:5]:
            print('  failing input: key=%s %s' % (key, text[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if fails else ' no-failing-input-found'))
        return 1
    if (drivers and not any(d.get('finished') for d in dres)) and (undec or not results):
        print('%s: no verdict' % pid)
        return 2
    return 0


TRUSTED_COMMON = ['clang 18 AST of the translation unit (extraction drops: comments, locations, debug assertions (NDEBUG), text written to std::cerr/cout)',
                  'cxv VC generator (cxv/engine.py) and its models of the C++ standard library (cxv/stl.py)',
                  'z3 5.3 / cvc5 1.1.2']
ASSUMPTIONS_COMMON = ['double treated as real, integers as mathematical (unsigned conversions wrap)', 'partial correctness: termination is not proved',
                      'reference parameters do not alias unless an aliased contract says so', 'no out-of-memory']

if __name__ == '__main__':
    sys.exit(main())
