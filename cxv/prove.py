"""Discharge of obligations: z3 first, then z3 with other settings, then cvc5; functions in parallel processes."""
import json, os, sys, time, subprocess, tempfile, traceback, signal, re
import z3
from .ctypes_ import Types, Unsupported
from .ast import TU, ExtractError, source_digest
from .ring import ring, boolring
from .engine import Engine, Contract, Undecided, has_quant, simp

NPROC = int(os.environ.get('CXV_NPROC', '8'))


class Unit:
    def __init__(self, src, contracts, filters=('Jali',), dyn=None, ghost=None, heap_ptrs=(), externals=None, text=None,
                 extra_flags=()):
        self.src, self.contracts, self.filters = src, contracts, filters
        self.dyn, self.ghost, self.heap_ptrs, self.externals = dyn, ghost, heap_ptrs, externals or {}
        self.text = text
        self.extra_flags = extra_flags

    def load(self):
        src = self.src
        if self.text is not None:
            d = tempfile.mkdtemp(prefix='cxv')
            src = os.path.join(d, os.path.basename(self.src))
            open(src, 'w').write(self.text)
        try:
            self.tu = TU(src, self.filters, self.extra_flags)
        finally:
            if self.text is not None:
                os.unlink(src)
                os.rmdir(d)
        self.types = Types(self.tu)
        return self

    def engine(self):
        e = Engine(self.tu, self.types, self.contracts, dyn=self.dyn, ghost=self.ghost, heap_ptrs=self.heap_ptrs)
        e.externals = dict(self.externals)
        return e


def syms(f, acc):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        st.extend(x.children())
    return acc


def relevant(hyps, goal, rounds=2):
    """hypotheses connected to the goal through shared symbols"""
    hs = [(h, syms(h, set())) for h in hyps]
    want = syms(goal, set())
    keep = set()
    for _ in range(rounds):
        new = set()
        for i, (h, s) in enumerate(hs):
            if i not in keep and (s & want):
                keep.add(i)
                new |= s
        if not new - want:
            break
        want |= new
    return [h for i, (h, s) in enumerate(hs) if i in keep]


def uninterp_funs(fs):
    out = set()
    for f in fs:
        st = [f]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def isolated(f, seconds):
    """f() in a forked process that is killed after the given time (z3 does not always honour its own limit)"""
    import select
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        die_with_parent()
        try:
            os.write(w, json.dumps(f(), default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + seconds
    try:
        while True:
            rd, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
            if not rd:
                os.kill(pid, 9)
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        return json.loads(buf.decode())
    except ValueError:
        return None


def try_z3(hyps, goal, ms, opts=None, tactic=None):
    """z3 in this process for quantifier-free queries, in a process of its own otherwise"""
    if not any(has_quant(h) for h in hyps) and not has_quant(goal):
        return try_z3_here(hyps, goal, ms, opts, tactic)

    def go():
        st, md = try_z3_here(hyps, goal, ms, opts, tactic)
        return [st, model_text(md)]
    r = isolated(go, ms / 1000.0 * 1.3 + 1.5)
    return (r[0], r[1]) if r else ('unknown', None)


def try_z3_here(hyps, goal, ms, opts=None, tactic=None):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set('timeout', int(ms))
    for k, v in (opts or {}).items():
        s.set(k, v)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    return 'unknown', None


def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return s.to_smt2()


def try_cvc5(hyps, goal, ms, extra=()):
    t = '(set-logic ALL)\n' + smt2(hyps, goal)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(t)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, *extra, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ms / 1000 + 5)
        o = p.stdout.decode().strip().split('\n')[0]
        return 'proved' if o == 'unsat' else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


def split_goal(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        a, b = g.children()
        return [z3.Implies(a, x) for x in split_goal(b)]
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), g.var_name(i).split('!')[0] + '_sk') for i in range(g.num_vars())]
        body = z3.substitute_vars(g.body(), *reversed(vs))
        return split_goal(body)
    return [g]


def split_impl(hyps, g):
    """strip implications into hypotheses"""
    hs = list(hyps)
    while z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES:
        a, g = g.children()
        hs.append(a)
    return hs, g


def discharge(o, ms, budget_end=None):
    t0 = time.time()
    parts = split_goal(o.goal)
    status, solver, model = 'proved', set(), None
    for g in parts:
        hs, g2 = split_impl(o.hyps, g)
        tags = STRATEGY.get(o.name, ())
        st, sv, md, tag = discharge1(hs, g2, ms, budget_end, tags, quick=(o.cand is not None and str(o.cand[-1]).startswith('auto')))
        if sv:
            solver.add(sv)
        if tag:
            o.tags = sorted(set(getattr(o, 'tags', ())) | {tag})
        if st != 'proved':
            status, model = st, md
            break
    o.status, o.solver, o.time, o.model = status, '+'.join(sorted(solver)), time.time() - t0, model
    if status == 'unknown' and budget_end is not None and time.time() > budget_end:
        o.reason = 'out of time'
    return o


STRATEGY = {}        # obligation name -> strategies that settled it before, tried first (performance only)


def strategies(hyps, goal, ms, left, rel):
    """the ways to prove an obligation, each a function giving (status, model)"""
    rel2 = []

    def r2():
        if not rel2:
            rel2.append(relevant(hyps, goal, 2))
        return rel2[0]
    nombqi = {'smt.mbqi': False}
    c = lambda st: (st, None)
    qf = lambda: [h for h in hyps if not has_quant(h)]
    return {
        'qf': ('z3', lambda: (try_z3_here(qf(), goal, left(min(ms, 400)))[0].replace('refuted', 'unknown'), None)),
        'rel': ('z3', lambda: try_z3(rel, goal, left(min(ms, 600))) if len(rel) < len(hyps) else ('unknown', None)),
        'all-nombqi': ('z3', lambda: try_z3(hyps, goal, left(min(ms, 1200)), nombqi)),
        'rel-nombqi': ('z3', lambda: try_z3(rel, goal, left(min(ms, 1200)), nombqi)),
        'cvc5-short': ('cvc5', lambda: c(try_cvc5(hyps, goal, left(min(ms, 2500))))),
        'all': ('z3', lambda: try_z3(hyps, goal, left(ms))),
        'all-nombqi-long': ('z3', lambda: try_z3(hyps, goal, left(ms), nombqi)),
        'rel2': ('z3', lambda: try_z3(r2(), goal, left(ms)) if len(r2()) < len(hyps) else ('unknown', None)),
        'nlsat': ('z3-nlsat', lambda: try_z3(hyps, goal, left(ms), tactic='qfnra-nlsat') if nra(hyps + [goal]) else ('unknown', None)),
        'cvc5': ('cvc5', lambda: c(try_cvc5(hyps, goal, left(ms)))),
        'cvc5-full': ('cvc5', lambda: c(try_cvc5(r2(), goal, left(ms), extra=('--no-cbqi', '--full-saturate-quant')))),
    }


def discharge1(hyps, goal, ms, budget_end, tags=(), quick=False):
    g = simp(goal) if not has_quant(goal) else goal
    if z3.is_true(g) or any(goal.eq(h) for h in hyps):
        return 'proved', 'simplify', None, None
    hq = any(has_quant(h) for h in hyps) or has_quant(goal)

    def left(x):
        if budget_end is None:
            return x
        return max(200, min(x, (budget_end - time.time()) * 1000))
    rel = relevant(hyps, goal, 1)
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
        try:
            if ring(hyps, goal, has_quant):
                return 'proved', 'ring(z3 simplifier)', None, None
        except z3.Z3Exception:
            pass
    elif not quick and has_real(goal) and len(hyps) < 400:
        try:
            if boolring(hyps, goal, has_quant):
                return 'proved', 'ring(z3 simplifier)', None, None
        except z3.Z3Exception:
            pass
    if quick:
        # candidate invariants are linear facts about integers
        ih = [h for h in hyps if not has_real(h)]
        st, _ = try_z3(ih, goal, left(1000)) if not has_real(goal) else ('unknown', None)
        if st == 'proved':
            return st, 'z3', None, None
        if len(ih) < len(hyps) and not any(has_quant(h) for h in ih):
            # the remaining hypotheses speak about real values: short attempt only
            st, _ = try_z3(hyps, goal, left(300))
            return ('proved', 'z3', None, None) if st == 'proved' else ('unknown', '', None, None)
        if len(rel) < len(hyps) and try_z3(rel, goal, left(min(ms, 600)))[0] == 'proved':
            return 'proved', 'z3', None, None
        st, md = try_z3(hyps, goal, left(min(ms, 1500)))
        return (st, 'z3', md, None) if st != 'unknown' else ('unknown', '', None, None)
    S = strategies(hyps, goal, ms, left, rel)
    order = (['qf'] if hq and not has_quant(goal) and not has_real(goal) else []) + ['rel'] + (['all-nombqi', 'rel-nombqi', 'cvc5-short'] if hq else []) + ['all'] + (['all-nombqi-long'] if hq else []) + ['rel2']
    if not hq and not uninterp_funs(list(hyps) + [goal]):
        order += ['nlsat']
    order += ['cvc5'] + (['cvc5-full'] if hq and not has_real(goal) else [])
    order = [t for t in tags if t in order] + [t for t in order if t not in tags]
    for t in order:
        sv, f = S[t]
        st, md = f()
        if st == 'proved':
            return st, sv, None, t
        if st == 'refuted' and t in ('all', 'nlsat'):
            return st, sv, md, t
    return 'unknown', '', None, None


def has_real(f):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_expr(x) and x.sort() == z3.RealSort():
            return True
        st.extend(x.children())
    return False


def nra(fs):
    ok = True
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.num_args() == 0 and x.sort() not in (z3.RealSort(), z3.BoolSort(), z3.IntSort()):
            return False
        st.extend(x.children())
    return ok


def model_text(m, limit=60):
    if m is None or isinstance(m, dict):
        return m
    out = {}
    for d in list(m.decls())[:400]:
        if d.arity() == 0:
            out[d.name()] = str(m[d])[:200]
    keys = sorted(out)[:limit]
    return {k: out[k] for k in keys}


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def fork_map(items, f, nproc, limit=None):
    """f(item)->json value, one forked process per item, at most nproc at a time; a process running longer than limit(item) seconds is killed"""
    res = [None] * len(items)
    running = {}
    nxt = 0
    import select
    while nxt < len(items) or running:
        while nxt < len(items) and len(running) < nproc:
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                die_with_parent()
                try:
                    out = f(items[nxt])
                except BaseException:
                    out = {'error': traceback.format_exc()}
                try:
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(json.dumps(out, default=str).encode())
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (nxt, pid, [], time.time() + (limit(items[nxt]) if limit else 1e9))
            nxt += 1
        rd, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for r, (i, pid, buf, end) in running.items():
            if now > end:
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
        for r in rd:
            b = os.read(r, 1 << 16)
            i, pid, buf, _ = running[r]
            if b:
                buf.append(b)
            else:
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    res[i] = json.loads(b''.join(buf).decode())
                except Exception:
                    res[i] = {'error': 'worker died'}
    return res


def discharge_all(obls, ms, budget_end, nproc):
    todo = [o for o in obls if o.status is None]
    if len(todo) <= 6 or nproc <= 1:
        for o in todo:
            discharge(o, ms, budget_end)
            o.model = model_text(o.model)
        return
    queue = list(range(len(todo)))
    batch = max(1, min(8, len(todo) // (2 * nproc)))
    running = {}
    hard = ms / 1000.0 * 6 + 30
    import select
    while queue or running:
        while queue and len(running) < nproc:
            mine, queue = queue[:batch], queue[batch:]
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                die_with_parent()
                try:
                    for q in mine:
                        o = todo[q]
                        discharge(o, ms, budget_end)
                        os.write(w, (json.dumps([q, o.status, o.solver, o.time, model_text(o.model), o.reason, getattr(o, 'tags', [])], default=str) + '\n').encode())
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = [pid, list(mine), b'', time.time()]
        rd, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for r in rd:
            st = running[r]
            b = os.read(r, 1 << 16)
            if b:
                st[2] += b
                while b'\n' in st[2]:
                    line, st[2] = st[2].split(b'\n', 1)
                    q, a, sv, t, m, rs_, tg = json.loads(line.decode())
                    o = todo[q]
                    o.status, o.solver, o.time, o.model, o.reason, o.tags = a, sv, t, m, rs_, tg
                    if q in st[1]:
                        st[1].remove(q)
                    st[3] = now
            else:
                os.close(r)
                os.waitpid(st[0], 0)
                del running[r]
                if st[1]:
                    # the worker was lost while deciding st[1][0]; the others go back to the queue
                    o = todo[st[1][0]]
                    o.status, o.solver, o.reason, o.time = 'unknown', '', 'out of time: worker stopped', now - st[3]
                    queue = st[1][1:] + queue
        for r, st in running.items():
            if now - st[3] > hard or (budget_end and now > budget_end + 25):
                try:
                    os.kill(st[0], 9)
                except OSError:
                    pass


def dedup(obls):
    seen = {}
    out = []
    for o in obls:
        k = (o.name, o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
        if k in seen:
            continue
        seen[k] = 1
        out.append(o)
    return out


def verify_function(unit, ct, cid, ms, tlimit, nproc, hints=()):
    t0 = time.time()
    end = t0 + tlimit
    res = dict(function=ct.label, obligations=0, proved=0, failed=[], undecided=None, solvers={}, time=0.0, source=unit.src,
               vacuity=None, digest=source_digest(unit.tu.body[cid])[:12], assumes=list(ct.assumes))
    dropped = set(tuple(h) for h in hints)
    d0 = set(dropped)
    eng = unit.engine()
    try:
        mods = {}
        for rnd in range(12):
            obls, st = eng.generate(ct, cid, dropped, mods=mods, deadline=end)
            obls = dedup(obls)
            cands = [o for o in obls if o.cand is not None and str(o.cand[-1]).startswith('auto')]
            if cands:
                discharge_all(cands, min(ms, 1500), end, nproc)
                bad = [o for o in cands if o.status != 'proved']
                if bad and time.time() < end:
                    for o in bad:
                        dropped.add(o.cand)
                    continue
            break
        t1 = time.time()
        rest = [o for o in obls if o.status is None]
        discharge_all(rest, ms, end, nproc)
        # what is still open gets the time that is left
        for factor, seed in ((2, 7), (3, 23)):
            again = [o for o in rest if o.status == 'unknown']
            left = end - time.time()
            if not again or left < 15 or len(again) > 12 or any(o.status == 'refuted' for o in rest):
                break
            for o in again:
                o.status = None
            z3.set_param('smt.random_seed', seed)
            discharge_all(again, ms * factor, end, nproc)
        z3.set_param('smt.random_seed', 0)
        res['dropped'] = sorted(dropped - d0)
        res['tags'] = {}
        for o in obls:
            tg = [t for t in getattr(o, 'tags', ()) if t != 'rel']
            if o.status == 'proved' and tg:
                res['tags'][o.name] = sorted(set(res['tags'].get(o.name, [])) | set(tg))
        res['obligations'] = len(obls)
        res['proved'] = sum(1 for o in obls if o.status == 'proved')
        res['paths'] = st['paths']
        for o in obls:
            if o.status == 'proved':
                res['solvers'][o.solver] = res['solvers'].get(o.solver, 0) + 1
            else:
                res['failed'].append(dict(name=o.name, kind=o.kind, status=o.status, model=o.model, reason=o.reason,
                                          definite=bool(o.status == 'refuted' and o.definite and not uninterp_funs(o.hyps + [o.goal]))))
        res['slowest'] = sorted(((round(o.time, 2), o.name, o.solver) for o in obls), reverse=True)[:6]
        res['t_gen'] = round(t1 - t0, 2)
        res['solver_time'] = round(sum(o.time for o in obls), 3)
        # vacuity: some path must be able to reach an exit
        vac = 'unreachable exit'
        if not st['exits']['return'] and (st['exits']['throw'] or st['exits']['abort']):
            vac = 'ok (throws only)'
        for hy in st['exit_hyps']:
            r = try_z3(list(hy), z3.BoolVal(False), 2000)[0]
            if r == 'refuted':
                vac = 'ok'
                break
            if r == 'unknown':
                vac = 'ok (not refuted)'
                unk = res['vacuity_unknown'] = res.get('vacuity_unknown', 0) + 1
                if unk >= 4:
                    break
        res['vacuity'] = vac
        res['t_vac'] = round(time.time() - t0, 2)
        if not vac.startswith('ok'):
            res['undecided'] = 'vacuous: no exit of the function is reachable under its precondition'
    except (Undecided, Unsupported, ExtractError) as e:
        res['undecided'] = '%s: %s' % (type(e).__name__, e)
    except z3.Z3Exception as e:
        res['undecided'] = 'Z3Exception: %s %s' % (e, traceback.format_exc()[-1800:])
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, RecursionError, ValueError) as e:
        res['undecided'] = 'internal: %s' % traceback.format_exc()[-900:]
    try:
        res['digest'], res['skeleton'] = eng.digest(cid)
    except Exception:
        pass
    res['inlined'] = sorted(eng.inlined)
    res['uses'] = sorted(eng.used_contracts)
    res['globals'] = sorted(eng.globals_used)
    res['time'] = round(time.time() - t0, 3)
    res['notes'] = sorted(eng.notes)
    return res


HINTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'cxv', 'hints.json')


def load_hints():
    try:
        return json.load(open(HINTS))
    except Exception:
        return {}


def verify(units, ms=8000, tlimit=120, only=None, nproc=NPROC, save_hints=False):
    """verify every contract of the units; returns list of function results"""
    hints = load_hints()
    jobs = []
    results = []

    def load(u):
        return u.load()
    for u in units:
        try:
            u.load()
        except ExtractError as e:
            results.append(dict(function=u.src, undecided='extraction: %s' % e, obligations=0, proved=0, failed=[], time=0, solvers={}))
            continue
        eng = u.engine()
        for ct in u.contracts:
            if only and not re.search(only, ct.label):
                continue
            if ct.trusted or not ct.verify:
                continue
            ids = [c for c in eng.resolve(ct) if c in u.tu.body]
            if not ids:
                results.append(dict(function=ct.label, undecided='function not found in %s' % u.src, obligations=0, proved=0, failed=[], time=0, solvers={}))
                continue
            for c in ids:
                jobs.append((u, ct, c))
    np_inner = max(1, nproc // max(1, min(nproc, len(jobs))))

    def work(j):
        u, ct, c = j
        t = ct.timeout or tlimit
        STRATEGY.clear()
        STRATEGY.update(hints.get('@' + ct.label, {}))
        return verify_function(u, ct, c, ms, t, max(np_inner, 3), hints.get(ct.label, ()))
    rs = fork_map(jobs, work, nproc, limit=lambda j: (j[1].timeout or tlimit) * 1.5 + 60)
    for (u, ct, c), r in zip(jobs, rs):
        if 'error' in r and 'function' not in r:
            r = dict(function=ct.label, undecided='worker: ' + r['error'][-500:], obligations=0, proved=0, failed=[], time=0, solvers={})
        results.append(r)
        if save_hints and r.get('tags'):
            hints['@' + ct.label] = r['tags']
        if save_hints and r.get('dropped'):
            cur = set(tuple(x) for x in hints.get(ct.label, ()))
            cur |= set(tuple(x) for x in r['dropped'])
            hints[ct.label] = sorted(cur)
    if save_hints:
        json.dump(hints, open(HINTS, 'w'), indent=0, sort_keys=True)
    return results
