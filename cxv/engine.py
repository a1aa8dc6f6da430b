"""Verification condition generator: symbolic execution of the extracted C++ AST against contracts.

Every path of a function is executed symbolically from a state constrained only by the contract's
precondition.  Loops are cut by invariants (or unrolled completely when their bound is a constant);
calls to functions under contract are replaced by the callee's contract; other calls are inlined from
the same extracted AST.  Every proof obligation becomes one first-order query.
"""
import re, sys, time
import hashlib
import z3
from fractions import Fraction
from .ctypes_ import *
from .ast import source_digest, kids, params, ExtractError

sys.setrecursionlimit(20000)

I0, I1 = z3.IntVal(0), z3.IntVal(1)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


class AbortEx(Exception):
    """the program ends here"""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ThrowEx(Exception):
    def __init__(self, t, v):
        self.t, self.v = t, v


class Undecided(Exception):
    """the verifier cannot treat this code (no contract, no invariant, unsupported construct)"""


def patok(t):
    """patterns may hold no logical connective (merged branches produce some)"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or (z3.is_app(x) and (z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.decl().kind() == z3.Z3_OP_ITE)):
            return False
        st.extend(x.children())
    return True


def FA(vs, body, patterns=None):
    if patterns:
        patterns = [q for q in patterns if isinstance(q, z3.PatternRef) or patok(q)]
    return z3.ForAll(vs, body, patterns=patterns) if patterns else z3.ForAll(vs, body)


CNT = z3.Function('cnt', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort())
ALLOC = z3.Function('allocated', z3.IntSort(), z3.BoolSort())
SQRT = z3.Function('sqrt_', z3.RealSort(), z3.RealSort())
FMTD = z3.Function('fmt_int', z3.IntSort(), z3.StringSort())
FMTG = z3.Function('fmt_real', z3.RealSort(), z3.StringSort())


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def simp(t):
    return z3.simplify(t)


_HQ, _HARD = {}, {}


def has_quant(f):
    i = f.get_id()
    r = _HQ.get(i)
    if r is None or not r[0].eq(f):
        r = _HQ[i] = (f, _has_quant(f))
    return r[1]


def hard(f):
    i = f.get_id()
    r = _HARD.get(i)
    if r is None or not r[0].eq(f):
        r = _HARD[i] = (f, _hard(f))
    return r[1]


def _has_quant(f):
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def _hard(f):
    """contains a quantifier, or real terms that are multiplied or divided: kept out of the path-feasibility solver
    (leaving out hypotheses only makes more paths explored)"""
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and x.sort() == z3.RealSort() and sum(1 for c in x.children() if not z3.is_rational_value(c)) > 1:
                return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
        st.extend(x.children())
    return False


def sel(a, i):
    """Select with the obvious store/const shortcuts"""
    x = a
    n = 0
    while n < 200:
        n += 1
        if z3.is_store(x):
            b, j, v = x.children()
            if j.eq(i):
                return v
            if is_num(i) and is_num(j):
                x = b
                continue
            d = simp(i - j) if (i.sort() == j.sort()) else None
            if d is not None and is_num(d):
                if d.as_long() == 0:
                    return v
                x = b
                continue
            break
        if z3.is_K(x):
            return x.children()[0]
        if z3.is_quantifier(x) and x.is_lambda():
            return z3.substitute_vars(x.body(), i)
        break
    return z3.Select(x, i)


def add(a, b):
    if is_num(a) and a.as_fraction() == 0 if z3.is_rational_value(a) else (z3.is_int_value(a) and a.as_long() == 0):
        return b
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    return a + b


def acc(sort, i, term):
    """datatype accessor with constructor shortcut"""
    if z3.is_app(term) and term.decl().eq(sort.constructor(0)):
        return term.arg(i)
    return sort.accessor(0, i)(term)


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'loc', 'status', 'solver', 'time', 'model', 'cand', 'fn', 'reason', 'ctxinfo', 'definite', 'tags')

    def __init__(self, fn, name, hyps, goal, kind, loc, cand=None):
        self.fn, self.name, self.hyps, self.goal, self.kind, self.loc, self.cand = fn, name, hyps, goal, kind, loc, cand
        self.status = None
        self.solver = None
        self.time = 0.0
        self.model = None
        self.reason = ''
        self.ctxinfo = None
        self.definite = False
        self.tags = ()


class Contract:
    """pre/post/frame/loop annotations for one function of the real code.

    name   qualified name in the source;  sig  regular expression on its type (overloads); targs template args
    pre(c), post(c) -> list of (label, formula);   ret(c) -> functional result
    mods   list of strings: 'this.f', '*i' (pointee/referent of parameter i), 'heap:Rec.f', 'this'
    throws(c) exact condition for leaving by exception (None: must not throw)
    loops(L) -> list of candidate invariants (label, formula) or None to unroll
    aborts(c) exact condition for ending the program;  thrown(c) -> properties of the exception value c.exc
    trusted: never verified, only used at call sites (reported as an assumption)
    """

    def __init__(self, name, sig=None, nparams=None, targs=None, pre=None, post=None, ret=None, mods=(), throws=None,
                 loops=None, trusted=False, modular=True, dyn=None, unroll=12, bags=False, safety=True, inline_only=(), cut=False, asserts=None, join=False,
                 heap_this=False, mutates_any=False, label=None, verify=True, mayalias=False, feas_ms=150, timeout=None,
                 no_contract=(), setup=None, bounded=None, replay=None, assumes=(), aborts=None, thrown=None, uses_globals=(), allocates=(), shape=None, mangled=None):
        self.name, self.sig, self.nparams, self.targs = name, sig, nparams, targs
        self.pre, self.post, self.ret, self.mods, self.throws = pre, post, ret, list(mods), throws
        self.loops, self.trusted, self.modular, self.dyn = loops, trusted, modular, dyn or {}
        self.unroll, self.bags, self.safety = unroll, bags, safety
        self.asserts = asserts  # asserts(L) -> facts proved at the start (end: L.end) of every iteration, then used
        self.callpre = True
        self.join = join        # branches that contain loops are joined after them instead of being followed separately
        self.cut = cut          # loops with invariants are cut even when their bound is a constant
        self.heap_this = heap_this
        self.label = label or name
        self.verify = verify and not trusted
        self.feas_ms = feas_ms
        self.timeout = timeout
        self.no_contract = set(no_contract)
        self.setup = setup
        self.bounded = bounded
        self.replay = replay
        self.assumes = list(assumes)
        self.allocates = list(allocates)      # (type, function giving the pointer): values newly put on the heap
        self.shape = shape          # call sites only: a fresh result of the right form, which post constrains
        self.mangled = mangled      # regular expression on the mangled name (overloads that differ in template template arguments)
        self.aborts, self.thrown, self.uses_globals = aborts, thrown, list(uses_globals)


def norm(lst):
    out = []
    for k, x in enumerate(lst or []):
        if isinstance(x, tuple):
            out.append((x[0], lift(x[1])))
        else:
            out.append(('%d' % k, lift(x)))
    return out


def lift(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


class Ctx:
    """what contract functions see"""

    def __init__(self, path, fn, this, binds, store0, heap0, ret=None):
        self.p, self.fn, self.this, self.binds = path, fn, this, binds
        self.store0, self.heap0 = store0, heap0
        self.ret = ret
        self.exc = None

    # -- parameters
    def arg(self, i):
        """value of parameter i at entry (by value), or of the referent at entry"""
        b = self.binds[i]
        if isinstance(b, LV):
            return self.p.load(b, self.store0, self.heap0)
        return b

    def old(self, i):
        """pointee/referent of parameter i at entry"""
        return self.p.load(self._ref(i), self.store0, self.heap0)

    def cur(self, i):
        return self.p.load(self._ref(i))

    def isnull(self, i):
        b = self.binds[i]
        if isinstance(b, LV):
            b = self.p.load(b, self.store0, self.heap0)
        if isinstance(b, PtrV):
            return b.null
        if isinstance(b, IterV):
            return FALSE
        return b == 0

    def _ref(self, i):
        b = self.binds[i]
        if isinstance(b, LV):
            if b.type and b.type[0] == 'ptr':
                v = self.p.load(b, self.store0, self.heap0)
                return self.p.deref(v, b.type, None)
            return b
        if isinstance(b, (PtrV, IterV)):
            return self.p.deref(b, None, None)
        return self.p.deref(b, self.p.paramtype(self.fn, i), None)

    # -- object fields
    def f(self, name):
        return self.p.load(self.p.field(self.this, name))

    def oldf(self, name):
        return self.p.load(self.p.field(self.this, name), self.store0, self.heap0)

    # -- namespace scope variables
    def g(self, name):
        return self.p.load(self.p.global_named(name))

    def oldg(self, name):
        return self.p.load(self.p.global_named(name), self.store0, self.heap0)

    def box(self, ptr, t, old=False):
        """value of type t that pointer ptr points to"""
        lv = self.p.deref(ptr, ('ptr', t), None)
        return self.p.load(lv, self.store0, self.heap0) if old else self.p.load(lv)

    def q(self, sort=None, name='q'):
        return z3.FreshConst(sort or z3.IntSort(), name)


class LoopCtx:
    def __init__(self, path, info):
        self.p = path
        self.__dict__.update(info)

    def f(self, name):
        return self.p.load(self.p.field(self.p.this, name))

    def local(self, name):
        return self.p.load(self.p.local_lv(name))

    def outer(self, i):
        """position of the i-th enclosing range loop"""
        return self.p.outers[i]

    def entry_local(self, name):
        return self.p.load(self.p.local_lv(name), self.store_e, self.heap_e)

    def entryf(self, name):
        return self.p.load(self.p.field(self.p.this, name), self.store_e, self.heap_e)

    def has(self, name):
        try:
            self.p.local_lv(name)
            return True
        except Undecided:
            return False


class Path:
    def __init__(self, eng, contract, cid, prefix, persist):
        self.e = eng
        self.tu = eng.tu
        self.T = eng.types
        self.c = contract
        self.cid = cid
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.alts = []
        self.persist = persist
        self.hyps = []
        self.solver = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        self.solver.set('timeout', contract.feas_ms)
        self.store = {}
        self.heap = {}
        self.frames = []   # dicts decl id -> LV / ('ref', LV)
        self.names = []    # per frame: name -> decl id
        self.this = None
        self.fresh_n = 0
        self.birth = 0
        self.obls = []
        self.loopstack = []
        self.fnstack = []
        self.static_roots = {}
        self.nobl = 0
        self.cur_loc = None
        self.exit_reached = None
        self.notes = eng.notes
        self.approx = False     # true once the path went through a loop cut or a callee contract

    # ------------------------------------------------------------ logic
    def fresh(self, sort, hint='v'):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (hint, self.fresh_n), sort)

    def assume(self, f):
        f = lift(f)
        if z3.is_true(f):
            return
        self.hyps.append(f)
        if not hard(f):
            self.solver.add(f)

    def feasible(self, c):
        self.e.nfeas += 1
        if hard(c):
            return True
        r = self.solver.check(c)
        return r != z3.unsat

    def replaying(self):
        return self.pos < len(self.prefix)

    def branch(self, c, what=''):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.alts.append(self.trace + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd()
        self.pos += 1
        self.trace.append(d)
        self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, what=''):
        """nondeterministic choice among n alternatives"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(1, n):
                self.alts.append(self.trace + [k])
        self.pos += 1
        self.trace.append(d)
        return d

    def proves(self, c):
        """cheap entailment test over the quantifier free path condition (deterministic use only)"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = None
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = (self.solver.check(z3.Not(c)) == z3.unsat)
        self.pos += 1
        self.trace.append(d)
        return d

    def oblige(self, name, goal, kind, node=None, cand=None):
        goal = lift(goal)
        g = simp(goal) if not has_quant(goal) else goal
        loc = self.loc(node)
        if self.pos >= len(self.prefix) and not self.persist['discover']:
            self.nobl += 1
            o = Obl(self.c.label, name, list(self.hyps), goal, kind, loc, cand)
            o.definite = not self.approx and kind in ('post', 'frame', 'pre')
            if z3.is_true(g):
                o.status = 'proved'
                o.solver = 'simplify'
            self.obls.append(o)
        if kind in ('safety', 'pre', 'assert'):
            # established from here on (it is proved separately)
            self.assume(goal)

    def loc(self, node):
        return self.cur_loc

    def unsup(self, msg, node=None):
        raise Undecided('%s [%s]' % (msg, self.c.label))

    def alloc(self, oid):
        return ALLOC(oid)

    def external(self, name, argn, n):
        for a in argn:
            self.ev(a)
        h = self.e.externals.get(name)
        if h is not None:
            return h(self, argn, n)
        t = self.ty(n)
        if t[0] == 'void':
            return None
        return self.mk(t, name)

    # ------------------------------------------------------------ values
    def mk(self, t, hint):
        k = t[0]
        if k == 'int':
            v = self.fresh(z3.IntSort(), hint)
            if not t[1]:
                self.assume(v >= 0)
            return v
        if k == 'enum':
            return self.fresh(z3.IntSort(), hint)
        if k == 'bool':
            return self.fresh(z3.BoolSort(), hint)
        if k == 'real':
            return self.fresh(z3.RealSort(), hint)
        if k == 'str':
            return self.fresh(z3.StringSort(), hint)
        if k == 'ptr' or k == 'ref':
            return self.fresh(z3.IntSort(), hint)
        if k == 'vec':
            n = self.fresh(z3.IntSort(), hint + '.len')
            self.assume(n >= 0)
            a = self.fresh(z3.ArraySort(z3.IntSort(), self.T.sort(t[1])), hint + '.arr')
            self.cnt_base(t[1], a, n)
            return VecV(t[1], n, a)
        if k == 'arr':
            return ArrV(t[1], [self.mk(t[1], '%s.%d' % (hint, i)) for i in range(t[2])])
        if k == 'pair':
            return PairV(t, self.mk(t[1], hint + '.first'), self.mk(t[2], hint + '.second'))
        if k == 'rec':
            return self.mkrec(t[1], hint)
        if k in ('opaque', 'iter', 'map', 'void'):
            return Opaque('%s:%s' % (hint, t))
        self.unsup('cannot create a value of type %r' % (t,))

    def mkrec(self, rec, hint):
        ft = dict(self.recfields(rec))

        def gen(f):
            if f not in ft:
                raise Undecided('record %s has no field %s' % (rec, f))
            return self.mk(ft[f], '%s.%s' % (hint, f))
        return RecV(rec, {}, Lazy(gen))

    def recfields(self, rec):
        return self.e.recfields(rec)

    def cnt_base(self, et, a, n):
        if self.c.bags and et[0] in ('int', 'enum'):
            x = z3.Int('x!q')
            self.assume(FA([x], CNT(a, n, x) >= 0, patterns=[CNT(a, n, x)]))

    def pack(self, v, t):
        k = t[0]
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Undef):
            v = self.mk(v.t, 'undef')
        if k in ('int', 'enum', 'real', 'bool', 'str'):
            return v
        if k in ('ptr', 'ref'):
            if isinstance(v, PtrV):
                if z3.is_true(simp(v.null)):
                    return I0
                return self.addr_of(v)
            return v
        s = self.T.sort(t)
        if k == 'vec':
            return s.constructor(0)(v.len, v.arr)
        if k == 'arr':
            return s.constructor(0)(*[self.pack(x, t[1]) for x in v.items])
        if k == 'pair':
            return s.constructor(0)(self.pack(v.first, t[1]), self.pack(v.second, t[2]))
        if k == 'rec':
            return s.constructor(0)(*[self.pack(v.get(f), ft) for f, ft in self.T.allfields(t[1])])
        self.unsup('cannot store a value of type %r in a container' % (t,))

    def addr_of(self, v):
        lv = v.lv
        if isinstance(lv.root, HeapRoot) and not lv.path:
            return lv.root.oid
        key = (lv.root.key if isinstance(lv.root, Root) else str(lv.root.oid), str(lv.path))
        a = self.e.addrs.setdefault(key, 100001 + len(self.e.addrs))
        return z3.IntVal(a)

    def unpack(self, term, t):
        k = t[0]
        if k in ('int', 'enum', 'real', 'bool', 'str', 'ptr', 'ref'):
            return term
        s = self.T.sort(t)
        if k == 'vec':
            ln = acc(s, 0, term)
            return VecV(t[1], ln, acc(s, 1, term))
        if k == 'arr':
            return ArrV(t[1], [self.unpack(acc(s, i, term), t[1]) for i in range(t[2])])
        if k == 'pair':
            return PairV(t, self.unpack(acc(s, 0, term), t[1]), self.unpack(acc(s, 1, term), t[2]))
        if k == 'rec':
            fs = self.T.allfields(t[1])
            idx = {f: (i, ft) for i, (f, ft) in enumerate(fs)}

            def gen(f):
                i, ft = idx[f]
                return self.unpack(acc(s, i, term), ft)
            return RecV(t[1], {}, Lazy(gen))
        self.unsup('cannot unpack type %r' % (t,))

    # ------------------------------------------------------------ memory
    def newroot(self, name, t, v, nid=''):
        self.birth += 1
        r = Root(name, t, self.birth, '%s@%s#%d%s' % (name, '/'.join(self.fnstack[-3:]), self.birth_key(name), nid))
        self.store[r] = v
        return LV(r, (), t)

    def birth_key(self, name):
        return len(self.fnstack)

    def proj(self, v, p):
        if p[0] == 'f':
            if isinstance(v, PairV):
                return v.first if p[1] == 'first' else v.second
            if isinstance(v, Undef):
                if v.t[0] == 'rec':
                    ft = dict(self.recfields(v.t[1]))
                    return Undef(ft[p[1]])
            if isinstance(v, RecV):
                return v.get(p[1])
            self.unsup('field %s of %r' % (p[1], type(v).__name__))
        i = p[1]
        if isinstance(v, VecV):
            return self.unpack(sel(v.arr, i), v.et)
        if isinstance(v, ArrV):
            i = simp(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(v.items):
                    return v.items[k]
                return self.mk(v.et, 'oob')
            r = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1):
                r = self.ite(i == k, v.items[k], r)
            return r
        if isinstance(v, Undef) and v.t[0] == 'arr':
            return Undef(v.t[1])
        if z3.is_expr(v) and v.sort() == z3.StringSort():
            return v[i]
        self.unsup('index into %r' % type(v).__name__)

    def ite(self, c, a, b):
        if a is b:
            return a
        c = simp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a
        if isinstance(a, Undef):
            a = self.mk(a.t, 'undef')
        if isinstance(b, Undef):
            b = self.mk(b.t, 'undef')
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b):
                return a
            if getattr(self, 'joining', False):
                x = self.fresh(a.sort(), 'join')
                self.assume(z3.Implies(c, x == a))
                self.assume(z3.Implies(z3.Not(c), x == b))
                return x
            return z3.If(c, a, b)
        if isinstance(a, VecV):
            return VecV(a.et, self.ite(c, a.len, b.len), self.ite(c, a.arr, b.arr))
        if isinstance(a, ArrV):
            return ArrV(a.et, [self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PairV):
            return PairV(a.t, self.ite(c, a.first, b.first), self.ite(c, a.second, b.second))
        if isinstance(a, RecV):
            if a.base is b.base:
                fs = {}
                for f in set(a.fields) | set(b.fields):
                    fs[f] = self.ite(c, a.get(f), b.get(f))
                return RecV(a.rec, fs, a.base)
            fs = {}
            for f, ft in self.recfields(a.rec):
                fs[f] = self.ite(c, a.get(f), b.get(f))
            return RecV(a.rec, fs)
        self.unsup('merge of %s' % type(a).__name__)

    def upd(self, v, path, nv, t):
        """functional update of v at path"""
        if not path:
            return nv
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Undef) and v.t[0] == 'rec':
                v = RecV(v.t[1], {f: Undef(ft) for f, ft in self.recfields(v.t[1])})
            if isinstance(v, PairV):
                if p[1] == 'first':
                    return PairV(v.t, self.upd(v.first, path[1:], nv, t), v.second)
                return PairV(v.t, v.first, self.upd(v.second, path[1:], nv, t))
            if len(path) == 1:
                return v.set(p[1], nv)
            return v.set(p[1], self.upd(v.get(p[1]), path[1:], nv, t))
        i = p[1]
        if isinstance(v, VecV):
            inner = self.upd(self.unpack(sel(v.arr, i), v.et), path[1:], nv, t) if len(path) > 1 else nv
            if isinstance(inner, Undef):
                inner = self.mk(inner.t, 'undef')
            pk = self.pack(inner, v.et)
            na = z3.Store(v.arr, i, pk)
            if self.c.bags and v.et[0] == 'int':
                x, m = z3.Int('x!q'), z3.Int('m!q')
                self.assume(FA([x, m], CNT(na, m, x) == CNT(v.arr, m, x) + z3.If(z3.And(0 <= i, i < m),
                            z3.If(pk == x, I1, I0) - z3.If(sel(v.arr, i) == x, I1, I0), I0), patterns=[CNT(na, m, x)]))
            return VecV(v.et, v.len, na)
        if isinstance(v, Undef) and v.t[0] == 'arr':
            v = ArrV(v.t[1], [Undef(v.t[1])] * v.t[2])
        if isinstance(v, ArrV):
            i = simp(i)
            items = list(v.items)
            if z3.is_int_value(i):
                k = i.as_long()
                if 0 <= k < len(items):
                    items[k] = self.upd(items[k], path[1:], nv, t)
                return ArrV(v.et, items)
            for k in range(len(items)):
                items[k] = self.ite(i == k, self.upd(items[k], path[1:], nv, t), items[k])
            return ArrV(v.et, items)
        self.unsup('update of %s' % type(v).__name__)

    def heapget(self, rec, f, heap=None):
        h = self.heap if heap is None else heap
        key = (rec, f)
        if key not in h:
            ft = dict(self.recfields(rec)).get(f)
            if ft is None:
                ft = self.c_ghost(rec, f)
            a = z3.Const('heap.%s.%s' % (rec, f), z3.ArraySort(z3.IntSort(), self.T.sort(ft)))
            self.e.heap0.setdefault(key, (a, ft))
            if key not in self.heap:
                self.heap[key] = a
            if heap is not None and key not in heap:
                heap[key] = a
            return a, ft
        return h[key], self.e.heap0[key][1]

    def c_ghost(self, rec, f):
        g = self.e.ghost.get((rec, f))
        if g is None:
            self.unsup('no field %s in %s' % (f, rec))
        return g

    def heaprec(self, rec, f):
        """declaring record of field f for an object of static type rec"""
        return self.e.declrec(rec, f)

    def load(self, lv, store=None, heap=None):
        if not isinstance(lv, LV):
            return lv
        root = lv.root
        if isinstance(root, HeapRoot):
            if not lv.path:
                # whole object: lazily
                rec = root.rec
                oid = root.oid
                hs = self.heap if heap is None else heap
                snap = dict(hs)

                def gen(f):
                    a, ft = self.heapget(self.heaprec(rec, f), f, snap)
                    return self.unpack(sel(a, oid), ft)
                return RecV(rec, {}, Lazy(gen))
            f = lv.path[0][1]
            a, ft = self.heapget(self.heaprec(root.rec, f), f, heap)
            v = self.unpack(sel(a, root.oid), ft)
            rest = lv.path[1:]
        else:
            st = self.store if store is None else store
            if root not in st:
                st = self.store
            v = st[root]
            rest = lv.path
        for p in rest:
            v = self.proj(v, p)
        return v

    def touch(self, key, birth):
        for L in self.loopstack:
            if birth <= L['birth'] and key not in L['mods']:
                L['mods'].add(key)
                self.persist['dirty'] = True        # run again once this path is through

    def writekey(self, lv):
        if isinstance(lv.root, HeapRoot):
            f = lv.path[0][1]
            return ('heap', self.heaprec(lv.root.rec, f), f), 0
        f = lv.path[0][1] if lv.path and lv.path[0][0] == 'f' else None
        return ('root', lv.root.key, f), lv.root.birth

    def save(self, lv, v):
        if isinstance(v, LV):
            v = self.load(v)
        root = lv.root
        if getattr(self, 'cstr', None):
            self.cstr.pop(root, None)
        if isinstance(root, HeapRoot):
            if not lv.path:
                for f, ft in self.recfields(root.rec):
                    if isinstance(v, RecV):
                        self.save(lv.ext(('f', f), ft), v.get(f))
                return
            key, b = self.writekey(lv)
            self.touch(key, b)
            f = lv.path[0][1]
            rec = self.heaprec(root.rec, f)
            a, ft = self.heapget(rec, f)
            if len(lv.path) == 1:
                nv = v
            else:
                nv = self.upd(self.unpack(sel(a, root.oid), ft), lv.path[1:], v, None)
            if isinstance(nv, Undef):
                nv = self.mk(nv.t, 'undef')
            self.heap[(rec, f)] = z3.Store(a, root.oid, self.pack(nv, ft))
            return
        key, b = self.writekey(lv)
        self.touch(key, b)
        self.store[root] = self.upd(self.store[root], lv.path, v, None)

    def field(self, lv, f):
        """LV of field f of object at lv"""
        rec = None
        if lv.type and lv.type[0] == 'rec':
            rec = lv.type[1]
        elif isinstance(lv.root, HeapRoot) and not lv.path:
            rec = lv.root.rec
        ft = dict(self.recfields(rec)).get(f) if rec else None
        if ft is None:
            ft = self.e.ghost.get((rec, f))
        r = lv.ext(('f', f), ft)
        if ft and ft[0] == 'ref':
            pv = self.load(r)
            return self.deref(pv, ('ptr', ft[1]), None)
        return r

    def deref(self, v, t, node):
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Undef):
            v = self.mk(v.t, 'undef')
        if isinstance(v, PtrV):
            return v.lv
        if isinstance(v, IterV):
            return self.elem(v.lv, v.pos, node, check=self.c.safety)
        if z3.is_expr(v) and v.sort() == z3.IntSort():
            tt = t
            while tt and tt[0] in ('ptr', 'ref'):
                tt = tt[1]
            if tt and tt[0] in ('vec', 'str', 'real', 'int', 'bool', 'enum', 'pair', 'arr'):
                return LV(HeapRoot(self.e.box(tt), v), (('f', 'data'),), tt)
            if not tt or tt[0] not in ('rec',):
                # `*p` of an opaque pointer
                self.unsup('dereference of pointer to %r' % (tt,))
            return LV(HeapRoot(tt[1], v), (), tt)
        self.unsup('dereference of %s' % type(v).__name__)

    def elem(self, lv, i, node=None, check=True):
        """LV of element i of the container at lv"""
        t = lv.type
        v = self.load(lv)
        if isinstance(v, Undef):
            et = v.t[1]
            n = z3.IntVal(v.t[2]) if v.t[0] == 'arr' else None
        elif isinstance(v, VecV):
            et = v.et
            n = v.len
        elif isinstance(v, ArrV):
            et = v.et
            n = z3.IntVal(len(v.items))
        elif z3.is_expr(v) and v.sort() == z3.StringSort():
            et = ('int', True, 8)
            n = z3.Length(v)
        else:
            self.unsup('subscript of %s' % type(v).__name__)
        if check and n is not None:
            g = simp(z3.And(0 <= i, i < n))
            if not z3.is_true(g):
                self.oblige('index in range', z3.And(0 <= i, i < n), 'safety', node)
        if isinstance(v, VecV) and self.c.bags and et[0] == 'int':
            # an element that is read is counted
            self.assume(z3.Implies(z3.And(0 <= i, i < v.len), CNT(v.arr, v.len, sel(v.arr, i)) >= 1))
        return lv.ext(('i', i), et)

    def local_lv(self, name):
        for fr, nm in zip(reversed(self.frames), reversed(self.names)):
            if name in nm:
                return fr[nm[name]]
        self.unsup('annotation refers to unknown local %s' % name)

    # ------------------------------------------------------------ conversions
    def rv(self, v):
        if isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, Undef):
            v = self.mk(v.t, 'undef')
        return v

    def toint(self, v):
        v = self.rv(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, I1, I0)
        return v

    def tobool(self, v):
        v = self.rv(v)
        if isinstance(v, PtrV):
            return z3.Not(v.null)
        if isinstance(v, (IterV, LamV)):
            return TRUE
        if z3.is_bool(v):
            return v
        if z3.is_int(v) or z3.is_real(v):
            return v != 0
        self.unsup('conversion to bool of %s' % type(v).__name__)

    def cast_int(self, v, frm, to):
        """integral conversion"""
        v = self.toint(v)
        if to[0] == 'bool':
            return v != 0
        if to[0] != 'int' or frm[0] not in ('int', 'enum', 'bool'):
            return v
        if to[1] is False:
            # to unsigned
            if frm[0] == 'int' and frm[1] is False and frm[2] <= to[2]:
                return v
            if frm[0] == 'int' and frm[1] is False:
                return v            # narrowing of an unsigned: treated as mathematical
            if z3.is_int_value(v):
                return z3.IntVal(v.as_long() % (1 << to[2]))
            if self.proves(v >= 0):
                return v
            return z3.If(v >= 0, v, v + z3.IntVal(1 << to[2]))
        else:
            if z3.is_int_value(v):
                m = v.as_long() % (1 << to[2])
                if m >= 1 << (to[2] - 1):
                    m -= 1 << to[2]
                return z3.IntVal(m)
            if frm[0] == 'int' and frm[1] is False and frm[2] >= to[2]:
                # unsigned to signed of the same width: values above the maximum wrap
                lim = 1 << (to[2] - 1)
                if self.proves(v < lim):
                    return v
                if self.c.safety == 'math':
                    return v
                return v   # assumed to fit (machine arithmetic treated as mathematical)
            return v

    def unsigned_wrap(self, v, t):
        if t[0] == 'int' and t[1] is False:
            if z3.is_int_value(v):
                return z3.IntVal(v.as_long() % (1 << t[2]))
            if self.proves(v >= 0):
                return v
            return z3.If(v >= 0, v, v + z3.IntVal(1 << t[2]))
        return v

    def divint(self, a, b, node):
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
            q = abs(a.as_long()) // abs(b.as_long())
            if (a.as_long() < 0) != (b.as_long() < 0):
                q = -q
            return z3.IntVal(q)
        if self.c.safety and not z3.is_int_value(b):
            self.oblige('division by zero', b != 0, 'safety', node)
        if z3.is_int_value(b) and b.as_long() > 0:
            if self.proves(a >= 0):
                return a / b
            return z3.If(a >= 0, a / b, -((-a) / b))
        if self.proves(z3.And(a >= 0, b > 0)):
            return a / b
        return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))

    def modint(self, a, b, node):
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
            import math
            return z3.IntVal(int(math.fmod(a.as_long(), b.as_long())))
        if self.c.safety and not z3.is_int_value(b):
            self.oblige('modulo by zero', b != 0, 'safety', node)
        if self.proves(z3.And(a >= 0, b > 0)):
            return a % b
        ab = b if (z3.is_int_value(b) and b.as_long() > 0) else z3.If(b > 0, b, -b)
        return z3.If(a >= 0, a % ab, -((-a) % ab))

    # ------------------------------------------------------------ expressions
    def ty(self, n):
        return self.T.of(n['type'])

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            self.unsup('expression %s' % k, n)
        return m(n)

    def evr(self, n):
        return self.rv(self.ev(n))

    def evlv(self, n):
        v = self.ev(n)
        if isinstance(v, LV):
            return v
        return self.newroot('tmp', self.ty(n), v)

    def x_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def x_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def x_FloatingLiteral(self, n):
        return z3.RealVal(str(Fraction(repr(float(n['value'])))))

    def x_StringLiteral(self, n):
        import json as _j
        try:
            return z3.StringVal(_j.loads(n['value']))
        except Exception:
            return z3.StringVal(n['value'].strip('"'))

    def x_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def x_CXXNullPtrLiteralExpr(self, n):
        return I0

    def x_GNUNullExpr(self, n):
        return I0

    def x_ParenExpr(self, n):
        return self.ev(kids(n)[0])

    def x_ExprWithCleanups(self, n):
        return self.ev(kids(n)[0])

    def x_CXXBindTemporaryExpr(self, n):
        return self.ev(kids(n)[0])

    def x_ConstantExpr(self, n):
        return self.ev(kids(n)[0])

    def x_SubstNonTypeTemplateParmExpr(self, n):
        ks = [x for x in kids(n) if x.get('kind', '').endswith('Expr') or x.get('kind', '').endswith('Literal')]
        return self.ev(ks[-1])

    def x_CXXThisExpr(self, n):
        return PtrV(self.this, FALSE)

    def x_MaterializeTemporaryExpr(self, n):
        v = self.ev(kids(n)[0])
        if isinstance(v, LV):
            return v
        return self.newroot('tmp', self.ty(n), v)

    def x_CXXDefaultArgExpr(self, n):
        ks = kids(n)
        if ks:
            return self.ev(ks[0])
        self.unsup('default argument without expression', n)

    def x_CXXDefaultInitExpr(self, n):
        ks = kids(n)
        if ks:
            return self.ev(ks[0])
        self.unsup('default initialiser', n)

    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            if rd['id'] in self.tu.enumconst:
                return z3.IntVal(self.tu.enumconst[rd['id']][1])
            t = rd.get('type', {}).get('qualType', '')
            for en in (t, strip_ns(t)):
                if en in self.tu.enums and rd['name'] in self.tu.enums[en]:
                    return z3.IntVal(self.tu.enums[en][rd['name']])
            self.unsup('enumerator %s' % rd.get('name'))
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            i = rd['id']
            for fr in reversed(self.frames):
                if i in fr:
                    return fr[i]
                # lambdas capture by reference: look further out
            return self.global_var(rd)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', rd)
        if k == 'NonTypeTemplateParmDecl':
            self.unsup('template parameter value', n)
        self.unsup('reference to %s' % k, n)

    def global_named(self, name):
        for i, q in self.tu.qual.items():
            d = self.tu.decl.get(i)
            if d is not None and d.get('kind') == 'VarDecl' and (q == name or d.get('name') == name):
                return self.global_var(d)
        # declared outside the extracted part: found by its uses
        st = list(self.tu.body.values())
        while st:
            n = st.pop()
            if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('kind') == 'VarDecl' and n['referencedDecl'].get('name') == name and n['referencedDecl']['id'] not in self.tu.decl:
                return self.global_var(n['referencedDecl'])
            st.extend(kids(n))
        raise Undecided('no variable %s at namespace scope' % name)

    def global_var(self, rd):
        i = rd['id']
        if i in self.static_roots:
            return self.static_roots[i]
        d = self.tu.decl.get(i)
        t = self.T.of(rd['type'])
        nm = rd.get('name')
        if nm in ('cerr', 'cout', 'endl', 'clog'):
            return Opaque('stream')
        q = self.tu.qual.get(i, nm)
        val = None
        if d is not None and 'const' in d['type']['qualType'] and kids(d):
            ks = [x for x in kids(d) if 'Expr' in x.get('kind', '') or 'Literal' in x.get('kind', '') or 'Operator' in x.get('kind', '')]
            if ks:
                val = self.rv(self.ev(ks[-1]))
        if val is None:
            val = self.mk(t, 'global.' + str(nm))
        b = self.birth
        r = Root('global.' + str(q), t, 0, 'global.' + str(q))
        self.store[r] = val
        lv = LV(r, (), t)
        self.static_roots[i] = lv
        self.e.globals_used.add(str(q))
        return lv

    def x_ImplicitCastExpr(self, n):
        ck = n['castKind']
        sub = kids(n)[0]
        if ck in ('LValueToRValue',):
            v = self.ev(sub)
            if isinstance(v, LV):
                v = self.load(v)
                if isinstance(v, Undef):
                    v = self.mk(v.t, 'undef')
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr', 'BitCast', 'LValueBitCast', 'Dynamic'):
            return self.ev(sub)
        if ck == 'ConstructorConversion':
            return self.ev(sub)
        if ck == 'UserDefinedConversion':
            return self.ev(sub)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(sub)
            if isinstance(v, LV):
                return IterV(v, I0)
            return v      # string literals
        if ck == 'NullToPointer':
            return I0
        if ck == 'IntegralCast':
            v = self.evr(sub)
            return self.cast_int(v, self.ty(sub), self.ty(n))
        if ck == 'IntegralToFloating':
            v = self.toint(self.ev(sub))
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if ck == 'FloatingCast':
            return self.evr(sub)
        if ck == 'FloatingToIntegral':
            v = self.evr(sub)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.tobool(self.ev(sub))
        if ck == 'ToVoid':
            self.ev(sub)
            return None
        if ck in ('Dynamic',):
            self.unsup('dynamic cast')
        self.unsup('cast %s' % ck, n)

    x_CStyleCastExpr = x_ImplicitCastExpr
    x_CXXStaticCastExpr = x_ImplicitCastExpr
    x_CXXFunctionalCastExpr = x_ImplicitCastExpr
    x_CXXConstCastExpr = x_ImplicitCastExpr
    x_CXXDynamicCastExpr = x_ImplicitCastExpr      # pointers to objects of declared dynamic types: the same object (a trusted fact where it is used)

    def x_UnaryOperator(self, n):
        op = n['opcode']
        sub = kids(n)[0]
        if op in ('++', '--'):
            lv = self.ev(sub)
            v = self.rv(lv)
            d = 1 if op == '++' else -1
            if isinstance(v, IterV):
                nv = IterV(v.lv, v.pos + d)
            else:
                nv = v + d
                t = self.ty(sub)
                if d < 0:
                    nv = self.unsigned_wrap(nv, t)
                if z3.is_int_value(v):
                    nv = simp(nv)
            self.save(lv, nv)
            return v if n.get('isPostfix') else lv
        if op == '!':
            return z3.Not(self.tobool(self.ev(sub)))
        if op == '-':
            v = self.toint(self.ev(sub))
            if is_num(v):
                return simp(-v)
            return -v
        if op == '+':
            return self.toint(self.ev(sub))
        if op == '*':
            v = self.evr(sub)
            return self.deref(v, self.ty(sub), n)
        if op == '&':
            v = self.ev(sub)
            if isinstance(v, LV):
                if v.path and v.path[-1][0] == 'i':
                    ct = None
                    return IterV(LV(v.root, v.path[:-1], None), v.path[-1][1])
                return PtrV(v, FALSE)
            if isinstance(v, tuple):
                return v
            self.unsup('address of rvalue', n)
        if op == '~':
            self.unsup('bit complement', n)
        self.unsup('unary %s' % op, n)

    def arith(self, op, a, b, n, t):
        if op in ('+', '-') and isinstance(a, IterV):
            if isinstance(b, IterV):
                return a.pos - b.pos
            return IterV(a.lv, add(a.pos, b) if op == '+' else a.pos - b)
        if op == '+' and isinstance(b, IterV):
            return IterV(b.lv, add(b.pos, a))
        a = self.toint(a)
        b = self.toint(b)
        isreal = z3.is_real(a) or z3.is_real(b)
        if isreal:
            if z3.is_int(a):
                a = z3.ToReal(a)
            if z3.is_int(b):
                b = z3.ToReal(b)
        num = is_num(a) and is_num(b)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
            if not isreal:
                if num:
                    r = simp(r)
                r = self.unsigned_wrap(r, t)
        elif op == '*':
            r = a * b
        elif op == '/':
            if isreal:
                if self.c.safety and not is_num(b):
                    pass   # IEEE division: no trap; contracts state non-zero denominators where they matter
                r = a / b
            else:
                return self.divint(a, b, n)
        elif op == '%':
            return self.modint(a, b, n)
        elif op == '&':
            ba, bb = self.boolish(a), self.boolish(b)
            if ba is not None and bb is not None:
                return z3.If(z3.And(ba, bb), I1, I0)
            self.unsup('bitwise and', n)
        elif op == '|':
            ba, bb = self.boolish(a), self.boolish(b)
            if ba is not None and bb is not None:
                return z3.If(z3.Or(ba, bb), I1, I0)
            self.unsup('bitwise or', n)
        else:
            self.unsup('operator %s' % op, n)
        return simp(r) if num else r

    def boolish(self, t):
        """If(b,1,0) -> b"""
        if z3.is_int_value(t) and t.as_long() in (0, 1):
            return z3.BoolVal(bool(t.as_long()))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            if t.arg(1).as_long() == 1 and t.arg(2).as_long() == 0:
                return t.arg(0)
        return None

    def eqv(self, a, b):
        """equality of two rvalues as a Bool"""
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            self.unsup('comparison of opaque values')
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if isinstance(a, PtrV) and isinstance(b, PtrV):
                same = (a.lv.root is b.lv.root and str(a.lv.path) == str(b.lv.path))
                return z3.Or(z3.And(a.null, b.null), z3.And(z3.Not(a.null), z3.Not(b.null), z3.BoolVal(same)))
            p, q = (a, b) if isinstance(a, PtrV) else (b, a)
            if isinstance(q, IterV):
                return FALSE
            if z3.is_int_value(q) and q.as_long() == 0:
                return p.null
            if isinstance(p.lv.root, HeapRoot):
                return z3.If(p.null, q == 0, q == p.lv.root.oid)
            return z3.If(p.null, q == 0, q == self.addr_of(p))
        if isinstance(a, IterV) or isinstance(b, IterV):
            if isinstance(a, IterV) and isinstance(b, IterV):
                return a.pos == b.pos
            return FALSE
        if isinstance(a, VecV):
            k = z3.Int('k!eq')
            return z3.And(a.len == b.len, FA([k], z3.Implies(z3.And(0 <= k, k < a.len), z3.Select(a.arr, k) == z3.Select(b.arr, k))))
        if isinstance(a, ArrV):
            return z3.And(*[self.eqv(self.rv(x), self.rv(y)) for x, y in zip(a.items, b.items)])
        if isinstance(a, PairV):
            return z3.And(self.eqv(a.first, b.first), self.eqv(a.second, b.second))
        if isinstance(a, RecV):
            return z3.And(*[self.eqv(self.rv(a.get(f)), self.rv(b.get(f))) for f, _ in self.recfields(a.rec)])
        if z3.is_bool(a) and not z3.is_bool(b):
            a = z3.If(a, I1, I0)
        if z3.is_bool(b) and not z3.is_bool(a):
            b = z3.If(b, I1, I0)
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        return a == b

    def x_BinaryOperator(self, n):
        op = n['opcode']
        l, r = kids(n)
        if op == '=':
            t = self.ty(l)
            v = self.evr(r)
            lv = self.ev(l)
            self.save(lv, v)
            return lv
        if op == ',':
            self.ev(l)
            return self.ev(r)
        if op in ('&&', '||'):
            a = simp(self.tobool(self.ev(l)))
            if op == '&&':
                if z3.is_false(a):
                    return FALSE
                if z3.is_true(a):
                    return self.tobool(self.ev(r))
            else:
                if z3.is_true(a):
                    return TRUE
                if z3.is_false(a):
                    return self.tobool(self.ev(r))
            if self.pure(r):
                # evaluate the right operand under the guard (its safety obligations need it)
                g = a if op == '&&' else z3.Not(a)
                mark = len(self.hyps)
                self.solver.push()
                self.hyps.append(g)
                self.solver.add(g) if not has_quant(g) else None
                try:
                    b = self.tobool(self.ev(r))
                finally:
                    extra = self.hyps[mark + 1:]
                    del self.hyps[mark:]
                    self.solver.pop()
                for x in extra:
                    self.assume(z3.Implies(g, x))
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            d = self.branch(a)
            if op == '&&':
                return self.tobool(self.ev(r)) if d else FALSE
            return TRUE if d else self.tobool(self.ev(r))
        a = self.evr(l)
        b = self.evr(r)
        if op == '==':
            return self.eqv(a, b)
        if op == '!=':
            return z3.Not(self.eqv(a, b))
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, IterV) and isinstance(b, IterV):
                a, b = a.pos, b.pos
            a, b = self.toint(a), self.toint(b)
            if z3.is_real(a) and z3.is_int(b):
                b = z3.ToReal(b)
            if z3.is_int(a) and z3.is_real(b):
                a = z3.ToReal(a)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        return self.arith(op, a, b, n, self.ty(n))

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l, r = kids(n)
        b = self.evr(r)
        lv = self.ev(l)
        a = self.rv(lv)
        lt = self.ty(l)
        t = self.T.of(n.get('computeResultType') or n['type'])
        v = self.arith(op, a, b, n, t)
        if lt[0] in ('int', 'enum') and z3.is_expr(v) and z3.is_real(v):
            v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if lt[0] == 'bool' and z3.is_expr(v) and z3.is_int(v):
            v = v != 0
        if lt[0] == 'real' and z3.is_expr(v) and z3.is_int(v):
            v = z3.ToReal(v)
        self.save(lv, v)
        return lv

    def x_ConditionalOperator(self, n):
        c, a, b = kids(n)
        cv = simp(self.tobool(self.ev(c)))
        if z3.is_true(cv):
            return self.ev(a)
        if z3.is_false(cv):
            return self.ev(b)
        if self.pure(a) and self.pure(b) and n.get('valueCategory') == 'prvalue' and not self.hasindex(a) and not self.hasindex(b):
            x, y = self.evr(a), self.evr(b)
            if z3.is_expr(x) and z3.is_expr(y):
                if z3.is_bool(x) != z3.is_bool(y):
                    x, y = self.toint(x), self.toint(y)
                return z3.If(cv, x, y)
        return self.ev(a) if self.branch(cv) else self.ev(b)

    def hasindex(self, n):
        if n.get('kind') in ('CXXOperatorCallExpr', 'ArraySubscriptExpr', 'CXXMemberCallExpr', 'CallExpr'):
            return True
        return any(self.hasindex(x) for x in kids(n) if isinstance(x, dict))

    PUREK = {'DeclRefExpr', 'MemberExpr', 'IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'ImplicitCastExpr',
             'ParenExpr', 'CXXThisExpr', 'CXXNullPtrLiteralExpr', 'GNUNullExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
             'CXXFunctionalCastExpr', 'StringLiteral', 'CharacterLiteral', 'ConstantExpr', 'ConditionalOperator', 'ArraySubscriptExpr',
             'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'CXXDefaultArgExpr'}

    def pure(self, n):
        k = n.get('kind')
        if k == 'BinaryOperator':
            if n['opcode'] == '=':
                return False
        elif k == 'UnaryOperator':
            if n['opcode'] in ('++', '--'):
                return False
        elif k == 'CXXOperatorCallExpr':
            nm = self.opname(n)
            if nm not in ('operator[]', 'operator==', 'operator!=', 'operator*', 'operator->', 'operator-', 'operator+', 'operator<'):
                return False
            t = self.argtype(kids(n)[1])
            if t[0] == 'rec':
                if not self.simplefn(self.opdecl(n)):
                    return False
        elif k == 'CXXMemberCallExpr':
            me = kids(n)[0]
            if me.get('kind') != 'MemberExpr':
                return False
            bt = self.objtype(me)
            if bt[0] in ('vec', 'arr', 'str', 'ptr') and me['name'] in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'at', 'get'):
                pass
            elif not self.simplefn(me.get('referencedMemberDecl')):
                return False
        elif k == 'CallExpr':
            f = self.calleeref(n)
            if f is None:
                return False
            if f.get('name') not in ('fabs', 'abs', 'sqrt', 'pow', 'find', 'min', 'max') and not self.simplefn(f.get('id')):
                return False
        elif k not in self.PUREK:
            return False
        return all(self.pure(x) for x in kids(n) if isinstance(x, dict) and x.get('kind'))

    def simplefn(self, i):
        """functions whose evaluation cannot fork, throw or write: a single return of a pure expression, or functional contract"""
        if i is None:
            return False
        c = self.tu.canon(i)
        ct = self.contract_for(c)
        if ct is not None:
            return ct.ret is not None and not ct.mods and ct.throws is None
        b = self.tu.body.get(c)
        if b is None:
            return False
        if c in self.e.simple:
            return self.e.simple[c]
        self.e.simple[c] = False
        comp = [x for x in kids(b) if x.get('kind') == 'CompoundStmt'][0]
        r = len(kids(comp)) == 1 and kids(comp)[0]['kind'] == 'ReturnStmt' and bool(kids(kids(comp)[0])) and self.pure(kids(kids(comp)[0])[0])
        self.e.simple[c] = r
        return r

    def x_CXXNewExpr(self, n):
        t = self.ty(n)
        if not n.get('isArray') or t[0] != 'ptr' or t[1][0] not in ('int', 'real', 'bool', 'enum') or len(kids(n)) != 1:
            self.unsup('new expression', n)
        m = self.toint(self.ev(kids(n)[0]))
        self.oblige('size of a new array is not negative', m >= 0, 'safety', n)
        v = self.mk(('vec', t[1]), 'new')
        lv = self.newroot('new', ('vec', t[1]), VecV(v.et, m, v.arr))
        return IterV(lv, I0)

    def x_CXXDeleteExpr(self, n):
        if not n.get('isArray'):
            self.unsup('delete expression', n)
        v = self.evr(kids(n)[0])
        if not isinstance(v, IterV):
            self.unsup('delete expression', n)
        return None

    def x_ArraySubscriptExpr(self, n):
        b, i = kids(n)
        bv = self.evr(b)
        iv = self.toint(self.ev(i))
        if isinstance(iv, IterV):
            bv, iv = iv, bv
        if isinstance(bv, VecV):
            x = b
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                x = kids(x)[0]
            blv = self.ev(x)
            if isinstance(blv, LV):
                return self.elem(LV(blv.root, blv.path, ('vec', bv.et)), iv, n, check=self.c.safety)
        if isinstance(bv, IterV):
            return self.elem(bv.lv, add(bv.pos, iv), n, check=self.c.safety)
        if isinstance(bv, PtrV):
            self.unsup('subscript of plain pointer')
        self.unsup('array subscript', n)

    # ------------------------------------------------------------ members
    def objtype(self, me):
        b = kids(me)[0]
        t = self.ty(b)
        if t[0] == 'ref':
            t = t[1]
        if me.get('isArrow') and t[0] == 'ptr':
            t = t[1]
            if t[0] == 'opaque':
                t2 = self.smartpointee(b)
                if t2 is not None:
                    t = t2[1]
        return t

    def smartpointee(self, b):
        """type of the smart pointer whose -> is applied"""
        x = b
        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            x = kids(x)[0]
        if x['kind'] == 'CXXOperatorCallExpr' and len(kids(x)) == 2:
            t = self.argtype(kids(x)[1])
            if t[0] == 'ptr':
                return t
        return None

    def argtype(self, n):
        t = self.ty(n)
        if t[0] == 'ref':
            t = t[1]
        return t

    def objlv(self, me):
        """LV of the object a MemberExpr applies to"""
        b = kids(me)[0]
        v = self.ev(b)
        if me.get('isArrow'):
            v = self.rv(v)
            t = self.ty(b)
            if t[0] == 'ptr' and t[1][0] == 'opaque':
                # result of a smart pointer's ->: the type of the smart pointer tells what it points to
                t = self.smartpointee(b) or t
            return self.deref(v, t, me)
        if isinstance(v, LV):
            return v
        return self.newroot('tmp', self.ty(b), v)

    def x_MemberExpr(self, n):
        d = self.tu.decl.get(n.get('referencedMemberDecl'))
        if d is not None and d['kind'] == 'VarDecl':
            return self.global_var(d)
        if d is not None and d['kind'] in self.tu.FUN:
            return ('method', self.objlv(n), n)
        lv = self.objlv(n)
        if lv.type is None or lv.type[0] != 'rec':
            bt = self.objtype(n)
            lv = LV(lv.root, lv.path, bt)
        if lv.type[0] == 'pair':
            return lv.ext(('f', n['name']), lv.type[1] if n['name'] == 'first' else lv.type[2])
        return self.field(lv, n['name'])

    # ------------------------------------------------------------ calls
    def calleeref(self, n):
        c = kids(n)[0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = kids(c)[0]
        if c['kind'] == 'DeclRefExpr':
            return c['referencedDecl']
        return None

    def opname(self, n):
        r = self.calleeref(n)
        return r['name'] if r else '?'

    def opdecl(self, n):
        r = self.calleeref(n)
        return r['id'] if r else None

    def x_CallExpr(self, n):
        rd = self.calleeref(n)
        if rd is None:
            self.unsup('indirect call', n)
        name = rd['name']
        argn = kids(n)[1:]
        i = rd['id']
        if i in self.tu.decl and self.tu.decl[i]['kind'] in self.tu.FUN:
            if name == 'Jali_throw':
                return self.do_jali_throw(argn)
            c = self.tu.canon(i)
            return self.call(c, None, argn, n)
        if name == 'Jali_throw':
            return self.do_jali_throw(argn)
        from . import stl
        return stl.free_call(self, name, argn, n)

    def do_jali_throw(self, argn):
        try:
            v = self.evr(argn[0])
        except (Undecided, z3.Z3Exception):
            v = Opaque('exception')
        raise ThrowEx(self.ty(argn[0]), v)

    def x_CXXThrowExpr(self, n):
        ks = kids(n)
        if not ks:
            raise ThrowEx(('rethrow',), None)
        try:
            v = self.evr(ks[0])
        except Undecided:
            v = Opaque('exception')
        raise ThrowEx(self.ty(ks[0]), v)

    def x_CXXMemberCallExpr(self, n):
        me = kids(n)[0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = kids(me)[0]
        argn = kids(n)[1:]
        if me['kind'] != 'MemberExpr':
            self.unsup('member call through pointer', n)
        d = self.tu.decl.get(me.get('referencedMemberDecl'))
        if d is not None and d['kind'] in self.tu.FUN:
            obj = self.objlv(me)
            c = self.tu.canon(me['referencedMemberDecl'])
            c = self.dispatch(c, d, obj, me)
            return self.call(c, obj, argn, n)
        from . import stl
        return stl.method_call(self, me, argn, n)

    def dispatch(self, c, d, obj, me):
        """static dispatch of virtual calls by the contract's declared dynamic types"""
        cd = self.tu.decl[c]
        if not (cd.get('virtual') or d.get('virtual')):
            return c
        # explicit qualification Mesh::f() is non virtual
        rec = cd.get('_rec')
        dyn = self.dynmap().get(rec)
        if dyn is None:
            return c
        want = cd['type']['qualType']
        for cand in self.tu.byname.get(dyn + '::' + cd['name'], []):
            if self.tu.decl[cand]['type']['qualType'] == want:
                return cand
        return c

    def dynmap(self):
        m = dict(self.e.dyn)
        m.update(self.c.dyn)
        return m

    def contract_for(self, c):
        ct = self.e.contract_of.get(c)
        if ct is None or not ct.modular:
            return None
        if ct.name in self.c.no_contract:
            return None
        return ct

    def paramtype(self, fn, i):
        return self.T.of(params(fn)[i]['type'])

    def bind(self, fn, argn):
        """evaluate arguments for parameters: LV for references, values otherwise"""
        ps = params(fn)
        out = []
        for k, p in enumerate(ps):
            t = self.T.of(p['type'])
            if k < len(argn) and argn[k]['kind'] != 'CXXDefaultArgExpr':
                a = self.ev(argn[k])
            elif k < len(argn) and kids(argn[k]):
                a = self.ev(kids(argn[k])[0])
            else:
                ini = [x for x in kids(p) if x.get('kind') not in ('FullComment',)]
                if not ini:
                    # default argument is given on the first declaration
                    fc = self.tu.decl.get(self.tu.canon(fn['id']))
                    ini = []
                    if fc is not None and k < len(params(fc)):
                        ini = [x for x in kids(params(fc)[k]) if x.get('kind') not in ('FullComment',)]
                if not ini:
                    self.unsup('missing default argument of %s' % fn.get('name'))
                a = self.ev(ini[0])
            if t[0] == 'ref':
                if not isinstance(a, LV):
                    a = self.newroot('tmp', t[1], a)
            else:
                a = self.rv(a)
                if t[0] == 'ptr' and isinstance(a, Opaque):
                    pass
            out.append(a)
        return out

    def call(self, c, this, argn, n, binds=None):
        fn = self.tu.body.get(c) or self.tu.decl.get(c)
        if binds is None:
            binds = self.bind(fn, argn)
        ct = self.contract_for(c)
        if ct is not None:
            return self.apply(ct, fn, this, binds, n)
        if c not in self.tu.body:
            # perhaps an external hook
            self.unsup('call to %s, which has neither body here nor contract' % self.tu.qual.get(c, fn.get('name')))
        if len(self.fnstack) > 14 or self.fnstack.count(c) > 3:
            self.unsup('inlining too deep at %s' % self.tu.qual.get(c))
        return self.inline(c, fn, this, binds)

    def inline(self, c, fn, this, binds):
        self.e.inlined.add(self.tu.qual.get(c, '?'))
        self.e.inlined_ids.add(c)
        saved = (self.this, self.frames, self.names)
        self.this = this
        self.frames = []
        self.names = []
        self.fnstack.append(c)
        self.push()
        try:
            for p, b in zip(params(fn), binds):
                self.bindparam(p, b)
            rt = self.rettype(fn)
            try:
                self.stmt([x for x in kids(fn) if x['kind'] in ('CompoundStmt', 'CXXTryStmt')][0])
                r = None
            except ReturnEx as e:
                r = e.v
            if rt[0] != 'ref':
                r = self.rv(r) if r is not None else None
            return r
        finally:
            self.fnstack.pop()
            self.this, self.frames, self.names = saved

    def rettype(self, fn):
        q = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        q = fn['type']['qualType']
        depth = 0
        # return type is the text before the parameter list
        for i, ch in enumerate(q):
            if ch == '<':
                depth += 1
            if ch == '>':
                depth -= 1
            if ch == '(' and depth == 0:
                return self.T.parse(q[:i].strip())
        return self.T.parse(q)

    def bindparam(self, p, b):
        t = self.T.of(p['type'])
        if t[0] == 'ref':
            self.frames[-1][p['id']] = b if isinstance(b, LV) else self.newroot(p.get('name', 'p'), t[1], b)
        else:
            self.frames[-1][p['id']] = self.newroot(p.get('name', 'p'), t, b)
        if p.get('name'):
            self.names[-1][p['name']] = p['id']

    def push(self):
        self.frames.append({})
        self.names.append({})

    def pop(self):
        self.frames.pop()
        self.names.pop()

    def modlvs(self, ct, ctx):
        out = []
        for m in ct.mods:
            if callable(m):
                out += list(m(ctx))
            elif m == 'this':
                out.append(ctx.this)
            elif m.startswith('this.'):
                out.append(self.field(ctx.this, m[5:]))
            elif m.startswith('*'):
                b = ctx.binds[int(m[1:])]
                if isinstance(b, (PtrV,)):
                    if z3.is_true(simp(b.null)):
                        continue
                out.append(ctx._ref(int(m[1:])))
            elif m.startswith('global:'):
                out.append(self.global_named(m[7:]))
            elif m.startswith('heap:'):
                rec, f = m[5:].rsplit('.', 1)
                out.append(('heap', rec, f))
            else:
                raise Undecided('bad modifies clause ' + m)
        return out

    def apply(self, ct, fn, this, binds, n):
        """replace a call by its contract"""
        self.e.used_contracts.add(ct.label)
        if ct.ret is None or ct.mods:
            self.approx = True
        store0, heap0 = dict(self.store), dict(self.heap)
        ctx = Ctx(self, fn, this, binds, store0, heap0)
        ctx.site = n
        if ct.pre:
            for lab, f in norm(ct.pre(ctx)):
                if not self.c.callpre:
                    continue
                self.oblige('precondition of %s: %s' % (ct.label, lab), f, 'pre', n)
        if ct.throws is not None:
            cond = ct.throws(ctx)
            if self.branch(cond):
                raise ThrowEx(('contract', ct.label), Opaque('exception'))
        for lv in self.modlvs(ct, ctx):
            if isinstance(lv, tuple) and lv[0] == 'heap':
                a, ft = self.heapget(lv[1], lv[2])
                self.touch(lv, 0)
                self.heap[(lv[1], lv[2])] = self.fresh(a.sort(), 'heap.%s' % lv[2])
            else:
                t = lv.type or self.typeof_val(self.load(lv))
                self.save(lv, self.mk(t, 'post.%s' % ct.name.split('::')[-1]))
        for t, ptr in ct.allocates:
            self.callee_allocs = True
            rec = self.e.box(t)
            a, ft = self.heapget(rec, 'data')
            self.touch(('heap', rec, 'data'), 0)
            a2 = self.fresh(a.sort(), 'heap.new')
            self.heap[(rec, 'data')] = a2
            o = z3.Int('o!q')
            self.assume(FA([o], z3.Implies(z3.Or(ALLOC(o), *[o == x for x in getattr(self, 'newobjs', [])]), z3.Select(a2, o) == z3.Select(a, o)), patterns=[z3.Select(a2, o)]))
        rt = self.rettype(fn)
        if ct.ret is not None:
            ctx.ret = ct.ret(ctx)
        elif ct.shape is not None:
            ctx.ret = ct.shape(ctx)
        elif rt[0] != 'void':
            if rt[0] == 'ref':
                if rt[1][0] == 'rec':
                    ctx.ret = self.mk(('ptr', rt[1]), 'ret')
                    ctx.ret = self.deref(ctx.ret, ('ptr', rt[1]), n)
                else:
                    ctx.ret = self.newroot('ret', rt[1], self.mk(rt[1], 'ret'))
            else:
                ctx.ret = self.mk(rt, 'ret.' + ct.name.split('::')[-1])
        for t, ptr in ct.allocates:
            x = ptr(ctx)
            self.assume(z3.And(x > 0, z3.Not(ALLOC(x)), *[x != o for o in getattr(self, 'newobjs', [])]))
            self.newobjs = getattr(self, 'newobjs', []) + [x]
        if ct.post:
            for lab, f in norm(ct.post(ctx)):
                self.assume(f)
        return ctx.ret

    def heap_same(self, t, exc, heap0):
        """heap values of type t are as in heap0, except at the pointers exc"""
        key = (self.e.box(t), 'data')
        a1, _ = self.heapget(*key)
        a0 = heap0.get(key, self.e.heap0[key][0])
        o = z3.Int('o!q')
        return FA([o], z3.Implies(z3.And(*[o != x for x in exc]), z3.Select(a1, o) == z3.Select(a0, o)), patterns=[z3.Select(a1, o)])

    def typeof_val(self, v):
        if isinstance(v, VecV):
            return ('vec', v.et)
        if isinstance(v, ArrV):
            return ('arr', v.et, len(v.items))
        if isinstance(v, RecV):
            return ('rec', v.rec)
        if isinstance(v, Undef):
            return v.t
        if isinstance(v, PairV):
            return v.t
        if z3.is_expr(v):
            s = v.sort()
            if s == z3.IntSort():
                return ('int', True, 64)
            if s == z3.RealSort():
                return ('real',)
            if s == z3.BoolSort():
                return ('bool',)
            if s == z3.StringSort():
                return ('str',)
        self.unsup('type of value %s' % type(v).__name__)

    # ------------------------------------------------------------ construction
    def x_CXXConstructExpr(self, n):
        t = self.ty(n)
        argn = kids(n)
        from . import stl
        if t[0] == 'rec':
            return self.construct(t[1], n, argn)
        return stl.construct(self, t, argn, n)

    def x_CXXTemporaryObjectExpr(self, n):
        return self.x_CXXConstructExpr(n)

    def x_CXXScalarValueInitExpr(self, n):
        from . import stl
        return stl.default(self, self.ty(n))

    def x_ImplicitValueInitExpr(self, n):
        from . import stl
        return stl.default(self, self.ty(n))

    def x_InitListExpr(self, n):
        t = self.ty(n)
        from . import stl
        return stl.initlist(self, t, kids(n), n)

    def x_CXXStdInitializerListExpr(self, n):
        return self.ev(kids(n)[0])

    def x_LambdaExpr(self, n):
        return LamV(n, (list(self.frames), list(self.names)))

    def ctor_type(self, n):
        c = n.get('ctorType')
        return c.get('qualType') if c else None

    def construct(self, rec, n, argn):
        """value of a constructed record"""
        sigt = self.ctor_type(n)
        name = rec.split('<')[0].split('::')[-1]
        cands = [c for c in self.tu.byname.get(rec + '::' + name, [])]
        cand = None
        for c in cands:
            d = self.tu.decl[c]
            if sigt is not None and d['type']['qualType'] == sigt:
                cand = c
                break
        if cand is None and len(argn) == 1:
            # implicit copy/move
            v = self.evr(argn[0])
            if isinstance(v, RecV):
                return v
        if cand is None:
            if rec not in self.tu.records:
                return Opaque(rec)
            self.unsup('constructor of %s' % rec)
        fn = self.tu.body.get(cand) or self.tu.decl[cand]
        if (fn.get('isImplicit') or fn.get('explicitlyDefaulted')) and len(argn) == 1:
            v = self.evr(argn[0])
            if isinstance(v, RecV):
                return v
        binds = self.bind(fn, argn)
        return self.construct_with(rec, cand, fn, binds, n)

    def construct_with(self, rec, cand, fn, binds, n, lv=None):
        ct = self.contract_for(cand)
        if ct is not None and lv is None:
            if ct.ret is not None and not ct.mods:
                return self.apply(ct, fn, None, binds, n)
            lv = self.newroot('obj', ('rec', rec), self.undefrec(rec))
            self.apply(ct, fn, lv, binds, n)
            return self.load(lv)
        if lv is None:
            lv = self.newroot('obj', ('rec', rec), self.undefrec(rec))
        if cand in self.tu.body:
            self.run_ctor(cand, fn, lv, binds)
        elif fn.get('isImplicit') or fn.get('explicitlyDefaulted'):
            from . import stl
            for f, ft in self.recfields(rec):
                d = stl.default_member(self, rec, f, ft)
                if d is not None:
                    self.save(lv.ext(('f', f), ft), d)
        else:
            self.unsup('constructor %s has no body' % self.tu.qual.get(cand))
        return self.load(lv)

    def undefrec(self, rec):
        return RecV(rec, {f: Undef(ft) for f, ft in self.recfields(rec)})

    def run_ctor(self, c, fn, lv, binds):
        self.e.inlined.add(self.tu.qual.get(c, '?'))
        self.e.inlined_ids.add(c)
        saved = (self.this, self.frames, self.names)
        self.this = lv
        self.frames = []
        self.names = []
        self.fnstack.append(c)
        self.push()
        try:
            for p, b in zip(params(fn), binds):
                self.bindparam(p, b)
            self.ctor_inits(fn, lv)
            try:
                self.stmt([x for x in kids(fn) if x['kind'] in ('CompoundStmt', 'CXXTryStmt')][0])
            except ReturnEx:
                pass
        finally:
            self.fnstack.pop()
            self.this, self.frames, self.names = saved

    def ctor_inits(self, fn, lv):
        from . import stl
        for x in kids(fn):
            if x['kind'] != 'CXXCtorInitializer':
                continue
            e = kids(x)[0]
            if 'anyInit' in x:
                f = x['anyInit']['name']
                ft = dict(self.recfields(lv.type[1])).get(f)
                flv = lv.ext(('f', f), ft)
                if ft[0] == 'ref':
                    v = self.ev(e)
                    self.save(flv, PtrV(v, FALSE) if isinstance(v, LV) else v)
                    continue
                if e['kind'] == 'CXXDefaultInitExpr' and not kids(e):
                    rec = self.e.declrec(lv.type[1], f)
                    d = stl.default_member(self, rec, f, ft)
                    if d is None:
                        continue
                    self.save(flv, d)
                    continue
                v = self.rv(self.ev(e))
                self.save(flv, v)
            elif 'baseInit' in x:
                bt = self.T.of(x['baseInit'])
                while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr'):
                    e = kids(e)[0]
                if bt[0] == 'rec' and bt[1] in self.tu.records and e['kind'] != 'CXXConstructExpr':
                    self.unsup('base initialiser %s' % e['kind'])
                if bt[0] == 'rec' and e['kind'] == 'CXXConstructExpr' and bt[1] in self.tu.records:
                    name = bt[1].split('<')[0].split('::')[-1]
                    done = False
                    sigt = self.ctor_type(e)
                    for c in self.tu.byname.get(bt[1] + '::' + name, []):
                        if self.tu.decl[c]['type']['qualType'] == sigt:
                            bf = self.tu.body.get(c) or self.tu.decl[c]
                            binds = self.bind(bf, kids(e))
                            blv = LV(lv.root, lv.path, lv.type)
                            ct = self.contract_for(c)
                            if ct is not None:
                                self.apply(ct, bf, blv, binds, e)
                            elif c in self.tu.body:
                                self.run_ctor(c, bf, blv, binds)
                            elif not (bf.get('isImplicit') or bf.get('explicitlyDefaulted')):
                                self.unsup('base constructor %s has neither body nor contract' % self.tu.qual.get(c))
                            elif len(kids(e)) == 1:
                                src = self.evr(kids(e)[0])
                                for f, ft in self.recfields(bt[1]):
                                    self.save(lv.ext(('f', f), ft), src.get(f))
                            done = True
                            break
                    if not done:
                        self.unsup('base constructor of %s' % bt[1])

    def x_CXXOperatorCallExpr(self, n):
        name = self.opname(n)
        i = self.opdecl(n)
        argn = kids(n)[1:]
        if i in self.tu.decl and self.tu.decl[i]['kind'] in self.tu.FUN:
            d = self.tu.decl[i]
            c = self.tu.canon(i)
            if d['kind'] == 'CXXMethodDecl':
                if self.argtype(argn[0])[0] == 'opaque' and name == 'operator()':
                    return self.call_lambda(argn)
                obj = self.evlv(argn[0])
                if name == 'operator=' and (d.get('isImplicit') or d.get('explicitlyDefaulted')) and self.contract_for(c) is None:
                    v = self.evr(argn[1])
                    self.save(obj, v)
                    return obj
                if name == 'operator()' and c not in self.tu.body:
                    return self.call_lambda(argn)
                c = self.dispatch(c, d, obj, n)
                return self.call(c, obj, argn[1:], n)
            return self.call(c, None, argn, n)
        from . import stl
        return stl.operator_call(self, name, argn, n)

    def call_lambda(self, argn):
        lam = self.rv(self.ev(argn[0]))
        if not isinstance(lam, LamV):
            self.unsup('call of unknown function object')
        node = lam.node
        rec = [x for x in kids(node) if x['kind'] == 'CXXRecordDecl'][0]
        op = [x for x in kids(rec) if x['kind'] == 'CXXMethodDecl' and x.get('name') == 'operator()'][0]
        body = [x for x in kids(node) if x['kind'] == 'CompoundStmt'][-1]
        binds = self.bind(op, argn[1:])
        saved = (self.frames, self.names)
        self.frames, self.names = list(lam.env[0]), list(lam.env[1])
        self.push()
        try:
            for p, b in zip(params(op), binds):
                self.bindparam(p, b)
            try:
                self.stmt(body)
                return None
            except ReturnEx as e:
                return self.rv(e.v) if e.v is not None else None
        finally:
            self.frames, self.names = saved

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if not n or 'kind' not in n:
            return
        k = n['kind']
        r = n.get('range', {}).get('begin', {})
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k in ('FullComment',):
            return
        self.ev(n)

    def s_CompoundStmt(self, n):
        self.push()
        try:
            for x in kids(n):
                self.stmt(x)
        finally:
            self.pop()

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl'):
                if d['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
                    t = d['type']
                    self.tu.typedefs.setdefault(d['name'], t.get('desugaredQualType', t['qualType']))
            else:
                self.unsup('local declaration %s' % d['kind'])

    def vardecl(self, d):
        from . import stl
        t = self.T.of(d['type'])
        ini = [x for x in kids(d) if x.get('kind') not in ('FullComment',) and not x.get('kind', '').endswith('Attr')]
        if d.get('storageClass') == 'static':
            # a function-local static: arbitrary unless constant
            if 'const' not in d['type']['qualType']:
                key = d['id']
                self.e.notes.add('function-local static %s taken as arbitrary' % d.get('name'))
        if t[0] == 'ref':
            v = self.ev(ini[0])
            if not isinstance(v, LV):
                v = self.newroot(d.get('name', 'ref'), t[1], v)
            lv = v
        else:
            if ini:
                v = self.rv(self.ev(ini[0]))
                if isinstance(v, tuple):
                    v = Opaque('function')
                if t[0] == 'bool' and z3.is_expr(v) and z3.is_int(v):
                    v = v != 0
            else:
                v = Undef(t) if t[0] != 'opaque' else Opaque(str(t))
            if t[0] in ('opaque', 'iter') and not isinstance(v, (IterV, Opaque, LamV, Undef)) and not z3.is_expr(v):
                pass
            lv = self.newroot(d.get('name', 'v'), t, v, d['id'])
        self.frames[-1][d['id']] = lv
        if d.get('name'):
            self.names[-1][d['name']] = d['id']

    def s_ReturnStmt(self, n):
        ks = kids(n)
        if not ks:
            raise ReturnEx(None)
        v = self.ev(ks[0])
        if n and self.fn_returns_value():
            v = self.rv(v)
        raise ReturnEx(v)

    def fn_returns_value(self):
        fn = self.tu.body.get(self.fnstack[-1])
        if fn is None:
            return True
        return self.rettype(fn)[0] != 'ref'

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_IfStmt(self, n):
        ks = [x for x in kids(n) if x]
        # optional condition variable is not used in this code base
        if ks[0]['kind'] == 'DeclStmt':
            self.push()
            self.stmt(ks[0])
            ks = ks[1:]
        cond, then = ks[0], ks[1]
        els = ks[2] if len(ks) > 2 else None
        c = simp(self.tobool(self.ev(cond)))
        if not z3.is_true(c) and not z3.is_false(c) and self.mergeable(then) and (els is None or self.mergeable(els)):
            if not self.replaying() or True:
                return self.merge_if(c, then, els)
        if self.c.join and not z3.is_true(c) and not z3.is_false(c) and not self.loopstack and not self.leaves(then) and (els is None or not self.leaves(els)):
            # both sides are executed and their outcomes joined (each differing component becomes a new constant)
            self.joining = True
            try:
                return self.merge_if(c, then, els)
            finally:
                self.joining = False
        if self.branch(c):
            self.stmt(then)
        elif els is not None:
            self.stmt(els)

    def mergeable(self, n):
        """statements made only of assignments of pure expressions to scalars/elements, no calls"""
        k = n.get('kind')
        if k == 'CompoundStmt':
            return all(self.mergeable(x) for x in kids(n))
        if k == 'NullStmt':
            return True
        if k == 'IfStmt':
            ks = kids(n)
            return self.pure(ks[0]) and all(self.mergeable(x) for x in ks[1:])
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if k == 'BinaryOperator' and n['opcode'] != '=':
                return False
            l, r = kids(n)
            t = self.ty(l)
            return t[0] in ('int', 'bool', 'real', 'enum') and self.pure(r) and self.pure(l) and not self.calls(r) and not self.calls(l)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return self.pure(kids(n)[0]) and self.ty(kids(n)[0])[0] == 'int'
        return False

    def leaves(self, n):
        if n.get('kind') in ('ReturnStmt', 'CXXThrowExpr', 'GotoStmt'):
            return True
        return any(self.leaves(x) for x in kids(n) if isinstance(x, dict))

    def calls(self, n):
        if n.get('kind') in ('CallExpr', 'CXXMemberCallExpr'):
            return True
        return any(self.calls(x) for x in kids(n) if isinstance(x, dict))

    def merge_if(self, c, then, els):
        def guarded(g, s):
            mark = len(self.hyps)
            self.solver.push()
            self.hyps.append(g)
            if not has_quant(g):
                self.solver.add(g)
            try:
                if s is not None:
                    self.stmt(s)
            finally:
                extra = self.hyps[mark + 1:]
                del self.hyps[mark:]
                self.solver.pop()
            return [z3.Implies(g, x) for x in extra]
        s0, h0 = dict(self.store), dict(self.heap)
        ex1 = guarded(c, then)
        s1, h1 = self.store, self.heap
        self.store, self.heap = dict(s0), dict(h0)
        ex2 = guarded(z3.Not(c), els)
        s2, h2 = self.store, self.heap
        for x in ex1 + ex2:
            self.assume(x)
        st = {}
        for r in set(s1) | set(s2):
            if r in s1 and r in s2:
                st[r] = s1[r] if s1[r] is s2[r] else self.ite(c, s1[r], s2[r])
            else:
                st[r] = s1.get(r, s2.get(r))
        hp = {}
        for r in set(h1) | set(h2):
            a, b = h1.get(r), h2.get(r)
            if a is None or b is None:
                hp[r] = a if a is not None else b
            else:
                hp[r] = a if a.eq(b) else z3.If(c, a, b)
        self.store, self.heap = st, hp

    def s_SwitchStmt(self, n):
        ks = kids(n)
        cond, body = ks[0], ks[-1]
        v = self.toint(self.ev(cond))
        # flatten: list of (labels, stmt) in order
        items = []

        def flat(x, labels):
            if x['kind'] == 'CaseStmt':
                cs = kids(x)
                lab = self.toint(self.ev(cs[0]))
                flat(cs[-1], labels + [lab])
            elif x['kind'] == 'DefaultStmt':
                flat(kids(x)[-1], labels + ['default'])
            else:
                items.append((labels, x))
        for x in kids(body):
            flat(x, [])
        alllabs = [l for ls, _ in items for l in ls if not isinstance(l, str)]
        start = None
        default = None
        for idx, (ls, _) in enumerate(items):
            for l in ls:
                if isinstance(l, str):
                    default = idx
                elif start is None and self.branch(v == l):
                    start = idx
            if start is not None:
                break
        if start is None:
            for idx, (ls, _) in enumerate(items):
                if any(isinstance(l, str) for l in ls):
                    default = idx
            start = default
        if start is None:
            return
        self.push()
        try:
            for ls, s in items[start:]:
                self.stmt(s)
        except BreakEx:
            pass
        finally:
            self.pop()

    def s_CXXTryStmt(self, n):
        ks = kids(n)
        depth = (len(self.frames), list(self.fnstack), self.this, self.frames, self.names, list(self.loopstack))
        try:
            self.stmt(ks[0])
        except ThrowEx as e:
            self.frames, self.names = depth[3], depth[4]
            del self.frames[depth[0]:]
            del self.names[depth[0]:]
            self.fnstack[:] = depth[1]
            self.this = depth[2]
            self.loopstack[:] = depth[5]
            for h in ks[1:]:
                hk = kids(h)
                # handlers are taken to match the library's own messages in order
                self.push()
                try:
                    if len(hk) > 1 and hk[0].get('kind') == 'VarDecl':
                        t = self.T.of(hk[0]['type'])
                        if not self.handler_matches(t, e.t):
                            continue
                        v = e.v if e.v is not None else Opaque('exception')
                        lv = self.newroot('exc', t[1] if t[0] == 'ref' else t, v)
                        self.frames[-1][hk[0]['id']] = lv
                    self.stmt(hk[-1])
                    return
                finally:
                    self.pop()
            raise

    def handler_matches(self, ht, et):
        if ht[0] == 'ref':
            ht = ht[1]
        h = str(ht)
        if 'Message' in h:
            return 'Message' in str(et) or et[0] == 'contract'
        return True

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n):
        init, cv, cond, inc, body = (kids(n) + [{}] * 5)[:5]
        self.push()
        try:
            if init:
                self.stmt(init)
            self.loop(n, lambda: self.tobool(self.ev(cond)) if cond else TRUE, lambda: self.stmt(body),
                      lambda: self.ev(inc) if inc else None)
        finally:
            self.pop()

    def s_WhileStmt(self, n):
        ks = kids(n)
        cond, body = ks[-2], ks[-1]
        self.loop(n, lambda: self.tobool(self.ev(cond)), lambda: self.stmt(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = kids(n)[0], kids(n)[1]
        # do { B } while (c)  ==  B; while (c) B   (break leaves)
        try:
            try:
                self.stmt(body)
            except ContinueEx:
                pass
            self.loop(n, lambda: self.tobool(self.ev(cond)), lambda: self.stmt(body), lambda: None)
        except BreakEx:
            pass

    def s_CXXForRangeStmt(self, n):
        ks = kids(n)
        ds = [x for x in ks if x.get('kind') == 'DeclStmt']
        rangevar = kids(ds[0])[0]
        loopvar = kids(ds[-1])[0]
        body = ks[-1]
        self.push()
        try:
            rng = self.ev([x for x in kids(rangevar)][-1])
            if not isinstance(rng, LV):
                rng = self.newroot('range', self.T.of(rangevar['type']), rng, n['id'])
            v = self.load(rng)
            if isinstance(v, Undef):
                v = self.mk(v.t, 'undef')
            kroot = self.newroot('__k', ('int', True, 64), I0, n['id'])
            self.frames[-1]['__k' + n['id']] = kroot
            if isinstance(v, ArrV):
                ln = z3.IntVal(len(v.items))
                et = v.et
            elif isinstance(v, VecV):
                ln = v.len
                et = v.et
                if not z3.is_int_value(ln):
                    self.assume(ln >= 0)
            else:
                self.unsup('range-for over %s' % type(v).__name__)
            t = self.T.of(loopvar['type'])

            def dobody():
                k = self.load(kroot)
                self.push()
                self.outers = getattr(self, 'outers', []) + [k]
                try:
                    el = rng.ext(('i', k), et)
                    cvv = self.load(rng)
                    if isinstance(cvv, VecV) and self.c.bags and et[0] == 'int':
                        self.prefix_facts(cvv, k)
                    if t[0] == 'ref':
                        self.frames[-1][loopvar['id']] = el
                    else:
                        self.frames[-1][loopvar['id']] = self.newroot(loopvar.get('name', 'e'), t, self.load(el), n['id'])
                    self.names[-1][loopvar.get('name', 'e')] = loopvar['id']
                    self.stmt(body)
                finally:
                    self.outers = self.outers[:-1]
                    self.pop()

            def doinc():
                self.save(kroot, add(self.load(kroot), I1) if not z3.is_int_value(self.load(kroot)) else z3.IntVal(self.load(kroot).as_long() + 1))

            def cond():
                k = self.load(kroot)
                return k < ln
            self.loop(n, cond, dobody, doinc, rangeinfo=(rng, kroot, ln))
        finally:
            self.pop()

    def prefix_facts(self, v, k):
        x = z3.Int('x!q')
        e = sel(v.arr, k)
        self.assume(FA([x], CNT(v.arr, k + 1, x) == CNT(v.arr, k, x) + z3.If(e == x, I1, I0), patterns=[CNT(v.arr, k + 1, x)]))
        self.assume(FA([x], CNT(v.arr, k, x) >= 0, patterns=[CNT(v.arr, k, x)]))
        # a prefix holds no more copies than the whole
        self.assume(FA([x], z3.Implies(z3.And(0 <= k, k < v.len), CNT(v.arr, k + 1, x) <= CNT(v.arr, v.len, x)), patterns=[CNT(v.arr, v.len, x)]))

    def loopkey(self, n):
        return ('/'.join(self.fnstack), n['id'])

    def loop(self, n, cond, body, inc, rangeinfo=None):
        key = self.loopkey(n)
        ct = self.c
        # 1. constant bounded: unroll while the condition is a constant
        count = 0
        first = True
        while True:
            if self.is_inv_loop(n, key):
                break
            s = cond()
            s = simp(s) if z3.is_expr(s) else lift(s)
            if z3.is_false(s):
                return
            if count == 0 and ct.cut and ct.loops is not None and self.wants_inv(n, key, rangeinfo):
                break
            if not z3.is_true(s):
                # no longer constant
                if ct.loops is not None and self.wants_inv(n, key, rangeinfo):
                    break
                # unroll with case split
                if count >= ct.unroll:
                    if not self.feasible(s):
                        self.assume(z3.Not(s))
                        return
                    self.unsup('loop in %s needs an invariant (not bounded by %d iterations)' % (self.curfn(), ct.unroll))
                if not self.branch(s):
                    return
            if count > 4096:
                self.unsup('constant loop too long')
            count += 1
            try:
                body()
            except BreakEx:
                return
            except ContinueEx:
                pass
            inc()
        self.inv_loop(n, key, cond, body, inc, rangeinfo)

    def curfn(self):
        return self.tu.qual.get(self.fnstack[-1], '?') if self.fnstack else '?'

    def is_inv_loop(self, n, key):
        return False

    def mkL(self, n, key, rangeinfo, mods, store_e, heap_e):
        info = dict(node=n, key=key, fn=self.curfn(), mods=mods, store_e=store_e, heap_e=heap_e, ctx=self.entryctx,
                    rng=None, k=None, n=None, this=self.this)
        if rangeinfo is not None:
            rng, kroot, ln = rangeinfo
            info['rng'] = self.load(rng)
            info['k'] = self.load(kroot)
            info['n'] = ln
        info['ordinal'] = self.e.loop_ordinal(self.fnstack[-1], n['id'])
        return LoopCtx(self, info)

    def wants_inv(self, n, key, rangeinfo):
        w = self.persist['wants']
        if key not in w:
            L = self.mkL(n, key, rangeinfo, set(), self.store, self.heap)
            w[key] = self.c.loops(L) is not None
        return w[key]

    def inv_loop(self, n, key, cond, body, inc, rangeinfo):
        self.approx = True
        pers = self.persist
        mods = pers['mods'].setdefault(key, set())
        dropped = pers['dropped']
        store_e, heap_e = dict(self.store), dict(self.heap)
        birth = self.birth
        rangevals = rangeinfo

        nosafe, skip = [False], [None]

        def cands():
            if pers['discover']:
                return []
            L = self.mkL(n, key, rangeinfo, mods, store_e, heap_e)
            out = [('user', l, f) for l, f in norm(self.c.loops(L))]
            nosafe[0] = getattr(L, 'nosafety', False)       # index safety and call preconditions of this body are shown under another contract of the function
            skip[0] = getattr(L, 'skip', None)              # so is everything about this loop, with these invariants
            if skip[0]:
                if out:
                    self.e.check_skip(self.c, skip[0])     # with nothing claimed there is nothing to show elsewhere
                if 'ok' in pers['mods'].get('discovered', ()) and key not in pers['mods'].get('exits', ()):
                    return [(l, f, None) for _, l, f in out]
                skip[0] = None
            out += self.auto_cands(mods, store_e, cond, rangeinfo, n)
            ck = (self.curfn(), str(self.e.loop_ordinal(self.fnstack[-1], n['id'])))
            return [(('%s' % l), f, ck + (l,)) for _, l, f in out if ck + (l,) not in dropped]
        where = '%s loop %s' % (self.curfn().split('::')[-1], self.e.loop_ordinal(self.fnstack[-1], n['id']))
        for l, f, ck in cands():
            if not skip[0]:
                self.oblige('%s: invariant initially: %s' % (where, l), f, 'inv', n, cand=ck)
        # havoc
        L = dict(key=key, birth=birth, mods=mods)
        for mkey in sorted(mods, key=str):
            self.havoc(mkey, store_e)
        for l, f, ck in cands():
            self.assume(f)
        self.birth += 1
        L['birth'] = birth
        self.loopstack.append(L)
        saf, pre = self.c.safety, self.c.callpre
        try:
            if skip[0]:
                self.c.safety = self.c.callpre = False
                self.assume(z3.Not(cond()))
                return
            self.c.safety = saf and not nosafe[0]
            self.c.callpre = pre and not nosafe[0]
            c = cond()
            if self.branch(c):
                def asserts(end):
                    if self.c.asserts is not None and not pers['discover']:
                        M = self.mkL(n, key, rangeinfo, mods, store_e, heap_e)
                        M.end = end
                        for l, f in norm(self.c.asserts(M) or []):
                            self.oblige('%s: at the %s of an iteration: %s' % (where, 'end' if end else 'start', l), f, 'assert', n)
                asserts(False)
                try:
                    try:
                        body()
                    except (ContinueEx, PathEnd, Restart):
                        raise
                    except BaseException:
                        pers['mods'].setdefault('exits', set()).add(key)
                        raise
                    asserts(True)
                    inc()
                except ContinueEx:
                    asserts(True)
                    inc()
                except BreakEx:
                    # leaves the loop from inside an arbitrary iteration
                    return
                for l, f, ck in cands():
                    self.oblige('%s: invariant preserved: %s' % (where, l), f, 'inv', n, cand=ck)
                raise PathEnd()
        finally:
            self.c.safety, self.c.callpre = saf, pre
            self.loopstack.pop()
        return

    def havoc(self, mkey, store_e):
        if mkey[0] == 'heap':
            _, rec, f = mkey
            a, ft = self.heapget(rec, f)
            self.heap[(rec, f)] = self.fresh(a.sort(), 'heap.' + f)
            return
        _, rkey, f = mkey
        for r in list(self.store):
            if r.key == rkey:
                if f is None:
                    v = self.store[r]
                    self.store[r] = self.havoc_val(v, r.type, r.name)
                else:
                    v = self.store[r]
                    if isinstance(v, Undef):
                        continue
                    fv = v.get(f)
                    ft = dict(self.recfields(v.rec)).get(f) if isinstance(v, RecV) else None
                    self.store[r] = v.set(f, self.havoc_val(fv, ft, r.name + '.' + f))

    def havoc_val(self, v, t, hint):
        if isinstance(v, IterV):
            return IterV(v.lv, self.fresh(z3.IntSort(), hint))
        if isinstance(v, Opaque):
            return v
        if isinstance(v, PtrV):
            return v if False else self.havoc_ptr(v, t, hint)
        if t is None or t[0] in ('opaque', 'iter', 'ref'):
            t = self.typeof_val(v)
        return self.mk(t, hint)

    def havoc_ptr(self, v, t, hint):
        self.unsup('loop modifies a pointer variable (%s)' % hint)

    def auto_cands(self, mods, store_e, cond, rangeinfo, n):
        """generic candidate invariants; those that do not hold are dropped (Houdini)"""
        out = []
        ints = []
        for mkey in sorted(mods, key=str):
            if mkey[0] != 'root' or mkey[2] is not None:
                if mkey[0] == 'root':
                    for r, v in self.store.items():
                        if r.key == mkey[1] and isinstance(v, RecV):
                            a = v.get(mkey[2])
                            e = store_e[r].get(mkey[2]) if r in store_e and isinstance(store_e[r], RecV) else None
                            if isinstance(a, VecV) and isinstance(e, VecV):
                                out.append(('auto', 'auto:len(%s.%s) fixed' % (r.name, mkey[2]), a.len == e.len))
                continue
            for r, v in self.store.items():
                if r.key != mkey[1] or r not in store_e:
                    continue
                e = store_e[r]
                if isinstance(v, VecV) and isinstance(e, VecV):
                    out.append(('auto', 'auto:len(%s) fixed' % r.name, v.len == e.len))
                elif isinstance(v, IterV) and isinstance(e, IterV):
                    out.append(('auto', 'auto:%s>=entry' % r.name, v.pos >= e.pos))
                    ints.append((r, v.pos, e.pos))
                elif z3.is_expr(v) and z3.is_int(v) and z3.is_expr(e) and z3.is_int(e):
                    out.append(('auto', 'auto:%s>=entry' % r.name, v >= e))
                    out.append(('auto', 'auto:%s<=entry' % r.name, v <= e))
                    ints.append((r, v, e))
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                (r1, v1, e1), (r2, v2, e2) = ints[i], ints[j]
                out.append(('auto', 'auto:%s-%s in step' % (r1.name, r2.name), v1 - e1 == v2 - e2))
        # upper bound from the loop condition
        cn = None
        if n['kind'] == 'ForStmt':
            cn = (kids(n) + [{}] * 5)[2]
        elif n['kind'] == 'WhileStmt':
            cn = kids(n)[-2]
        if rangeinfo is not None:
            k = self.load(rangeinfo[1])
            out.append(('auto', 'auto:range index bound', k <= rangeinfo[2]))
        elif cn and cn.get('kind') == 'BinaryOperator' and cn['opcode'] in ('<', '!=', '<=', '>', '>=') and self.pure(cn):
            s = len(self.hyps)
            saf = self.c.safety
            try:
                self.c.safety = False
                l, r = kids(cn)
                a, b = self.evr(l), self.evr(r)
            finally:
                self.c.safety = saf
            if isinstance(a, IterV):
                a = a.pos
            if isinstance(b, IterV):
                b = b.pos
            if z3.is_expr(a) and z3.is_expr(b) and z3.is_int(a) and z3.is_int(b):
                op = cn['opcode']
                if op in ('<', '!='):
                    out.append(('auto', 'auto:condition bound', a <= b))
                elif op == '<=':
                    out.append(('auto', 'auto:condition bound', a <= b + 1))
                elif op == '>':
                    out.append(('auto', 'auto:condition bound', a >= b))
                elif op == '>=':
                    out.append(('auto', 'auto:condition bound', a >= b - 1))
        elif cn and cn.get('kind') in ('CXXOperatorCallExpr', 'ExprWithCleanups'):
            x = kids(cn)[0] if cn['kind'] == 'ExprWithCleanups' else cn
            if x.get('kind') == 'CXXOperatorCallExpr' and self.opname(x) in ('operator!=', 'operator<'):
                a, b = self.evr(kids(x)[1]), self.evr(kids(x)[2])
                if isinstance(a, IterV) and isinstance(b, IterV):
                    out.append(('auto', 'auto:condition bound', a.pos <= b.pos))
        return out

    # ------------------------------------------------------------ whole function
    def run(self):
        fn = self.tu.body[self.cid]
        ct = self.c
        self.fnstack.append(self.cid)
        self.push()
        rec = fn.get('_rec')
        isstatic = fn.get('storageClass') == 'static' or self.tu.decl[self.tu.canon(fn['id'])].get('storageClass') == 'static'
        isctor = fn['kind'] == 'CXXConstructorDecl'
        if rec and not isstatic:
            dyn = ct.dyn.get('this') or rec
            if ct.heap_this:
                oid = z3.Int('this')
                self.this = LV(HeapRoot(dyn, oid), (), ('rec', dyn))
            elif isctor:
                r = Root('this', ('rec', dyn), 0, 'this')
                self.store[r] = self.undefrec(dyn)
                self.this = LV(r, (), ('rec', dyn))
            else:
                r = Root('this', ('rec', dyn), 0, 'this')
                self.store[r] = self.mkrec(dyn, 'this')
                self.this = LV(r, (), ('rec', dyn))
        binds = []
        for i, p in enumerate(params(fn)):
            t = self.T.of(p['type'])
            nm = p.get('name') or 'p%d' % i
            b = self.mkparam(t, nm, p)
            binds.append(b)
            if t[0] == 'ref':
                self.frames[-1][p['id']] = b
            else:
                self.frames[-1][p['id']] = self.newroot(nm, t, b)
            self.names[-1][nm] = p['id']
        for g in ct.uses_globals:
            self.global_named(g)
        store0, heap0 = dict(self.store), dict(self.heap)
        ctx = Ctx(self, fn, self.this, binds, store0, heap0)
        self.entryctx = ctx
        if ct.setup:
            ct.setup(ctx)
            store0, heap0 = dict(self.store), dict(self.heap)
            ctx.store0, ctx.heap0 = store0, heap0
        if ct.pre:
            for lab, f in norm(ct.pre(ctx)):
                self.assume(f)
        self.pre_len = len(self.hyps)
        try:
            if isctor:
                self.ctor_inits(fn, self.this)
            try:
                self.stmt([x for x in kids(fn) if x['kind'] in ('CompoundStmt', 'CXXTryStmt')][0])
                ret = None
            except ReturnEx as e:
                ret = e.v
            rt = self.rettype(fn) if not isctor else ('void',)
            if rt[0] not in ('ref',) and ret is not None:
                ret = self.rv(ret)
            elif rt[0] == 'ref' and isinstance(ret, LV):
                ctx.retlv = ret
                ret = self.load(ret)
            ctx.ret = ret
            self.exit_reached = 'return'
            if ct.throws is not None:
                self.oblige('returns only when it must not throw', z3.Not(ct.throws(ctx)), 'post')
            if ct.aborts is not None:
                self.oblige('returns only when it must not abort', z3.Not(ct.aborts(ctx)), 'post')
            if ct.ret is not None:
                want = ct.ret(ctx)
                if isinstance(want, LV):
                    want = self.load(want)
                for lab, f in self.eq_parts(ret, want, 'result'):
                    self.oblige('postcondition: %s as specified' % lab, f, 'post')
            if ct.post:
                for lab, f in norm(ct.post(ctx)):
                    self.oblige('postcondition: %s' % lab, f, 'post')
            self.frame(ct, ctx, store0, heap0)
        except ThrowEx as e:
            self.exit_reached = 'throw'
            ctx.exc, ctx.exct = e.v, e.t
            if ct.aborts is not None:
                self.oblige('throws only when it must not abort', z3.Not(ct.aborts(ctx)), 'post')
            if ct.thrown is not None:
                for lab, f in norm(ct.thrown(ctx)):
                    self.oblige('exception: %s' % lab, f, 'post')
            if ct.throws is not None:
                self.oblige('throws only when specified', ct.throws(ctx), 'post')
            else:
                self.oblige('no exception leaves the function', FALSE, 'post')
        except AbortEx:
            self.exit_reached = 'abort'
            if ct.aborts is not None:
                self.oblige('aborts only when specified', ct.aborts(ctx), 'post')

    def eq_parts(self, a, b, lab):
        """component wise equalities of a result with its specification (unspecified parts of b are None)"""
        if b is None:
            return []
        if isinstance(b, Undef):
            return []
        if isinstance(a, Undef):
            a = self.mk(a.t, 'undef')
        if isinstance(b, RecV):
            out = []
            for f in (b.fields if b.base is None else dict(self.recfields(b.rec))):
                out += self.eq_parts(a.get(f), b.get(f), lab + '.' + f)
            return out
        if isinstance(b, ArrV):
            out = []
            for k, (x, y) in enumerate(zip(a.items, b.items)):
                out += self.eq_parts(x, y, '%s[%d]' % (lab, k))
            return out
        return [(lab, self.eqv(a, b))]

    def mkparam(self, t, nm, p):
        if t[0] == 'ref':
            return self.newroot(nm, t[1], self.mk(t[1], nm))
        if t[0] == 'ptr':
            inner = t[1]
            if re.match(r'^(const char|char const) ?\*( ?const)?$', p['type']['qualType']):
                return self.fresh(z3.StringSort(), nm)    # the text up to the terminating null
            if nm in self.c.dyn.get('null', ()):
                return PtrV(None, TRUE)
            nullable = self.c.dyn.get('nullable:' + nm)
            if 'shared_ptr' in p['type']['qualType'] and inner[0] == 'rec':
                return self.mk(t, nm)
            if inner[0] in ('rec',) and self.e.ptr_as_heap(inner[1], self.c):
                return self.mk(t, nm)
            if inner[0] in ('vec', 'rec', 'str', 'pair') or (inner[0] == 'ptr' and re.search(r'shared_ptr<.*> *\*( ?const)?$', p['type']['qualType'])):
                lv = self.newroot(nm + '*', inner, self.mk(inner, nm + '*'))
                return PtrV(lv, z3.Bool(nm + '.null') if self.c.dyn.get('nullable') and nm in self.c.dyn['nullable'] else FALSE)
            if inner[0] == 'ptr' and nm in self.c.dyn.get('arrays', ()):
                lv = self.newroot(nm + '*', ('vec', ('vec', inner[1])), self.mk(('vec', ('vec', inner[1])), nm + '*'))
                return IterV(lv, I0)
            if inner[0] in ('real', 'int', 'bool', 'arr', 'enum'):
                if nm in self.c.dyn.get('arrays', ()):
                    lv = self.newroot(nm + '*', ('vec', inner), self.mk(('vec', inner), nm + '*'))
                    return IterV(lv, I0)
                lv = self.newroot(nm + '*', inner, self.mk(inner, nm + '*'))
                return PtrV(lv, z3.Bool(nm + '.null') if nm in (self.c.dyn.get('nullable') or ()) else FALSE)
            return self.mk(t, nm)
        return self.mk(t, nm)

    def frame(self, ct, ctx, store0, heap0):
        """everything not listed as modified is unchanged"""
        mods = self.modlvs(ct, ctx)
        allowed_roots = {}
        allowed_heap = set()
        for lv in mods:
            if isinstance(lv, tuple):
                allowed_heap.add((lv[1], lv[2]))
                continue
            if isinstance(lv.root, HeapRoot):
                if lv.path:
                    allowed_heap.add((self.heaprec(lv.root.rec, lv.path[0][1]), lv.path[0][1], lv.root.oid))
                else:
                    for f, _ in self.recfields(lv.root.rec):
                        allowed_heap.add((self.heaprec(lv.root.rec, f), f, lv.root.oid))
                continue
            allowed_roots.setdefault(lv.root, []).append(lv.path)
        isctor = ctx.fn['kind'] == 'CXXConstructorDecl'
        for r, v0 in store0.items():
            v1 = self.store.get(r)
            if v1 is v0:
                continue
            if isctor and r.key == 'this':
                continue
            if r.name in [p.get('name') for p in params(ctx.fn)] and r.type[0] != 'ref' and self.isvalparam(ctx, r):
                continue   # by-value parameter
            paths = allowed_roots.get(r, [])
            if () in paths:
                continue
            if isinstance(v0, RecV) and isinstance(v1, RecV):
                for f in v1.fields:
                    if any(p and p[0] == ('f', f) and len(p) == 1 for p in paths):
                        continue
                    a = v1.get(f)
                    b = v0.get(f)
                    if a is b:
                        continue
                    if any(p and p[0] == ('f', f) for p in paths):
                        continue
                    self.oblige('frame: %s.%s unchanged' % (r.name, f), self.eqv(self.rv(a), self.rv(b)), 'frame')
            else:
                self.oblige('frame: %s unchanged' % r.name, self.eqv(self.rv(v1), self.rv(v0)), 'frame')
        for key, a1 in self.heap.items():
            a0 = heap0.get(key)
            if a0 is None:
                a0 = self.e.heap0[key][0]
            if a1 is a0 or a1.eq(a0) or key in allowed_heap:
                continue
            oids = [x[2] for x in allowed_heap if len(x) == 3 and x[:2] == key]
            o = z3.FreshConst(z3.IntSort(), 'o')
            pre = z3.And(*[o != x for x in oids]) if oids else TRUE
            newobjs = getattr(self, 'newobjs', [])
            if newobjs:
                pre = z3.And(pre, *[o != x for x in newobjs])
            if ct.allocates or getattr(self, 'callee_allocs', False):
                pre = z3.And(pre, ALLOC(o))
            self.oblige('frame: %s.%s of other objects unchanged' % key, z3.Implies(pre, z3.Select(a1, o) == z3.Select(a0, o)), 'frame')

    def isvalparam(self, ctx, r):
        for p, b in zip(params(ctx.fn), ctx.binds):
            if p.get('name') == r.name:
                t = self.T.of(p['type'])
                return t[0] != 'ref'
        return False


class Engine:
    def __init__(self, tu, types, contracts, dyn=None, ghost=None, heap_ptrs=()):
        self.tu, self.types = tu, types
        self.contracts = contracts
        self.dyn = dyn or {}
        self.ghost = ghost or {}
        self.contract_of = {}
        self.missing = []
        self.notes = set()
        self.addrs = {}
        self.heap0 = {}
        self.simple = {}
        self.inlined = set()
        self.inlined_ids = set()
        self.used_contracts = set()
        self.globals_used = set()
        self.nfeas = 0
        self.ordcache = {}
        self.heap_ptrs = set(heap_ptrs)
        self.externals = {}
        self._rf = {}
        for ct in contracts:
            ids = self.resolve(ct)
            ct.ids = ids
            for c in ids:
                # a contract for call sites is not displaced by one that is only proved
                if ct.modular or c not in self.contract_of:
                    self.contract_of[c] = ct

    def check_skip(self, ct, label):
        if not any(o.label == label and o.verify and o.name == ct.name and o.ids == ct.ids for o in self.contracts):
            raise Undecided('no other contract %s' % label)

    def ptr_as_heap(self, rec, ct):
        return rec in self.heap_ptrs or rec in ct.dyn.get('heap_ptrs', ())

    def resolve(self, ct):
        out = []
        for c in self.tu.byname.get(ct.name, []):
            n = self.tu.body.get(c) or self.tu.decl[c]
            if n.get('isImplicit') or n.get('_pattern'):
                continue
            if ct.sig is not None and not re.search(ct.sig, n['type']['qualType']):
                continue
            if ct.nparams is not None and len(params(n)) != ct.nparams:
                continue
            if ct.mangled is not None and not re.search(ct.mangled, n.get('mangledName') or ''):
                continue
            if ct.targs is not None and list(self.targs_of(c, n)) != [str(x) for x in ct.targs]:
                continue
            out.append(c)
        return out

    def targs_of(self, c, n):
        return n.get('_targs') or self.tu.decl[c].get('_targs') or []

    def box(self, t):
        """pseudo record holding a value of type t that lives on the heap"""
        name = '@' + sname(self.types.sort(t))
        self._rf[name] = [('data', t)]
        return name

    def recfields(self, rec):
        if rec not in self._rf:
            self._rf[rec] = self.types.allfields(rec)
        return self._rf[rec]

    def declrec(self, rec, f):
        """declaring record of field f (or ghost field f) for an object of static type rec"""
        key = (rec, f, 'd')
        if key not in self._rf:
            self._rf[key] = self._declrec(rec, f) or rec
        return self._rf[key]

    def _declrec(self, rec, f):
        if (rec, f) in self.ghost:
            return rec
        if rec in self.tu.records:
            if any(x['name'] == f for x in self.tu.fields(rec)):
                return rec
            for b in self.tu.bases(rec):
                bt = self.types.parse(b)
                r = self._declrec(bt[1], f) if bt[0] == 'rec' else None
                if r:
                    return r
        return None

    def digest(self, cid):
        """digest of the function and of everything inlined into it, and the nesting of the loops the contract speaks about"""
        ids = sorted({cid} | self.inlined_ids, key=lambda c: (c != cid, self.tu.qual.get(c, '?'), source_digest(self.tu.body[c]) if c in self.tu.body else ''))
        h, skel = [], []
        for c in ids:
            if c not in self.tu.body:
                continue
            h.append(self.tu.qual.get(c, '?') + source_digest(self.tu.body[c]))
            dep = []

            def w(x, d):
                lp = x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
                if lp:
                    dep.append(d)
                for y in kids(x):
                    if isinstance(y, dict):
                        w(y, d + lp)
            w(self.tu.body[c], 0)
            if dep:
                skel.append([self.tu.qual.get(c, '?'), dep])
        return hashlib.sha256('|'.join(h).encode()).hexdigest()[:16], skel

    def loop_ordinal(self, cid, nid):
        if cid not in self.ordcache:
            m = {}

            def w(x):
                if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                    m[x['id']] = len(m)
                for y in kids(x):
                    if isinstance(y, dict):
                        w(y)
            w(self.tu.body[cid])
            self.ordcache[cid] = m
        return self.ordcache[cid].get(nid, -1)

    # -------------------------------------------------------------------
    def generate(self, ct, cid, dropped, mods=None, max_paths=3000, deadline=None):
        """all obligations of one function; returns (obligations, stats)"""
        persist = {'mods': mods if mods is not None else {}, 'dropped': dropped, 'wants': {}}
        if not persist['mods'] and ct.loops is not None:
            # what the loops write is found first, without invariants or obligations; the runs below check it again
            persist['discover'] = True
            for attempt in range(60):
                n = sum(len(x) for x in persist['mods'].values())
                try:
                    self._generate(ct, cid, persist, max_paths, deadline)
                except Restart:
                    pass
                except (Undecided, Unsupported):
                    break
                if n == sum(len(x) for x in persist['mods'].values()):
                    persist['mods']['discovered'] = {'ok'}
                    break
        persist['discover'] = False
        for attempt in range(400):
            try:
                return self._generate(ct, cid, persist, max_paths, deadline)
            except Restart:
                continue
        raise Undecided('write sets did not stabilise')

    def _generate(self, ct, cid, persist, max_paths, deadline):
        work = [[]]
        obls = []
        npaths = 0
        exits = {'return': 0, 'throw': 0, 'abort': 0}
        vac = []
        persist['dirty'] = False
        ndirty = 0
        while work:
            prefix = work.pop()
            p = Path(self, ct, cid, prefix, persist)
            npaths += 1
            if npaths > max_paths:
                raise Undecided('more than %d paths' % max_paths)
            if deadline and time.time() > deadline:
                raise Undecided('generation time limit')
            try:
                p.run()
            except PathEnd:
                pass
            except (Undecided, Unsupported):
                if persist['dirty']:
                    raise Restart()
                raise
            if persist['dirty']:
                ndirty += 1
                work += p.alts
                if ndirty > 60 or not work:
                    raise Restart()
                continue
            if persist['discover']:
                ndirty += 1
                work += p.alts
                if ndirty > 200:
                    raise Undecided('discovery')
                continue
            if p.exit_reached:
                exits[p.exit_reached] += 1
                if p.exit_reached == 'return' and len(vac) < 3:
                    vac.append(list(p.hyps))
            obls += p.obls
            work += p.alts
        return obls, dict(paths=npaths, exits=exits, exit_hyps=vac)
