"""Equalities between real terms by rewriting with the ground equations among the hypotheses and comparing polynomial
normal forms (z3's simplifier, sum of monomials).  Every rewriting step replaces a term by a term the hypotheses equate
with it, so a zero normal form proves the goal from the hypotheses."""
import z3

DEBUG = None
SOM = dict(som=True, som_blowup=1000000, flat=True, mul_to_power=False, elim_ite=False)


def conj(f, out):
    if z3.is_and(f):
        for c in f.children():
            conj(c, out)
    else:
        out.append(f)


def atom(t):
    return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR)


def occurs(a, t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.eq(a):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            st.extend(x.children())
    return False


def weight(t):
    n = 0
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if z3.is_app(x):
            st.extend(x.children())
    return n


def prep(hyps, has_quant):
    """rewriting equations and literals among the hypotheses"""
    facts = []
    for h in hyps:
        if has_quant(h):
            continue
        conj(z3.simplify(h), facts)
    lits, eqs, impls = [], [], []

    def addfact(f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                addfact(c)
        elif z3.is_not(f):
            lits.append((f.arg(0), z3.BoolVal(False)))
            if z3.is_or(f.arg(0)):
                for c in f.arg(0).children():
                    addfact(z3.simplify(z3.Not(c)))
        elif z3.is_eq(f) and f.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
            eqs.append(f)
            lits.append((f, z3.BoolVal(True)))
        elif z3.is_or(f) or (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES):
            impls.append(f)
        elif z3.is_app(f) and z3.is_bool(f):
            lits.append((f, z3.BoolVal(True)))
    for f in facts:
        addfact(f)
    for _ in range(3):
        new = []
        both = lits + [(f.decl()(f.arg(1), f.arg(0)), v) for f, v in lits if z3.is_eq(f)]
        for f in impls:
            g = z3.simplify(z3.substitute(f, *both)) if both else f
            if z3.is_or(g) or (z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES):
                new.append(f)
            elif not z3.is_true(g):
                addfact(g)
        if len(new) == len(impls):
            break
        impls = new
    # a <= b and b <= a
    les = {}
    for f, val in list(lits):
        if z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE) and f.arg(0).sort() == z3.IntSort():
            a, b = f.arg(0), f.arg(1)
            if f.decl().kind() == z3.Z3_OP_GE:
                a, b = b, a
            if z3.is_false(val):
                a, b = b + 1, a
            d = z3.simplify(a - b, **SOM)
            les[d.get_id()] = (d, a, b)
    lv = list(les.values())
    for k, (d, a, b) in enumerate(lv):
        for d2, _, _ in lv[:k]:
            z = z3.simplify(d + d2, **SOM)
            if z3.is_int_value(z) and z.as_long() == 0:
                a, b = z3.simplify(a), z3.simplify(b)
                if not atom(a) and not atom(b):
                    a, b = d, z3.IntVal(0)
                eqs.append(a == b)
                break
    sub = []
    seen = set()

    def pick(a, b):
        cand = []
        for x, y in ((a, b), (b, a)):
            if atom(x) and not occurs(x, y):
                # constants made by the verifier are eliminated first, then larger applications
                cand.append((0 if x.num_args() == 0 and '!' in x.decl().name() else 1, -weight(x), x, y))
        if not cand:
            for s, o in ((a, b), (b, a)):
                if not z3.is_add(s):
                    continue
                chs = s.children()
                for k, ch in enumerate(chs):
                    neg = False
                    if z3.is_mul(ch) and ch.num_args() == 2 and z3.is_rational_value(ch.arg(0)) and ch.arg(0).as_fraction() == -1:
                        neg, ch = True, ch.arg(1)
                    if atom(ch) and not occurs(ch, o) and not any(occurs(ch, c2) for j, c2 in enumerate(chs) if j != k):
                        rest = z3.Sum([c2 for j, c2 in enumerate(chs) if j != k])
                        cand.append((2, -weight(ch), ch, z3.simplify(rest - o if neg else o - rest)))
        if not cand:
            return None
        cand.sort(key=lambda c: (c[0], c[1]))
        return cand[0][2], cand[0][3]
    eqs.sort(key=lambda e: 0 if e.arg(0).sort() == z3.IntSort() else 1)
    for e in eqs:
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        a, b = e.arg(0), e.arg(1)
        if sub:
            for _ in range(6):
                a2, b2 = z3.simplify(z3.substitute(a, *sub)), z3.simplify(z3.substitute(b, *sub))
                if a2.eq(a) and b2.eq(b):
                    break
                a, b = a2, b2
        if a.eq(b):
            continue
        c = pick(a, b)
        if c is None or weight(c[1]) > 20000:
            continue
        sub.append(c)
    lits = lits + [(f.decl()(f.arg(1), f.arg(0)), v) for f, v in lits if z3.is_eq(f)]
    return facts, sub, lits


def ring(hyps, goal, has_quant):
    if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort()):
        return False
    facts, sub, lits = prep(hyps, has_quant)
    impls = []
    d = z3.simplify(goal.arg(0) - goal.arg(1), **SOM)
    for rnd in range(14):
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        d2 = z3.substitute(d, *(sub + lits)) if sub or lits else d
        d2 = z3.simplify(d2, **SOM)
        if d2.eq(d):
            break
        if weight(d2) > 60000:
            break
        d = d2
    if DEBUG is not None:
        DEBUG.extend([d, 'SUB', sub, 'LITS', lits, 'IMPLS', impls])
    if z3.is_rational_value(d):
        return d.as_fraction() == 0
    if weight(d) > 20000:
        return False
    c = Canon()
    try:
        return not c.poly(d)
    except Big:
        return False


def boolring(hyps, goal, has_quant, ms=1500):
    """boolean goals over comparisons of real terms: rewrite, replace every comparison by a proposition named by its
    polynomial normal form, and decide what is left"""
    facts, sub, lits = prep(hyps, has_quant)
    c = Canon()
    names = {}
    memo = {}

    def rw(t):
        for _ in range(10):
            t2 = z3.simplify(z3.substitute(t, *sub)) if sub else t
            if t2.eq(t):
                break
            if weight(t2) > 20000:
                raise Big()
            t = t2
        return t

    def prop(kind, a, b):
        p = c.poly(rw(a - b))
        if not p:
            return z3.BoolVal(True)
        if list(p) == [()]:
            return z3.BoolVal(p[()] <= 0 if kind == 'le' else False)
        lead = p[min(p)]
        sc = abs(lead) if kind == 'le' else lead
        k = (kind, tuple(sorted((m, v / sc) for m, v in p.items())))
        if k not in names:
            names[k] = z3.Bool('cmp!%d' % len(names))
        return names[k]

    def tr(f):
        i = f.get_id()
        if i in memo:
            return memo[i][1]
        r = tr1(f)
        memo[i] = (f, r)
        return r

    def tr1(f):
        if z3.is_app(f) and f.num_args() and f.arg(0).sort() == z3.RealSort() and z3.is_bool(f):
            k = f.decl().kind()
            a = f.arg(0)
            if k == z3.Z3_OP_LE:
                return prop('le', a, f.arg(1))
            if k == z3.Z3_OP_GE:
                return prop('le', f.arg(1), a)
            if k == z3.Z3_OP_LT:
                return z3.Not(prop('le', f.arg(1), a))
            if k == z3.Z3_OP_GT:
                return z3.Not(prop('le', a, f.arg(1)))
            if k == z3.Z3_OP_EQ:
                return prop('eq', a, f.arg(1))
        if z3.is_app(f) and z3.is_bool(f) and f.num_args() and all(z3.is_bool(x) for x in f.children()) and f.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return f.decl()(*[tr(x) for x in f.children()])
        if z3.is_app(f) and z3.is_bool(f) and f.num_args() and not hasreal(f):
            return rw(f)
        return f
    isub = [(x, y) for x, y in sub if x.sort() == z3.IntSort()]
    s = z3.Solver()
    s.set('timeout', int(ms))
    try:
        g = tr(z3.simplify(goal))
        for f in facts:
            if z3.is_eq(f) and f.arg(0).sort() == z3.RealSort():
                continue
            s.add(tr(f))
        for x, y in isub:
            s.add(x == y)
        s.add(z3.Not(g))
        return s.check() == z3.unsat
    except (Big, RecursionError):
        return False


def hasreal(f):
    st = [f]
    while st:
        x = st.pop()
        if z3.is_expr(x) and x.sort() == z3.RealSort():
            return True
        st.extend(x.children())
    return False


class Big(Exception):
    pass


class Canon:
    """polynomial normal form over interned atoms; independent of the order of terms"""

    def __init__(self):
        self.atoms, self.memo = {}, {}

    def atom_id(self, key):
        return self.atoms.setdefault(key, len(self.atoms))

    def key(self, t):
        if z3.is_arith(t):
            return ('p', tuple(sorted(self.poly(t).items())))
        return self.fkey(t)

    def fkey(self, t):
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            return ('t', t.sexpr())
        ks = [self.key(x) for x in t.children()]
        if z3.is_and(t) or z3.is_or(t):
            ks = sorted(set(map(repr, ks)))
        return ('f', t.decl().name(), t.decl().kind(), tuple(ks))

    def mul(self, a, b):
        out = {}
        for m, x in a.items():
            for n, y in b.items():
                k = tuple(sorted(m + n))
                v = out.get(k, 0) + x * y
                if v == 0:
                    out.pop(k, None)
                else:
                    out[k] = v
            if len(out) > 40000:
                raise Big()
        return out

    def poly(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self.poly1(t)
        self.memo[i] = (t, r)
        return r

    def poly1(self, t):
        from fractions import Fraction
        if z3.is_int_value(t):
            v = Fraction(t.as_long())
            return {(): v} if v else {}
        if z3.is_rational_value(t):
            v = t.as_fraction()
            return {(): v} if v else {}
        if z3.is_add(t) or z3.is_sub(t):
            out = {}
            for k, x in enumerate(t.children()):
                sg = -1 if z3.is_sub(t) and k else 1
                for m, v in self.poly(x).items():
                    w = out.get(m, 0) + sg * v
                    if w == 0:
                        out.pop(m, None)
                    else:
                        out[m] = w
            return out
        if z3.is_mul(t):
            out = {(): Fraction(1)}
            for x in t.children():
                out = self.mul(out, self.poly(x))
            return out
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(t.arg(0)).items()}
        if z3.is_div(t):
            d = self.poly(t.arg(1))
            if list(d) == [()]:
                return {m: v / d[()] for m, v in self.poly(t.arg(0)).items()}
            # a/b is a times the (total) reciprocal of b
            inv = {(self.atom_id(('inv', tuple(sorted(d.items())))),): Fraction(1)}
            return self.mul(self.poly(t.arg(0)), inv)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            x = t.arg(0)
            return {(self.atom_id(('toreal', self.key(x))),): Fraction(1)} if not z3.is_int_value(x) else self.poly(x)
        return {(self.atom_id(self.fkey(t)),): Fraction(1)}
