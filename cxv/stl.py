"""Trusted models of the parts of the C++ standard library that the verified functions use."""
import re
import z3
from fractions import Fraction
from .ctypes_ import *
from .ast import kids, params
from . import engine as E

I0, I1 = z3.IntVal(0), z3.IntVal(1)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ------------------------------------------------------------------ defaults
def default(p, t):
    k = t[0]
    if k in ('int', 'enum', 'ptr'):
        return I0
    if k == 'real':
        return z3.RealVal(0)
    if k == 'bool':
        return FALSE
    if k == 'str':
        return z3.StringVal('')
    if k == 'vec':
        et = t[1]
        try:
            d = p.pack(default(p, et), et)
        except (Unsupported, E.Undecided):
            d = z3.FreshConst(p.T.sort(et), 'dflt')
        a = z3.K(z3.IntSort(), d)
        cnt_empty(p, et, a)
        return VecV(et, I0, a)
    if k == 'arr':
        return ArrV(t[1], [default(p, t[1]) for _ in range(t[2])])
    if k == 'pair':
        return PairV(t, default(p, t[1]), default(p, t[2]))
    if k == 'rec':
        rec = t[1]
        name = rec.split('<')[0].split('::')[-1]
        for c in p.tu.byname.get(rec + '::' + name, []):
            if c in p.tu.body and len(params(p.tu.body[c])) == 0 and not p.tu.body[c].get('isImplicit'):
                return p.construct_with(rec, c, p.tu.body[c], [], None)
        v = {}
        for f, ft in p.recfields(rec):
            d = default_member(p, rec, f, ft)
            v[f] = d if d is not None else Undef(ft)
        return RecV(rec, v)
    if k in ('opaque', 'map', 'iter'):
        return Opaque(str(t))
    p.unsup('default value of %r' % (t,))


def default_member(p, rec, f, ft):
    """value of a member without constructor initialiser: its in-class initialiser, or default construction"""
    drec = p.e.declrec(rec, f)
    for x in p.tu.fields(drec):
        if x['name'] == f:
            ini = [y for y in kids(x) if y.get('kind') not in ('FullComment',) and not y.get('kind', '').endswith('Attr')]
            if x.get('hasInClassInitializer') and ini:
                return p.rv(p.ev(ini[-1]))
    if ft[0] in ('vec', 'str', 'rec', 'pair', 'map', 'opaque'):
        try:
            return default(p, ft)
        except (Unsupported, E.Undecided):
            return Undef(ft)
    if ft[0] == 'ptr' and 'shared_ptr' in str([x['type'] for x in p.tu.fields(drec) if x['name'] == f]):
        return I0
    return Undef(ft)


def cnt_empty(p, et, a):
    if p.c.bags and et[0] in ('int', 'ptr'):
        x = z3.Int('x!q')
        p.assume(E.FA([x], E.CNT(a, I0, x) == 0, patterns=[E.CNT(a, I0, x)]))


def isbag(p, et):
    return p.c.bags and et[0] in ('int', 'ptr')


def initlist(p, t, ks, n):
    if t[0] == 'vec':
        vals = [p.pack(conv(p, p.evr(x), t[1]), t[1]) for x in ks]
        v = default(p, t)
        a = v.arr
        for i, x in enumerate(vals):
            a2 = z3.Store(a, z3.IntVal(i), x)
            if isbag(p, t[1]):
                cnt_push(p, a, z3.IntVal(i), a2, x)
            a = a2
        return VecV(t[1], z3.IntVal(len(vals)), a)
    if t[0] == 'arr':
        # std::array has one inner brace level
        if len(ks) == 1 and ks[0]['kind'] == 'InitListExpr' and p.ty(ks[0])[0] == 'arr':
            return p.ev(ks[0])
        items = [p.rv(p.ev(x)) for x in ks if x.get('kind')]
        while len(items) < t[2]:
            items.append(default(p, t[1]))
        return ArrV(t[1], items[:t[2]])
    if t[0] == 'pair':
        return PairV(t, p.evr(ks[0]), p.evr(ks[1]))
    if t[0] == 'rec':
        fs = p.recfields(t[1])
        v = {}
        for (f, ft), x in zip(fs, ks):
            v[f] = p.evr(x)
        for f, ft in fs[len(ks):]:
            v[f] = default(p, ft)
        return RecV(t[1], v)
    if len(ks) == 1:
        return p.evr(ks[0])
    if not ks:
        return default(p, t)
    p.unsup('initialiser list for %r' % (t,))


def conv(p, v, t):
    if t[0] == 'real' and z3.is_expr(v) and z3.is_int(v):
        return z3.ToReal(v)
    if t[0] == 'bool' and z3.is_expr(v) and z3.is_int(v):
        return v != 0
    if t[0] == 'int' and z3.is_expr(v) and z3.is_bool(v):
        return z3.If(v, I1, I0)
    return v


def construct(p, t, argn, n):
    argn = [a for a in argn if a.get('kind')]
    k = t[0]
    if k == 'opaque' or k == 'iter' or k == 'map':
        if len(argn) == 1:
            try:
                v = p.evr(argn[0])
            except E.Undecided:
                return Opaque(str(t))
            if isinstance(v, (IterV, LamV, Opaque)):
                return v
        if 'back_insert' in str(t):
            v = p.evr(argn[0])
            return v
        return Opaque(str(t))
    # an allocator argument is not interesting
    real = [a for a in argn if not (a['kind'] == 'CXXDefaultArgExpr')]
    if k == 'vec':
        if not real:
            return default(p, t)
        if len(real) == 1:
            v = p.evr(real[0])
            if isinstance(v, VecV):
                return v
            if z3.is_expr(v) and z3.is_int(v):
                return vec_fill(p, t[1], v, None)
            p.unsup('vector constructor')
        if len(real) == 2:
            a = p.evr(real[0])
            if isinstance(a, IterV):
                b = p.evr(real[1])
                return vec_range(p, t[1], a, b)
            b = p.evr(real[1])
            return vec_fill(p, t[1], a, conv(p, b, t[1]))
        p.unsup('vector constructor')
    if k == 'str':
        if not real:
            return z3.StringVal('')
        v = p.evr(real[0])
        if z3.is_expr(v) and v.sort() == z3.StringSort():
            return v
        if isinstance(v, IterV):
            return z3.FreshConst(z3.StringSort(), 'cstr')
        p.unsup('string constructor')
    if k == 'pair':
        if not real:
            return default(p, t)
        if len(real) == 1:
            return p.evr(real[0])
        return PairV(t, conv(p, p.evr(real[0]), t[1]), conv(p, p.evr(real[1]), t[2]))
    if k == 'arr':
        if not real:
            return Undef(t)
        return p.evr(real[0])
    if k == 'ptr':
        if not real:
            return I0
        v = p.evr(real[0])
        return v
    if len(real) == 1:
        return conv(p, p.evr(real[0]), t)
    if not real:
        return default(p, t)
    p.unsup('constructor of %r' % (t,))


def vec_fill(p, et, n, v):
    if p.c.safety and not (z3.is_int_value(n)):
        p.oblige('vector size is not negative', n >= 0, 'safety')
    if v is None:
        d = default(p, ('vec', et))
        x = None
        if et[0] != 'opaque':
            try:
                x = p.pack(default(p, et), et)
            except (Unsupported, E.Undecided):
                x = z3.FreshConst(p.T.sort(et), 'dflt')
    else:
        x = p.pack(v, et)
    a = z3.K(z3.IntSort(), x)
    if isbag(p, et):
        y = z3.Int('x!q')
        p.assume(E.FA([y], E.CNT(a, n, y) == z3.If(y == x, n, I0), patterns=[E.CNT(a, n, y)]))
    return VecV(et, n, a)


def vec_range(p, et, a, b):
    """[a,b) of one container as a new vector"""
    src = p.load(a.lv)
    if isinstance(src, ArrV):
        items = src.items
        st, en = E.simp(a.pos), E.simp(b.pos)
        if z3.is_int_value(st) and z3.is_int_value(en):
            arr = z3.K(z3.IntSort(), p.pack(default(p, et), et))
            for i, x in enumerate(items[st.as_long():en.as_long()]):
                arr = z3.Store(arr, z3.IntVal(i), p.pack(x, et))
            return VecV(et, z3.IntVal(en.as_long() - st.as_long()), arr)
        p.unsup('vector from array range')
    if z3.is_int_value(a.pos) and a.pos.as_long() == 0 and E.simp(b.pos).eq(E.simp(src.len)):
        return VecV(et, src.len, src.arr)
    if p.c.safety:
        p.oblige('range is inside the container', z3.And(0 <= a.pos, a.pos <= b.pos, b.pos <= src.len), 'safety')
    arr = p.fresh(src.arr.sort(), 'rng')
    k = z3.Int('k!q')
    p.assume(E.FA([k], z3.Implies(z3.And(0 <= k, k < b.pos - a.pos), z3.Select(arr, k) == z3.Select(src.arr, k + a.pos)), patterns=[z3.Select(arr, k)]))
    return VecV(et, b.pos - a.pos, arr)


# ------------------------------------------------------------------ counting facts
def cnt_push(p, a, n, a2, v):
    x = z3.Int('x!q')
    p.assume(E.FA([x], E.CNT(a2, n + 1, x) == E.CNT(a, n, x) + z3.If(x == v, I1, I0), patterns=[E.CNT(a2, n + 1, x)]))


def push_back(p, lv, val):
    v = p.load(lv)
    if isinstance(v, Undef):
        p.unsup('push_back on undefined vector')
    x = p.pack(conv(p, val, v.et), v.et)
    a = z3.Store(v.arr, v.len, x)
    n2 = E.simp(v.len + 1) if z3.is_int_value(v.len) else v.len + 1
    if isbag(p, v.et):
        y = z3.Int('x!q')
        p.assume(E.FA([y], E.CNT(a, n2, y) == E.CNT(v.arr, v.len, y) + z3.If(y == x, I1, I0), patterns=[E.CNT(a, n2, y)]))
    p.save(lv, VecV(v.et, n2, a))


def concrete_items(v):
    """the element terms of a vector of known constant length"""
    n = E.simp(v.len)
    if z3.is_int_value(n) and 0 <= n.as_long() <= 64:
        return [E.sel(v.arr, z3.IntVal(i)) for i in range(n.as_long())]
    return None


def from_items(p, et, items):
    s = p.T.sort(et)
    arr = None
    try:
        arr = z3.K(z3.IntSort(), p.pack(default(p, et), et))
    except (Unsupported, E.Undecided):
        arr = z3.K(z3.IntSort(), z3.FreshConst(s, 'dflt'))
    for i, x in enumerate(items):
        arr = z3.Store(arr, z3.IntVal(i), x)
    return arr


def vec_insert(p, lv, pos, m, srcf, srccnt=None):
    """insert m elements srcf(j) at position pos"""
    v = p.load(lv)
    if p.c.safety:
        p.oblige('insert position is inside the container', z3.And(0 <= pos, pos <= v.len, m >= 0), 'safety')
    na = p.fresh(v.arr.sort(), 'ins')
    k = z3.Int('k!q')
    S = z3.Select
    p.assume(E.FA([k], z3.And(z3.Implies(z3.And(0 <= k, k < pos), S(na, k) == S(v.arr, k)),
                                   z3.Implies(z3.And(pos <= k, k < pos + m), S(na, k) == srcf(k - pos)),
                                   z3.Implies(z3.And(pos + m <= k, k < v.len + m), S(na, k) == S(v.arr, k - m))), patterns=[S(na, k)]))
    # the same facts addressed from the old contents
    p.assume(E.FA([k], z3.And(z3.Implies(z3.And(0 <= k, k < pos), S(na, k) == S(v.arr, k)),
                                   z3.Implies(z3.And(pos <= k, k < v.len), S(na, k + m) == S(v.arr, k))), patterns=[S(v.arr, k)]))
    n2 = v.len + m
    if isbag(p, v.et) and srccnt is not None:
        x = z3.Int('x!q')
        p.assume(E.FA([x], E.CNT(na, n2, x) == E.CNT(v.arr, v.len, x) + srccnt(x), patterns=[E.CNT(na, n2, x)]))
    p.save(lv, VecV(v.et, n2, na))


def vec_erase(p, lv, pos):
    v = p.load(lv)
    if p.c.safety:
        p.oblige('erased position is inside the container', z3.And(0 <= pos, pos < v.len), 'safety')
    na = p.fresh(v.arr.sort(), 'ers')
    k = z3.Int('k!q')
    S = z3.Select
    p.assume(E.FA([k], z3.And(z3.Implies(z3.And(0 <= k, k < pos), S(na, k) == S(v.arr, k)),
                                   z3.Implies(z3.And(pos <= k, k < v.len - 1), S(na, k) == S(v.arr, k + 1))), patterns=[S(na, k)]))
    p.assume(E.FA([k], z3.And(z3.Implies(z3.And(0 <= k, k < pos), S(na, k) == S(v.arr, k)),
                                   z3.Implies(z3.And(pos < k, k < v.len), S(na, k - 1) == S(v.arr, k))), patterns=[S(v.arr, k)]))
    n2 = v.len - 1
    if isbag(p, v.et):
        x = z3.Int('x!q')
        p.assume(E.FA([x], E.CNT(na, n2, x) == E.CNT(v.arr, v.len, x) - z3.If(x == S(v.arr, pos), I1, I0), patterns=[E.CNT(na, n2, x)]))
    p.save(lv, VecV(v.et, n2, na))
    return IterV(lv, pos)


def vec_resize(p, lv, n, val=None):
    v = p.load(lv)
    if isinstance(v, Undef):
        v = default(p, v.t)
    if p.c.safety and not z3.is_int_value(n):
        p.oblige('vector size is not negative', n >= 0, 'safety')
    d = p.pack(val if val is not None else default(p, v.et), v.et)
    ln = E.simp(v.len)
    if z3.is_int_value(ln) and ln.as_long() == 0:
        a = z3.K(z3.IntSort(), d)
        if isbag(p, v.et):
            y = z3.Int('x!q')
            p.assume(E.FA([y], E.CNT(a, n, y) == z3.If(y == d, n, I0), patterns=[E.CNT(a, n, y)]))
        p.save(lv, VecV(v.et, n, a))
        return
    a = p.fresh(v.arr.sort(), 'rsz')
    k = z3.Int('k!q')
    p.assume(E.FA([k], z3.Select(a, k) == z3.If(k < v.len, z3.Select(v.arr, k), d), patterns=[z3.Select(a, k)]))
    if isbag(p, v.et):
        x, m = z3.Int('x!q'), z3.Int('m!q')
        # a prefix common to both counts the same; the last element dropped is no longer counted
        p.assume(E.FA([x, m], z3.Implies(m <= v.len, E.CNT(a, m, x) == E.CNT(v.arr, m, x)), patterns=[E.CNT(a, m, x)]))
        p.assume(z3.Implies(z3.And(n >= 0, n == v.len - 1), E.FA([x], E.CNT(v.arr, n, x) == E.CNT(v.arr, v.len, x) - z3.If(z3.Select(v.arr, n) == x, I1, I0), patterns=[E.CNT(v.arr, n, x)])))
    p.save(lv, VecV(v.et, n, a))


def range_cnt(p, it, en):
    """multiset of [it,en) when it is the whole container"""
    v = p.load(it.lv)
    if isinstance(v, VecV) and z3.is_int_value(E.simp(it.pos)) and E.simp(it.pos).as_long() == 0 and E.simp(en.pos - v.len).eq(I0):
        return lambda x: E.CNT(v.arr, v.len, x)
    return None


def contents(p, it):
    v = p.load(it.lv)
    return v


# ------------------------------------------------------------------ algorithms
def find(p, first, last, val):
    v = p.load(first.lv)
    if isinstance(v, ArrV):
        # constant array: case split
        items = v.items
        st, en = E.simp(first.pos).as_long(), E.simp(last.pos).as_long()
        r = z3.IntVal(en)
        for i in range(en - 1, st - 1, -1):
            r = z3.If(p.eqv(items[i], val), z3.IntVal(i), r)
        return IterV(first.lv, E.simp(r))
    if not isinstance(v, VecV):
        p.unsup('std::find over %s' % type(v).__name__)
    items = concrete_items(v)
    x = p.pack(val, v.et)
    a, b = E.simp(first.pos), E.simp(last.pos)
    if items is not None and z3.is_int_value(a) and z3.is_int_value(b) and len(items) <= 4:
        r = b
        for i in range(b.as_long() - 1, a.as_long() - 1, -1):
            r = z3.If(items[i] == x, z3.IntVal(i), r)
        return IterV(first.lv, E.simp(r))
    pos = p.fresh(z3.IntSort(), 'found')
    k = z3.Int('k!q')
    p.assume(z3.And(first.pos <= pos, pos <= last.pos))
    p.assume(z3.Implies(pos < last.pos, z3.Select(v.arr, pos) == x))
    p.assume(E.FA([k], z3.Implies(z3.And(first.pos <= k, k < pos), z3.Select(v.arr, k) != x), patterns=[z3.Select(v.arr, k)]))
    if isbag(p, v.et) and z3.is_int_value(a) and a.as_long() == 0:
        p.assume((pos < last.pos) == (E.CNT(v.arr, last.pos, x) >= 1))
        p.assume(E.CNT(v.arr, last.pos, x) >= 0)
    return IterV(first.lv, pos)


def copy(p, first, last, dst, n):
    src = p.load(first.lv)
    m = E.simp(last.pos - first.pos)
    if isinstance(dst, Opaque):
        return dst
    if isinstance(dst, PtrV):
        # back_inserter is represented by a pointer to the container
        lv = dst.lv
        v = p.load(lv)
        if isinstance(src, VecV):
            vec_insert(p, lv, v.len, m, lambda j: z3.Select(src.arr, j + first.pos), range_cnt(p, first, last))
            return dst
        p.unsup('std::copy to back_inserter')
    d = p.load(dst.lv)
    if z3.is_int_value(m):
        for j in range(m.as_long()):
            a = E.simp(first.pos + j)
            b = E.simp(dst.pos + j)
            val = p.load(p.elem(first.lv, a, n, check=p.c.safety))
            p.save(p.elem(dst.lv, b, n, check=p.c.safety), val)
        return IterV(dst.lv, E.simp(dst.pos + m))
    if isinstance(src, ArrV) or isinstance(d, ArrV) or isinstance(src, Undef) or isinstance(d, Undef):
        # small fixed arrays: element-wise conditional copy
        et = src.et if hasattr(src, 'et') else src.t[1]
        if isinstance(src, Undef):
            src = p.mk(src.t, 'undef')
        if isinstance(d, Undef):
            d = p.mk(d.t, 'undef')
        cap = min(len(x.items) for x in (src, d) if isinstance(x, ArrV))
        fp, dp = E.simp(first.pos), E.simp(dst.pos)
        if not (z3.is_int_value(fp) and z3.is_int_value(dp)):
            p.unsup('std::copy at a variable position of a fixed array')
        if p.c.safety:
            p.oblige('copied range fits', z3.And(m >= 0, m <= cap), 'safety', n)
        for j in range(cap):
            sv = p.proj(src, ('i', z3.IntVal(fp.as_long() + j)))
            ov = p.proj(d, ('i', z3.IntVal(dp.as_long() + j)))
            d = p.upd(d, (('i', z3.IntVal(dp.as_long() + j)),), p.ite(z3.IntVal(j) < m, sv, ov), None)
        p.save(dst.lv, d)
        return IterV(dst.lv, dst.pos + m)
    if p.c.safety:
        p.oblige('copied range fits', z3.And(m >= 0, 0 <= first.pos, last.pos <= src.len, 0 <= dst.pos, dst.pos + m <= d.len), 'safety', n)
    na = p.fresh(d.arr.sort(), 'cpy')
    k = z3.Int('k!q')
    S = z3.Select
    p.assume(E.FA([k], S(na, k) == z3.If(z3.And(dst.pos <= k, k < dst.pos + m), S(src.arr, k - dst.pos + first.pos), S(d.arr, k)), patterns=[S(na, k)]))
    p.save(dst.lv, VecV(d.et, d.len, na))
    return IterV(dst.lv, dst.pos + m)


def free_call(p, name, argn, n):
    argn = [a for a in argn if a.get('kind')]
    if name in ('fabs', 'abs'):
        v = p.toint(p.ev(argn[0]))
        return z3.If(v >= 0, v, -v)
    if name == 'sqrt':
        v = p.evr(argn[0])
        if z3.is_int(v):
            v = z3.ToReal(v)
        s = E.SQRT(v)
        p.assume(z3.Implies(v >= 0, z3.And(s >= 0, s * s == v)))
        return s
    if name == 'cbrt':
        v = p.evr(argn[0])
        f = z3.Function('cbrt_', z3.RealSort(), z3.RealSort())
        s = f(v)
        p.assume(s * s * s == v)
        return s
    if name in ('sin', 'cos', 'tan', 'atan', 'atan2', 'acos', 'exp', 'log', 'floor', 'ceil'):
        vs = [p.evr(a) for a in argn]
        if name == 'floor':
            return z3.ToReal(z3.ToInt(vs[0]))
        if name == 'ceil':
            return -z3.ToReal(z3.ToInt(-vs[0]))
        f = z3.Function(name + '_', *([z3.RealSort()] * (len(vs) + 1)))
        return f(*vs)
    if name == 'pow':
        b, e = p.toint(p.ev(argn[0])), p.toint(p.ev(argn[1]))
        e2 = E.simp(e)
        if z3.is_rational_value(e2) or z3.is_int_value(e2):
            fr = e2.as_fraction() if z3.is_rational_value(e2) else Fraction(e2.as_long())
            if fr.denominator == 1 and 0 <= fr.numerator <= 6:
                if z3.is_int(b):
                    b = z3.ToReal(b)
                r = z3.RealVal(1)
                for _ in range(fr.numerator):
                    r = b if z3.is_rational_value(r) else r * b
                return E.simp(r) if E.is_num(b) else r
        f = z3.Function('pow_', z3.RealSort(), z3.RealSort(), z3.RealSort())
        b = z3.ToReal(b) if z3.is_int(b) else b
        e = z3.ToReal(e) if z3.is_int(e) else e
        return f(b, e)
    if name in ('min', 'max', 'fmin', 'fmax'):
        a, b = p.evr(argn[0]), p.evr(argn[1])
        if z3.is_int(a) and z3.is_real(b):
            a = z3.ToReal(a)
        if z3.is_real(a) and z3.is_int(b):
            b = z3.ToReal(b)
        return z3.If(b < a, b, a) if 'min' in name else z3.If(a < b, b, a)
    if name in ('move', 'forward', 'ref', 'cref', 'addressof') and len(argn) == 1:
        v = p.ev(argn[0])
        if name == 'addressof':
            return PtrV(v, FALSE)
        return v
    if name in ('begin', 'cbegin', 'end', 'cend'):
        lv = p.evlv(argn[0])
        v = p.load(lv)
        if 'begin' in name:
            return IterV(lv, I0)
        return IterV(lv, v.len if isinstance(v, VecV) else z3.IntVal(len(v.items)))
    if name == 'find':
        a, b = p.evr(argn[0]), p.evr(argn[1])
        return find(p, a, b, p.evr(argn[2]))
    if name == 'copy':
        a, b, d = p.evr(argn[0]), p.evr(argn[1]), p.evr(argn[2])
        return copy(p, a, b, d, n)
    if name == 'back_inserter':
        lv = p.evlv(argn[0])
        return PtrV(lv, FALSE)
    if name == 'swap':
        a, b = p.evlv(argn[0]), p.evlv(argn[1])
        x, y = p.load(a), p.load(b)
        p.save(a, y)
        p.save(b, x)
        return None
    if name == 'fill':
        a, b, v = p.evr(argn[0]), p.evr(argn[1]), p.evr(argn[2])
        src = p.load(a.lv)
        if isinstance(src, VecV) and E.simp(a.pos).eq(I0) and E.simp(b.pos - src.len).eq(I0):
            p.save(a.lv, VecV(src.et, src.len, z3.K(z3.IntSort(), p.pack(conv(p, v, src.et), src.et))))
            return None
        m = E.simp(b.pos - a.pos)
        if z3.is_int_value(m):
            for j in range(m.as_long()):
                p.save(p.elem(a.lv, E.simp(a.pos + j), n), v)
            return None
        p.unsup('std::fill over a part')
    if name in ('make_shared', 'static_pointer_cast', 'const_pointer_cast'):
        if name != 'make_shared':
            return p.evr(argn[0])
        return make_shared(p, argn, n)
    if name == 'dynamic_pointer_cast':
        v = p.evr(argn[0])
        t = p.ty(n)
        return dyncast(p, v, t)
    if name == 'to_string':
        v = p.toint(p.ev(argn[0]))
        return E.FMTD(v) if z3.is_int(v) else E.FMTG(v)
    if name == 'make_pair':
        t = p.ty(n)
        return PairV(t, p.evr(argn[0]), p.evr(argn[1]))
    if name == 'get':
        v = p.evlv(argn[0])
        p.unsup('std::get')
    if name in ('abort', 'exit', 'terminate'):
        raise E.AbortEx()
    if name.startswith('MPI_') or name in ('printf', 'fprintf', '__assert_fail'):
        return p.external(name, argn, n)
    if name == 'snprintf':
        buf = p.evr(argn[0])
        fmt = p.evr(argn[2])
        v = p.toint(p.ev(argn[3]))
        s = E.FMTD(v) if z3.is_int(v) else E.FMTG(v)
        fs = fmt.as_string() if z3.is_string_value(fmt) else '?'
        if (fs, z3.is_int(v)) not in (('%d', True), ('%g', False)):
            s = z3.FreshConst(z3.StringSort(), 'printed')
        size = E.simp(p.toint(p.ev(argn[1])))
        # the text is cut at size-1 characters
        if z3.is_int_value(size):
            lim = 11 if z3.is_int(v) else 13
            p.assume(z3.Length(s) <= lim)
            s = z3.If(z3.Length(s) <= size - 1, s, z3.SubString(s, 0, size - 1))
        if p.c.safety:
            bv = p.load(buf.lv)
            cap = len(bv.items) if isinstance(bv, ArrV) else (bv.t[2] if isinstance(bv, Undef) else None)
            if cap is not None:
                p.oblige('formatted text fits its buffer', size <= cap, 'safety', n)
        p.cstr = getattr(p, 'cstr', {})
        p.cstr[buf.lv.root] = s
        return z3.Length(s)
    h = p.e.externals.get(name) if hasattr(p.e, 'externals') else None
    if h is not None:
        return h(p, argn, n)
    p.unsup('call to unmodelled function %s' % name, n)


def dyncast(p, v, t):
    """dynamic_pointer_cast: the pointer itself or null, depending on the object's dynamic type"""
    if t[0] == 'ref':
        t = t[1]
    rec = t[1][1] if t[1][0] == 'rec' else str(t[1])
    if isinstance(v, PtrV):
        p.unsup('dynamic cast of a pointer to a local')
    return z3.If(z3.And(v != 0, isa(rec)(v)), v, I0)


def isa(rec):
    """whether an object's dynamic type is rec or derives from it"""
    return z3.Function('isa_' + re.sub(r'\W', '_', rec), z3.IntSort(), z3.BoolSort())


def born_as(p, recn, oid):
    todo = [recn]
    while todo:
        r = todo.pop()
        p.assume(isa(r)(oid))
        for b in p.tu.bases(r):
            bt = p.T.parse(b)
            todo += [bt[1]] if bt[0] == 'rec' else []


def make_shared(p, argn, n):
    t = p.ty(n)
    if t[0] == 'ref':
        t = t[1]
    rec = t[1]
    if rec[0] == 'vec':
        vals = [p.evr(a) for a in argn]
        if not vals:
            v = default(p, rec)
        elif isinstance(vals[0], IterV):
            v = vec_range(p, rec[1], vals[0], vals[1])
        elif isinstance(vals[0], VecV):
            v = vals[0]
        elif len(vals) == 1:
            v = vec_fill(p, rec[1], p.toint(vals[0]), default(p, rec[1]))
        else:
            v = vec_fill(p, rec[1], p.toint(vals[0]), conv(p, vals[1], rec[1]))
        oid = new_oid(p, 'data')
        p.save(p.deref(oid, ('ptr', rec), n), v)
        return oid
    if rec[0] != 'rec':
        p.unsup('make_shared of %r' % (rec,))
    recn = rec[1]
    name = recn.split('<')[0].split('::')[-1]
    return new_object(p, recn, name, argn, n)


def pick_ctor(p, recn, name, argn):
    cands = []
    for c in p.tu.byname.get(recn + '::' + name, []):
        d = p.tu.body.get(c) or p.tu.decl[c]
        if d.get('_pattern') or d.get('kind') != 'CXXConstructorDecl':
            continue
        ps = params(p.tu.decl[c])
        pb = params(d)
        need = sum(1 for q, q2 in zip(ps, pb) if not (q.get('init') or q2.get('init')))
        if need <= len(argn) <= len(ps):
            ok = True
            for q, a in zip(pb, argn):
                tq, ta = p.T.of(q['type']), p.ty(a)
                tq = tq[1] if tq[0] == 'ref' else tq
                ta = ta[1] if ta[0] == 'ref' else ta
                if 'enum' in (tq[0], ta[0]) and tq[0] != ta[0] and tq[0] == 'enum':
                    ok = False
                if tq[0] != ta[0] and not (tq[0] in ('int', 'real', 'bool', 'enum') and ta[0] in ('int', 'real', 'bool', 'enum')):
                    ok = False
            if ok:
                cands.append(c)
    if len(cands) == 1:
        return cands[0]
    import os
    if os.environ.get('DBGC'):
        print(recn, [(p.tu.decl[c]['type']['qualType'], p.T.of(params(p.tu.decl[c])[0]['type'])) for c in p.tu.byname.get(recn + '::' + name, [])], [p.ty(a) for a in argn])
        print([[p.T.of(q['type']) for q in params(p.tu.decl[c])] for c in p.tu.byname.get(recn + '::' + name, [])])
    p.unsup('cannot select the constructor of %s' % recn)


def new_oid(p, name):
    oid = p.fresh(z3.IntSort(), 'new_' + name)
    p.newobjs = getattr(p, 'newobjs', []) + [oid]
    p.assume(oid > 0)
    p.assume(z3.Not(p.alloc(oid)))
    for o in p.newobjs[:-1]:
        p.assume(oid != o)
    return oid


def new_object(p, recn, name, argn, n):
    c = pick_ctor(p, recn, name, argn)
    fn = p.tu.body.get(c) or p.tu.decl[c]
    binds = p.bind(fn, argn)
    oid = new_oid(p, name)
    born_as(p, recn, oid)
    ct = p.contract_for(c)
    lv = LV(HeapRoot(recn, oid), (), ('rec', recn))
    if ct is not None:
        p.apply(ct, fn, lv, binds, n)
        return oid
    v = p.construct_with(recn, c, fn, binds, n)
    for f, ft in p.recfields(recn):
        x = v.get(f)
        if isinstance(x, (Undef, Opaque)):
            continue
        try:
            p.T.sort(ft)
        except Unsupported:
            continue
        p.save(lv.ext(('f', f), ft), x)
    return oid


# ------------------------------------------------------------------ members
def method_call(p, me, argn, n):
    name = me['name']
    argn = [a for a in argn if a.get('kind') and a['kind'] != 'CXXDefaultArgExpr']
    t = p.objtype(me)
    base = kids(me)[0]
    if t[0] == 'ptr':
        # shared_ptr members
        obj = p.ev(base)
        if name == 'get':
            return p.rv(obj)
        if name == 'lock':
            return p.rv(obj)
        if name == 'reset':
            p.save(obj, p.evr(argn[0]) if argn else I0)
            return None
        if name.startswith('operator'):
            return p.tobool(p.rv(obj))
        if name == 'use_count':
            return p.fresh(z3.IntSort(), 'use')
        p.unsup('shared_ptr::%s' % name)
    if t[0] == 'opaque' and t[1].endswith('_Bit_reference') and name == 'operator bool':
        return p.tobool(p.rv(p.ev(base)))
    if t[0] == 'opaque':
        obj = p.ev(base)
        o = p.rv(obj) if isinstance(obj, LV) else obj
        if isinstance(o, (IterV,)):
            p.unsup('iterator member %s' % name)
        if name == 'str' and hasattr(p, 'streams') and isinstance(obj, LV) and obj.root in p.streams:
            return p.streams[obj.root]
        if name in ('str', 'c_str', 'what'):
            return p.fresh(z3.StringSort(), 'text')
        if name in ('shared_from_this', 'weak_from_this') and isinstance(p.this, LV):
            if isinstance(p.this.root, E.HeapRoot):
                return p.this.root.oid
            q = z3.Int('shared_this')        # the owner of *this; its fields are those of *this
            p.assume(q > 0)
            p.assume(p.alloc(q))
            return q
        if not any(w in t[1] for w in ('stream', 'type_info', 'Errors::Message')):
            p.unsup('member %s of %s' % (name, t[1]))
        for a in argn:
            try:
                p.ev(a)
            except E.Undecided:
                pass
        if p.ty(n)[0] == 'void' or p.ty(n)[0] == 'opaque':
            return Opaque(name)
        p.unsup('member %s of %s' % (name, t[1]))
    if t[0] == 'str':
        return str_method(p, me, name, argn, n)
    if t[0] == 'arr' or t[0] == 'vec':
        lv = p.objlv(me)
        return vec_method(p, lv, t, name, argn, n)
    if t[0] == 'map':
        p.unsup('std::map::%s' % name)
    p.unsup('member %s of %r' % (name, t))


def str_method(p, me, name, argn, n):
    obj = p.ev(kids(me)[0])
    v = p.rv(obj)
    if name in ('size', 'length'):
        return z3.Length(v)
    if name == 'empty':
        return z3.Length(v) == 0
    if name in ('c_str', 'data'):
        return v
    if name == 'compare' and len(argn) == 1:
        w = p.evr(argn[0])
        return z3.If(v == w, I0, z3.If(v < w, z3.IntVal(-1), I1))
    if name in ('append', 'operator+='):
        w = p.evr(argn[0])
        p.save(obj, cat(v, strof(p, w)))
        return obj
    if name == 'clear':
        p.save(obj, z3.StringVal(''))
        return None
    if name in ('find',):
        w = strof(p, p.evr(argn[0]))
        i = z3.IndexOf(v, w, 0)
        return z3.If(i < 0, z3.IntVal(2 ** 64 - 1), i)
    if name == 'substr':
        a = p.evr(argn[0])
        b = p.evr(argn[1]) if len(argn) > 1 else z3.Length(v) - a
        return z3.SubString(v, a, b)
    p.unsup('string::%s' % name)


def cat(a, b):
    if z3.is_string_value(a) and a.as_string() == '':
        return b
    if z3.is_string_value(b) and b.as_string() == '':
        return a
    return z3.Concat(a, b)


def strof(p, v):
    if z3.is_expr(v) and v.sort() == z3.StringSort():
        return v
    if isinstance(v, IterV):
        cs = getattr(p, 'cstr', {})
        if v.lv.root in cs:
            return cs[v.lv.root]
    if z3.is_expr(v) and z3.is_int(v):
        return z3.StrFromCode(v)
    p.unsup('text value')


def vec_method(p, lv, t, name, argn, n):
    v = p.load(lv)
    if isinstance(v, Undef):
        if v.t[0] == 'arr':
            ln = z3.IntVal(v.t[2])
        else:
            p.unsup('use of an unconstructed vector')
    elif isinstance(v, ArrV):
        ln = z3.IntVal(len(v.items))
    else:
        ln = v.len
    if name == 'size':
        if z3.is_expr(ln) and not z3.is_int_value(ln):
            p.assume(ln >= 0)
        return ln
    if name == 'capacity':
        x = p.fresh(z3.IntSort(), 'cap')
        p.assume(x >= ln)
        return x
    if name == 'empty':
        return ln == 0
    if name in ('begin', 'cbegin', 'data'):
        return IterV(lv, I0)
    if name in ('end', 'cend'):
        return IterV(lv, ln)
    if name == 'at':
        i = p.toint(p.ev(argn[0]))
        return p.elem(lv, i, n, check=p.c.safety)
    if name == 'back':
        return p.elem(lv, E.simp(ln - 1), n, check=p.c.safety)
    if name == 'front':
        return p.elem(lv, I0, n, check=p.c.safety)
    if name == 'fill':
        x = p.evr(argn[0])
        p.save(lv, ArrV(v.et if hasattr(v, 'et') else v.t[1], [x] * ln.as_long()))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        for a in argn:
            p.ev(a)
        return None
    if name == 'clear':
        p.save(lv, default(p, ('vec', v.et)))
        return None
    if name in ('push_back', 'emplace_back'):
        if len(argn) == 1:
            x = p.evr(argn[0])
        elif v.et[0] == 'rec':
            nm = v.et[1].split('<')[0].split('::')[-1]
            c = pick_ctor(p, v.et[1], nm, argn)
            fn = p.tu.body.get(c) or p.tu.decl[c]
            x = p.construct_with(v.et[1], c, fn, p.bind(fn, argn), n)
        else:
            p.unsup('emplace_back with %d arguments' % len(argn))
        if v.et[0] == 'rec' and z3.is_expr(x) and z3.is_int(x):
            p.unsup('emplace_back conversion')
        push_back(p, lv, x)
        return None
    if name == 'pop_back':
        if p.c.safety:
            p.oblige('pop_back on a non-empty container', v.len > 0, 'safety', n)
        a = v.arr
        if isbag(p, v.et):
            x = z3.Int('x!q')
            p.assume(E.FA([x], E.CNT(a, v.len - 1, x) == E.CNT(a, v.len, x) - z3.If(x == z3.Select(a, v.len - 1), I1, I0), patterns=[E.CNT(a, v.len - 1, x)]))
        p.save(lv, VecV(v.et, E.simp(v.len - 1) if z3.is_int_value(v.len) else v.len - 1, a))
        return None
    if name == 'resize':
        m = p.toint(p.ev(argn[0]))
        val = conv(p, p.evr(argn[1]), v.et) if len(argn) > 1 else None
        vec_resize(p, lv, m, val)
        return None
    if name == 'assign':
        a = p.evr(argn[0])
        if len(argn) == 2:
            b = p.evr(argn[1])
            if isinstance(a, IterV):
                p.save(lv, vec_range(p, v.et, a, b))
            else:
                p.save(lv, vec_fill(p, v.et, a, conv(p, b, v.et)))
            return None
        p.save(lv, a)
        return None
    if name == 'erase':
        a = p.evr(argn[0])
        if len(argn) == 1:
            return vec_erase(p, lv, a.pos)
        p.unsup('range erase')
    if name in ('insert', 'emplace'):
        a = p.evr(argn[0])
        if len(argn) == 2:
            x = p.evr(argn[1])
            if isinstance(x, VecV) and v.et[0] != 'vec':
                vec_insert(p, lv, a.pos, x.len, lambda j: z3.Select(x.arr, j), lambda y: E.CNT(x.arr, x.len, y))
                return IterV(lv, a.pos)
            x = p.pack(conv(p, x, v.et), v.et)
            vec_insert(p, lv, a.pos, I1, lambda j: x, lambda y: z3.If(y == x, I1, I0))
            return IterV(lv, a.pos)
        if len(argn) == 3:
            b, c = p.evr(argn[1]), p.evr(argn[2])
            if isinstance(b, IterV):
                src = p.load(b.lv)
                m = c.pos - b.pos
                if isinstance(src, ArrV):
                    src = vec_range(p, v.et, b, c)
                    vec_insert(p, lv, a.pos, src.len, lambda j: z3.Select(src.arr, j), None)
                    return IterV(lv, a.pos)
                # appending to an empty vector of constant content
                if z3.is_int_value(E.simp(v.len)) and E.simp(v.len).as_long() == 0:
                    p.save(lv, vec_range(p, v.et, b, c))
                    return IterV(lv, a.pos)
                vec_insert(p, lv, a.pos, m, lambda j: z3.Select(src.arr, j + b.pos), range_cnt(p, b, c))
                return IterV(lv, a.pos)
            cc = p.pack(conv(p, c, v.et), v.et)
            vec_insert(p, lv, a.pos, b, lambda j: cc, None)
            return IterV(lv, a.pos)
    if name == 'swap':
        o = p.evlv(argn[0])
        x, y = p.load(lv), p.load(o)
        p.save(lv, y)
        p.save(o, x)
        return None
    p.unsup('vector::%s' % name)


# ------------------------------------------------------------------ operators
def operator_call(p, name, argn, n):
    t = p.argtype(argn[0])
    if name == 'operator[]':
        if t[0] == 'map':
            p.unsup('std::map')
        lv = p.evlv(argn[0])
        iv = p.toint(p.ev(argn[1]))
        v = p.load(lv)
        if isinstance(v, IterV):
            return p.elem(v.lv, E.add(v.pos, iv), n, check=p.c.safety)
        if lv.type is None or lv.type[0] not in ('vec', 'arr', 'str'):
            lv = LV(lv.root, lv.path, t)
        return p.elem(lv, iv, n, check=p.c.safety)
    if name in ('operator*', 'operator->') and len(argn) == 1:
        v = p.evr(argn[0])
        if name == 'operator->':
            return v if isinstance(v, (PtrV, IterV)) or z3.is_expr(v) else p.unsup('operator->')
        return p.deref(v, p.ty(argn[0]), n)
    if name in ('operator++', 'operator--'):
        lv = p.ev(argn[0])
        v = p.rv(lv)
        d = 1 if name == 'operator++' else -1
        if isinstance(v, IterV):
            p.save(lv, IterV(v.lv, E.simp(v.pos + d) if z3.is_int_value(v.pos) else v.pos + d))
            return v if len(argn) == 2 else lv
        p.unsup('increment of %s' % type(v).__name__)
    if name == 'operator=':
        v = p.evr(argn[1])
        lv = p.ev(argn[0])
        if isinstance(v, Opaque) and isinstance(lv, LV) and t[0] != 'opaque':
            p.unsup('assignment of an opaque value')
        if t[0] == 'str':
            v = strof(p, v)
        p.save(lv, v)
        return lv
    if name in ('operator==', 'operator!='):
        a, b = p.evr(argn[0]), p.evr(argn[1])
        e = p.eqv(a, b)
        return e if name == 'operator==' else z3.Not(e)
    if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
        a, b = p.evr(argn[0]), p.evr(argn[1])
        if isinstance(a, IterV):
            a, b = a.pos, b.pos
        return {'operator<': lambda: a < b, 'operator>': lambda: b < a, 'operator<=': lambda: z3.Not(b < a), 'operator>=': lambda: z3.Not(a < b)}[name]()
    if name in ('operator+', 'operator-'):
        a, b = p.evr(argn[0]), p.evr(argn[1])
        if z3.is_expr(a) and a.sort() == z3.StringSort() or z3.is_expr(b) and b.sort() == z3.StringSort():
            return cat(strof(p, a), strof(p, b))
        if isinstance(a, IterV) or isinstance(b, IterV):
            return p.arith(name[-1], a, b, n, ('int', True, 64))
    if name in ('operator+=', 'operator-='):
        lv = p.ev(argn[0])
        a, b = p.rv(lv), p.evr(argn[1])
        if z3.is_expr(a) and a.sort() == z3.StringSort():
            p.save(lv, cat(a, strof(p, b)))
            return lv
        if isinstance(a, IterV):
            p.save(lv, p.arith(name[-2], a, b, n, ('int', True, 64)))
            return lv
    if name == 'operator<<':
        a = p.ev(argn[0])
        av = p.rv(a) if isinstance(a, LV) else a
        if isinstance(av, (Opaque, Undef)) or t[0] == 'opaque':
            try:
                b = p.ev(argn[1])
                b = p.rv(b) if isinstance(b, LV) else b
            except E.Undecided:
                b = None
            return a
    if name == 'operator bool':
        return p.tobool(p.ev(argn[0]))
    if name == 'operator()':
        return p.call_lambda(argn)
    p.unsup('operator %s on %r' % (name, t), n)
