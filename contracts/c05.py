"""C05: polygon and polyhedron measures (Geometry.cc)."""
from .common import *

G = 'JaliGeometry::'
R, Z = z3.RealSort(), z3.IntSort()


def fun(name, *s):
    return z3.Function(name, *s)


class Pts:
    """contents of a vector<Point> parameter with points of a known dimension"""

    def __init__(self, name, d):
        self.d = d
        self.f = [z3.Const('%s.%s' % (name, 'xyz'[k]), z3.ArraySort(Z, R)) for k in range(3)]

    def c(self, k, i):
        return z3.Select(self.f[k], i) if k < self.d else RealVal(0)

    def v(self, i):
        return V3(*[z3.Select(self.f[k], i) for k in range(self.d)])

    def install(self, c, argi):
        """make parameter argi the vector with these contents"""
        p = c.p
        et = p.paramtype(c.fn, argi)
        et = (et[1] if et[0] == 'ref' else et)[1]
        rs = p.T.sort(et)
        i = z3.Int('i!l')
        xs = p.T.sort(('arr', ('real',), 3))
        fl = [f for f, _ in p.T.allfields(et[1])]
        vals = {'d': IntVal(self.d), 'xyz': xs.constructor(0)(*[z3.Select(self.f[k], i) for k in range(3)])}
        body = rs.constructor(0)(*[vals[f] for f in fl])
        b = c.binds[argi]
        old = c.p.load(b) if isinstance(b, LV) else b
        nv = VecV(et, old.len, z3.Lambda([i], body))
        if isinstance(b, LV):
            p.store[b.root] = nv
        else:
            c.binds[argi] = nv
            from cxv.ast import params
            lv = p.frames[-1][params(c.fn)[argi]['id']]
            p.store[lv.root] = nv
        self.len = old.len


def setpoint(c, argi, d):
    """pointee point of parameter argi has dimension d"""
    lv = c._ref(argi)
    v = c.p.load(lv)
    c.p.save(lv, v.set('d', IntVal(d)))


def det3(a, b, c):
    return a.cross(b).dot(c)


# ------------------------------------------------------------------ polyhedron
def poly_spec(c):
    """recursive definitions of the moment sums (unfolded where needed)"""
    s = c.spec
    s.C = [fun('sumcc_%d' % k, Z, R) for k in range(3)]           # sum of the first n cell nodes
    s.F = [fun('sumfc_%d' % k, Z, Z, R) for k in range(3)]        # sum of the first j nodes of face i
    s.OFF = fun('offset', Z, Z)
    s.V = fun('volsum', Z, Z, R)
    s.M = [fun('momsum_%d' % k, Z, Z, R) for k in range(3)]
    s.N = fun('inverted', Z, Z, z3.BoolSort())
    s.np, s.nf = c.arg(1).len if isinstance(c.arg(1), VecV) else c.arg(0).len, None


class S:
    pass


def poly_setup(c):
    c.spec = s = S()
    s.cc, s.fc = Pts('ccoords', 3), Pts('fcoords', 3)
    s.cc.install(c, 0)
    s.fc.install(c, 3)
    setpoint(c, 5, 3)
    s.np, s.nf = c.arg(0).len, c.arg(1)
    s.m = lambda i: at(c.arg(2), i)
    s.C = [fun('sumcc_%d' % k, Z, R) for k in range(3)]
    s.F = [fun('sumfc_%d' % k, Z, Z, R) for k in range(3)]
    s.OFF = fun('offset', Z, Z)
    s.V = fun('volsum', Z, Z, R)
    s.M = [fun('momsum_%d' % k, Z, Z, R) for k in range(3)]
    s.N = fun('inverted', Z, Z, z3.BoolSort())
    s.center = V3(*[s.C[k](s.np) / z3.ToReal(s.np) for k in range(3)])
    p = c.p
    for k in range(3):
        p.assume(s.C[k](0) == 0)
        p.assume(s.M[k](0, 0) == 0)
    p.assume(s.V(0, 0) == 0)
    p.assume(s.OFF(0) == 0)
    p.assume(Not(s.N(0, 0)))


def poly_tet(s, i, j):
    """the j-th tetrahedron of face i: (six times) volume and centroid"""
    m, off, c = s.m(i), s.OFF(i), s.center
    tri = m == 3
    a, b, d = s.fc.v(off), s.fc.v(off + 1), s.fc.v(off + 2)
    vt = det3(a - c, b - c, d - c)
    ct = (c + a + b + d) / 4
    f = V3(*[s.F[k](i, m) / z3.ToReal(m) for k in range(3)])
    p, q = s.fc.v(off + j), s.fc.v(off + (j + 1) % m)
    ve = det3(p - c, q - c, f - c)
    ce = (c + f + p + q) / 4
    return tri, (vt, ct), (ve, ce)


def poly_unfold_face(p, s, i):
    """definitions at the face i"""
    m = s.m(i)
    tri, (vt, ct), _ = poly_tet(s, i, IntVal(0))
    p.assume(s.OFF(i + 1) == s.OFF(i) + m)
    for k in range(3):
        p.assume(s.F[k](i, 0) == 0)
    p.assume(Implies(tri, s.V(i + 1, 0) == s.V(i, 0) + vt))
    p.assume(Implies(Not(tri), s.V(i + 1, 0) == s.V(i, m)))
    p.assume(Implies(tri, s.N(i + 1, 0) == Or(s.N(i, 0), vt <= 0)))
    p.assume(Implies(Not(tri), s.N(i + 1, 0) == s.N(i, m)))
    for k in range(3):
        p.assume(Implies(tri, s.M[k](i + 1, 0) == s.M[k](i, 0) + vt * ct.c[k]))
        p.assume(Implies(Not(tri), s.M[k](i + 1, 0) == s.M[k](i, m)))


def poly_unfold_edge(p, s, i, j):
    _, _, (ve, ce) = poly_tet(s, i, j)
    p.assume(s.V(i, j + 1) == s.V(i, j) + ve)
    p.assume(s.N(i, j + 1) == Or(s.N(i, j), ve <= 0))
    for k in range(3):
        p.assume(s.M[k](i, j + 1) == s.M[k](i, j) + ve * ce.c[k])


def poly_pre(c):
    """the face table describes consecutive non-empty pieces of fcoords"""
    s = c.spec
    i = z3.Int('i!q')
    return [s.np >= 4, s.nf >= 0, c.arg(2).len == s.nf,
            ForAll([i], Implies(And(0 <= i, i < s.nf), And(s.m(i) >= 3, s.OFF(i) >= 0, s.OFF(i) + s.m(i) <= c.arg(3).len)), patterns=[s.OFF(i)])]


def poly_loops(L):
    s, p = L.ctx.spec, L.p
    if L.ordinal == 0:
        i = L.local('i')
        for k in range(3):
            p.assume(s.C[k](i + 1) == s.C[k](i) + s.cc.c(k, i))
        ce = L.local('center')
        return [('index', And(0 <= i, i <= s.np)), ('dimension', dim(ce) == 3)] + [('partial sum of the nodes %d' % k, co(ce, k) == s.C[k](i)) for k in range(3)]
    if L.ordinal == 1:
        i = L.local('i')
        poly_unfold_face(p, s, i)
        cen, vol = L.ctx.cur(5), L.ctx.cur(4)
        return [('index', And(0 <= i, i <= s.nf)), ('offset', L.local('offset') == s.OFF(i)), ('volume sum', vol == s.V(i, 0)),
                ('inverted flag', L.local('negvol') == s.N(i, 0)), ('dimension', dim(cen) == 3)] + \
            [('dimension of temporaries', And(*[dim(L.local(v)) == 3 for v in ('v1', 'v2', 'v3')]))] + \
            [('moment sum %d' % k, co(cen, k) == s.M[k](i, 0)) for k in range(3)]
    i, j = L.local('i'), L.local('j')
    m = s.m(i)
    if L.ordinal == 2:
        for k in range(3):
            p.assume(s.F[k](i, j + 1) == s.F[k](i, j) + s.fc.c(k, s.OFF(i) + j))
        fc = L.local('fcenter')
        return [('index', And(0 <= j, j <= m)), ('dimension', dim(fc) == 3)] + [('partial sum of the face nodes %d' % k, co(fc, k) == s.F[k](i, j)) for k in range(3)]
    if L.ordinal == 3:
        poly_unfold_edge(p, s, i, j)
        cen, vol = L.ctx.cur(5), L.ctx.cur(4)
        return [('index', And(0 <= j, j <= m)), ('volume sum', vol == s.V(i, j)), ('inverted flag', L.local('negvol') == s.N(i, j)), ('dimension', dim(cen) == 3)] + \
            [('dimension of temporaries', And(*[dim(L.local(v)) == 3 for v in ('v1', 'v2', 'v3', 'tcentroid')]))] + \
            [('moment sum %d' % k, co(cen, k) == s.M[k](i, j)) for k in range(3)]
    return None


def poly_post(c):
    s = c.spec
    vol, cen = c.cur(4), c.cur(5)
    v = s.cc.v
    tet = s.np == 4
    d = det3(v(IntVal(1)) - v(IntVal(0)), v(IntVal(2)) - v(IntVal(0)), v(IntVal(3)) - v(IntVal(0)))
    V = s.V(s.nf, 0) / 6
    g = (v(IntVal(0)) + v(IntVal(1)) + v(IntVal(2)) + v(IntVal(3))) / 4
    out = [('tetrahedron: one sixth of the determinant', Implies(tet, vol == d / 6)),
           ('polyhedron: sum over the tetrahedra, negative if one is inverted', Implies(Not(tet), vol == If(And(s.N(s.nf, 0), V > 0), -V, V)))]
    for k in range(3):
        out.append(('tetrahedron: centroid %d' % k, Implies(tet, co(cen, k) == g.c[k])))
        out.append(('polyhedron: centroid %d is first over zeroth moment' % k, Implies(Not(tet), co(cen, k) == s.M[k](s.nf, 0) / s.V(s.nf, 0))))
    return out


# ------------------------------------------------------------------ polygon
def pg_setup(d):
    def setup(c):
        c.spec = s = S()
        s.d = d
        s.P = Pts('coords', d)
        s.P.install(c, 0)
        setpoint(c, 2, d)
        setpoint(c, 3, d)
        s.n = c.arg(0).len
        s.C = [fun('sumc_%d' % k, Z, R) for k in range(d)]
        s.A = fun('areasum', Z, R)
        s.M = [fun('mom_%d' % k, Z, R) for k in range(d)]
        s.NV = [fun('norm_%d' % k, Z, R) for k in range(d)]
        s.I = fun('inverted', Z, z3.BoolSort())
        s.center = V3(*[s.C[k](s.n) / z3.ToReal(s.n) for k in range(d)])
        p = c.p
        p.assume(s.A(0) == 0)
        p.assume(Not(s.I(0)))
        for k in range(d):
            p.assume(s.C[k](0) == 0)
            p.assume(s.M[k](0) == 0)
            p.assume(s.NV[k](0) == 0)
    return setup


def pg_piece(s, i):
    a, b, c = s.P.v(i), s.P.v((i + 1) % s.n), s.center
    x = ((a - c) * RealVal('1/2')).cross(b - c)
    if s.d == 2:
        x = V3(x, RealVal(0))
    a2 = SQRT(x.dot(x))
    return x, a2, (a + b + c) / 3


def pg_unfold(p, s, i):
    x, ar, g = pg_piece(s, i)
    p.assume(s.A(i + 1) == s.A(i) + ar)
    p.assume(s.I(i + 1) == (Or(s.I(i), x.c[0] <= 0) if s.d == 2 else s.I(i)))
    for k in range(s.d):
        p.assume(s.M[k](i + 1) == s.M[k](i) + ar * g.c[k])
        p.assume(s.NV[k](i + 1) == s.NV[k](i) + x.c[k])


def pg_loops(L):
    s, p = L.ctx.spec, L.p
    i = L.local('i')
    idx = [('index', And(0 <= i, i <= s.n))]
    if L.ordinal == 0:
        for k in range(s.d):
            p.assume(s.C[k](i + 1) == s.C[k](i) + s.P.c(k, i))
        ce = L.local('center')
        return idx + [('dimension', dim(ce) == s.d)] + [('partial sum of the corners %d' % k, co(ce, k) == s.C[k](i)) for k in range(s.d)]
    if L.ordinal == 1:
        pg_unfold(p, s, i)
        ar, ce, no = L.ctx.cur(1), L.ctx.cur(2), L.ctx.cur(3)
        return idx + [('area sum', ar == s.A(i)), ('inverted flag', L.local('negvol') == s.I(i)), ('dimensions', And(dim(ce) == s.d, dim(no) == s.d))] + \
            [('moment sum %d' % k, co(ce, k) == s.M[k](i)) for k in range(s.d)] + [('normal sum %d' % k, co(no, k) == s.NV[k](i)) for k in range(s.d)]
    return None


def pg_post(c):
    s = c.spec
    ar, ce, no = c.cur(1), c.cur(2), c.cur(3)
    tri = s.n == 3
    v = [s.P.v(IntVal(k)) for k in range(3)]
    x = ((v[2] - v[1]) * RealVal('1/2')).cross(v[0] - v[1])
    if s.d == 2:
        x = V3(x, RealVal(0))
    ta = SQRT(x.dot(x))
    inv = And(x.c[0] <= 0, ta > 0) if s.d == 2 else False
    A = s.A(s.n)
    out = [('triangle: length of the normal, negative if inverted', Implies(tri, ar == If(inv, -ta, ta))),
           ('polygon: sum over the triangles, negative if one is inverted', Implies(Not(tri), ar == If(And(s.I(s.n), A > 0), -A, A)))]
    for k in range(s.d):
        out.append(('triangle: centroid %d' % k, Implies(tri, co(ce, k) == s.center.c[k])))
        out.append(('polygon: centroid %d is first over zeroth moment' % k, Implies(Not(tri), co(ce, k) == s.M[k](s.n) / A)))
        out.append(('triangle: normal %d' % k, Implies(tri, co(no, k) == x.c[k])))
        out.append(('polygon: normal %d' % k, Implies(Not(tri), co(no, k) == s.NV[k](s.n))))
    return out


def seg_setup(d):
    def setup(c):
        c.spec = s = S()
        s.P = Pts('ccoords', d)
        s.P.install(c, 0)
    return setup


PI = RealVal('314159265358979323846/100000000000000000000')


def geom_enum(c, name):
    for k in ('JaliGeometry::Geom_type', 'Geom_type'):
        if k in c.p.tu.enums:
            return IntVal(c.p.tu.enums[k][name])


def seg_post(d):
    def post(c):
        s = c.spec
        a, b = s.P.v(IntVal(0)), s.P.v(IntVal(1))
        vol, cen = c.cur(2), c.cur(3)
        cart = c.arg(1) == geom_enum(c, 'CARTESIAN')
        df = b - a
        out = [('Cartesian: length', Implies(cart, And(vol >= 0, vol * vol == df.dot(df)))), ('dimension', dim(cen) == d)]
        if d == 1:
            pi = c.p.pi
            out.append(('spherical: shell volume', Implies(Not(cart), vol == 4 * pi * (b.c[0] * b.c[0] * b.c[0] - a.c[0] * a.c[0] * a.c[0]) / 3)))
        for k in range(d):
            out.append(('midpoint %d' % k, co(cen, k) == (a.c[k] + b.c[k]) / 2))
        return out
    return post


def _pi(p):
    from fractions import Fraction
    return RealVal(str(Fraction('3.141592653589793')))


def geom_kinds(c):
    return Or(c.arg(1) == geom_enum(c, 'CARTESIAN'), c.arg(1) == geom_enum(c, 'SPHERICAL'))


def seg(d):
    def st(c):
        seg_setup(d)(c)
        c.p.pi = _pi(c.p)
    return Contract(G + 'segment_get_vol_centroid', label='segment_get_vol_centroid (%dD)' % d, setup=st, modular=False,
                    pre=lambda c: [c.arg(0).len == 2, geom_kinds(c) if d == 1 else c.arg(1) == geom_enum(c, 'CARTESIAN')],
                    post=seg_post(d), mods=['*2', '*3'])


def f1d():
    def st(c):
        seg_setup(1)(c)
        c.p.pi = _pi(c.p)

    def post(c):
        cart = c.arg(1) == geom_enum(c, 'CARTESIAN')
        x = c.spec.P.c(0, IntVal(0))
        return [('Cartesian: unit area', Implies(cart, c.cur(2) == 1)), ('spherical: sphere area', Implies(Not(cart), c.cur(2) == 4 * c.p.pi * x * x))]
    return Contract(G + 'face1d_get_area', setup=st, modular=False, pre=lambda c: [c.arg(0).len == 1, geom_kinds(c)], post=post, mods=['*2'])


def contracts():
    return [
        Contract(G + 'polyhed_get_vol_centroid', setup=poly_setup, pre=poly_pre, post=poly_post, loops=poly_loops, mods=['*4', '*5'], modular=False),
        Contract(G + 'polygon_get_area_centroid_normal', label='polygon_get_area_centroid_normal (2D)', setup=pg_setup(2), pre=lambda c: [c.spec.n >= 3],
                 post=pg_post, loops=pg_loops, mods=['*1', '*2', '*3'], modular=False),
        Contract(G + 'polygon_get_area_centroid_normal', label='polygon_get_area_centroid_normal (3D)', setup=pg_setup(3), pre=lambda c: [c.spec.n >= 3],
                 post=pg_post, loops=pg_loops, mods=['*1', '*2', '*3'], modular=False),
        seg(1), seg(2), seg(3), f1d(),
    ]


UNITS = lambda: [Unit('src/geometry/Geometry.cc', contracts())]


# ------------------------------------------------------------------ lemmas
# The contracts above fix the results to recursively defined sums S(0)=0, S(i+1)=S(i)+piece(i).
# The lemmas below are the induction steps (base cases included) that lead from those sums to the true measures.
def LEMMAS():
    out = []

    def vv(nm, d):
        return V3(*[z3.Real('%s%s' % (nm, 'xyz'[k])) for k in range(d)])

    def same(lab, hyps, a, b):
        for k, (x, y) in enumerate(zip(a.c, b.c) if isinstance(a, V3) else [(a, b)]):
            out.append(('%s%s' % (lab, ' %d' % k if isinstance(a, V3) else ''), hyps, x == y))

    def cr(a, b):
        x = a.cross(b)
        return x if isinstance(x, V3) else V3(x)

    def eqs(a, b):
        return [x == y for x, y in zip(a.c, b.c)]
    for d in (2, 3):
        a, b, c, p0 = vv('a', d), vv('b', d), vv('c', d), vv('p0', d)
        nd = 1 if d == 2 else 3
        S, T = vv('Sc', nd), vv('S0', nd)
        h = RealVal('1/2')
        # invariant: Sc(i) = S0(i) - c x (p_i - p_0) / 2
        hyp = eqs(S, T - cr(c, (a - p0)) * h)
        pc = cr((a - c) * h, b - c)
        p_0 = cr(a * h, b)
        same('%dD polygon: vector area about any centre, base' % d, [], V3(*[RealVal(0)] * nd), V3(*[RealVal(0)] * nd) - cr(c, (p0 - p0)) * h)
        same('%dD polygon: vector area about any centre, step' % d, hyp, S + pc, T + p_0 - cr(c, (b - p0)) * h)
        same('%dD polygon: vector area does not depend on the centre (closing)' % d, eqs(S, T - cr(c, (p0 - p0)) * h), S, T)
        t, s = vv('t', d), z3.Real('s')
        same('%dD polygon: piece invariant under translation' % d, [], cr((a + t - (c + t)) * h, (b + t) - (c + t)), pc)
        same('%dD polygon: piece scales quadratically' % d, [], cr((a * s - c * s) * h, b * s - c * s), pc * (s * s))
        n = z3.Real('n')
        same('%dD polygon: centre moves with the corners' % d, [n > 0], (c * n + t * n) / n, c + t)
    # 2D first moments, for a counter-clockwise fan (every piece positive: area = vector area)
    a, b, c, p0 = vv('a', 2), vv('b', 2), vv('c', 2), vv('p0', 2)
    mo = lambda x, y, z: (x + y + z) * (((y - x).cross(z - x)) * RealVal('1/6'))
    zero = V3(RealVal(0), RealVal(0))
    S, T = vv('Mc', 2), vv('M0', 2)
    hyp = eqs(S, T + mo(zero, c, p0) - mo(zero, c, a))
    same('2D polygon: first moment about any centre, step', hyp, S + mo(c, a, b), T + mo(zero, a, b) + mo(zero, c, p0) - mo(zero, c, b))
    same('2D polygon: first moment does not depend on the centre (closing)', eqs(S, T + mo(zero, c, p0) - mo(zero, c, p0)), S, T)
    x, A, X = z3.Reals('x A X')
    ax = SQRT(x * x)
    out.append(('2D convex polygon: area sum equals the signed area sum, step', [A == X, x > 0, ax >= 0, ax * ax == x * x], A + ax == X + x))
    out.append(('2D clockwise polygon: area sum is minus the signed area sum, step', [A == -X, x <= 0, ax >= 0, ax * ax == x * x], A + ax == -(X + x)))
    # polyhedron: sum over the tetrahedra of a closed surface does not depend on the centre
    p, q, f, c = vv('p', 3), vv('q', 3), vv('f', 3), vv('c', 3)
    Vc, V0 = z3.Reals('Vc V0')
    N = vv('N', 3)
    nrm = p.cross(q) + q.cross(f) + f.cross(p)
    out.append(('polyhedron: volume about any centre, step', [Vc == V0 - c.dot(N)],
                Vc + det3(p - c, q - c, f - c) == V0 + det3(p, q, f) - c.dot(N + nrm)))
    out.append(('polyhedron: volume does not depend on the centre for a closed surface', [Vc == V0 - c.dot(N)] + eqs(N, V3(*[RealVal(0)] * 3)), Vc == V0))
    t, s = vv('t', 3), z3.Real('s')
    out.append(('polyhedron: piece invariant under translation', [], det3((p + t) - (c + t), (q + t) - (c + t), (f + t) - (c + t)) == det3(p - c, q - c, f - c)))
    out.append(('polyhedron: piece scales cubically', [], det3(p * s - c * s, q * s - c * s, f * s - c * s) == s * s * s * det3(p - c, q - c, f - c)))
    # two triangles of a shared edge cancel in the closing sum
    same('polyhedron: the two sides of an edge cancel', [], p.cross(q) + q.cross(p), V3(*[RealVal(0)] * 3))
    # the box with symbolic corner and extents: the sums of the contract, unrolled
    o, e = vv('o', 3), vv('e', 3)
    nd = [V3(o.c[0] + e.c[0] * i, o.c[1] + e.c[1] * j, o.c[2] + e.c[2] * k) for k in (0, 1) for j in (0, 1) for i in (0, 1)]
    faces = [(0, 2, 3, 1), (4, 5, 7, 6), (0, 1, 5, 4), (2, 6, 7, 3), (0, 4, 6, 2), (1, 3, 7, 5)]
    cen = nd[0]
    for v in nd[1:]:
        cen = cen + v
    cen = cen / 8
    vol, mom = RealVal(0), V3(*[RealVal(0)] * 3)
    pieces = []
    for fc in faces:
        fcen = (nd[fc[0]] + nd[fc[1]] + nd[fc[2]] + nd[fc[3]]) / 4
        for j in range(4):
            P, Q = nd[fc[j]], nd[fc[(j + 1) % 4]]
            v = det3(P - cen, Q - cen, fcen - cen)
            vol = vol + v
            mom = mom + ((cen + fcen + P + Q) / 4) * v
            pieces.append(v)
    bv = e.c[0] * e.c[1] * e.c[2]
    out.append(('box: the moment sum is the volume', [], vol / 6 == bv))
    for k in range(3):
        out.append(('box: centroid %d' % k, [], mom.c[k] == 6 * bv * (o.c[k] + e.c[k] / 2)))
    for k, v in enumerate(pieces):
        out.append(('box: piece %d is a 24th of the volume' % k, [], v * 4 == bv))
    # prism over a convex planar polygon: piece over the side face
    return out


LEVEL = 'proof'
DRIVERS = [dict(src='c05.cc', repo=['src/geometry/Geometry.cc'],
                what='regular/irregular convex polygons (2D, rotated 3D), boxes, prisms, tetrahedra, hexahedra, segments: against exact measures, under random affine maps, incl. inverted shapes')]
EXPLANATION = ('Each measure is proved equal, for every number of corners and faces, to the recursively defined sum over triangles/tetrahedra; lemmas '
               '(induction steps and closing) lead from the sums to centre independence, translation, scaling and the exact box.')
