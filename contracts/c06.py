"""C06: containment tests (Geometry.cc) and the mesh's point-in-cell query."""
from .common import *
from .c05 import Pts, S, fun, G, R, Z, det3, setpoint

B = z3.BoolSort()


# ------------------------------------------------------------------ polygon
def pp_setup(c):
    c.spec = s = S()
    s.P = Pts('coords', 2)
    s.P.install(c, 1)
    s.n = c.arg(1).len
    s.x, s.y = co(c.arg(0), 0), co(c.arg(0), 1)
    s.par = fun('parity', Z, B)
    c.p.assume(Not(s.par(0)))


def crosses(x, y, a, b):
    """edge a-b meets the ray from (x,y) towards +x (lower end included)"""
    return And((a.c[1] > y) != (b.c[1] > y), x <= a.c[0] + (y - a.c[1]) * (b.c[0] - a.c[0]) / (b.c[1] - a.c[1]))


def pp_loops(L):
    s, p = L.ctx.spec, L.p
    i = L.local('i')
    p.assume(s.par(i + 1) == z3.Xor(s.par(i), crosses(s.x, s.y, s.P.v(i), s.P.v((i + 1) % s.n))))
    c = L.local('c')
    return [('index', And(0 <= i, i <= s.n)), ('flag is the parity of the crossings so far', (c if z3.is_bool(c) else c == 1) == s.par(i))] + ([] if z3.is_bool(c) else [('flag is 0 or 1', Or(c == 0, c == 1))])


pp = Contract(G + 'point_in_polygon', setup=pp_setup, modular=False, pre=lambda c: [dim(c.arg(0)) == 2, c.spec.n >= 3],
              loops=pp_loops, post=lambda c: [('parity of the edges crossed by the ray', yes(c.ret) == c.spec.par(c.spec.n))])


# ------------------------------------------------------------------ polyhedron
def ph_setup(c):
    c.spec = s = S()
    s.fc = Pts('fcoords', 3)
    s.fc.install(c, 4)
    s.x = vec(c.arg(0), 3)
    s.np, s.nf = c.arg(1).len, c.arg(2)
    s.m = lambda i: at(c.arg(3), i)
    s.F = [fun('sumfc_%d' % k, Z, Z, R) for k in range(3)]
    s.OFF = fun('offset', Z, Z)
    s.PV = fun('piece', Z, Z, R)
    c.p.assume(s.OFF(0) == 0)


def ph_pieces(s, i):
    return If(s.m(i) == 3, IntVal(1), s.m(i))


def ph_unfold(p, s, i, j):
    m, off = s.m(i), s.OFF(i)
    a, b, d = s.fc.v(off), s.fc.v(off + 1), s.fc.v(off + 2)
    f = V3(*[s.F[k](i, m) / z3.ToReal(m) for k in range(3)])
    u, w = s.fc.v(off + j), s.fc.v(off + (j + 1) % m)
    p.assume(Implies(m == 3, s.PV(i, 0) == det3(a - s.x, b - s.x, d - s.x)))
    p.assume(Implies(m != 3, s.PV(i, j) == det3(u - s.x, w - s.x, f - s.x)))


def ph_pre(c):
    s = c.spec
    i = z3.Int('i!q')
    return [dim(c.arg(0)) == 3, s.np >= 4, s.nf >= 0, c.arg(3).len == s.nf,
            ForAll([i], Implies(And(0 <= i, i < s.nf), And(s.m(i) >= 3, s.OFF(i) >= 0, s.OFF(i) + s.m(i) <= c.arg(4).len)), patterns=[s.OFF(i)])]


def ph_loops(L):
    s, p = L.ctx.spec, L.p
    i = L.local('i')
    a, b = z3.Ints('a!q b!q')
    done = lambda n: ('pieces of the earlier faces', ForAll([a, b], Implies(And(0 <= a, a < n, 0 <= b, b < ph_pieces(s, a)), s.PV(a, b) >= 0), patterns=[s.PV(a, b)]))
    if L.ordinal == 0:
        ph_unfold(p, s, i, IntVal(0))
        p.assume(s.OFF(i + 1) == s.OFF(i) + s.m(i))
        for k in range(3):
            p.assume(s.F[k](i, 0) == 0)
        return [('index', And(0 <= i, i <= s.nf)), ('offset', L.local('offset') == s.OFF(i)), done(i)]
    j = L.local('j')
    if L.ordinal == 1:
        for k in range(3):
            p.assume(s.F[k](i, j + 1) == s.F[k](i, j) + s.fc.c(k, s.OFF(i) + j))
        fc = L.local('fcenter')
        return [('index', And(0 <= j, j <= s.m(i))), ('dimension', dim(fc) == 3)] + [('partial sum of the face nodes %d' % k, co(fc, k) == s.F[k](i, j)) for k in range(3)]
    if L.ordinal == 2:
        ph_unfold(p, s, i, j)
        return [('index', And(0 <= j, j <= s.m(i))), ('dimensions', And(*[dim(L.local(v)) == 3 for v in ('v1', 'v2', 'v3')])),
                ('pieces of this face', ForAll([b], Implies(And(0 <= b, b < j), s.PV(i, b) >= 0), patterns=[s.PV(i, b)]))]
    return None


def ph_post(c):
    s = c.spec
    a, b = z3.Ints('a!q b!q')
    return [('inside: every piece of every face has the point on its inner side',
             Implies(yes(c.ret), ForAll([a, b], Implies(And(0 <= a, a < s.nf, 0 <= b, b < ph_pieces(s, a)), s.PV(a, b) >= 0), patterns=[s.PV(a, b)]))),
            ('outside: some piece has the point on its outer side',
             Implies(Not(yes(c.ret)), Exists([a, b], And(0 <= a, a < s.nf, 0 <= b, b < ph_pieces(s, a), s.PV(a, b) < 0))))]


ph = Contract(G + 'point_in_polyhed', setup=ph_setup, modular=False, pre=ph_pre, loops=ph_loops, post=ph_post)


def LEMMAS():
    out = []
    P = lambda n, d=2: V3(*[z3.Real(n + 'xyz'[k]) for k in range(d)])
    a, b, c, x = P('a'), P('b'), P('c'), P('p')
    X = lambda u, w: crosses(x.c[0], x.c[1], u, w)
    par = lambda *vs: z3.Xor(z3.Xor(X(vs[0], vs[1]), X(vs[1], vs[2])), X(vs[2], vs[0]))
    # the crossing of an edge does not depend on its direction
    t1, t2 = z3.Reals('t1 t2')
    out.append(('crossing: the abscissa of the crossing does not depend on the direction of the edge', [a.c[1] != b.c[1]],
                (a.c[0] + (x.c[1] - a.c[1]) * (b.c[0] - a.c[0]) / (b.c[1] - a.c[1])) * (b.c[1] - a.c[1]) ==
                (b.c[0] + (x.c[1] - b.c[1]) * (a.c[0] - b.c[0]) / (a.c[1] - b.c[1])) * (b.c[1] - a.c[1])))
    # so a diagonal traversed both ways cancels: the parity of a polygon is the parity of the triangles of its fan
    p, q, r1, r2, r3 = z3.Bools('p q r1 r2 r3')
    out.append(('fan: a polygon plus a triangle over its closing edge', [], z3.Xor(z3.Xor(p, q), z3.Xor(z3.Xor(q, r1), r2)) == z3.Xor(p, z3.Xor(r1, r2))))
    # a crossing without division
    area = lambda u, w: (w - u).cross(x - u)
    out.append(('crossing: upward edge has the point on its left', [a.c[1] <= x.c[1], b.c[1] > x.c[1], t1 * (b.c[1] - a.c[1]) == (x.c[1] - a.c[1]) * (b.c[0] - a.c[0])],
                (x.c[0] <= a.c[0] + t1) == (area(a, b) >= 0)))
    out.append(('crossing: downward edge has the point on its right', [b.c[1] <= x.c[1], a.c[1] > x.c[1], t1 * (b.c[1] - a.c[1]) == (x.c[1] - a.c[1]) * (b.c[0] - a.c[0])],
                (x.c[0] <= a.c[0] + t1) == (area(a, b) <= 0)))
    # triangles: with the point strictly inside the parity is odd, strictly outside even
    Xs = lambda u, w: Or(And(u.c[1] <= x.c[1], w.c[1] > x.c[1], area(u, w) >= 0), And(w.c[1] <= x.c[1], u.c[1] > x.c[1], area(u, w) <= 0))
    ps = z3.Xor(z3.Xor(Xs(a, b), Xs(b, c)), Xs(c, a))
    tri = area(a, b) + area(b, c) + area(c, a)
    out.append(('areas of the three parts sum to the triangle', [], tri == (b - a).cross(c - a)))
    # x = la*a + lb*b + lc*c (barycentric, scaled by the area): used as hint for the two facts below
    A, Bb, Cc = z3.Reals('sab sbc sca')
    u = [a.c[1] - x.c[1], b.c[1] - x.c[1], c.c[1] - x.c[1]]
    same = lambda k, l: (u[k] > 0) == (u[l] > 0)
    out.append(('barycentric identity', [], area(a, b) * u[2] + area(b, c) * u[0] + area(c, a) * u[1] == 0))
    ua, ub, uc = z3.Reals('ua ub uc')
    Xu = lambda s_, l, m: Or(And(l <= 0, m > 0, s_ >= 0), And(m <= 0, l > 0, s_ <= 0))
    pu = z3.Xor(z3.Xor(Xu(A, ua, ub), Xu(Bb, ub, uc)), Xu(Cc, uc, ua))
    bar = A * uc + Bb * ua + Cc * ub == 0
    for nm, sg in (('counter-clockwise', 1), ('clockwise', -1)):
        out.append(('%s triangle, strictly inside: odd' % nm, [bar, sg * A > 0, sg * Bb > 0, sg * Cc > 0, Not(And(ua == 0, ub == 0, uc == 0))], pu))
        out.append(('%s triangle, strictly outside: even' % nm, [bar, A != 0, Bb != 0, Cc != 0, sg * (A + Bb + Cc) > 0, Or(sg * A < 0, sg * Bb < 0, sg * Cc < 0)], Not(pu)))
    # polyhedron: a piece is the signed distance from its plane times twice its area
    a, b, f, x = P('a', 3), P('b', 3), P('f', 3), P('p', 3)
    n = (b - a).cross(f - a)
    d = det3(a - x, b - x, f - x)
    for nm, v in (('first corner', a), ('second corner', b), ('face centre', f)):
        out.append(('piece: signed distance from the plane, from the %s' % nm, [], d == n.dot(v - x)))
    # a point of the convex hull of points on the inner side is on the inner side
    l1, l2 = z3.Reals('l1 l2')
    d1, d2 = z3.Reals('d1 d2')
    out.append(('half spaces are convex', [l1 >= 0, l2 >= 0, l1 + l2 == 1, d1 >= 0, d2 >= 0], l1 * d1 + l2 * d2 >= 0))
    u, w = P('u', 3), P('w', 3)
    out.append(('signed distance is affine', [l1 + l2 == 1], n.dot(a - (u * l1 + w * l2)) == l1 * n.dot(a - u) + l2 * n.dot(a - w)))
    return out


UNITS = lambda: [Unit('src/geometry/Geometry.cc', [pp, ph])]
LEVEL = 'proof'
DRIVERS = [dict(src='c06.cc', repo=['src/geometry/Geometry.cc'],
                what='convex, star shaped and random simple polygons, convex polyhedra with triangular, quadrilateral and larger faces: grid and random test points against an independent winding/half-space oracle')]
EXPLANATION = ('point_in_polygon is proved to return the parity of the edges crossed by a ray for every polygon, point_in_polyhed the conjunction of the signed '
               'volumes over every face piece; lemmas give the meaning for triangles (parity of a polygon is the parity over its fan) and half spaces.')
