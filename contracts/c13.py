"""C13: volumes, coordinates and normals of sides, wedges and corners."""
from .c14 import *
from . import c14

# ---- coordinates
def node_of(c, s, k):
    """node k (0, 1) of the side"""
    e, use = at(c.oldf('side_edge_id'), s), yes(at(c.oldf('side_edge_use'), s))
    a, b = EN[0](e), EN[1](e)
    return If(use == (k == 0) if isinstance(k, int) else use == (k == 0), a, b)


def node_pos(c, s, k):
    n = node_of(c, s, k)
    return lambda x: NX[x](n)


def edge_mid(c, s):
    e = at(c.oldf('side_edge_id'), s)
    return lambda x: (NX[x](EN[0](e)) + NX[x](EN[1](e))) / 2


def fcen(c, s):
    q = pts(c, c.oldf('face_centroids'), at(c.oldf('side_face_id'), s))
    return lambda x: co(q, x)


def ccen(c, s):
    q = pts(c, c.oldf('cell_centroids'), at(c.oldf('side_cell_id'), s))
    return lambda x: co(q, x)


def has_side(c, s, e):
    out = [('a side of the mesh', And(0 <= e, *[s < c.oldf(f).len for f in ('side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use')]))]
    cl, fa = at(c.oldf('side_cell_id'), s), at(c.oldf('side_face_id'), s)
    out += [('its cell has a cached centroid', And(0 <= cl, cl < c.oldf('cell_centroids').len, dim(pts(c, c.oldf('cell_centroids'), cl)) == SDIM(c))), ('its face has a cached centroid', And(0 <= fa, fa < c.oldf('face_centroids').len, dim(pts(c, c.oldf('face_centroids'), fa)) == SDIM(c)))]
    return out


def listed(c, want, what='points'):
    d = SDIM(c)
    r = c.cur(1)
    out = [('as many %s as the shape has' % what, r.len == len(want))]
    for m, f in enumerate(want):
        q = pts(c, r, IntVal(m))
        out.append(('point %d' % m, And(dim(q) == d, *[Implies(k < d, co(q, k) == f(k)) for k in range(3)])))
    return out


def sel(b, f, g):
    return lambda x: If(b, f(x), g(x))


def two_nodes(c, cl):
    return c.p.assume(NCN(cl) >= 2)


def scoords(d):
    def post(c):
        s = c.arg(0)
        a, b, f, m = node_pos(c, s, 0), node_pos(c, s, 1), fcen(c, s), ccen(c, s)
        if d == 3:
            return listed(c, [a, b, f, m])
        if d == 2:
            return listed(c, [a, b, m])
        sw = And(yes(c.arg(2)), node_of(c, s, 0) == CN_(at(c.oldf('side_cell_id'), s), IntVal(1)))
        return listed(c, [sel(sw, m, a), sel(sw, a, m)])

    def pre(c):
        return has_side(c, c.arg(0), c.arg(0)) + ([('cells have two nodes', NCN(at(c.oldf('side_cell_id'), c.arg(0))) == 2)] if d == 1 else [])
    return Contract(ME + '::side_get_coordinates', label='side_get_coordinates (%dD)' % d, setup=fixdim(d), mods=['*1'], pre=pre, post=post, modular=False)


def wcoords(d):
    def post(c):
        w = c.arg(0)
        s = w / 2
        odd = w % 2 == 1
        n = If(odd, node_of(c, s, 1), node_of(c, s, 0))
        a, e, f, m = (lambda x: NX[x](n)), edge_mid(c, s), fcen(c, s), ccen(c, s)
        pv = yes(c.arg(2))
        sw = And(pv, odd)
        if d == 3:
            return listed(c, [a, sel(sw, f, e), sel(sw, e, f), m])
        if d == 2:
            return listed(c, [a, sel(sw, m, f), sel(sw, f, m)])
        sw = And(pv, n == CN_(at(c.oldf('side_cell_id'), s), IntVal(1)))
        return listed(c, [sel(sw, m, a), sel(sw, a, m)])

    def pre(c):
        return has_side(c, c.arg(0) / 2, c.arg(0)) + ([('cells have two nodes', NCN(at(c.oldf('side_cell_id'), c.arg(0) / 2)) == 2)] if d == 1 else [])
    return Contract(ME + '::wedge_get_coordinates', label='wedge_get_coordinates (%dD)' % d, setup=fixdim(d), mods=['*1'], pre=pre, post=post, modular=False)


coords = [scoords(d) for d in (1, 2, 3)] + [wcoords(d) for d in (1, 2, 3)]
UNITS = lambda: [Unit(M, coords + framework + noverify(readers + [ecen])), Unit(M, sides_ + framework + noverify(readers) + [s_cell, s_face, s_edge]), Unit(M, [side_q(), s_side]), Unit(M, side_readers + [s_side2]), Unit(M, [corner] + noverify([wvol])), Unit(M, [corner_q(), cvol, s_corner])]


def LEMMAS():
    """the algebra behind the sums and signs"""
    from cxv.prove import z3 as _z
    V = lambda n: V3(*[_z.Real('%s%d' % (n, k)) for k in range(3)])
    a, b, f, m, q, ec = V('a'), V('b'), V('f'), V('m'), V('q'), V('e')
    cp = (b - a).cross(f - a)
    vol = lambda top: cp.dot(top - a) / 6
    out = []
    # 3D
    out.append(('a side measured from another point differs by a third of its area vector times the shift (so sums over a closed surface do not depend on the point)', [], vol(m) - vol(q) == cp.dot(m - q) / 6))
    t = a.cross(b) + (b - a).cross(f)
    for k in range(3):
        out.append(('the area vector of a side is that of its edge plus terms that telescope around the face: component %d' % k, [], cp.c[k] == t.c[k]))
    c3 = V('c')
    third = (a + b + c3) / 3
    tri = lambda p, r: (r - p).cross(third - p)
    for k in range(3):
        out.append(('the three sides of a triangle make up the triangle: component %d' % k, [], tri(a, b).c[k] + tri(b, c3).c[k] + tri(c3, a).c[k] == (b - a).cross(c3 - a).c[k]))
    mid = (a + b) / 2
    # the two wedges of a side: tetrahedra node, edge middle, face centre, cell centre
    wv = lambda n, e: (e - n).cross(f - n).dot(m - n) / 6
    out.append(('the wedge at node 0 in its order has half the volume of the side', [], 2 * wv(a, mid) == vol(m)))
    out.append(('the wedge at node 1 in reversed order has half the volume of the side', [], 2 * ((f - b).cross(mid - b).dot(m - b) / 6) == vol(m)))
    # outward: normal times vector from the cell centre is positive exactly when the volume is
    out.append(('the outer normal points away from the cell centre when the volume is positive', [], (cp * _z.RealVal('-1/2')).dot(a - m) == 3 * vol(m)))
    mn = (f - mid).cross(m - mid) * _z.RealVal('1/2')
    out.append(('the middle normal points from node 0 to the edge middle when the volume is positive', [], mn.dot(mid - a) * 2 == 3 * vol(m)))
    # 2D
    W = lambda n: V3(*[_z.Real('%s%d' % (n, k)) for k in range(2)])
    a, b, m, q = W('a'), W('b'), W('m'), W('q')
    ar = lambda top: (b - a).cross(top - a) / 2
    out.append(('2D: a side measured from another point differs by the edge crossed with the shift (so sums around the cell do not depend on the point)', [], ar(m) - ar(q) == (b - a).cross(m - q) / 2))
    out.append(('2D: a side measured from the origin is the shoelace term of its edge', [], (b - a).cross(V3(_z.RealVal(0), _z.RealVal(0)) - a) / 2 == a.cross(b) / 2))
    mid = (a + b) / 2
    out.append(('2D: the wedge at node 0 has half the area of the side', [], (mid - a).cross(m - a) / 2 * 2 == ar(m)))
    out.append(('2D: the wedge at node 1 in reversed order has half the area of the side', [], (m - b).cross(mid - b) / 2 * 2 == ar(m)))
    n = V3((b - a).c[1], -(b - a).c[0])
    out.append(('2D: the outer normal points away from the cell centre when the area is positive', [], n.dot(a - m) == 2 * ar(m)))
    v, x = _z.Reals('v x')
    out.append(('2D: the reported area is the signed one when that is not negative', [x >= 0, 4 * x * x == v * v, v >= 0], 2 * x == v))
    # sums
    A, Bv, s = _z.Reals('A B s')
    out.append(('sum over the sides of a cell: one more side keeps wedge sum = side sum', [A == Bv], A + s / 2 + s / 2 == Bv + s))
    return out + c14.LEMMAS()


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c13.cc', repo=_d.ALLSRC, mpi=True, what='random 1D (Cartesian and spherical), 2D and 3D meshes: volumes, sums, coordinates in both orders, normals, corner facets')]
EXPLANATION = ('compute_side_geometry is proved to give the stated volume and normals of the tetrahedron / triangle / segment of its nodes, face centre and cell centre in every dimension; side_get_coordinates and wedge_get_coordinates to list exactly those points, in the fixed and in the '
               'positive order; wedge and side readers to return half the side volume, half the outer normal and the signed middle normal; corners to sum their wedges; the caches to hold these values. Lemmas over the formulas: wedges are halves, triangles are made up of their sides, '
               'side volumes do not depend on the centre when summed over a closed surface, signs of the normals.')
TRUSTED = c14.TRUSTED
ASSUMPTIONS = ['real arithmetic', 'summing the per-side identities over all sides of a cell (a finite sum; edge terms cancel because each edge of a cell is used twice, in opposite directions) is not mechanised: the driver compares the sums on random meshes',
               'positivity is that of the signed volume of the points: valid meshes are those where it is positive']
