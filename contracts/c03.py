"""C03: brick node coordinates and the geometry of brick cells and faces."""
from .common import *
from . import brick as B, geo as G, c14, c05
from .brick import CNODES, FNODES, CFACES, FCELLS, NI, CI, XYF, XZF, YZF, queries

SETGET = ('node_get_coordinates', 'node_set_coordinates', 'face_get_coordinates', 'cell_get_coordinates', 'cell_get_faces_and_dirs_internal', 'face_get_cells_internal')
QS = [q for q in queries(3) if any(q.label.startswith(s) for s in SETGET)]
coordinates = [c for c in B.build if c.label == 'update_internals_3d_: coordinates']
cellg = [c14.cells_[2]] + G.framework + [G.pcell]
faceg = [c14.faces_[2]] + G.framework + [G.pgface]
readers = [r for r in G.readers if r.name.split('::')[-1] in ('cell_volume', 'cell_centroid', 'face_area', 'face_centroid')] + [r for r in G.more_readers if r.name.endswith('face_normal')]
UNITS = lambda: [Unit('src/mesh/mesh_simple/Mesh_simple.cc', B.idx + coordinates + QS), Unit(c14.M, cellg), Unit(c14.M, faceg), Unit(c14.M, readers + G.framework + [G.s_cell, G.s_face]),
                 Unit(c14.M, [G.quantities(k) for k in ('cell', 'face')] + [G.s_cell, G.s_face])]


def box(o, e, at_):
    """lattice point of a box with corner o and extents e"""
    return V3(*[o.c[k] + e.c[k] * at_[k] for k in range(3)])


def det3(a, b, c):
    return a.dot(b.cross(c))


def LEMMAS():
    """the kernels' formulas (proved of the code in C05) on the points of brick cells and faces, in the orders of C01"""
    out = []
    o, e = V3(*z3.Reals('x0 y0 z0')), V3(*z3.Reals('hx hy hz'))
    pos = [x > 0 for x in e.c]
    vol = e.c[0] * e.c[1] * e.c[2]
    nodes = [box(o, e, q) for q in CNODES]
    cen = nodes[0]
    for v in nodes[1:]:
        cen = cen + v
    cen = cen / 8
    mid = box(o, e, (RealVal('1/2'),) * 3)
    for k in range(3):
        out.append(('the mean of the nodes of a cell is its middle: %d' % k, [], cen.c[k] == mid.c[k]))
    total, mom = RealVal(0), V3(*[RealVal(0)] * 3)
    sums = V3(*[RealVal(0)] * 3)
    for m, (F, fo, s) in enumerate(CFACES):
        ring = [tuple(a + b for a, b in zip(fo, no)) for no in FNODES[F]]
        P = [box(o, e, q) for q in (ring if s == 1 else ring[::-1])]
        fc = (P[0] + P[1] + P[2] + P[3]) / 4
        for j in range(4):
            p, q = P[j], P[(j + 1) % 4]
            v = det3(p - cen, q - cen, fc - cen)
            out.append(('tetrahedron %d of face %d is not inverted' % (j, m), pos + [v * 4 == vol, vol > 0], v > 0))
            out.append(('tetrahedron %d of face %d is a 24th of the cell' % (j, m), [], v * 4 == vol))
            mom = mom + ((cen + fc + p + q) / 4) * v
            total = total + v
        # the face itself, in its own order
        P = [box(o, e, q) for q in ring]
        axis = {XYF: 2, XZF: 1, YZF: 0}[F]
        area = RealVal(1)
        for k in range(3):
            if k != axis:
                area = area * e.c[k]
        nv, g = V3(*[RealVal(0)] * 3), V3(*[RealVal(0)] * 3)
        for j in range(4):
            a, b = P[j], P[(j + 1) % 4]
            x = ((a - fc) * RealVal('1/2')).cross(b - fc)
            out.append(('piece %d of face %d has a quarter of its area' % (j, m), [], x.dot(x) * 16 == area * area))
            nv = nv + x
            g = g + ((a + b + fc) / 3) * (area / 4)
        w = z3.Real('w')
        out.append(('the length of a piece of face %d' % m, [w >= 0, w * w * 16 == area * area, area > 0], 4 * w == area))
        for k in range(3):
            out.append(('centroid of face %d: %d' % (m, k), [], g.c[k] == area * fc.c[k]))
            out.append(('normal of face %d is along its axis: %d' % (m, k), [], nv.c[k] == nv.c[k] if k == axis else nv.c[k] == 0))
        sg = z3.Real('sg')
        out.append(('normal of face %d has the length of its area' % m, [], nv.c[axis] * nv.c[axis] == area * area))
        # the normal with the direction of the cell points out of it
        d = nv * RealVal(s)
        out.append(('normal of face %d seen from the cell points out of it' % m, [], d.dot(fc - cen) * 2 == vol))
        sums = sums + d
    for k in range(3):
        out.append(('the outward normals of a cell sum to zero: %d' % k, [], sums.c[k] == 0))
        out.append(('centroid of a cell: %d' % k, [], mom.c[k] == total * mid.c[k]))
    out.append(('volume of a cell', [], total == 6 * vol))
    # from the lattice: edges of every cell are the spacings; all cells together are the box
    n = z3.Ints('nx ny nz')
    L, H = z3.Reals('lx ly lz'), z3.Reals('ux uy uz')
    for k in range(3):
        t = z3.Int('t')
        h = (H[k] - L[k]) / z3.ToReal(n[k])
        out.append(('a cell is one spacing wide: %d' % k, [n[k] >= 1], L[k] + z3.ToReal(t + 1) * h - (L[k] + z3.ToReal(t) * h) == h))
        out.append(('the last node is at the end of the box: %d' % k, [n[k] >= 1, h * z3.ToReal(n[k]) == H[k] - L[k]], L[k] + z3.ToReal(n[k]) * h == H[k]))
        out.append(('a spacing is an even share of the box: %d' % k, [n[k] >= 1], h * z3.ToReal(n[k]) == H[k] - L[k]))
    hs, ns = z3.Reals('h0 h1 h2'), z3.Reals('n0 n1 n2')
    out.append(('volumes of all cells sum to that of the box', [hs[k] * ns[k] == H[k] - L[k] for k in range(3)], ns[0] * ns[1] * ns[2] * (hs[0] * hs[1] * hs[2]) == (hs[0] * ns[0]) * (hs[1] * ns[1]) * (hs[2] * ns[2])))
    return out


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c03.cc', repo=_d.ALLSRC, mpi=True, what='random bricks: node coordinates, cell volumes and centroids, face areas, centroids and normals, sums, and moves of single nodes')]
EXPLANATION = ('update_internals_3d_ is proved to put node (i,j,k) at the lattice point of the box for all sizes, node_set_coordinates to change that node only, the coordinate queries to return the points of the nodes of the tables in order, compute_cell_geometry and compute_face_geometry to call the kernels '
               'with exactly those points and to orient the normals by the directions of the face in its cells, the caches and readers to keep the results. Lemmas evaluate the kernel formulas (proved of the code in C05) on a brick cell and its faces in the node and face orders of C01: volume dx dy dz, centroid at the middle, '
               'rectangle areas and centroids, outward normals of the length of the area, zero sum, and the sum over all cells.')
TRUSTED = ['the tables hold the lattice connectivity (proved in C01)', 'kernel formulas (proved in C05)']
ASSUMPTIONS = ['real arithmetic']
