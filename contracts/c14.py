"""C14: cached geometry equals what is computed from the current coordinates."""
from .geo import *

cells_ = [cell_geometry(d) for d in (1, 2, 3)]
faces_ = [face_geometry(d) for d in (1, 2, 3)]
edges_ = [edge_geometry(d) for d in (1, 2, 3)]
sides_ = [side_geometry(d) for d in (1, 2, 3)]
M = 'src/mesh/Mesh.cc'


def noverify(cs):
    import copy
    out = []
    for x in cs:
        y = copy.copy(x)
        y.verify = False
        out.append(y)
    return out


UNITS = lambda: [Unit(M, [cells_[1]] + framework + [pgcell]), Unit(M, [cells_[0], cells_[2]] + framework + [pcell, segcell]), Unit(M, faces_ + framework + [pgface, f1face]), Unit(M, edges_ + framework),
                 Unit(M, sides_ + framework + noverify(readers) + [s_cell, s_face, s_edge]),
                 Unit(M, [quantities(k) for k in ('cell', 'face', 'edge')] + [s_cell, s_face, s_edge]), Unit(M, readers + more_readers + framework + [s_cell, s_face, s_edge]),
                 Unit(M, [side_q(), s_side]), Unit(M, side_readers + [s_side2]), Unit(M, [corner] + noverify([wvol])), Unit(M, [corner_q(), cvol, s_corner]),
                 Unit(M, [update()] + noverify([quantities(k) for k in ('cell', 'face', 'edge')] + [side_q(), corner_q()]))]


def LEMMAS():
    """the sum over the wedges of a corner, by recursion, is the same whether the volumes used are cached current ones or current ones: one step of the induction on the number of wedges"""
    w, t, a, b = z3.Reals('w t a b')
    return [('corner sum: one more wedge with a current volume keeps the sums equal', [w == t, a == b], w + a / 2 == t + b / 2)]


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c14.cc', repo=_d.ALLSRC, mpi=True, what='random 2D/3D meshes with all entity kinds: nodes moved by random maps several times; cached values after an update and recomputed values before it against a fresh mesh at the same coordinates')]
EXPLANATION = ('For every entity the kernels of C05 are proved to be called with exactly the current positions of its nodes in order (compute_cell/face/edge_geometry in 1D, 2D, 3D; the face points of a cell in outward order), compute_side_geometry to give the '
               'stated volume and normals from its nodes, edge middle and the centres, compute_corner_geometry the sum over its wedges; the passes over all entities fill every cache entry, and update_geometric_quantities leaves every requested cache '
               'holding the current value of every entity (sides and corners after the cells and faces they depend on). Readers return the cached value, or the current one when asked to recompute; face normals and edge vectors with the orientation of the cell or node given.')
TRUSTED = ['framework virtuals: cell/face/node_get_coordinates, edge_get_nodes, cell_get_faces_and_dirs, face_get_cells, cell_get_nodes return the coordinates and adjacency of the mesh, each face at most once per cell, and -1/1 directions (C01, C02 for the built-in meshes; driver otherwise)',
           'the values of the kernels polygon/polyhed/segment/face1d are functions of the points given (their formulas are proved in C05)']
ASSUMPTIONS = ['real arithmetic', 'entities are numbered 0.. in order in the list of all sides and corners (C12, C15)', 'boundary ghosts have zero cached geometry, as the code documents']
