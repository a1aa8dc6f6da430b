"""C02: the 1D mesh is the chain of its points."""
from .lattice import *

NX = lambda c: c.oldf('nx_')
ROW = z3.Function('row', z3.IntSort(), z3.BoolSort())        # trigger only: true of every id
v_ = z3.Int('v!q')
idx = [Contract(MX + '::' + f, sig=r'\(int\) const', nparams=1, label='%s(i)' % f, pre=lambda c: [c.arg(0) >= 0], ret=lambda c: c.arg(0)) for f in ('node_index_', 'cell_index_', 'xyface_index_', 'xzface_index_', 'yzface_index_')]
TABLES = [CF, CD, CN, FN, FC, NF, NC]
LISTS = ['%sids_%s_' % (n, t) for n in ('node', 'edge', 'face', 'cell') for t in ('owned', 'ghost', 'all')]


def every(lo, hi, f):
    """for all ids in the range; quantified through the trigger"""
    return ForAll([v_], Implies(And(ROW(v_), lo <= v_, v_ < hi), f(v_)), patterns=[ROW(v_)])


def tab(g, nx, cells_cn=None, cells_cf=None, faces=None):
    """contents of the tables after the given numbers of cells and faces (None: untouched)"""
    out = []
    T = lambda f, i: at(g(f), i)
    if cells_cn is not None:
        n = cells_cn
        out += [('nodes of the cells', every(0, n, lambda v: And(T(CN, 2 * v) == v, T(CN, 2 * v + 1) == v + 1))),
                ('number of cells of each node', every(0, nx + 1, lambda v: T(NC, 3 * v) == one(And(v >= 1, v - 1 < n)) + one(v < n))),
                ('cell before each node', every(1, nx + 1, lambda v: Implies(v - 1 < n, T(NC, 3 * v + 1) == v - 1))),
                ('cell after each node', every(0, nx, lambda v: Implies(v < n, T(NC, 3 * v + 1 + one(v >= 1)) == v)))]
    if cells_cf is not None:
        n = cells_cf
        out += [('faces and directions of the cells', every(0, n, lambda v: And(T(CF, 2 * v) == v, T(CF, 2 * v + 1) == v + 1, T(CD, 2 * v) == -1, T(CD, 2 * v + 1) == 1))),
                ('cell after each face', every(0, nx + 1, lambda v: T(FC, 2 * v) == If(v < n, v, IntVal(-1)))),
                ('cell before each face', every(0, nx + 1, lambda v: T(FC, 2 * v + 1) == If(And(v >= 1, v - 1 < n), v - 1, IntVal(-1))))]
    if faces is not None:
        n = faces
        out += [('node of the faces', every(0, n, lambda v: T(FN, v) == v)), ('number of faces of each node', every(0, nx + 1, lambda v: T(NF, 2 * v) == one(v < n))), ('face of each node', every(0, n, lambda v: T(NF, 2 * v + 1) == v))]
    return out


def tabsizes(g, nx):
    return [('%s has its size' % f, g(f).len == s) for f, s in ((CN, 2 * nx), (CF, 2 * nx), (CD, 2 * nx), (FN, nx + 1), (FC, 2 * nx + 2), (NF, 2 * nx + 2), (NC, 3 * nx + 3))]


def identity(l, n):
    return And(l.len == n, ForAll([i_], Implies(And(0 <= i_, i_ < n), at(l, i_) == i_), patterns=[at(l, i_)]))


def enum(g, kind, n, cond=None):
    f = lambda t: g('%sids_%s_' % (kind, t))
    c = True if cond is None else cond
    return [('%ss are numbered from 0' % kind, Implies(c, And(identity(f('owned'), n), identity(f('all'), n)))), ('no ghost %ss' % kind, f('ghost').len == 0), ('no %ss when not requested' % kind, Implies(Not(c), And(f('owned').len == 0, f('all').len == 0)))]


def up_pre(c):
    # tables are empty when the mesh is constructed
    c.p.assume(ForAll([v_], ROW(v_), patterns=[ROW(v_)]))
    return [('at least one cell', NX(c) >= 1)] + [('%s is empty' % f, c.oldf(f).len == 0) for f in TABLES]


def up_post(c):
    nx = NX(c)
    return [('number of cells', c.f('num_cells_') == nx), ('number of nodes', c.f('num_nodes_') == nx + 1), ('number of faces', c.f('num_faces_') == nx + 1)] + tabsizes(c.f, nx) + tab(c.f, nx, nx, nx, nx + 1) + \
        enum(c.f, 'node', nx + 1) + enum(c.f, 'edge', nx + 1, yes(c.oldf('edges_requested'))) + enum(c.f, 'face', nx + 1, yes(c.oldf('faces_requested'))) + enum(c.f, 'cell', nx)


def up_loops(L):
    c = L.ctx
    nx = NX(c)
    o = L.ordinal
    if o <= 2:
        ix = L.local('ix')
        for d in (-1, 0, 1, 2):
            L.p.assume(ROW(ix + d))
        stage = [(ix, None, None), (nx, ix, None), (nx, nx, ix)][o]
        first = tab(L.f, nx, *(0 if x is None else x for x in stage))
        if stage[1] is None:
            first = tab(L.f, nx, ix) + [('no faces of nodes yet', every(0, nx + 1, lambda v: at(L.f(NF), 2 * v) == 0)), ('no cells of faces yet', every(0, 2 * nx + 2, lambda v: at(L.f(FC), v) == -1))]
        return tabsizes(L.f, nx) + first
    f = {3: 'node', 4: 'edge', 5: 'face', 6: 'cell'}[o]
    l = L.f(f + 'ids_owned_')
    i = L.local('i')
    return [('numbered so far', ForAll([i_], Implies(And(0 <= i_, i_ < i), at(l, i_) == i_), patterns=[at(l, i_)]))]


build = [Contract(MX + '::update_internals_1d_', setup=sizes(1), mods=['this.' + f for f in TABLES + LISTS + ['num_cells_', 'num_nodes_', 'num_faces_']], pre=up_pre, post=up_post, loops=up_loops),
         Contract(MX + '::clear_internals_1d_', mods=['this.' + f for f in (CF, CN, FN, 'side_sets_')], post=lambda c: [('%s is empty' % f, c.f(f).len == 0) for f in (CF, CN, FN)])]
base = [Contract(ME + '::Mesh', modular=False, verify=False)] + [Contract(ME + '::' + f, modular=False, verify=False) for f in ('set_space_dimension', 'set_manifold_dimension')] + [
    Contract(ME + '::cache_extra_variables', trusted=True, mods=['this.type_info_cached']), Contract(ME + '::build_tiles', trusted=True, mods=['this.meshtiles'])]


def ctor_post(c):
    x = c.arg(0)
    nx = x.len - 1
    return [('node coordinates are those given', And(c.f('coordinates_').len == x.len, ForAll([i_], Implies(And(0 <= i_, i_ < x.len), at(c.f('coordinates_'), i_) == at(x, i_)), patterns=[at(x, i_)]))), ('one cell between consecutive nodes', c.f('nx_') == nx),
            ('number of cells', c.f('num_cells_') == nx), ('number of nodes', c.f('num_nodes_') == nx + 1), ('number of faces', c.f('num_faces_') == nx + 1), ('dimensions', And(c.f('space_dim_') == 1, c.f('manifold_dim_') == 1)), ('geometry type as asked', c.f('geomtype') == c.arg(13))] + \
        [('stored %s' % f, c.f(f) == v) for f, v in SIZES[1].items()] + tabsizes(c.f, nx) + tab(c.f, nx, nx, nx, nx + 1) + enum(c.f, 'node', nx + 1) + enum(c.f, 'cell', nx) + \
        [('subdivisions imply faces and edges', And(Implies(Or(c.arg(4), c.arg(5), c.arg(6), c.arg(7)), yes(c.f('edges_requested'))), Implies(Or(c.arg(3), c.arg(5), c.arg(6), c.arg(7)), yes(c.f('faces_requested')))))]


ctor = [Contract(MX + '::Mesh_simple', nparams=14, sig=r'vector<double>', label='Mesh_simple(points)', pre=lambda c: [('at least two points', c.arg(0).len >= 2)], post=ctor_post)]
QS = queries(1)
other = [Contract(MX + '::edge_get_nodes_internal', setup=sizes(1), mods=['*1', '*2'], post=lambda c: [('an edge is its node', And(c.cur(1) == c.arg(0), c.cur(2) == c.arg(0)))]),
         Contract(MX + '::face_get_edges_and_dirs_internal', setup=sizes(1), mods=['*1', '*2'], post=lambda c: [('faces have no edges in 1D', And(c.cur(1).len == 0, c.cur(2).len == 0))])]
from . import c05
UNITS = lambda: [Unit('src/mesh/mesh_simple/Mesh_simple.cc', idx + build + QS + other + base + ctor), Unit('src/geometry/Geometry.cc', [c05.seg(1), c05.f1d()])]


def LEMMAS():
    nx, e, t = z3.Ints('nx e type')
    T = {f: vecc(f) for f in TABLES}
    g = T.__getitem__
    r, d = vecc('answer'), vecc('dirs')
    hy = formulas([ROW(e + k) for k in (-1, 0, 1, 2)] + [nx >= 1] + tabsizes(g, nx) + tab(g, nx, nx, nx, nx + 1))
    out = []

    def lem(title, label, args, outs, lo, hi, want):
        ct = contract(QS, label)
        c = Fake(T, args, outs)
        out.append((title + ': the tables meet the precondition', hy + [lo <= e, e < hi], And(*formulas(ct.pre(c)))))
        for a, w in want:
            out.append(('%s: %s' % (title, a), hy + [lo <= e, e < hi] + formulas(ct.post(c)), w))
    two = lambda n, a, b: [('as many as there are', r.len == one(a[0]) + one(b[0])), ('first', Implies(a[0], at(r, 0) == a[1])), ('second', Implies(b[0], at(r, one(a[0])) == b[1]))]
    before, after = (e >= 1, e - 1), (e < nx, e)
    lem('nodes of a cell', 'cell_get_nodes (1D)', [e, r], [None, r], 0, nx, [('its end nodes', And(r.len == 2, at(r, 0) == e, at(r, 1) == e + 1))])
    lem('faces of a cell', 'cell_get_faces_and_dirs_internal (1D)', [e, r, d], [None, r, d], 0, nx, [('its end nodes, left one entering', And(r.len == 2, at(r, 0) == e, at(r, 1) == e + 1, d.len == 2, at(d, 0) == -1, at(d, 1) == 1))])
    lem('node of a face', 'face_get_nodes (1D)', [e, r], [None, r], 0, nx + 1, [('itself', And(r.len == 1, at(r, 0) == e))])
    lem('cells of a node', 'node_get_cells (1D)', [e, IntVal(ALL), r], [None, None, r], 0, nx + 1, two('', before, after))
    lem('cells of a face', 'face_get_cells_internal (1D)', [e, IntVal(ALL), r], [None, None, r], 0, nx + 1, [('as many as there are', r.len == one(e >= 1) + one(e < nx)), ('after it', Implies(e < nx, at(r, 0) == e)), ('before it', Implies(e >= 1, at(r, one(e < nx)) == e - 1))])
    lem('faces of a node', 'node_get_faces (1D)', [e, IntVal(ALL), r], [None, None, r], 0, nx + 1, [('itself', And(r.len == 1, at(r, 0) == e))])
    for s in (0, 1):
        lem('faces of a cell at its node %d' % s, 'node_get_cell_faces (1D)', [e + s, e, IntVal(ALL), r], [None, None, None, r], 0, nx, [('the node itself', And(r.len == 1, at(r, 0) == e + s))])
    adj = two('', before, (e + 1 < nx, e + 1))
    lem('cells across the faces of a cell', 'cell_get_face_adj_cells (1D)', [e, IntVal(ALL), r], [None, None, r], 0, nx, adj)
    x = z3.Int('x')
    mem = z3.Exists([k_], And(0 <= k_, k_ < r.len, at(r, k_) == x))
    lem('cells around a cell', 'cell_get_node_adj_cells (1D)', [e, IntVal(ALL), r], [None, None, r], 0, nx, [('exactly the neighbours', mem == And(0 <= x, x < nx, Or(x == e - 1, x == e + 1)))])
    return out
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c02.cc', repo=_d.ALLSRC, mpi=True, what='random Cartesian and spherical lines: every query against the chain of points, volumes, centroids, areas and normals, before and after moving nodes')]
EXPLANATION = ('update_internals_1d_ is proved to fill every table with the chain (loop invariants over all points), the constructor to keep the given coordinates, every query to return exactly its table row, and lemmas compose the two: '
               'the answers are the neighbours in the chain. The 1D cell and face measures are proved to be the Cartesian or spherical formula of the end points.')
TRUSTED = ['Mesh::cache_extra_variables and Mesh::build_tiles do not write the tables of Mesh_simple (they are private to it)']
