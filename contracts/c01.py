"""C01: connectivity of brick meshes."""
from .brick import *
QS = queries(3)
base_ = [Contract(ME + '::Mesh', modular=False, verify=False)] + [Contract(ME + '::' + f, modular=False, verify=False) for f in ('set_space_dimension', 'set_manifold_dimension', 'set_mesh_type', 'set_geometric_model')] + [
    Contract(ME + '::cache_extra_variables', trusted=True, mods=['this.type_info_cached']), Contract(ME + '::build_tiles', trusted=True, mods=['this.meshtiles'])]
clear = [Contract(MX + '::clear_internals_3d_', mods=['this.' + f for f in (CF, CN, FN, 'side_sets_', 'coordinates_')], post=lambda c: [('%s is empty' % f, c.f(f).len == 0) for f in (CF, CN, FN, 'coordinates_')])]


class Made:
    """the constructor's arguments are the extents of the lattice"""

    def __init__(self, c):
        self.c = c

    def oldf(self, name):
        k = dict(x0_=0, y0_=1, z0_=2, x1_=3, y1_=4, z1_=5, nx_=6, ny_=7, nz_=8).get(name)
        return self.c.arg(k) if k is not None else self.c.f(name)


def ctor_pre(c):
    facts(c.p, tuple(c.arg(k) for k in (6, 7, 8)))
    return [('at least one cell each way', And(*[c.arg(k) >= 1 for k in (6, 7, 8)]))]


def ctor_post(c):
    n = tuple(c.arg(k) for k in (6, 7, 8))
    nc, nn, nf = last(CI, n), last(NI, n), last(YZF, n)
    return [('number of cells', c.f('num_cells_') == nc), ('number of nodes', c.f('num_nodes_') == nn), ('number of faces', c.f('num_faces_') == nf), ('dimensions', And(c.f('space_dim_') == 3, c.f('manifold_dim_') == 3))] + \
        [('stored %s' % f, c.f(f) == v) for f, v in SIZES[3].items()] + tabsizes(c.f, n) + content(c.f, n, Made(c)) + enum(c.f, 'node', nn) + enum(c.f, 'cell', nc)


ctor = [Contract(MX + '::Mesh_simple', nparams=21, label='Mesh_simple(brick)', pre=ctor_pre, post=ctor_post)]
UNITS = lambda: [Unit('src/mesh/mesh_simple/Mesh_simple.cc', idx + build + QS + clear + base_ + ctor)]


def inst(fs, F, t, by=None):
    """the quantified facts about a family at one triple"""
    by = TRIG[F] if by is None else by
    out = []
    for f in fs:
        if z3.is_quantifier(f) and f.num_vars() == 3 and f.num_patterns() and f.pattern(0).num_args() == 1 and f.pattern(0).arg(0).decl().eq(by):
            out.append(z3.substitute_vars(f.body(), *reversed(t)))
    return out


class _assumer:
    def __init__(self, l):
        self.assume = l.append


def composition():
    """what the queries answer on the tables the constructor builds"""
    TRIGGERS[0] = True
    try:
        return composition_()
    finally:
        TRIGGERS[0] = False


def composition_():
    out = []
    n = tuple(z3.Ints('nx ny nz'))
    t = tuple(z3.Ints('i j k'))
    T = {f: vecc(f) for f in TABLES}
    g = T.__getitem__
    from cxv.ctypes_ import VecV
    T['coordinates_'] = VecV(('float', 64), z3.Int('coordinates!n'), z3.Array('coordinates!a', z3.IntSort(), z3.RealSort()))
    lo = z3.Reals('x0 y0 z0')
    hi = z3.Reals('x1 y1 z1')

    class C:
        oldf = staticmethod(lambda f: dict(zip(('x0_', 'y0_', 'z0_'), lo)).get(f, dict(zip(('x1_', 'y1_', 'z1_'), hi)).get(f)))
    col = []
    facts(_assumer(col), n)
    ftab = formulas(content(g, n, C))
    base_h = [x >= 1 for x in n] + [f for f in col if not z3.is_quantifier(f)] + formulas(tabsizes(g, n))
    r, d = vecc('answer'), vecc('dirs')
    everything = col + ftab
    at_triple = lambda F, x: inst(everything, F, x) + inst(col, F, x, F) + [TRIG[F](*x)]

    def lem(title, label, args, outs, where, needs, want, pre=True):
        ct = contract(QS, label)
        c = Fake(T, args, outs)
        hy = base_h + [inside(where[0], n, where[1])]
        for F, x in needs:
            hy += at_triple(F, x)
        if pre:
            out.append((title + ': the tables meet the precondition', hy, And(*formulas(ct.pre(c)))))
        for a, w in want:
            out.append(('%s: %s' % (title, a), hy + formulas(ct.post(c)), w))
    here = lambda F, os_: [(F, off(t, o)) for o in os_]
    e = CI(*t)
    C0 = (CI, t)
    allc = [C0] + here(NI, CNODES) + [(F, off(t, o)) for F, o, _ in CFACES]
    lem('nodes of a cell', 'cell_get_nodes (3D)', [e, r], [None, r], C0, [C0], [('its eight corners in order', And(r.len == 8, *[at(r, m) == NI(*off(t, o)) for m, o in enumerate(CNODES)]))])
    lem('faces of a cell', 'cell_get_faces_and_dirs_internal (3D)', [e, r, d], [None, r, d], C0, [C0], [('its six faces with the sides they point to', And(r.len == 6, d.len == 6, *[And(at(r, m) == F(*off(t, o)), at(d, m) == s) for m, (F, o, s) in enumerate(CFACES)]))])
    for F in FAM:
        f, W, nm = F(*t), (F, t), TRIG[F].name()
        lem('nodes of a %s' % nm, 'face_get_nodes (3D)', [f, r], [None, r], W, [W], [('its four corners in order', And(r.len == 4, *[at(r, m) == NI(*off(t, o)) for m, o in enumerate(FNODES[F])]))])
        a, b = [(inside(CI, n, off(t, o)), CI(*off(t, o))) for o in FCELLS[F]]
        lem('cells of a %s' % nm, 'face_get_cells_internal (3D)', [f, IntVal(ALL), r], [None, None, r], W, [W] + here(CI, FCELLS[F]), [('the cells on its two sides that are in the brick', And(r.len == one(a[0]) + one(b[0]), Implies(a[0], at(r, 0) == a[1]), Implies(b[0], at(r, one(a[0])) == b[1])))])
    V = (NI, t)
    for table, label in ((NC, 'node_get_cells (3D)'), (NF, 'node_get_faces (3D)')):
        N = len(SLOTS[table])
        lem('%s of a node' % WHAT[table], label, [NI(*t), IntVal(ALL), r], [None, None, r], V, [V], [('as many as there are', r.len == place(table, n, t, N))] + [('entry %d' % q, Implies(slot_in(table, n, t, q), at(r, place(table, n, t, q)) == slot_num(table, t, q))) for q in range(N)])
    for m, o in enumerate(CNODES):
        v = off(t, o)
        sel = [(F(*off(t, fo)), any(tuple(a + b for a, b in zip(fo, no)) == o for no in FNODES[F])) for F, fo, _ in CFACES]
        three = [x for x, s in sel if s]
        lem('faces of a cell at its node %d' % m, 'node_get_cell_faces (3D)', [NI(*v), e, IntVal(ALL), r], [None, None, None, r], C0, allc, [('the three faces that have it', And(r.len == 3, *[at(r, q) == x for q, x in enumerate(three)]))], pre=m == 0)
    nb = []
    for F, fo, s in CFACES:
        nb.append([q for q in (tuple(a + b for a, b in zip(fo, co)) for co in FCELLS[F]) if q != (0, 0, 0)][0])
    X = [(inside(CI, n, off(t, o)), CI(*off(t, o))) for o in nb]
    pl = lambda m: sum((one(X[q][0]) for q in range(m)), IntVal(0))
    lem('cells across the faces of a cell', 'cell_get_face_adj_cells (3D)', [e, IntVal(ALL), r], [None, None, r], C0, allc + here(CI, nb), [('as many as there are', r.len == pl(6))] + [('the one across face %d' % m, Implies(X[m][0], at(r, pl(m)) == X[m][1])) for m in range(6)])
    # cells around a cell: node by node, against the postcondition of the query
    x = z3.Int('x')
    mem = z3.Exists([k_], And(0 <= k_, k_ < r.len, at(r, k_) == x))
    ct = contract(QS, 'cell_get_node_adj_cells (3D)')
    post = dict(ct.post(Fake(T, [e, IntVal(ALL), r], [None, None, r])))
    lem('cells around a cell', 'cell_get_node_adj_cells (3D)', [e, IntVal(ALL), r], [None, None, r], C0, allc, [('not itself', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), at(r, i_) != e), patterns=[at(r, i_)]))])
    for m, no in enumerate(CNODES):
        v = off(t, no)
        nbs = [tuple(a + b for a, b in zip(no, o)) for o in NCELLS]
        h = base_h + [inside(CI, n, t)]
        for F, y in [C0, (NI, v)] + here(CI, nbs):
            h += at_triple(F, y)
        cnt = at(T[NC], 9 * NI(*v))
        out.append(('cells around a cell: node %d of the row' % m, h, at(T[CN], 8 * e + m) == NI(*v)))
        out.append(('cells around a cell: those at node %d are around it' % m, h, And(0 <= cnt, cnt <= 8, *[Implies(b < cnt, Or(*[And(inside(CI, n, off(t, o)), at(T[NC], 9 * NI(*v) + 1 + b) == CI(*off(t, o))) for o in nbs])) for b in range(8)])))
        for o in nbs:
            first = next(mm for mm, n2 in enumerate(CNODES) if all(0 <= u - w + 1 <= 1 for u, w in zip(o, n2)))
            if o != (0, 0, 0) and first == m:
                there = [post['cell %d of node %d is there' % (b, m)] for b in range(8)]
                out.append(('cells around a cell: the cell at %s' % (o,), h + [Implies(SEL(IntVal(ALL)), q) for q in there] + [inside(CI, n, off(t, o)), x == CI(*off(t, o)), at(T[CN], 8 * e + m) == NI(*v)], mem))
    for k in range(3):
        h = base_h + [inside(NI, n, t)] + at_triple(NI, t)
        out.append(('coordinate %d of a node' % k, h, at(T['coordinates_'], 3 * NI(*t) + k) == lo[k] + z3.ToReal(t[k]) * ((hi[k] - lo[k]) / z3.ToReal(n[k]))))
    return out


LEMMAS = lambda: lattice_lemmas() + composition()
LEVEL = 'proof'
TLIMIT = 500
from cxv import driver as _d
DRIVERS = [dict(src='c01.cc', repo=_d.ALLSRC, mpi=True, what='random bricks: every adjacency query against the lattice and against its inverse query, all entity classes, and the ids lists')]
EXPLANATION = ('update_internals_3d_ is proved to fill every table with the brick lattice (invariants of all its loops, one contract per table), the index functions to compute the numbering, the constructor to keep all of it, and every query to return exactly its table row; '
               'lemmas prove the numbering to be one-to-one and onto the ids and compose queries and tables: nodes, faces with directions, cells of faces and nodes, and neighbours are those of the lattice.')
TRUSTED = ['Mesh::cache_extra_variables and Mesh::build_tiles do not write the tables of Mesh_simple (they are private to it)']
