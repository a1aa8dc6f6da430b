"""Vocabulary and query contracts of the built-in (1D and brick) meshes, over the tables the mesh stores."""
from .common import *

MX = 'Jali::Mesh_simple'
ME = 'Jali::Mesh'
OWNED, GHOST, BGHOST, ALL = 1, 2, 3, 4
i_, j_, k_, m_, n_ = z3.Ints('i!q j!q k!q m!q n!q')
CF, CD, CN, FN, FC, NF, NC = 'cell_to_face_', 'cell_to_face_dirs_', 'cell_to_node_', 'face_to_node_', 'face_to_cell_', 'node_to_face_', 'node_to_cell_'
SIZES = {1: dict(nodes_per_face_=1, faces_per_cell_=2, nodes_per_cell_=2, faces_per_node_aug_=2, cells_per_node_aug_=3),
         3: dict(nodes_per_face_=4, faces_per_cell_=6, nodes_per_cell_=8, faces_per_node_aug_=13, cells_per_node_aug_=9)}
SEL = lambda t: Or(t == OWNED, t == ALL)          # every entity of the built-in meshes is owned
one = lambda b: If(b, IntVal(1), IntVal(0))


def setf(c, name, v):
    """the object's field has this value on entry"""
    p = c.p
    p.save(p.field(p.this, name), v)


def sizes(dim):
    def setup(c):
        for f, v in SIZES[dim].items():
            setf(c, f, IntVal(v))
        setf(c, 'space_dim_', IntVal(dim))
    return setup


def row(name, per, idx, out, table, cond=None):
    """the list holds entries per*id .. per*id+per-1 of the table"""
    def post(c):
        r, t, e = c.cur(out), c.oldf(table), c.arg(idx)
        return [('%s: as many as the table has' % name, r.len == per)] + [('%s: entry %d' % (name, m), at(r, m) == at(t, per * e + m)) for m in range(per)]
    return post


def inrow(per, idx, table):
    return lambda c: [('an id of the table', And(0 <= c.arg(idx), per * c.arg(idx) + per <= c.oldf(table).len))]


def counted(per, idx, out, tidx, table):
    """the list holds the counted entries of the row, for a class that owns them"""
    def post(c):
        r, t, e, ty = c.cur(out), c.oldf(table), c.arg(idx), c.arg(tidx)
        n = at(t, per * e)
        return [('all of the row for owned and all', Implies(SEL(ty), And(r.len == n, ForAll([i_], Implies(And(0 <= i_, i_ < n), at(r, i_) == at(t, per * e + 1 + i_)), patterns=[at(r, i_)])))),
                ('none for other classes', Implies(Not(SEL(ty)), r.len == 0))]
    return post


def counted_pre(per, idx, table):
    return lambda c: inrow(per, idx, table)(c) + [('the count fits the row', And(0 <= at(c.oldf(table), per * c.arg(idx)), at(c.oldf(table), per * c.arg(idx)) < per))]


def counted_loops(per, idx, out, table):
    def loops(L):
        c = L.ctx
        r, t, e = c.p.load(c._ref(out)), c.oldf(table), c.arg(idx)
        return [('copied so far', r.len == L.local('i')), ('entries', ForAll([i_], Implies(And(0 <= i_, i_ < L.local('i')), at(r, i_) == at(t, per * e + 1 + i_)), patterns=[at(r, i_)]))]
    return loops


def queries(dim):
    """contracts of the table queries for a mesh of this dimension"""
    Z = SIZES[dim]
    npf, fpc, npc, fpn, cpn = Z['nodes_per_face_'], Z['faces_per_cell_'], Z['nodes_per_cell_'], Z['faces_per_node_aug_'], Z['cells_per_node_aug_']
    K = dict(setup=sizes(dim))
    S = ' (%dD)' % dim

    def faces_dirs(null):
        def post(c):
            return row('faces', fpc, 0, 1, CF)(c) + ([] if null else row('directions', fpc, 0, 2, CD)(c))
        return Contract(MX + '::cell_get_faces_and_dirs_internal', label='cell_get_faces_and_dirs_internal' + S + (' without directions' if null else ''), mods=['*1'] + ([] if null else ['*2']), dyn={'null': ('cfacedirs',)} if null else {},
                        pre=lambda c: inrow(fpc, 0, CF)(c) + inrow(fpc, 0, CD)(c), post=post, **K)

    def fcells(c):
        e, t, r = c.arg(0), c.arg(1), c.cur(2)
        a = [at(c.oldf(FC), 2 * e + m) for m in (0, 1)]
        s = [And(SEL(t), x != -1) for x in a]
        return [('exactly the recorded cells', r.len == one(s[0]) + one(s[1])), ('first', Implies(s[0], at(r, 0) == a[0])), ('second', Implies(s[1], at(r, one(s[0])) == a[1]))]

    out = [
        faces_dirs(False), faces_dirs(True),
        Contract(MX + '::cell_get_nodes', label='cell_get_nodes' + S, mods=['*1'], pre=inrow(npc, 0, CN), post=row('nodes', npc, 0, 1, CN), **K),
        Contract(MX + '::face_get_nodes', label='face_get_nodes' + S, mods=['*1'], pre=inrow(npf, 0, FN), post=row('nodes', npf, 0, 1, FN), **K),
        Contract(MX + '::node_get_cells', label='node_get_cells' + S, mods=['*2'], pre=counted_pre(cpn, 0, NC), post=counted(cpn, 0, 2, 1, NC), loops=counted_loops(cpn, 0, 2, NC), **K),
        Contract(MX + '::node_get_faces', label='node_get_faces' + S, mods=['*2'], pre=counted_pre(fpn, 0, NF), post=counted(fpn, 0, 2, 1, NF), loops=counted_loops(fpn, 0, 2, NF), **K),
        Contract(MX + '::face_get_cells_internal', label='face_get_cells_internal' + S, mods=['*2'], pre=inrow(2, 0, FC), post=fcells, **K),
    ]

    # faces of a cell at a node, cells across the faces of a cell: the selected entries in order
    def has(c, m):
        """face m of the cell has the node"""
        f = at(c.oldf(CF), fpc * c.arg(1) + m)
        return f, Or(*[at(c.oldf(FN), npf * f + q) == c.arg(0) for q in range(npf)])

    def ncf_pre(c):
        return inrow(fpc, 1, CF)(c) + [('faces of the cell are faces of the mesh', And(*[And(0 <= has(c, m)[0], npf * has(c, m)[0] + npf <= c.oldf(FN).len) for m in range(fpc)]))]

    def filtered(sel, r, upto=None):
        """r holds the selected values among the first upto, in order; sel: list of (value, selected)"""
        N = len(sel)
        lt = (lambda m: True) if upto is None else (lambda m: m < upto)
        pos = lambda m: sum((one(And(lt(q), sel[q][1])) for q in range(m)), IntVal(0))
        return [('exactly the selected ones', r.len == pos(N))] + [('selected %d in its place' % m, Implies(And(lt(m), sel[m][1]), at(r, pos(m)) == sel[m][0])) for m in range(N)]

    def ncf_post(c):
        return [(a, Implies(SEL(c.arg(2)), b)) for a, b in filtered([has(c, m) for m in range(fpc)], c.cur(3))] + [('none for other classes', Implies(Not(SEL(c.arg(2))), c.cur(3).len == 0))]

    def ncf_loops(L):
        c = L.ctx
        r = c.p.load(c._ref(3))
        sel = [has(c, m) for m in range(fpc)]
        i = L.local('i')
        if L.ordinal == 0:
            return filtered(sel, r, i)
        j = L.local('j')
        cur = L.local('cellfaceid')
        return filtered(sel, r, i) + [('not among the nodes seen', And(*[Implies(q < j, at(c.oldf(FN), npf * cur + q) != c.arg(0)) for q in range(npf)]))]
    out.append(Contract(MX + '::node_get_cell_faces', label='node_get_cell_faces' + S, mods=['*3'], pre=ncf_pre, post=ncf_post, loops=ncf_loops, cut=dim == 3, **K))

    def across(c, m):
        f = at(c.oldf(CF), fpc * c.arg(0) + m)
        a, b = at(c.oldf(FC), 2 * f), at(c.oldf(FC), 2 * f + 1)
        ok = lambda x: And(x != -1, x != c.arg(0))
        return If(ok(a), a, b), Or(ok(a), ok(b))

    def fa_pre(c):
        f = lambda m: at(c.oldf(CF), fpc * c.arg(0) + m)
        return inrow(fpc, 0, CF)(c) + [('faces of the cell are faces of the mesh', And(*[And(0 <= f(m), 2 * f(m) + 2 <= c.oldf(FC).len) for m in range(fpc)]))]

    def fa_post(c):
        return [(a, Implies(SEL(c.arg(1)), b)) for a, b in filtered([across(c, m) for m in range(fpc)], c.cur(2))] + [('none for other classes', Implies(Not(SEL(c.arg(1))), c.cur(2).len == 0))]

    def fa_loops(L):
        c = L.ctx
        return filtered([across(c, m) for m in range(fpc)], c.p.load(c._ref(2)), L.local('i')) + [('offset', L.local('offset') == fpc * c.arg(0) + L.local('i'))]
    out.append(Contract(MX + '::cell_get_face_adj_cells', label='cell_get_face_adj_cells' + S, mods=['*2'], pre=fa_pre, post=fa_post, loops=fa_loops, cut=dim == 3, **K))

    # cells around a cell: the cells at its nodes, each once, without the cell itself
    nd = lambda c, a: at(c.oldf(CN), npc * c.arg(0) + a)
    cnt = lambda c, a: at(c.oldf(NC), cpn * nd(c, a))
    cel = lambda c, a, b: at(c.oldf(NC), cpn * nd(c, a) + b + 1)
    POS = z3.Function('position in the answer', z3.IntSort(), z3.IntSort())     # trigger only

    def na_pre(c):
        return inrow(npc, 0, CN)(c) + [('nodes of the cell are nodes of the mesh', And(*[And(0 <= nd(c, a), cpn * nd(c, a) + cpn <= c.oldf(NC).len, 0 <= cnt(c, a), cnt(c, a) < cpn) for a in range(npc)]))]

    def inr(r, x, n=None):
        return z3.Exists([k_], And(0 <= k_, k_ < (r.len if n is None else n), at(r, k_) == x))

    def na_state(c, r, a0=None, b0=None):
        """state after the first a0 nodes and b0 cells of the next"""
        done = lambda a, b: True if a0 is None else (a < a0 if b0 is None else Or(a < a0, And(a == a0, b < b0)))
        B = range(cpn - 1)
        src = lambda x: Or(*[And(done(a, b), b < cnt(c, a), cel(c, a, b) == x) for a in range(npc) for b in B])
        out = [('not the cell itself', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), at(r, i_) != c.arg(0)), patterns=[at(r, i_)])),
               ('each once', ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < r.len), at(r, i_) != at(r, j_)), patterns=[z3.MultiPattern(at(r, i_), at(r, j_))])),
               ('only cells at its nodes', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), src(at(r, i_))), patterns=[at(r, i_)]))]
        for a in range(npc):
            for b in B:
                out.append(('cell %d of node %d is there' % (b, a), Implies(And(done(a, b), b < cnt(c, a), cel(c, a, b) != c.arg(0)), inr(r, cel(c, a, b)))))
        return out

    def na_post(c):
        return [(a, Implies(SEL(c.arg(1)), b)) for a, b in na_state(c, c.cur(2))] + [('none for other classes', Implies(Not(SEL(c.arg(1))), c.cur(2).len == 0))]

    def na_loops(L):
        c = L.ctx
        r = c.p.load(c._ref(2))
        if L.ordinal == 0:
            return na_state(c, r, L.local('i'))
        if L.ordinal == 1:
            return na_state(c, r, L.local('i'), L.local('j'))
        return [('not found so far', ForAll([i_], Implies(And(0 <= i_, i_ < L.local('k')), at(r, i_) != L.local('nodecell')), patterns=[at(r, i_)])), ('nothing found', L.local('found') == 0)]
    out.append(Contract(MX + '::cell_get_node_adj_cells', label='cell_get_node_adj_cells' + S, mods=['*2'], pre=na_pre, post=na_post, loops=na_loops, cut=dim == 3, **K))

    # coordinates
    XY = 'coordinates_'
    out.append(Contract(MX + '::node_get_coordinates', sig=r'Point \*', label='node_get_coordinates(Point)' + S, mods=['*1'], pre=inrow(dim, 0, XY), post=lambda c: pt_is(c.cur(1), dim, lambda k: at(c.oldf(XY), dim * c.arg(0) + k)), **K))
    if dim == 3:
        out.append(Contract(MX + '::node_get_coordinates', sig=r'array', label='node_get_coordinates(array)' + S, mods=['*1'], pre=inrow(dim, 0, XY), post=lambda c: [('coordinate %d' % k, term(c.cur(1).items[k]) == at(c.oldf(XY), 3 * c.arg(0) + k)) for k in range(3)], **K))
    else:
        out.append(Contract(MX + '::node_get_coordinates', sig=r'double \*', label='node_get_coordinates(double)' + S, mods=['*1'], pre=inrow(dim, 0, XY), post=lambda c: [('coordinate', c.cur(1) == at(c.oldf(XY), c.arg(0)))], **K))

    def moved(val):
        def post(c):
            a, b, v = c.f(XY), c.oldf(XY), c.arg(0)
            return [('as many coordinates', a.len == b.len)] + [('coordinate %d of the node' % k, at(a, dim * v + k) == val(c, k)) for k in range(dim)] + \
                   [('coordinates of other nodes', ForAll([i_], Implies(And(0 <= i_, i_ < b.len, Or(i_ < dim * v, i_ >= dim * v + dim)), at(a, i_) == at(b, i_)), patterns=[at(a, i_)]))]
        return post
    out.append(Contract(MX + '::node_set_coordinates', sig=r'double \*', label='node_set_coordinates(double*)' + S, mods=['this.' + XY], dyn={'arrays': ('ncoord',)}, pre=lambda c: inrow(dim, 0, XY)(c) + [('an array of %d' % dim, c.p.load(c.binds[1].lv).len >= dim)], post=moved(lambda c, k: at(c.p.load(c.binds[1].lv), k)), **K))
    out.append(Contract(MX + '::node_set_coordinates', sig=r'Point', label='node_set_coordinates(Point)' + S, mods=['this.' + XY], pre=lambda c: inrow(dim, 0, XY)(c) + [('a point of that dimension', dim_(c.arg(1)) == dim)], post=moved(lambda c, k: co(c.arg(1), k)), **K))

    # coordinates of the nodes of a face or cell
    def coords(per, table):
        def pre(c):
            nd = lambda m: at(c.oldf(table), per * c.arg(0) + m)
            return inrow(per, 0, table)(c) + [('nodes of the mesh', And(*[And(0 <= nd(m), dim * nd(m) + dim <= c.oldf(XY).len) for m in range(per)]))]

        def entry(c, r, m):
            q = PTS(c, r, m)
            nd = at(c.oldf(table), per * c.arg(0) + m)
            return And(q[0] == dim, *[q[1][k] == at(c.oldf(XY), dim * nd + k) for k in range(dim)])

        def post(c):
            return [('as many as it has nodes', c.cur(1).len == per)] + [('coordinates of node %d' % m, entry(c, c.cur(1), m)) for m in range(per)]
        return dict(pre=pre, post=post)
    out.append(Contract(MX + '::face_get_coordinates', label='face_get_coordinates' + S, mods=['*1'], **coords(npf, FN), **K))
    out.append(Contract(MX + '::cell_get_coordinates', label='cell_get_coordinates' + S, mods=['*1'], **coords(npc, CN), **K))
    return out


dim_ = dim      # of common: the dimension of a point


def PTS(c, r, m):
    """dimension and coordinates of element m of a vector of points"""
    v = c.p.unpack(at(r, IntVal(m)), ('rec', 'JaliGeometry::Point'))
    return dim_(v), [co(v, k) for k in range(3)]


# ---- lemmas: what a query returns on tables with given contents
class Fake:
    """stands for a call of a query: arguments, tables and results are arbitrary"""

    def __init__(self, tables, args, outs):
        self.t, self.a, self.o = tables, args, outs

    def oldf(self, f):
        return self.t[f]

    f = oldf

    def arg(self, i):
        return self.a[i]

    def cur(self, i):
        return self.o[i]


def vecc(nm):
    from cxv.ctypes_ import VecV
    return VecV(('int', True, 32), z3.Int(nm + '!n'), z3.Array(nm + '!a', z3.IntSort(), z3.IntSort()))


def formulas(l):
    return [f if z3.is_expr(f) else z3.BoolVal(f) for x in l for f in [x[1] if isinstance(x, tuple) else x]]


def contract(cs, label):
    return [c for c in cs if c.label == label][0]


def mesh_caches(dim):
    """Mesh's cached copies of the downward and upward tables"""
    return []
