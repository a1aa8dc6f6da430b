"""C11: named sets built from regions."""
from .bags import *
from .bags import LEMMAS
from . import c09, c10
from .c09 import MS, OWNED, GHOST, ALL, OWN, GH, AL
from cxv import driver as _d

ME = 'Jali::Mesh'
SETS = 'meshsets_'
heap = lambda c, f, entry=True: c.p.heapget(MS, f, c.heap0 if entry else None)[0]
kindof = lambda c, o: Select(heap(c, 'kind_'), o)
named = lambda c, o, name, k: And(Select(heap(c, 'name_'), o) == name, kindof(c, o) == k)
some = lambda c: [('every listed set exists', ForAll([i_], Implies(And(0 <= i_, i_ < c.oldf(SETS).len), at(c.oldf(SETS), i_) != 0), patterns=[at(c.oldf(SETS), i_)]))]
lst = lambda c, f, o: c.p.unpack(Select(heap(c, f), o), c.p.heapget(MS, f)[1])


def first(c, i):
    v = c.oldf(SETS)
    return And(0 <= i, i < v.len, named(c, at(v, i), c.arg(0), c.arg(1)), ForAll([j_], Implies(And(0 <= j_, j_ < i), Not(named(c, at(v, j_), c.arg(0), c.arg(1)))), patterns=[at(v, j_)]))


def none(c):
    v = c.oldf(SETS)
    return ForAll([i_], Implies(And(0 <= i_, i_ < v.len), Not(named(c, at(v, i_), c.arg(0), c.arg(1)))), patterns=[at(v, i_)])


def found(c, r):
    v = c.oldf(SETS)
    return [('a set found is the first of the mesh of that name and kind', Implies(r != 0, z3.Exists([i_], And(first(c, i_), at(v, i_) == r)))),
            ('none found: there is none of that name and kind', Implies(r == 0, none(c)))]


def none_before(L):
    c = L.ctx
    v = c.oldf(SETS)
    return [('no set before has that name and kind', ForAll([i_], Implies(And(0 <= i_, i_ < L.k), Not(named(c, at(v, i_), c.arg(0), c.arg(1)))), patterns=[at(v, i_)]))]


find = Contract(ME + '::find_meshset', pre=some, post=lambda c: found(c, c.ret), loops=none_before)
# number of sets of a kind among the first n
NK = z3.Function('sets of the kind', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort())
ANY = -2


def count(L):
    c, p = L.ctx, L.p
    v, K = c.oldf(SETS), heap(L.ctx, 'kind_')
    nk = lambda n: NK(v.arr, K, c.arg(0), n)
    p.assume(nk(IntVal(0)) == 0)
    p.assume(nk(L.k + 1) == nk(L.k) + If(Select(K, at(v, L.k)) == c.arg(0), 1, 0))
    return nk


nsets = Contract(ME + '::num_sets', pre=some, loops=lambda L: [('counted so far', L.local('nsets') == count(L)(L.k))],
                 post=lambda c: [('number of sets of the kind', c.ret == If(c.arg(0) == ANY, c.oldf(SETS).len, NK(c.oldf(SETS).arr, heap(c, 'kind_'), c.arg(0), c.oldf(SETS).len)))])


def kept(c, r, n):
    v = c.oldf(SETS)
    return ForAll([x_], CNT(r.arr, r.len, x_) == If(Or(c.arg(0) == ANY, kindof(c, x_) == c.arg(0)), CNT(v.arr, n, x_), IntVal(0)), patterns=[CNT(r.arr, r.len, x_)])


def sets_loops(L):
    nk = count(L)
    r = L.local('setlist')
    for v in (r, L.ctx.oldf(SETS)):
        c10.counted(L.p, v)
    unfold(L.p, L.ctx.oldf(SETS).arr, L.k)
    return [('the sets of that kind so far', kept(L.ctx, r, L.k)), ('as many as counted', r.len == nk(L.k))]


sets = Contract(ME + '::sets', nparams=1, pre=some, loops=sets_loops, bags=True,
                post=lambda c: [('exactly the sets of that kind', kept(c, c.ret, c.oldf(SETS).len)),
                                ('as many as there are', c.ret.len == If(c.arg(0) == ANY, c.oldf(SETS).len, NK(c.oldf(SETS).arr, heap(c, 'kind_'), c.arg(0), c.oldf(SETS).len)))])
adds = Contract(ME + '::add_set', mods=['this.' + SETS], post=lambda c: [('appended', And(c.f(SETS).len == c.oldf(SETS).len + 1, at(c.f(SETS), c.oldf(SETS).len) == c.arg(0))),
                                                                       ('earlier sets keep their place', ForAll([i_], Implies(And(0 <= i_, i_ < c.oldf(SETS).len), at(c.f(SETS), i_) == at(c.oldf(SETS), i_)), patterns=[at(c.f(SETS), i_)]))])


def content(c, o, t):
    f = {OWNED: OWN, GHOST: GH, ALL: AL}[t]
    return lst(c, f, o)


def size_post(c):
    v = c.oldf(SETS)
    n = lambda t: content(c, at(v, i_), t).len
    return [('no set of that name and kind: nothing', Implies(none(c), c.ret == 0)),
            ('the count of the set of that name and kind', ForAll([i_], Implies(first(c, i_), c.ret == If(c.arg(2) == OWNED, n(OWNED), If(c.arg(2) == GHOST, n(GHOST), If(c.arg(2) == ALL, n(ALL), IntVal(0))))), patterns=[at(v, i_)]))]


def ents_post(c):
    v, r = c.oldf(SETS), c.cur(3)
    same = lambda w: And(r.len == w.len, ForAll([x_], Implies(And(0 <= x_, x_ < w.len), at(r, x_) == at(w, x_))))
    out = [('no set of that name and kind: nothing', Implies(none(c), r.len == 0))]
    for t, nm in ((OWNED, 'owned'), (GHOST, 'ghost'), (ALL, 'all')):
        out.append(('%s: the list of the set of that name and kind' % nm, ForAll([i_], Implies(And(first(c, i_), c.arg(2) == t), same(content(c, at(v, i_), t))), patterns=[at(v, i_)])))
    return out + [('other classes: nothing', Implies(And(c.arg(2) != OWNED, c.arg(2) != GHOST, c.arg(2) != ALL), r.len == 0))]


size = [Contract(ME + '::get_set_size', sig=r'\) const$' if k else r'\)$', label='Mesh::get_set_size' + (' const' if k else ''), pre=some, post=size_post) for k in (False, True)]
ents = Contract(ME + '::get_set_entities', mods=['*3'], pre=some, post=ents_post)


# ---------------------------------------------------------------- building a set from a region
from . import geo as G
from .geo import at, dim, co, is_pt, of
from .c09 import NENT, ETYPE
from .c10 import one
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F = z3.Function
y_ = Int('y_')
PKG = 'JaliGeometry::'
RTYPE = F('type of the region', Z, Z)
INS = F('the region holds the point', Z, R, R, R, B)
INC = F('the cell holds the point', Z, R, R, R, B)
RPT = G.vec3('point of the region', Z)
LAB = F('the label holds the entity', Z, Z, Z, B)
ESTR = F('entity string of the labeled region', Z, z3.StringSort())
CELL, FACE, NODE = 3, 2, 0
BOX, PLANE, LABELED, POINT, LOGICAL, POLYGON, COLOR = 0, 1, 2, 5, 7, 8, 6
v3 = lambda v: [If(k < dim(v), co(v, k), RealVal(0)) for k in range(3)]
RDIM = F('dimension of the point of the region', Z, Z)
SD = lambda c: c.oldf('space_dim_')


def full(d, f):
    """coordinates as the region sees them"""
    return [f(k) for k in range(3)]


def cen(V):
    return lambda c: [is_pt(c.ret, SD(c), of(V, c.arg(0)))]


rtype = Contract(PKG + 'Region::type', trusted=True, label='Region::type', ret=lambda c: RTYPE(c.this.root.oid))
inside = Contract(PKG + 'Region::inside', trusted=True, label='Region::inside', ret=lambda c: INS(c.this.root.oid, *v3(c.arg(0))))
ccen = Contract(ME + '::cell_centroid', trusted=True, label='Mesh::cell_centroid', post=cen(G.CCEN))
fcen = Contract(ME + '::face_centroid', trusted=True, label='Mesh::face_centroid', post=cen(G.FCEN))
pcell = Contract(ME + '::point_in_cell', trusted=True, label='Mesh::point_in_cell', ret=lambda c: INC(c.arg(1), *v3(c.arg(0))))
_f = {}


def named_region(name):
    if 'f' not in _f:
        _f['f'] = F('region of that name', name.sort(), Z)
    return _f['f'](name)


rgn = Contract(PKG + 'GeometricModel::FindRegion', trusted=True, label='GeometricModel::FindRegion', sig='string', ret=lambda c: named_region(c.arg(0)))
ppt = Contract(PKG + 'PointRegion::point', trusted=True, label='PointRegion::point', post=lambda c: [is_pt(c.p.load(c.ret) if not hasattr(c.ret, 'get') else c.ret, RDIM(c.this.root.oid), of(RPT, c.this.root.oid))])
estr = Contract(PKG + 'LabeledSetRegion::entity_str', trusted=True, label='LabeledSetRegion::entity_str', ret=lambda c: ESTR(c.this.root.oid))


def lbl_post(c):
    out = []
    for j, ty in ((2, OWNED), (3, GHOST)):
        w = c.cur(j)
        out.append(ForAll([x_], CNT(w.arr, w.len, x_) == one(And(0 <= x_, x_ < NENT(c.arg(1), ALL), ETYPE(c.arg(1), x_) == ty, LAB(c.arg(0), c.arg(1), x_))), patterns=[CNT(w.arr, w.len, x_)]))
    return out


lbl = Contract(ME + '::get_labeled_set_entities', trusted=True, label='Mesh::get_labeled_set_entities (framework)', mods=['*2', '*3'], post=lbl_post)


def mk_pre(c):
    k, o, h = c.arg(2), c.arg(3), c.arg(4)
    for v in (o, h):
        members(c.p, v.arr, v.len)
        c.p.assume(ForAll([x_], CNT(v.arr, v.len, x_) >= 0, patterns=[CNT(v.arr, v.len, x_)]))
    return [NENT(k, ALL) >= 0] + c09.typed(lambda f: o if f == OWN else h, k)


mk = Contract('Jali::make_meshset', label='make_meshset', mods=['*1'], pre=mk_pre, post=lambda c: c10.mm_post(c), bags=True)
OK = {CELL: (BOX, COLOR, PLANE, POINT, LABELED), FACE: (BOX, PLANE, POLYGON, LABELED), NODE: (BOX, PLANE, POLYGON, POINT, LABELED)}
KNAME = {CELL: 'CELL', FACE: 'FACE', NODE: 'NODE'}


def b_pre(c):
    k, r = c.arg(1), named_region(c.arg(0))
    t = RTYPE(r)
    at_point = lambda x: And(0 <= x, x < NENT(NODE, ALL), INS(r, *coords(c, G.NX, x)))
    return [r != 0, ('a labeled set region is of the kind asked for', Implies(t == LABELED, Or(*[And(k == kk, Or(ESTR(r) == z3.StringVal(KNAME[kk]), ESTR(r) == z3.StringVal('Entity_kind::' + KNAME[kk]))) for kk in KNAME]))),
            ('no two nodes at the point of a point region', Implies(t == POINT, ForAll([x_, y_], Implies(And(at_point(x_), at_point(y_)), x_ == y_), patterns=[z3.MultiPattern(G.NX[0](x_), G.NX[0](y_))]))),
            ('the point of a point region has the dimension of the space', Implies(t == POINT, RDIM(r) == SD(c))), Or(*[And(k == kk, t == tt) for kk in OK for tt in OK[kk]]), c10.mesh_ok(k), SD(c) >= 1, SD(c) <= 3, Or(c.oldf('manifold_dim_') == SD(c), c.oldf('manifold_dim_') == SD(c) - 1)]


def coords(c, V, e):
    return [If(k < SD(c), V[k](e), RealVal(0)) for k in range(3)]


ALLIN = F('the region holds every node of the entity', Z, Z, Z, B)


def member(c, k, x):
    r = named_region(c.arg(0))
    t = RTYPE(r)
    return If(t == LABELED, LAB(r, k, x), geometric(c, k, x, r, t))


def geometric(c, k, x, r, t):
    if k == CELL:
        return If(Or(t == BOX, t == COLOR), INS(r, *coords(c, G.CCEN, x)), If(t == POINT, INC(x, *coords(c, RPT, r)), And(c.oldf('manifold_dim_') == 2, ALLIN(r, CELL, x))))
    if k == FACE:
        return If(t == BOX, INS(r, *coords(c, G.FCEN, x)), ALLIN(r, FACE, x))
    return INS(r, *coords(c, G.NX, x))


def b_post(c):
    out = [('a set', c.ret != 0), ('kind', Select(c10.heap(c, 'kind_', False), c.ret) == c.arg(1)), ('name', Select(c10.heap(c, 'name_', False), c.ret) == c.arg(0))]
    for n, f, ty in (('owned', OWN, OWNED), ('ghost', GH, GHOST)):
        r = c10.result(c, f)
        for k, kn in ((CELL, 'cells'), (FACE, 'faces'), (NODE, 'nodes')):
            ok = lambda x: And(0 <= x, x < NENT(k, ALL), ETYPE(k, x) == ty, member(c, k, x))
            ex = ForAll([x_], CNT(r.arr, r.len, x_) == one(ok(x_)), patterns=[CNT(r.arr, r.len, x_)])
            out.append(('%s %s: exactly those of the region, each once' % (n, kn), Implies(c.arg(1) == k, ex)))
    return out


def b_loops(L):
    c, p = L.ctx, L.p
    o = L.ordinal
    return LOOPS[o](L) if o in LOOPS else []


def upto(kind, names, var, shift=None, lo=lambda k: IntVal(0)):
    def f(L):
        c, p = L.ctx, L.p
        out = []
        i = L.local(var)
        e = i if shift is None else i + NENT(kind, OWNED)
        for nm, ty in names:
            w = L.local(nm)
            c10.counted(p, w)
            out.append(('%s: exactly the members so far' % nm, ForAll([x_], CNT(w.arr, w.len, x_) == one(And(0 <= x_, x_ < e, ETYPE(kind, x_) == ty, member(c, kind, x_))), patterns=[CNT(w.arr, w.len, x_)])))
        return [('index', And(0 <= i, i <= (NENT(kind, ALL) if len(names) == 2 else NENT(kind, names[0][1]))))] + out
    return f


def allin(kind, num, node, var):
    def f(L):
        c, p = L.ctx, L.p
        r = named_region(c.arg(0))
        e, j, b = L.local(var), L.local('j'), L.local('on_plane')
        x = G.named(c, e)
        # definition: every node of the entity is in the region
        p.assume(ALLIN(r, kind, x) == ForAll([i_], Implies(And(0 <= i_, i_ < num(x)), INS(r, *coords(c, G.NX, node(x, i_)))), patterns=[node(x, i_)]))
        return [('index', 0 <= j), ('on the plane so far', And(yes(b), ForAll([i_], Implies(And(0 <= i_, i_ < j), INS(r, *coords(c, G.NX, node(x, i_)))), patterns=[node(x, i_)])))]
    return f


CC, FF, NN = [('owned_cells', OWNED), ('ghost_cells', GHOST)], [('owned_faces', OWNED), ('ghost_faces', GHOST)], [('owned_nodes', OWNED), ('ghost_nodes', GHOST)]
LOOPS = {0: upto(CELL, CC[:1], 'icell'), 1: upto(CELL, CC[1:], 'icell', shift=1), 2: upto(CELL, CC, 'icell'), 3: upto(CELL, CC, 'ic'), 4: allin(CELL, G.NCN, G.CN_, 'ic'),
         5: upto(FACE, FF, 'iface'), 6: upto(FACE, FF, 'iface'), 7: allin(FACE, G.NFN, G.FN_, 'iface'), 8: upto(NODE, NN, 'inode')}
build = Contract(ME + '::build_set_from_region', mods=['this.' + SETS], pre=b_pre, post=b_post, loops=b_loops, bags=True)
HP = (MS,) + tuple(PKG + n for n in ('Region', 'PointRegion', 'GeometricModel', 'LogicalRegion', 'LabeledSetRegion'))


def noverify(cs):
    out = []
    for k in cs:
        k = _copy.copy(k)
        k.verify = False
        out.append(k)
    return out


import copy as _copy
UNITS = lambda: [Unit('src/mesh/MeshSet.cc', [mk, c10.used('MeshSet::MeshSet'), c09.etype, c09.nent, c09.addset], heap_ptrs=(MS,)),
                 Unit('src/mesh/Mesh.cc', [find, nsets, sets, adds, ents] + size, heap_ptrs=(MS,)),
                 Unit('src/mesh/Mesh.cc', [build, rtype, inside, ccen, fcen, pcell, rgn, ppt] + noverify([mk]) + [ lbl, estr, c09.etype, c09.nent] + G.framework, heap_ptrs=HP)]
DRIVERS = [dict(src='c11.cc', repo=_d.ALLSRC, mpi=True, what='random geometric models (boxes, planes, points, polygons, labels, logical regions, any order) on random meshes with ghosts: every set built or initialised against an entity-by-entity evaluation of the region; lookups, counts, lists, unaltered earlier sets')]
LEVEL = 'proof'
EXPLANATION = ('build_set_from_region is proved, for every mesh and every box, plane, point, polygon, colour-function and labeled-set region and every kind it supports, to return a set whose owned and ghost lists hold exactly the '
               'owned and ghost entities of the region, each once; make_meshset to build the set it is given; find_meshset, num_sets, sets, get_set_size, get_set_entities and add_set to answer from the list of sets.')
TRUSTED = ['Region::inside, type, entity_str, point and GeometricModel::FindRegion are functions of the region and the name (the regions themselves: C07)',
           'centroids, coordinates and point_in_cell are functions of the entity (C02, C03, C06, C14); get_labeled_set_entities is supplied by the mesh framework',
           'dynamic and C-style casts of a region to the class its type() names give the same object',
           'no two nodes sit at the point of a point region']
BOUNDED = ['logical regions (the boolean combination inside build_set_from_region; merge, subtract, intersect and complement themselves: C10), init_sets_from_geometric_model, valid_region_name, find_meshset_from_region, refusal of unsupported kinds: driver only']
