"""Geometry of mesh entities: what is computed from the current coordinates, and the cached values (C03, C13, C14).

The current geometry is written with functions of the entity: node positions and the results of the kernels of
Geometry.cc (C05) on the entity's points; contracts of the kernels at their call sites demand that they are given
exactly those points."""
from .c15 import *

P3 = ('rec', 'JaliGeometry::Point')
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F = z3.Function
vec3 = lambda n, *s: [F('%s.%s' % (n, 'xyz'[k]), *s, R) for k in range(3)]
NX = vec3('node position', Z)
CVOL, CCEN = F('cell volume', Z, R), vec3('cell centroid', Z)
FAREA, FCEN, FNRM, FN0, FN1 = F('face area', Z, R), vec3('face centroid', Z), vec3('face normal', Z), vec3('face normal out of its cell 0', Z), vec3('face normal out of its cell 1', Z)
ELEN, EVEC = F('edge length', Z, R), vec3('edge vector', Z)
EN = [F('node %d of the edge' % k, Z, Z) for k in range(2)]
SVOL, SOUT, SMID = F('side volume', Z, R), vec3('side outward normal', Z), vec3('side mid normal', Z)
NCN, CN_, NFN, FN_ = F('number of nodes of the cell', Z, Z), F('node of the cell', Z, Z, Z), F('number of nodes of the face', Z, Z), F('node of the face', Z, Z, Z)
NCF, CF_, CD_ = F('number of faces of the cell', Z, Z), F('face of the cell', Z, Z, Z), F('direction of the face of the cell', Z, Z, Z)
NFC, FC_, SLOT = F('number of cells of the face', Z, Z), F('cell of the face', Z, Z, Z), F('slot of the face in its cell', Z, Z, Z)
OFFS = F('nodes of the faces before', Z, Z, Z)
PI = RealVal('3.141592653589793')         # M_PI
SDIM = lambda c: c.oldf('space_dim_')


def pts(c, r, i):
    return c.p.unpack(at(r, i), P3)


def named(c, e):
    """a constant equal to the entity, fit for patterns"""
    x = z3.FreshInt('entity')
    c.p.assume(x == e)
    return x


def is_pt(v, d, f):
    """v has dimension d and the coordinates f"""
    return And(dim(v) == d, *[Implies(k < d, co(v, k) == f(k)) for k in range(3)])


def pos(n):
    return lambda k: NX[k](n)


def of(V, e):
    return lambda k: V[k](e)


# ---- the mesh framework: coordinates and adjacency (assumed of it)
def points_of(num, node):
    def post(c):
        r, e = c.cur(1), named(c, c.arg(0))
        return [('as many as it has nodes', And(r.len == num(e), r.len >= 1)), ('positions of its nodes', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), is_pt(pts(c, r, i_), SDIM(c), pos(node(e, i_)))), patterns=[at(r, i_)]))]
    return post


def faces_post(c):
    e, r, d = named(c, c.arg(0)), c.cur(1), c.cur(2)
    g = And(0 <= i_, i_ < r.len)
    return [And(r.len == NCF(e), r.len >= 1, d.len == NCF(e)), ForAll([i_], Implies(g, And(at(r, i_) == CF_(e, i_))), patterns=[at(r, i_)]), ForAll([i_], Implies(g, And(at(d, i_) == CD_(e, i_), Or(CD_(e, i_) == 1, CD_(e, i_) == -1))), patterns=[at(d, i_)]),
            ForAll([i_, j_], Implies(And(0 <= i_, i_ < NCF(e), 0 <= j_, j_ < NCF(e), CF_(e, i_) == CF_(e, j_)), i_ == j_), patterns=[z3.MultiPattern(CF_(e, i_), CF_(e, j_))])]


def cells_post(c):
    f, r = named(c, c.arg(0)), c.cur(2)
    s = SLOT(f, i_)
    g = FC_(f, i_)
    return [And(r.len == NFC(f), 0 <= r.len, r.len <= 2), ForAll([i_], Implies(And(0 <= i_, i_ < r.len), at(r, i_) == g), patterns=[at(r, i_)]), ForAll([i_], Implies(And(0 <= i_, i_ < NFC(f)), And(0 <= s, s < NCF(g), CF_(g, s) == f)), patterns=[s])]


framework = [Contract(ME + '::cell_get_coordinates', trusted=True, mods=['*1'], post=points_of(NCN, CN_)),
             Contract(ME + '::face_get_coordinates', trusted=True, mods=['*1'], post=points_of(NFN, FN_)),
             Contract(ME + '::node_get_coordinates', sig=r'Point \*', trusted=True, mods=['*1'], post=lambda c: pt_is(c.cur(1), SDIM(c), pos(c.arg(0)))),
             Contract(ME + '::edge_get_nodes', trusted=True, mods=['*1', '*2'], post=lambda c: [c.cur(1) == EN[0](c.arg(0)), c.cur(2) == EN[1](c.arg(0))]),
             Contract(ME + '::cell_get_faces_and_dirs', nparams=4, trusted=True, mods=['*1', '*2'], post=faces_post),
             Contract(ME + '::face_get_cells', nparams=3, trusted=True, mods=['*2'], post=cells_post),
             Contract(ME + '::cell_get_nodes', nparams=2, trusted=True, mods=['*1'], post=lambda c: [c.cur(1).len == NCN(c.arg(0)), ForAll([i_], Implies(And(0 <= i_, i_ < NCN(c.arg(0))), at(c.cur(1), i_) == CN_(c.arg(0), i_)), patterns=[at(c.cur(1), i_)])])]

# ---- the kernels (C05): at their call sites they must be given the points of the entity
G = 'JaliGeometry::'


def caller(c):
    return c.p.entryctx.arg(0)


def given(c, k, num, node):
    e, r = caller(c), c.arg(k)
    d = c.p.entryctx.oldf('space_dim_')
    return [('the kernel is given as many points as the entity has', r.len == num(e)), ('the kernel is given the points of the entity in order', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), is_pt(pts(c, r, i_), d, pos(node(e, i_)))), patterns=[at(r, i_)]))]


def facepoint(e, j, k):
    """position of point k of face j as seen from cell e"""
    f = CF_(e, j)
    return lambda x: NX[x](FN_(f, If(CD_(e, j) == 1, k, NFN(f) - 1 - k)))


def poly_given(c):
    e = caller(c)
    nfn, fp = c.arg(2), c.arg(3)
    return given(c, 0, NCN, CN_) + [('number of faces', c.arg(1) == NCF(e)), ('number of nodes of each face', And(nfn.len == NCF(e), ForAll([i_], Implies(And(0 <= i_, i_ < NCF(e)), at(nfn, i_) == NFN(CF_(e, i_))), patterns=[at(nfn, i_)])))] + faces_listed(c, fp, e, NCF(e))


def faces_listed(c, fp, e, n):
    return [('face points so far', fp.len == OFFS(e, n)),
            ('points of the faces, seen from outside', ForAll([i_, j_], Implies(And(0 <= i_, i_ < n, 0 <= j_, j_ < NFN(CF_(e, i_))), is_pt(pts(c, fp, OFFS(e, i_) + j_), IntVal(3), facepoint(e, i_, j_))), patterns=[FN_(CF_(e, i_), j_), at(fp, OFFS(e, i_) + j_)]))]


def measures(args, vals):
    def post(c):
        e = caller(c)
        out = []
        d = c.p.entryctx.oldf('space_dim_')
        for a, V in zip(args, vals):
            out += [c.cur(a) == V(e)] if not isinstance(V, list) else [is_pt(c.cur(a), d, of(V, e))]
        return out
    return post


pcell = Contract(G + 'polyhed_get_vol_centroid', trusted=True, pre=poly_given, mods=['*4', '*5'], post=measures((4, 5), (CVOL, CCEN)))
pgcell = Contract(G + 'polygon_get_area_centroid_normal', trusted=True, pre=lambda c: given(c, 0, NCN, CN_), mods=['*1', '*2', '*3'], post=measures((1, 2), (CVOL, CCEN)))
segcell = Contract(G + 'segment_get_vol_centroid', trusted=True, pre=lambda c: given(c, 0, NCN, CN_) + [('geometry type of the mesh', c.arg(1) == c.p.entryctx.oldf('geomtype'))], mods=['*2', '*3'], post=measures((2, 3), (CVOL, CCEN)))
pgface = Contract(G + 'polygon_get_area_centroid_normal', trusted=True, pre=lambda c: given(c, 0, NFN, FN_), mods=['*1', '*2', '*3'], post=measures((1, 2, 3), (FAREA, FCEN, FNRM)))
f1face = Contract(G + 'face1d_get_area', trusted=True, pre=lambda c: given(c, 0, NFN, FN_) + [('geometry type of the mesh', c.arg(1) == c.p.entryctx.oldf('geomtype'))], mods=['*2'], post=measures((2,), (FAREA,)))


def fixdim(d, more=None):
    def setup(c):
        from .lattice import setf
        setf(c, 'space_dim_', IntVal(d))
        setf(c, 'manifold_dim_', IntVal(d))
        if more:
            more(c)
    return setup


def offs(c):
    e = c.arg(0)
    c.p.assume(OFFS(e, 0) == 0)
    c.p.assume(ForAll([i_], Implies(And(0 <= i_, i_ < NCF(e)), And(OFFS(e, i_ + 1) == OFFS(e, i_) + NFN(CF_(e, i_)), NFN(CF_(e, i_)) >= 1)), patterns=[CF_(e, i_)]))
    c.p.assume(ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ <= NCF(e)), OFFS(e, i_ + 1) <= OFFS(e, j_))))


def pt3(c, d=None):
    """dimension of the caller's points"""
    return lambda k: dim(c.p.load(c._ref(k))) == (SDIM(c) if d is None else d)


def cg_loops(L):
    c = L.ctx
    e = c.arg(0)
    fp, nfn = L.local('cfcoords'), L.local('nfnodes')
    j = L.local('j')
    n = [('number of nodes of each face so far', And(nfn.len == NCF(e), ForAll([i_], Implies(And(0 <= i_, i_ < j), at(nfn, i_) == NFN(CF_(e, i_))), patterns=[at(nfn, i_)])))]
    if L.ordinal == 0:
        return faces_listed(c, fp, e, j) + n
    k = L.local('k')
    x = z3.Int('k!q')
    f = CF_(e, j)
    done = k if L.ordinal == 1 else NFN(f) - 1 - k
    return [('points so far', fp.len == OFFS(e, j) + done)] + faces_listed(c, fp, e, j)[1:] + [('points of this face so far', ForAll([x], Implies(And(0 <= x, x < done), is_pt(pts(c, fp, OFFS(e, j) + x), IntVal(3), facepoint(e, j, x))), patterns=[at(fp, OFFS(e, j) + x)])), ('counter', And(-1 <= k, k <= NFN(f)))]


def cell_post(d):
    return lambda c: [('volume', c.cur(1) == CVOL(c.arg(0)))] + [('centroid: ' + a, b) for a, b in pt_is(c.cur(2), IntVal(d), of(CCEN, c.arg(0)))]


def only(fs):
    """these contracts in place of those of the same functions"""
    names = [f.name for f in fs]
    return fs


def cell_geometry(d):
    return Contract(ME + '::compute_cell_geometry', label='compute_cell_geometry (%dD)' % d, setup=fixdim(d, offs), mods=['*1', '*2'], post=cell_post(d), loops=cg_loops, modular=False)


def face_dir(f, i):
    return CD_(FC_(f, i), SLOT(f, i))


def normals(c, d, n0, n1, N, upto):
    """normals with respect to the cells on the two sides, after the first cells of the face"""
    f = c.arg(0)
    out = []
    for nm, v, s in (('out of cell 0', n0, 1), ('out of cell 1', n1, -1)):
        has = Or(*[And(IntVal(q) < upto, face_dir(f, IntVal(q)) == s) for q in range(2)])
        out.append(('normal ' + nm, And(dim(v) == d, *[co(v, k) == If(has, N[k](f) * s, RealVal(0)) for k in range(d)])))
    return out


def fg_loops(d):
    def loops(L):
        c = L.ctx
        p = c.p
        f = c.arg(0)
        i = L.local('i')
        n0, n1 = p.load(c._ref(3)), p.load(c._ref(4))
        N = FNRM
        p.assume(Or(i < 0, i >= NFC(f), And(0 <= SLOT(f, i), SLOT(f, i) < NCF(FC_(f, i)), CF_(FC_(f, i), SLOT(f, i)) == f)))
        out = normals(c, d, n0, n1, N, i) + [('cells', And(0 <= i, i <= 2))]
        if L.ordinal == {3: 1, 2: 3, 1: 8}[d]:
            j = L.local('j')
            cf = L.local('cellfaceids')
            out += [('not found so far', ForAll([j_], Implies(And(0 <= j_, j_ < j), at(cf, j_) != f), patterns=[at(cf, j_)])), ('no direction yet', And(Not(yes(L.local('found'))), L.local('dir') == 1)), ('slots', And(0 <= j, j <= NCF(FC_(f, i))))]
        return out
    return loops


def setpoint(c, k, d):
    """the caller's point has this dimension"""
    lv = c._ref(k)
    c.p.save(lv, c.p.load(lv).set('d', IntVal(d)))


def face_def(d):
    """normal of a face in 1D and 2D, by definition"""
    def more(c):
        for k in (3, 4):
            setpoint(c, k, d)
        f = c.arg(0)
        a, b = [[NX[k](FN_(f, IntVal(m))) for k in range(2)] for m in (0, 1)]
        if d == 1:
            c.p.assume(FNRM[0](f) == FAREA(f))
        elif d == 2:
            c.p.assume(And(FNRM[0](f) == b[1] - a[1], FNRM[1](f) == -(b[0] - a[0])))
            c.p.assume(NFN(f) == 2)
            c.p.assume(FAREA(f) == SQRT((b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1])))
            c.p.assume(And(*[FCEN[k](f) == (a[k] + b[k]) / 2 for k in range(2)]))
        if d == 1:
            c.p.assume(And(NFN(f) == 1, FCEN[0](f) == a[0]))
        for V, s in ((FN0, 1), (FN1, -1)):
            has = Or(*[And(q < NFC(f), face_dir(f, IntVal(q)) == s) for q in range(2)])
            c.p.assume(And(*[V[k](f) == If(has, FNRM[k](f) * s, RealVal(0)) for k in range(d)]))
    return more


def face_pre(c):
    return [('points for the normals have the dimension of the mesh', And(pt3(c)(3), pt3(c)(4)))]


def face_post(c):
    f, d = c.arg(0), SDIM(c)
    return [('area', c.cur(1) == FAREA(f)), ('centroid', is_pt(c.cur(2), d, of(FCEN, f))), ('normal out of cell 0', is_pt(c.cur(3), d, of(FN0, f))), ('normal out of cell 1', is_pt(c.cur(4), d, of(FN1, f)))]


def face_geometry(d):
    return Contract(ME + '::compute_face_geometry', label='compute_face_geometry (%dD)' % d, setup=fixdim(d, face_def(d)), pre=face_pre, mods=['*1', '*2', '*3', '*4'], post=face_post, loops=fg_loops(d), modular=False)


def edge_def(c, d):
    e = c.arg(0)
    v = [NX[k](EN[1](e)) - NX[k](EN[0](e)) for k in range(3)]
    for k in range(3):
        if k < d:
            c.p.assume(EVEC[k](e) == v[k])


def edge_post(c):
    e, d = c.arg(0), SDIM(c)
    l = c.cur(1)
    return [('vector', is_pt(c.cur(2), d, of(EVEC, e))), ('length', l == ELEN(e)), ('middle', is_pt(c.cur(3), d, lambda k: (NX[k](EN[0](e)) + NX[k](EN[1](e))) / 2))]


def edge_geometry(d):
    def more(c):
        edge_def(c, d)
        e = c.arg(0)
        c.p.assume(ELEN(e) == SQRT(sum((EVEC[k](e) * EVEC[k](e) for k in range(1, d)), EVEC[0](e) * EVEC[0](e))))
    return Contract(ME + '::compute_edge_geometry', label='compute_edge_geometry (%dD)' % d, setup=fixdim(d, more), pre=lambda c: [('point for the vector has the dimension of the mesh', pt3(c)(2))], mods=['*1', '*2', '*3'], post=edge_post, modular=False)


# ---- summaries for the callers
SP = lambda c: [And(SDIM(c) >= 1, SDIM(c) <= 3)]
s_cell = Contract(ME + '::compute_cell_geometry', verify=False, mods=['*1', '*2'], post=lambda c: [c.cur(1) == CVOL(c.arg(0)), is_pt(c.cur(2), SDIM(c), of(CCEN, c.arg(0)))])
s_face = Contract(ME + '::compute_face_geometry', verify=False, pre=face_pre, mods=['*1', '*2', '*3', '*4'], post=face_post)
s_edge = Contract(ME + '::compute_edge_geometry', verify=False, pre=lambda c: [('point for the vector has the dimension of the mesh', pt3(c)(2))], mods=['*1', '*2', '*3'], post=edge_post)


# ---- side geometry by dimension, from the points it is computed from
def side_formulas(c, s, fc, cc, g=None):
    """volume and normals of a side: its nodes, the middle of its edge, and the given centres of face and cell"""
    g = g or c.oldf
    d = len(fc)
    e = at(g('side_edge_id'), s)
    use = at(g('side_edge_use'), s)
    n = [[If(yes(use), NX[k](EN[m](e)), NX[k](EN[1 - m](e))) for k in range(d)] for m in (0, 1)]
    ec = V3(*[(NX[k](EN[0](e)) + NX[k](EN[1](e))) / 2 for k in range(d)])
    n0, n1, fc, cc = V3(*n[0]), V3(*n[1]), V3(*fc), V3(*cc)
    if d == 3:
        cp = (n1 - n0).cross(fc - n0)
        return cp.dot(cc - n0) / 6, cp * RealVal('-1/2'), (fc - ec).cross(cc - ec) * RealVal('1/2')
    if d == 2:
        v = n1 - n0
        w = cc - ec
        return v.cross(cc - n0), V3(v.c[1], -v.c[0]), V3(w.c[1], -w.c[0])
    return None


def side_pre(c):
    s = c.arg(0)
    out = [('a side of the mesh', And(0 <= s, *[s < c.oldf(f).len for f in ('side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use')]))]
    cl, fa = at(c.oldf('side_cell_id'), s), at(c.oldf('side_face_id'), s)
    out += [('its cell has a cached centroid', And(0 <= cl, cl < c.oldf('cell_centroids').len, dim(pts(c, c.oldf('cell_centroids'), cl)) == SDIM(c))), ('its face has a cached centroid', And(0 <= fa, fa < c.oldf('face_centroids').len, dim(pts(c, c.oldf('face_centroids'), fa)) == SDIM(c)))]
    return out


def centres(c, d):
    """the centres used: current ones when recomputing, else the cached ones"""
    s = c.arg(0)
    cl, fa = at(c.oldf('side_cell_id'), s), at(c.oldf('side_face_id'), s)
    rec = yes(c.arg(4))
    a, b = pts(c, c.oldf('face_centroids'), fa), pts(c, c.oldf('cell_centroids'), cl)
    return [If(rec, FCEN[k](fa), co(a, k)) for k in range(d)], [If(rec, CCEN[k](cl), co(b, k)) for k in range(d)]


def side1(c):
    """in 1D a side is the segment from its node to the centre of its cell"""
    s = c.arg(0)
    cen = centres(c, 1)[1][0]
    e, use = at(c.oldf('side_edge_id'), s), yes(at(c.oldf('side_edge_use'), s))
    x = If(use, NX[0](EN[0](e)), NX[0](EN[1](e)))
    return x, cen


def side_post(d):
    def post1(c):
        x, m = side1(c)
        sph = c.oldf('geomtype') == 2
        v = c.cur(1)
        ab = lambda t: If(t >= 0, t, -t)
        out = [('length', Implies(Not(sph), v == ab(m - x))), ('volume of the shell', Implies(sph, v == RealVal('4/3') * PI * ab(m * m * m - x * x * x)))]
        n = co(c.cur(2), 0)
        sg = If(m > x, RealVal(-1), RealVal(1))
        out += [('outward normal', And(dim(c.cur(2)) == 1, n == sg * If(sph, 4 * PI * x * x, RealVal(1)))), ('no normal to a middle', And(dim(c.cur(3)) == 1, co(c.cur(3), 0) == 0))]
        return out
    if d == 1:
        return post1

    def post(c):
        fc, cc = centres(c, d)
        v, o, m = side_formulas(c, c.arg(0), fc, cc)
        x = c.cur(1)
        out = [('volume', x == v) if d == 3 else ('area', And(x >= 0, 4 * x * x == v * v))]
        for nm, a, f in (('outward normal', 2, o), ('normal to the middle', 3, m)):
            out.append((nm, And(dim(c.cur(a)) == d, *[co(c.cur(a), k) == f.c[k] for k in range(d)])))
        return out
    return post


def side_geometry(d):
    def pre(c):
        if d > 1:
            return side_pre(c)
        x, m = side1(c)
        return side_pre(c)[:2] + [('its node is not at the centre of its cell', x != m), ('the given point has one coordinate', dim(c.cur(3)) == 1), ('a geometry type', Or(c.oldf('geomtype') == 0, c.oldf('geomtype') == 2))]
    return Contract(ME + '::compute_side_geometry', label='compute_side_geometry (%dD)' % d, setup=fixdim(d), pre=pre, mods=['*1', '*2', '*3'], post=side_post(d), modular=False)


# ---- the caches
BGH = lambda c, e: at(c.oldf('cell_type'), e) == BGHOST
count = lambda c, n: total(c, n)


def cache(c, g, name, n, what, V, zero=None):
    """entries below n of the cache hold the current values"""
    v = g(name)
    z = (lambda e, x: If(zero(e), RealVal(0), x)) if zero is not None else lambda e, x: x
    if isinstance(V, list):
        return ('%s in the cache' % what, ForAll([i_], Implies(And(0 <= i_, i_ < n), is_pt(pts(c, v, i_), SDIM(c), lambda k: z(i_, V[k](i_)))), patterns=[at(v, i_)]))
    return ('%s in the cache' % what, ForAll([i_], Implies(And(0 <= i_, i_ < n), at(v, i_) == z(i_, V(i_))), patterns=[at(v, i_)]))


CACHES = {'cell': [('cell_volumes', 'volumes', CVOL), ('cell_centroids', 'centroids', CCEN)],
          'face': [('face_areas', 'areas', FAREA), ('face_centroids', 'centroids', FCEN), ('face_normal0', 'normals out of cell 0', FN0), ('face_normal1', 'normals out of cell 1', FN1)],
          'edge': [('edge_lengths', 'lengths', ELEN), ('edge_vectors', 'vectors', EVEC)],
          'side': [('side_volumes', 'volumes', SVOL), ('side_outward_facet_normal', 'outward normals', SOUT), ('side_mid_facet_normal', 'normals to the middle', SMID)]}


def kept(c, g, kind, n=None):
    zero = {'cell': lambda e: BGH(c, e), 'side': lambda e: at(c.oldf('cell_type'), at(c.oldf('side_cell_id'), e)) == BGHOST}.get(kind)
    return [cache(c, g, f, count(c, kind) if n is None else n, w, V, zero) for f, w, V in CACHES[kind]]


def quantities(kind):
    var = {'cell': 'c', 'face': 'i', 'edge': 'i'}[kind]

    def loops(L):
        c = L.ctx
        k = L.local(var)
        n = count(c, kind)
        return [('as many entries as entities', And(*[L.f(f).len == n for f, _, _ in CACHES[kind]])), ('counter', And(0 <= k, k <= n))] + kept(c, L.f, kind, k)

    def pre(c):
        return SP(c) + ([('a class for each cell', c.oldf('cell_type').len >= count(c, 'cell'))] if kind == 'cell' else [])

    def post(c):
        return [('as many entries as entities', And(*[c.f(f).len == count(c, kind) for f, _, _ in CACHES[kind]]))] + kept(c, c.f, kind) + [('marked as computed', yes(c.f(kind + '_geometry_precomputed')))]
    return Contract(ME + '::compute_%s_geometric_quantities' % kind, pre=pre, post=post, mods=['this.' + f for f, _, _ in CACHES[kind]] + ['this.%s_geometry_precomputed' % kind], loops=loops)


# sides and corners: the lists of all of them are 0, 1, ... in order
def numbered(c, kind):
    l = c.oldf(fld(kind, ALL))
    return [('all %ss are listed in order' % kind, And(l.len == count(c, kind), ForAll([i_], Implies(And(0 <= i_, i_ < l.len), at(l, i_) == i_), patterns=[at(l, i_)])))]


def side_tables(c):
    n = count(c, 'side')
    cl, fa = (lambda e: at(c.oldf('side_cell_id'), e)), (lambda e: at(c.oldf('side_face_id'), e))
    return [('side tables', And(*[c.oldf(f).len == n for f in ('side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use')])),
            ('cells and faces of sides are entities of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(0 <= cl(i_), cl(i_) < count(c, 'cell'), 0 <= fa(i_), fa(i_) < count(c, 'face'))), patterns=[cl(i_)])), ('a class for each cell', c.oldf('cell_type').len >= count(c, 'cell'))]


def fresh_centres(c, g=None):
    g = g or c.oldf
    return [('cell and face caches have their sizes', And(g('cell_centroids').len == count(c, 'cell'), g('face_centroids').len == count(c, 'face')))] + [x for x in kept(c, g, 'cell') + kept(c, g, 'face') if 'centroids' in x[0]]


def s_side_pre(c):
    """the side's own cell and face have current cached centroids, or it is computed afresh"""
    s = c.arg(0)
    cl, fa = at(c.oldf('side_cell_id'), s), at(c.oldf('side_face_id'), s)
    return side_pre(c)[:1] + [('centres in the caches are current, or not used', Or(yes(c.arg(4)), And(is_pt(pts(c, c.oldf('cell_centroids'), cl), SDIM(c), of(CCEN, cl)), is_pt(pts(c, c.oldf('face_centroids'), fa), SDIM(c), of(FCEN, fa)))))]


def s_side_post(c):
    s, d = c.arg(0), SDIM(c)
    return [('volume', c.cur(1) == SVOL(s)), ('outward normal', is_pt(c.cur(2), d, of(SOUT, s))), ('normal to the middle', is_pt(c.cur(3), d, of(SMID, s)))]


s_side = Contract(ME + '::compute_side_geometry', verify=False, pre=s_side_pre, mods=['*1', '*2', '*3'], post=s_side_post)


def side_q():
    kind = 'side'

    def pre(c):
        return SP(c) + numbered(c, 'side') + side_tables(c) + fresh_centres(c) + [('sides were requested', yes(c.oldf('sides_requested')))]

    def loops(L):
        if not L.fn.endswith('geometric_quantities'):
            return None
        c, k = L.ctx, L.k
        n = count(c, kind)
        o, m = L.f('side_outward_facet_normal'), L.f('side_mid_facet_normal')
        lo, lm = L.local('outward_facet_normal'), L.local('mid_facet_normal')
        return [('as many entries as sides', And(L.f('side_volumes').len == n, o.len == k, m.len == k)), ('work points', And(dim(lo) == SDIM(c), dim(lm) == SDIM(c)))] + kept(c, L.f, kind, k)

    def post(c):
        return [('as many entries as entities', And(*[c.f(f).len == count(c, kind) for f, _, _ in CACHES[kind]]))] + kept(c, c.f, kind) + [('marked as computed', yes(c.f('side_geometry_precomputed')))]
    return Contract(ME + '::compute_side_geometric_quantities', pre=pre, post=post, mods=['this.' + f for f, _, _ in CACHES[kind]] + ['this.side_geometry_precomputed'], loops=loops)


# ---- readers
def reader(name, kind, field, V, per=None):
    def pre(c):
        e = c.arg(0)
        return SP(c) + [('an entity with a cached value', And(0 <= e, e < c.oldf(field).len))] + ([('the cached point has the dimension of the mesh', dim(pts(c, c.oldf(field), e)) == SDIM(c))] if isinstance(V, list) else [])

    def post(c):
        e = c.arg(0)
        rec = yes(c.arg(1))
        old = c.oldf(field)
        if isinstance(V, list):
            q = pts(c, old, e)
            return [('recomputed: the current value', Implies(rec, is_pt(c.ret, SDIM(c), of(V, e)))), ('otherwise the cached value', Implies(Not(rec), pt_eq(c.ret, q)))]
        return [('recomputed: the current value', Implies(rec, c.ret == V(e))), ('otherwise the cached value', Implies(Not(rec), c.ret == at(old, e)))]
    return Contract(ME + '::' + name, pre=pre, post=post)


readers = [reader('cell_volume', 'cell', 'cell_volumes', CVOL), reader('cell_centroid', 'cell', 'cell_centroids', CCEN), reader('face_area', 'face', 'face_areas', FAREA), reader('face_centroid', 'face', 'face_centroids', FCEN),
           reader('edge_length', 'edge', 'edge_lengths', ELEN)]


def side_reader(name, div, post, pre=None):
    """a value of a side, from the caches or recomputed; sides come with two wedges"""
    def pre_(c):
        s = c.arg(0) / div if div > 1 else c.arg(0)
        ok = lambda f: dim(pts(c, c.oldf(f), s)) == SDIM(c)
        out = SP(c) + [('an entity of the mesh', And(c.arg(0) >= 0, *[s < c.oldf(f).len for f in ('side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use', 'side_volumes', 'side_outward_facet_normal', 'side_mid_facet_normal')]))]
        return out + [('cached normals have the dimension of the mesh', And(ok('side_outward_facet_normal'), ok('side_mid_facet_normal')))] + (pre(c) if pre else [])
    return Contract(ME + '::' + name, pre=pre_, post=post)


def either(c, arg, recomputed, cached):
    rec = yes(c.arg(arg))
    return [('recomputed: the current value', Implies(rec, recomputed)), ('otherwise the cached value', Implies(Not(rec), cached))]


def wfn_post(c):
    w, k = c.arg(0), c.arg(1)
    s = w / 2
    o, m = pts(c, c.oldf('side_outward_facet_normal'), s), pts(c, c.oldf('side_mid_facet_normal'), s)
    sg = If(w % 2 == 1, RealVal(-1), RealVal(1))
    val = lambda O, M_: (lambda x: If(k == 0, O(x) / 2, sg * M_(x)))
    return either(c, 2, is_pt(c.ret, SDIM(c), val(of(SOUT, s), of(SMID, s))), is_pt(c.ret, SDIM(c), val(lambda x: co(o, x), lambda x: co(m, x))))


svol = side_reader('side_volume', 1, lambda c: either(c, 1, c.ret == SVOL(c.arg(0)), c.ret == at(c.oldf('side_volumes'), c.arg(0))))
wvol = side_reader('wedge_volume', 2, lambda c: either(c, 1, c.ret == SVOL(c.arg(0) / 2) / 2, c.ret == at(c.oldf('side_volumes'), c.arg(0) / 2) / 2))
sfn = side_reader('side_facet_normal', 1, lambda c: either(c, 1, is_pt(c.ret, SDIM(c), of(SOUT, c.arg(0))), pt_eq(c.ret, pts(c, c.oldf('side_outward_facet_normal'), c.arg(0)))))
wfn = side_reader('wedge_facet_normal', 2, wfn_post, pre=lambda c: [Or(c.arg(1) == 0, c.arg(1) == 1)])
side_readers = [svol, wvol, sfn, wfn]
s_side2 = Contract(ME + '::compute_side_geometry', verify=False, pre=lambda c: s_side_pre(c), mods=['*1', '*2', '*3'], post=s_side_post)

# corners: the sum over their wedges
CW = F('sum of the volumes of the first wedges of the corner', Z, Z, R)
CT = F('sum of the current volumes of the first wedges of the corner', Z, Z, R)


def wedges_of(c, cn):
    v = c.oldf('corner_wedge_ids')
    return rl(c.p, v, cn), (lambda j: re_(c.p, v, cn, j))


def current(c, cn):
    """the volumes used for the wedges of the corner are current ones"""
    n, w = wedges_of(c, cn)
    return Or(yes(c.arg(2)), ForAll([i_], Implies(And(0 <= i_, i_ < n), at(c.oldf('side_volumes'), w(i_) / 2) == SVOL(w(i_) / 2)), patterns=[w(i_)]))


def cn_pre(c):
    cn = c.arg(0)
    n, w = wedges_of(c, cn)
    s = w(i_) / 2
    arrs = ('side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use', 'side_volumes', 'side_outward_facet_normal', 'side_mid_facet_normal')
    ok = lambda f: dim(pts(c, c.oldf(f), s)) == SDIM(c)
    return SP(c) + [('a corner of the mesh', And(0 <= cn, cn < c.oldf('corner_wedge_ids').len, n >= 0)), ('its wedges are wedges of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(0 <= w(i_), *[s < c.oldf(f).len for f in arrs])), patterns=[w(i_)])),
                    ('cached normals have the dimension of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(ok('side_outward_facet_normal'), ok('side_mid_facet_normal'))), patterns=[w(i_)]))]


def cn_setup(c):
    """the sum over the wedges, by recursion on how many"""
    cn = c.arg(0)
    n, w = wedges_of(c, cn)
    rec = yes(c.arg(2))
    c.p.assume(CW(cn, 0) == 0)
    c.p.assume(CT(cn, 0) == 0)
    c.p.assume(ForAll([i_], Implies(And(0 <= i_, i_ < n), CT(cn, i_ + 1) == CT(cn, i_) + SVOL(w(i_) / 2) / 2), patterns=[w(i_)]))
    c.p.assume(ForAll([i_], Implies(And(0 <= i_, i_ < n), CW(cn, i_ + 1) == CW(cn, i_) + If(rec, SVOL(w(i_) / 2), at(c.oldf('side_volumes'), w(i_) / 2)) / 2), patterns=[w(i_)]))


def cn_loops(L):
    c = L.ctx
    if not L.fn.endswith('compute_corner_geometry'):
        return None
    it = L.local('itw')
    v = c.p.load(c._ref(1))
    return [('sum so far', v == CW(c.arg(0), it.pos)), ('sum of current volumes', Implies(current(c, c.arg(0)), v == CT(c.arg(0), it.pos))), ('position', And(0 <= it.pos, it.pos <= L.local('cwedges').len)), ('wedges', L.local('cwedges').len == wedges_of(c, c.arg(0))[0])]


corner = Contract(ME + '::compute_corner_geometry', setup=cn_setup, pre=cn_pre, mods=['*1'], loops=cn_loops, post=lambda c: [('sum of the volumes of its wedges', c.cur(1) == CW(c.arg(0), wedges_of(c, c.arg(0))[0]))] + cn_now(c), modular=False)


def cn_now(c):
    cn = c.arg(0)
    return [('sum of the current volumes of its wedges, when those used are current', Implies(current(c, cn), c.cur(1) == CT(cn, wedges_of(c, cn)[0])))]


s_corner = Contract(ME + '::compute_corner_geometry', verify=False, pre=cn_pre, mods=['*1'], post=cn_now)


def corner_tables(c):
    v = c.oldf('corner_wedge_ids')
    cl = lambda s: at(c.oldf('side_cell_id'), s)
    n, w = (lambda e: rl(c.p, v, e)), (lambda e, j: re_(c.p, v, e, j))
    g = And(0 <= i_, i_ < count(c, 'corner'))
    ns = count(c, 'side')
    return [('wedges for each corner', And(v.len == count(c, 'corner'), ForAll([i_], Implies(g, n(i_) >= 1), patterns=[n(i_)]))),
            ('wedges of corners are wedges of the mesh', ForAll([i_, j_], Implies(And(g, 0 <= j_, j_ < n(i_)), And(0 <= w(i_, j_), w(i_, j_) / 2 < ns)), patterns=[w(i_, j_)])),
            ('wedges of a corner are in one cell', ForAll([i_, j_], Implies(And(g, 0 <= j_, j_ < n(i_)), cl(w(i_, j_) / 2) == cl(w(i_, IntVal(0)) / 2)), patterns=[w(i_, j_)]))]


def corner_zero(c):
    v = c.oldf('corner_wedge_ids')
    return lambda e: at(c.oldf('cell_type'), at(c.oldf('side_cell_id'), re_(c.p, v, e, IntVal(0)) / 2)) == BGHOST


def corner_kept(c, v, n):
    w = c.oldf('corner_wedge_ids')
    z = corner_zero(c)
    return [('volumes in the cache', ForAll([i_], Implies(And(0 <= i_, i_ < n), at(v, i_) == If(z(i_), RealVal(0), CT(i_, rl(c.p, w, i_)))), patterns=[at(v, i_)]))]


def corner_q():
    def pre(c):
        side = kept(c, c.oldf, 'side')
        return SP(c) + numbered(c, 'corner') + side_tables(c) + corner_tables(c) + side + [('side caches have their sizes', And(*[c.oldf(f).len == count(c, 'side') for f, _, _ in CACHES['side']])), ('corners were requested', yes(c.oldf('corners_requested')))]

    def loops(L):
        if not L.fn.endswith('geometric_quantities'):
            return None
        c, k = L.ctx, L.k
        return [('as many entries as corners', L.f('corner_volumes').len == count(c, 'corner'))] + corner_kept(c, L.f('corner_volumes'), k)

    def post(c):
        return [('as many entries as corners', c.f('corner_volumes').len == count(c, 'corner'))] + corner_kept(c, c.f('corner_volumes'), count(c, 'corner')) + [('marked as computed', yes(c.f('corner_geometry_precomputed')))]
    return Contract(ME + '::compute_corner_geometric_quantities', pre=pre, post=post, mods=['this.corner_volumes', 'this.corner_geometry_precomputed'], loops=loops)


def cvol_pre(c):
    cn = c.arg(0)
    return cn_pre(c) + [('a corner with a cached value', And(0 <= cn, cn < c.oldf('corner_volumes').len))]


cvol = Contract(ME + '::corner_volume', pre=cvol_pre, post=lambda c: either(c, 1, c.ret == CT(c.arg(0), wedges_of(c, c.arg(0))[0]), c.ret == at(c.oldf('corner_volumes'), c.arg(0))))



# ---- the remaining readers
def fnrm(null):
    def pick(c):
        f = c.arg(0)
        rec = yes(c.arg(1))
        a, b = pts(c, c.oldf('face_normal0'), f), pts(c, c.oldf('face_normal1'), f)
        n0 = [If(rec, FN0[k](f), co(a, k)) for k in range(3)]
        n1 = [If(rec, FN1[k](f), co(b, k)) for k in range(3)]
        return n0, n1

    def sq(c, n):
        d = SDIM(c)
        return sum((If(k < d, n[k] * n[k], RealVal(0)) for k in range(1, 3)), n[0] * n[0])
    Q = F('slot of the face in the given cell', Z, Z, Z)

    def pre(c):
        f, e = c.arg(0), c.arg(2)
        n0, n1 = pick(c)
        q = Q(f, e)
        ok = lambda name: And(f < c.oldf(name).len, dim(pts(c, c.oldf(name), f)) == SDIM(c))
        return SP(c) + [('a face with cached normals of the dimension of the mesh', And(0 <= f, ok('face_normal0'), ok('face_normal1'))), ('a cell of the face, or none', Or(e == -1, And(0 <= q, q < NCF(e), CF_(e, q) == f))), ('a normal is known when no cell is given', Implies(e == -1, Or(sq(c, n0) != 0, sq(c, n1) != 0)))]

    def post(c):
        f, e = c.arg(0), c.arg(2)
        n0, n1 = pick(c)
        d = CD_(e, Q(f, e))
        first = If(e == -1, sq(c, n0) != 0, d == 1)
        out = [('the normal out of cell 0, or of the other side', is_pt(c.ret, SDIM(c), lambda k: If(first, n0[k], If(e == -1, -n1[k], n1[k]))))]
        return out + ([] if null else [('orientation', c.cur(3) == If(e == -1, IntVal(1), d))])

    def loops(L):
        if L.fn != ME + '::face_normal':
            return None
        c = L.ctx
        i = L.local('i')
        f, e = c.arg(0), c.arg(2)
        return [('not found so far', And(Not(yes(L.local('found'))), L.local('dir') == 1, 0 <= i, i <= NCF(e))), ('other faces so far', ForAll([i_], Implies(And(0 <= i_, i_ < i), at(L.local('faceids'), i_) != f), patterns=[at(L.local('faceids'), i_)]))]

    return Contract(ME + '::face_normal', label='face_normal' + (' without orientation' if null else ''), pre=pre, post=post, loops=loops, mods=[] if null else ['*3'], dyn={'null': ('orientation',)} if null else {}, modular=False)


def evec(null):
    def pre(c):
        e, v = c.arg(0), c.oldf('edge_vectors')
        return SP(c) + [('an edge with a cached vector of the dimension of the mesh', And(0 <= e, e < v.len, dim(pts(c, v, e)) == SDIM(c)))]

    def post(c):
        e, n = c.arg(0), c.arg(2)
        q = pts(c, c.oldf('edge_vectors'), e)
        s = If(Or(n == -1, n == EN[0](e)), RealVal(1), RealVal(-1))
        return either(c, 1, is_pt(c.ret, SDIM(c), lambda k: s * EVEC[k](e)), is_pt(c.ret, SDIM(c), lambda k: s * co(q, k))) + ([] if null else [('orientation', z3.ToReal(c.cur(3)) == s)])
    return Contract(ME + '::edge_vector', label='edge_vector' + (' without orientation' if null else ''), pre=pre, post=post, mods=[] if null else ['*3'], dyn={'null': ('orientation',)} if null else {}, modular=False)


ecen = Contract(ME + '::edge_centroid', pre=SP, post=lambda c: [('middle of its nodes', is_pt(c.ret, SDIM(c), lambda k: (NX[k](EN[0](c.arg(0))) + NX[k](EN[1](c.arg(0)))) / 2))])
more_readers = [fnrm(False), fnrm(True), evec(False), evec(True), ecen]


# ---- the update: every requested cache is current afterwards
def update():
    def pre(c):
        r = lambda k: yes(c.oldf(k + 's_requested'))
        sub = Or(r('side'), r('wedge'))
        out = SP(c) + [('a class for each cell', c.oldf('cell_type').len >= count(c, 'cell'))]
        out += [(a, Implies(sub, b)) for a, b in numbered(c, 'side') + side_tables(c)] + [(a, Implies(r('corner'), b)) for a, b in numbered(c, 'corner') + corner_tables(c)]
        return out + [('what the requested kinds need is requested too', And(Implies(r('wedge'), r('side')), Implies(r('side'), r('face')), Implies(r('side'), r('edge')), Implies(r('corner'), r('wedge'))))]

    def post(c):
        r = lambda k: yes(c.oldf(k + 's_requested'))
        out = []
        for k in ('cell', 'face', 'edge', 'side'):
            fs = [('as many entries as entities', And(*[c.f(f).len == count(c, k) for f, _, _ in CACHES[k]]))] + kept(c, c.f, k)
            out += [('%s: %s' % (k, a), b if k == 'cell' else Implies(r(k), b)) for a, b in fs]
        fs = [('as many entries as corners', c.f('corner_volumes').len == count(c, 'corner'))] + corner_kept(c, c.f('corner_volumes'), count(c, 'corner'))
        return out + [('corner: ' + a, Implies(r('corner'), b)) for a, b in fs]
    mods = ['this.' + f for k in CACHES for f, _, _ in CACHES[k]] + ['this.%s_geometry_precomputed' % k for k in ('cell', 'face', 'edge', 'side', 'corner')] + ['this.corner_volumes']
    return Contract(ME + '::update_geometric_quantities', pre=pre, post=post, mods=mods)
