"""C07: regions, geometric models and domains."""
from .common import *
from .c04 import point_contracts
from .c05 import Pts, S, fun, R, Z
from .c06 import crosses

G = 'JaliGeometry::'
PTT = ('rec', 'JaliGeometry::Point')
RG = 'JaliGeometry::Region'


def ptat(c, v, i):
    return c.p.unpack(at(v, i), PTT)


def region_id(name=0, id_=1, life=None):
    """the identity a region constructor must record"""
    def post(c):
        out = [('name', c.f('name_') == c.arg(name)), ('id', c.f('id_') == c.arg(id_))]
        if life is not None:
            out.append(('lifecycle', c.f('lifecycle_') == c.arg(life)))
        return out
    return post


def copy_of(*fields):
    def post(c):
        o = c.arg(0)
        out = []
        for f in ('name_', 'id_', 'lifecycle_', 'topo_dimension_') + fields:
            for lab, g in c.p.eq_parts(c.f(f), o.get(f), f):
                out.append(('copy keeps ' + lab, g))
        return out
    return post


def okdim(f):
    return lambda c: [And(*[And(dim(x) >= 1, dim(x) <= 3) for x in f(c)])]


TOL = z3.Q(1, 100000000)
EPS = z3.Q(1, 1000000000000)


def absr(x):
    return If(x < 0, -x, x)


def between(x, a, b, tol=TOL):
    lo, hi = If(a < b, a, b), If(a < b, b, a)
    return And(lo - tol <= x, x <= hi + tol)


# ---------------------------------------------------------------- box
box_ctor = Contract(G + 'BoxRegion::BoxRegion', nparams=5, label='BoxRegion::BoxRegion', pre=okdim(lambda c: [c.arg(2), c.arg(3)]),
                    throws=lambda c: dim(c.arg(2)) != dim(c.arg(3)),
                    post=lambda c: region_id(0, 1, 4)(c) + [('first corner', pt_eq(c.f('p0_'), c.arg(2))), ('second corner', pt_eq(c.f('p1_'), c.arg(3))),
                                                           ('dimension drops by the number of degenerate directions', c.f('topo_dimension_') == dim(c.arg(2)) - ndeg(c.arg(2), c.arg(3)))])


def ndeg(a, b):
    return sum((If(And(k < dim(a), co(a, k) == co(b, k)), IntVal(1), IntVal(0)) for k in range(3)), IntVal(0))


def box_ok(c):
    return [And(dim(c.oldf('p0_')) >= 1, dim(c.oldf('p0_')) <= 3), dim(c.oldf('p0_')) == dim(c.oldf('p1_'))]


box = [
    box_ctor,
    Contract(G + 'BoxRegion::BoxRegion', nparams=1, label='BoxRegion::BoxRegion(copy)', post=lambda c: copy_of()(c) + [('first corner', pt_eq(c.f('p0_'), c.arg(0).get('p0_'))), ('second corner', pt_eq(c.f('p1_'), c.arg(0).get('p1_')))],
             pre=lambda c: [valid(c.arg(0).get('p0_')), valid(c.arg(0).get('p1_'))]),
    Contract(G + 'BoxRegion::between_', post=lambda c: [('between the two values within the tolerance, in any order', yes(c.ret) == between(c.arg(0), c.arg(1), c.arg(2)))]),
    Contract(G + 'BoxRegion::inside', pre=lambda c: box_ok(c) + [valid(c.arg(0))], throws=lambda c: dim(c.arg(0)) != dim(c.oldf('p0_')),
             post=lambda c: [('inside: between the corners in every coordinate',
                              yes(c.ret) == And(*[Implies(k < dim(c.arg(0)), between(co(c.arg(0), k), co(c.oldf('p0_'), k), co(c.oldf('p1_'), k))) for k in range(3)]))]),
    Contract(G + 'BoxRegion::is_degenerate', pre=box_ok, mods=['*0'],
             post=lambda c: [('number of degenerate directions', c.cur(0) == ndeg(c.oldf('p0_'), c.oldf('p1_'))), ('degenerate iff there is one', yes(c.ret) == (ndeg(c.oldf('p0_'), c.oldf('p1_')) > 0))]),
    Contract(G + 'BoxRegion::corners', pre=box_ok, mods=['*0', '*1'], dyn={'nullable': ('lo_corner', 'hi_corner')}, throws=lambda c: Or(c.isnull(0), c.isnull(1)),
             post=lambda c: [('first corner', pt_eq(c.cur(0), c.oldf('p0_'))), ('second corner', pt_eq(c.cur(1), c.oldf('p1_')))]),
    Contract(G + 'BoxRegion::point0', pre=box_ok, post=lambda c: [('first corner', pt_eq(c.ret, c.oldf('p0_')))]),
    Contract(G + 'BoxRegion::point1', pre=box_ok, post=lambda c: [('second corner', pt_eq(c.ret, c.oldf('p1_')))]),
    Contract(G + 'BoxRegion::type', post=lambda c: [('box', c.ret == 0)]),
]

# ---------------------------------------------------------------- plane, point


def offset(n, p, q):
    return sum((If(k < dim(p), co(n, k) * co(q, k), RealVal(0)) for k in range(3)), RealVal(0)) - sum((If(k < dim(p), co(n, k) * co(p, k), RealVal(0)) for k in range(3)), RealVal(0))


plane = [
    Contract(G + 'PlaneRegion::PlaneRegion', nparams=5, label='PlaneRegion::PlaneRegion', pre=okdim(lambda c: [c.arg(2), c.arg(3)]), throws=lambda c: dim(c.arg(2)) != dim(c.arg(3)),
             post=lambda c: region_id(0, 1, 4)(c) + [('point', pt_eq(c.f('p_'), c.arg(2))), ('normal', pt_eq(c.f('n_'), c.arg(3))), ('a plane has one dimension less than its space', c.f('topo_dimension_') == dim(c.arg(2)) - 1)]),
    Contract(G + 'PlaneRegion::PlaneRegion', nparams=1, label='PlaneRegion::PlaneRegion(copy)', pre=lambda c: [valid(c.arg(0).get('p_')), valid(c.arg(0).get('n_'))],
             post=lambda c: copy_of()(c) + [('point', pt_eq(c.f('p_'), c.arg(0).get('p_'))), ('normal', pt_eq(c.f('n_'), c.arg(0).get('n_')))]),
    Contract(G + 'PlaneRegion::inside', pre=lambda c: [valid(c.arg(0)), valid(c.oldf('p_')), dim(c.oldf('p_')) == dim(c.oldf('n_'))], throws=lambda c: dim(c.arg(0)) != dim(c.oldf('p_')),
             post=lambda c: [('on the plane: the offset along the normal vanishes within the tolerance', yes(c.ret) == (absr(offset(c.oldf('n_'), c.oldf('p_'), c.arg(0))) <= EPS))]),
    Contract(G + 'PlaneRegion::point', pre=lambda c: [valid(c.oldf('p_'))], post=lambda c: [('point', pt_eq(c.ret, c.oldf('p_')))]),
    Contract(G + 'PlaneRegion::normal', pre=lambda c: [valid(c.oldf('n_'))], post=lambda c: [('normal', pt_eq(c.ret, c.oldf('n_')))]),
    Contract(G + 'PlaneRegion::type', post=lambda c: [('plane', c.ret == 1)]),
]
point = [
    Contract(G + 'PointRegion::PointRegion', nparams=4, label='PointRegion::PointRegion', pre=okdim(lambda c: [c.arg(2)]),
             post=lambda c: region_id(0, 1, 3)(c) + [('point', pt_eq(c.f('p_'), c.arg(2))), ('a point has dimension zero', c.f('topo_dimension_') == 0)]),
    Contract(G + 'PointRegion::PointRegion', nparams=1, label='PointRegion::PointRegion(copy)', pre=lambda c: [valid(c.arg(0).get('p_'))],
             post=lambda c: copy_of()(c) + [('point', pt_eq(c.f('p_'), c.arg(0).get('p_')))]),
    Contract(G + 'PointRegion::inside', pre=lambda c: [valid(c.arg(0)), valid(c.oldf('p_'))], throws=lambda c: dim(c.arg(0)) != dim(c.oldf('p_')),
             post=lambda c: [('coincides within the tolerance', yes(c.ret) == And(*[Implies(k < dim(c.arg(0)), absr(co(c.arg(0), k) - co(c.oldf('p_'), k)) < EPS) for k in range(3)]))]),
    Contract(G + 'PointRegion::point', pre=lambda c: [valid(c.oldf('p_'))], post=lambda c: [('point', pt_eq(c.ret, c.oldf('p_')))]),
    Contract(G + 'PointRegion::type', post=lambda c: [('point', c.ret == 5)]),
]

# ---------------------------------------------------------------- logical, labelled
OPS = [('Complement', 0), ('Union', 1), ('Intersect', 2), ('Subtract', 3)]


def same_names(c, v, w):
    i = z3.Int('i!q')
    return And(v.len == w.len, ForAll([i], Implies(And(0 <= i, i < v.len), at(v, i) == at(w, i))))


logical = [
    Contract(G + 'LogicalRegion::LogicalRegion', nparams=5, sig=r'std::string, const std::vector|std::string, const vector', label='LogicalRegion::LogicalRegion(string)',
             throws=lambda c: And(*[c.arg(2) != z3.StringVal(s) for s, _ in OPS]),
             post=lambda c: region_id(0, 1, 4)(c) + [('operation %s' % s, Implies(c.arg(2) == z3.StringVal(s), c.f('operation_') == v)) for s, v in OPS] +
             [('component names', same_names(c, c.f('region_names_'), c.arg(3)))]),
    Contract(G + 'LogicalRegion::LogicalRegion', nparams=5, sig=r'Bool_type', label='LogicalRegion::LogicalRegion(Bool_type)',
             post=lambda c: region_id(0, 1, 4)(c) + [('operation', c.f('operation_') == c.arg(2)), ('component names', same_names(c, c.f('region_names_'), c.arg(3)))]),
    Contract(G + 'LogicalRegion::LogicalRegion', nparams=1, label='LogicalRegion::LogicalRegion(copy)',
             post=lambda c: copy_of()(c) + [('operation', term(c.f('operation_')) == c.arg(0).get('operation_')), ('component names', same_names(c, c.f('region_names_'), c.arg(0).get('region_names_')))]),
    Contract(G + 'LogicalRegion::operation', post=lambda c: [('operation', c.ret == c.oldf('operation_'))]),
    Contract(G + 'LogicalRegion::component_regions', post=lambda c: [('component names', same_names(c, c.ret, c.oldf('region_names_')))]),
    Contract(G + 'LogicalRegion::inside', throws=lambda c: z3.BoolVal(True)),
    Contract(G + 'LogicalRegion::type', post=lambda c: [('logical', c.ret == 7)]),
]
labelled = [
    Contract(G + 'LabeledSetRegion::LabeledSetRegion', nparams=7, label='LabeledSetRegion::LabeledSetRegion',
             post=lambda c: region_id(0, 1, 6)(c) + [(f, c.f(f) == c.arg(k)) for f, k in (('entity_str_', 2), ('file_', 3), ('format_', 4), ('label_', 5))]),
    Contract(G + 'LabeledSetRegion::LabeledSetRegion', nparams=1, label='LabeledSetRegion::LabeledSetRegion(copy)', post=copy_of('entity_str_', 'file_', 'format_', 'label_')),
    Contract(G + 'LabeledSetRegion::label', post=lambda c: [('label', c.ret == c.oldf('label_'))]),
    Contract(G + 'LabeledSetRegion::entity_str', post=lambda c: [('entity', c.ret == c.oldf('entity_str_'))]),
    Contract(G + 'LabeledSetRegion::inside', throws=lambda c: z3.BoolVal(True)),
    Contract(G + 'LabeledSetRegion::type', post=lambda c: [('labelled set', c.ret == 2)]),
]
BF = ['this.name_', 'this.id_', 'this.topo_dimension_', 'this.lifecycle_']


def base_ctors(verify):
    return [
    Contract(RG + '::Region', nparams=4, label='Region::Region', mods=BF, verify=verify, post=lambda c: region_id(0, 1, 3)(c) + [('dimension', c.f('topo_dimension_') == c.arg(2))]),
    Contract(RG + '::Region', nparams=1, label='Region::Region(copy)', mods=BF, verify=verify, post=copy_of())]


region = base_ctors(True) + [
    Contract(RG + '::set_dimension', mods=['this.topo_dimension_'], post=lambda c: [('dimension', c.f('topo_dimension_') == c.arg(0))]),
    Contract(RG + '::name', modular=False, post=lambda c: [('name', c.ret == c.oldf('name_'))]),
    Contract(RG + '::id', modular=False, post=lambda c: [('id', c.ret == c.oldf('id_'))]),
    Contract(RG + '::dimension', modular=False, post=lambda c: [('dimension', c.ret == c.oldf('topo_dimension_'))]),
    Contract(RG + '::lifecycle', modular=False, post=lambda c: [('lifecycle', c.ret == c.oldf('lifecycle_'))]),
]


# ---------------------------------------------------------------- polygon
def pg_setup(c):
    c.spec = s = S()
    v = c.oldf('points_')
    s.pts, s.n = v, v.len
    s.d0 = (c.oldf('elim_dir_') + 1) % 3
    s.d1 = (c.oldf('elim_dir_') + 2) % 3
    s.par = fun('parity', Z, z3.BoolSort())
    s.near = fun('near_an_earlier_edge', Z, z3.BoolSort())
    s.u, s.w = pick(c.arg(0), s.d0), pick(c.arg(0), s.d1)
    c.p.assume(Not(s.par(0)))
    c.p.assume(Not(s.near(0)))


def pick(p, d):
    return If(d == 0, co(p, 0), If(d == 1, co(p, 1), co(p, 2)))


def pg_pre(c):
    s = c.spec
    i = z3.Int('i!q')
    x = ptat(c, s.pts, i)
    e = c.oldf('elim_dir_')
    D = c.oldf('topo_dimension_')
    return [Or(D == 2, D == 3), dim(c.arg(0)) == D, dim(c.oldf('normal_')) == D, s.n == c.oldf('num_points_'), s.n >= D, And(e >= 0, e <= 2),
            ForAll([i], Implies(And(0 <= i, i < s.n), dim(x) == D), patterns=[at(s.pts, i)])]


def pg_on(c):
    s = c.spec
    return absr(offset(c.oldf('normal_'), ptat(c, s.pts, IntVal(0)), c.arg(0))) <= EPS


def pg_loops(L):
    s, p = L.ctx.spec, L.p
    if L.ordinal == 0:
        return None
    i = L.local('i')
    r = L.local('result')
    uv = lambda j: V3(pick(ptat(L.ctx, s.pts, j), s.d0), pick(ptat(L.ctx, s.pts, j), s.d1))
    if L.ordinal == 1:
        p.assume(s.par(i + 1) == z3.Xor(s.par(i), crosses(s.u, s.w, uv(i), uv((i + 1) % s.n))))
        return [('index', And(0 <= i, i <= s.n)), ('flag is the parity of the crossings so far', yes(r) == s.par(i))]
    return [('index', And(0 <= i, i <= s.n)), ('not found yet', Not(yes(r)))]


polygon = [
    Contract(G + 'PolygonRegion::inside', setup=pg_setup, pre=pg_pre, loops=pg_loops, timeout=60,
             post=lambda c: [('points off the plane or line are outside', Implies(Not(pg_on(c)), Not(yes(c.ret)))),
                             ('3D: with an odd number of crossings in the projection the point is inside', Implies(And(c.oldf('topo_dimension_') == 3, pg_on(c), c.spec.par(c.spec.n)), yes(c.ret)))]),
    Contract(G + 'PolygonRegion::points', post=lambda c: [('number of points', c.ret.len == c.oldf('points_').len)]),
    Contract(G + 'PolygonRegion::num_points', post=lambda c: [('number of points', c.ret == c.oldf('num_points_'))]),
    Contract(G + 'PolygonRegion::type', post=lambda c: [('polygon', c.ret == 8)]),
]


def init_pre(c):
    i = z3.Int('i!q')
    v = c.oldf('points_')
    D = c.oldf('topo_dimension_')
    P = lambda k: vec(ptat(c, v, IntVal(k)), 3)
    n = (P(2) - P(1)).cross(P(0) - P(1))
    return [D >= 0, dim(c.oldf('normal_')) == D, v.len == c.oldf('num_points_'),
            ForAll([i], Implies(And(0 <= i, i < v.len), dim(ptat(c, v, i)) == D), patterns=[at(v, i)]),
            Implies(And(D == 3, v.len >= 3), n.dot(n) > 0),
            Implies(And(D == 2, v.len >= 2), Or(*[co(ptat(c, v, IntVal(0)), k) != co(ptat(c, v, IntVal(1)), k) for k in range(2)]))]


def init_post(c):
    v = c.oldf('points_')
    D = c.oldf('topo_dimension_')
    P = lambda k: vec(ptat(c, v, IntVal(k)), 3)
    n = (P(2) - P(1)).cross(P(0) - P(1))
    nn = vec(c.f('normal_'), 3)
    e = term(c.f('elim_dir_'))
    x = nn.cross(n)
    comp = lambda k: absr(nn.c[k])
    return [('3D: the direction projected away is a coordinate', Implies(D == 3, And(e >= 0, e <= 2)))] + \
        [('3D: the normal is largest in magnitude along the direction projected away (%d)' % k, Implies(D == 3, pickl([comp(0), comp(1), comp(2)], e) >= comp(k))) for k in range(3)]


def pickl(l, e):
    return If(e == 0, l[0], If(e == 1, l[1], l[2]))


polygon.append(Contract(G + 'PolygonRegion::init', pre=init_pre, mods=['this.normal_', 'this.elim_dir_'],
                        throws=lambda c: Or(c.oldf('num_points_') < c.oldf('topo_dimension_'), Not(Or(c.oldf('topo_dimension_') == 2, c.oldf('topo_dimension_') == 3))), post=init_post, timeout=60))


# ---------------------------------------------------------------- model and domain
def names(c):
    return c.p.heapget(RG, 'name_')[0]


def ids(c):
    return c.p.heapget(RG, 'id_')[0]


def dims(c):
    return c.p.heapget(RG, 'topo_dimension_')[0]


def appended(c, f, x):
    i = z3.Int('i!q')
    o, n = c.oldf(f), c.f(f)
    return [('one entry more', n.len == o.len + 1), ('the new entry is last', at(n, o.len) == x), ('earlier entries keep their place', ForAll([i], Implies(And(0 <= i, i < o.len), at(n, i) == at(o, i))))]


def find_post(key):
    def post(c):
        v = c.oldf('Regions')
        i = z3.Int('i!q')
        hit = lambda k: key(c, at(v, k))
        return [('found: a matching region of the model', Implies(c.ret != 0, Exists([i], And(0 <= i, i < v.len, at(v, i) == c.ret, hit(i), first(v, i, hit))))),
                ('not found: no region matches', Implies(c.ret == 0, ForAll([i], Implies(And(0 <= i, i < v.len), Not(hit(i))))))]
    return post


def first(v, i, hit):
    j = z3.Int('j!q')
    return ForAll([j], Implies(And(0 <= j, j < i), Not(hit(j))))


def find_loops(key):
    def loops(L):
        v = L.ctx.oldf('Regions')
        i = L.local('i')
        j = z3.Int('j!q')
        return [('index', And(0 <= i, i <= v.len)), ('no earlier region matches', ForAll([j], Implies(And(0 <= j, j < i), Not(key(L.ctx, at(v, j)))), patterns=[at(v, j)]))]
    return loops


def nonnull(f):
    def pre(c):
        i = z3.Int('i!q')
        v = c.oldf(f)
        return [ForAll([i], Implies(And(0 <= i, i < v.len), at(v, i) != 0), patterns=[at(v, i)])]
    return pre


byname = lambda c, r: Select(names(c), r) == c.arg(0)
byid = lambda c, r: Select(ids(c), r) == c.arg(0)
GM = G + 'GeometricModel'


def same_list(a, b):
    i = z3.Int('i!q')
    return And(a.len == b.len, ForAll([i], Implies(And(0 <= i, i < a.len), at(a, i) == at(b, i))))


def copy_loop(src, fields, var='i'):
    """copying loops: the list built so far equals the prefix of the source (one loop per list, in order)"""
    def loops(L):
        f = fields[L.ordinal] if L.ordinal < len(fields) else None
        if f is None:
            return None
        i = L.local(var)
        a, b = L.f(f), L.ctx.arg(0).get(f)
        j = z3.Int('j!q')
        return [('index', And(0 <= i, i <= b.len)), ('copied so far', And(a.len == i, ForAll([j], Implies(And(0 <= j, j < i), at(a, j) == at(b, j)), patterns=[at(a, j)])))]
    return loops


model = [
    Contract(GM + '::GeometricModel', sig=r'\(const unsigned int\)', label='GeometricModel::GeometricModel(dim)', throws=lambda c: Not(Or(c.arg(0) == 2, c.arg(0) == 3)),
             post=lambda c: [('dimension', c.f('topo_dimension_') == c.arg(0)), ('no regions', c.f('Regions').len == 0)]),
    Contract(GM + '::GeometricModel', nparams=2, label='GeometricModel::GeometricModel(dim,regions)', throws=lambda c: Not(Or(c.arg(0) == 2, c.arg(0) == 3)),
             post=lambda c: [('dimension', c.f('topo_dimension_') == c.arg(0)), ('the regions given', same_list(c.f('Regions'), c.arg(1)))]),
    Contract(GM + '::GeometricModel', sig=r'GeometricModel &', label='GeometricModel::GeometricModel(copy)', loops=copy_loop(0, ['Regions']),
             post=lambda c: [('dimension', c.f('topo_dimension_') == c.arg(0).get('topo_dimension_')), ('same regions', same_list(c.f('Regions'), c.arg(0).get('Regions')))]),
    Contract(GM + '::Add_Region', mods=['this.Regions'], pre=lambda c: [c.arg(0) != 0], throws=lambda c: c.oldf('topo_dimension_') < Select(dims(c), c.arg(0)), post=lambda c: appended(c, 'Regions', c.arg(0))),
    Contract(GM + '::Num_Regions', post=lambda c: [('number of regions', c.ret == c.oldf('Regions').len)]),
    Contract(GM + '::Region_i', pre=lambda c: [And(0 <= c.arg(0), c.arg(0) < c.oldf('Regions').len)], post=lambda c: [('the region in that place', c.ret == at(c.oldf('Regions'), c.arg(0)))]),
    Contract(GM + '::FindRegion', sig=r'\(const int\)', label='GeometricModel::FindRegion(id)', pre=lambda c: nonnull('Regions')(c) + [c.arg(0) >= 0], loops=find_loops(byid), post=find_post(byid)),
    Contract(GM + '::FindRegion', sig=r'string', label='GeometricModel::FindRegion(name)', pre=nonnull('Regions'), loops=find_loops(byname), post=find_post(byname)),
    Contract(GM + '::dimension', post=lambda c: [('dimension', c.ret == c.oldf('topo_dimension_'))]),
]
DM = G + 'Domain'
gdims = lambda c: c.p.heapget(GM, 'topo_dimension_')[0]
bad_dim = lambda c: Not(Or(c.arg(0) == 2, c.arg(0) == 3))
domain = [
    Contract(DM + '::Domain', sig=r'\(const unsigned int\)', label='Domain::Domain(dim)', throws=bad_dim,
             post=lambda c: [('dimension', c.f('spatial_dimension_') == c.arg(0)), ('no models', c.f('GeometricModels').len == 0), ('no regions', c.f('FreeRegions').len == 0)]),
    Contract(DM + '::Domain', nparams=3, label='Domain::Domain(dim,models,regions)', throws=bad_dim,
             post=lambda c: [('dimension', c.f('spatial_dimension_') == c.arg(0)), ('the models given', same_list(c.f('GeometricModels'), c.arg(1))), ('the regions given', same_list(c.f('FreeRegions'), c.arg(2)))]),
    Contract(DM + '::Domain', sig=r'Domain &', label='Domain::Domain(copy)', loops=copy_loop(0, ['GeometricModels', 'FreeRegions']),
             post=lambda c: [('dimension', term(c.f('spatial_dimension_')) == c.arg(0).get('spatial_dimension_')), ('same models', same_list(c.f('GeometricModels'), c.arg(0).get('GeometricModels'))), ('same regions', same_list(c.f('FreeRegions'), c.arg(0).get('FreeRegions')))]),
    Contract(DM + '::Add_Geometric_Model', mods=['this.GeometricModels'], pre=lambda c: [c.arg(0) != 0], throws=lambda c: c.oldf('spatial_dimension_') != Select(gdims(c), c.arg(0)), post=lambda c: appended(c, 'GeometricModels', c.arg(0))),
    Contract(DM + '::Add_Free_Region', mods=['this.FreeRegions'], pre=lambda c: [c.arg(0) != 0], throws=lambda c: c.oldf('spatial_dimension_') < Select(dims(c), c.arg(0)), post=lambda c: appended(c, 'FreeRegions', c.arg(0))),
    Contract(DM + '::Num_Geometric_Models', post=lambda c: [('number of models', c.ret == c.oldf('GeometricModels').len)]),
    Contract(DM + '::Num_Free_Regions', post=lambda c: [('number of regions', c.ret == c.oldf('FreeRegions').len)]),
    Contract(DM + '::Geometric_Model_i', pre=lambda c: [And(0 <= c.arg(0), c.arg(0) < c.oldf('GeometricModels').len)], post=lambda c: [('the model in that place', c.ret == at(c.oldf('GeometricModels'), c.arg(0)))]),
    Contract(DM + '::Free_Region_i', pre=lambda c: [And(0 <= c.arg(0), c.arg(0) < c.oldf('FreeRegions').len)], post=lambda c: [('the region in that place', c.ret == at(c.oldf('FreeRegions'), c.arg(0)))]),
    Contract(DM + '::spatial_dimension', post=lambda c: [('dimension', c.ret == c.oldf('spatial_dimension_'))]),
]
HP = (RG, GM)
g = 'src/geometry/'
UNITS = lambda: [Unit(g + 'BoxRegion.cc', box + base_ctors(False)), Unit(g + 'PlaneRegion.cc', plane + base_ctors(False)), Unit(g + 'PointRegion.cc', point + base_ctors(False)),
                 Unit(g + 'PolygonRegion.cc', polygon + base_ctors(False)), Unit(g + 'LogicalRegion.cc', logical + base_ctors(False)), Unit(g + 'LabeledSetRegion.cc', labelled + base_ctors(False)), Unit(g + 'Region.cc', region),
                 Unit(g + 'GeometricModel.cc', model, heap_ptrs=HP), Unit(g + 'Domain.cc', domain, heap_ptrs=HP)]
LEVEL = 'proof'
DRIVERS = [dict(src='c07.cc', repo=['src/geometry/' + f for f in ('BoxRegion.cc', 'Domain.cc', 'GeometricModel.cc', 'Geometry.cc', 'LabeledSetRegion.cc', 'LogicalRegion.cc', 'PlaneRegion.cc', 'PointRegion.cc', 'PolygonRegion.cc', 'Region.cc')] + ['src/error_handling/errors.cc', 'src/error_handling/exceptions.cc'],
                what='boxes, planes, points and polygons in 1D-3D with points inside, on and outside them; copies; random histories of additions to models and domains')]
EXPLANATION = ('Constructors, copies and in/out tests of every region class, and the histories of GeometricModel and Domain (each operation as a transition of the region list), '
               'are proved for all inputs; the boundary branch of the polygon region is bounded by the driver.')
