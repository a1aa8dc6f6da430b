"""C20: the mesh factory: options, validation, what it asks the framework for."""
from .common import *

F = 'Jali::MeshFactory'
MSX = 'Jali::Mesh_simple'
MSG = 'Errors::Message'
NPROCS = z3.Int('number of processes')
GDIM = z3.Function('geometric_model_dimension', z3.IntSort(), z3.IntSort())
POLICY = z3.Int('policy in force')
SIMPLE, MSTK = 1, 2
NODE, EDGE, FACE, CELL, SIDE, WEDGE, CORNER, ALLK = 0, 1, 2, 3, 4, 5, 6, -3
REQ = {EDGE: 'request_edges_', FACE: 'request_faces_', SIDE: 'request_sides_', WEDGE: 'request_wedges_', CORNER: 'request_corners_', CELL: 'request_cells_'}
i_ = z3.Int('i!q')
DEFAULTS = {'framework_': MSTK, 'request_edges_': False, 'request_faces_': True, 'request_cells_': True, 'request_sides_': False, 'request_wedges_': False, 'request_corners_': False, 'request_boundary_ghosts_': False,
            'num_tiles_': 0, 'num_ghost_layers_tile_': 0, 'num_ghost_layers_distmesh_': 1, 'partitioner_': None, 'geom_type_': None, 'geometric_model_': 0, 'contiguous_gids_': False}
OPTS = list(DEFAULTS)


def eq(v, w):
    if isinstance(w, bool):
        return yes(v) == z3.BoolVal(w)
    return v == w


def dflt(c, f):
    w = DEFAULTS[f]
    if w is None:
        w = PART_DEFAULT if f == 'partitioner_' else GEOM_DEFAULT
    return eq(c.f(f), w)


PART_DEFAULT, GEOM_DEFAULT = 0, 0


def constants(c):
    """the default members are const and initialised in the class; the constructor's postcondition below proves their values"""
    return [eq(c.oldf(f + 'default_') if f != 'framework_' else c.oldf('default_framework_'), DEFAULTS[f] if DEFAULTS[f] is not None else 0) for f in OPTS if f not in ('geometric_model_', 'contiguous_gids_')]


def getter(name, f, boolean=False, **k):
    return Contract(F + '::' + name, label='MeshFactory::%s()' % name, nparams=0, modular=False, post=lambda c: [('the option', (yes(c.ret) == yes(c.oldf(f))) if boolean else c.ret == c.oldf(f))], **k)


def setter(name, f, boolean=False, **k):
    return Contract(F + '::' + name, label='MeshFactory::%s(value)' % name, nparams=1, modular=False, mods=['this.' + f], post=lambda c: [('the option is the given value', (yes(c.f(f)) == yes(c.arg(0))) if boolean else c.f(f) == c.arg(0))], **k)


opts = []
for n, f, b in (('partitioner', 'partitioner_', 0), ('mesh_geometry', 'geom_type_', 0), ('num_ghost_layers_distmesh', 'num_ghost_layers_distmesh_', 0), ('boundary_ghosts_requested', 'request_boundary_ghosts_', 1), ('num_tiles', 'num_tiles_', 0),
                ('num_ghost_layers_tile', 'num_ghost_layers_tile_', 0), ('geometric_model', 'geometric_model_', 0)):
    opts += [getter(n, f, b), setter(n, f, b)]
opts += [getter('framework', 'framework_'), setter('contiguous_gids', 'contiguous_gids_', True)]
has = lambda c, e: yes(c.f(REQ[e]))
had = lambda c, e: yes(c.oldf(REQ[e]))
ALLREQ = ['this.' + v for v in REQ.values()]
OFF = (EDGE, SIDE, WEDGE, CORNER)


def inlist(v, e, n):
    return z3.Exists([i_], And(0 <= i_, i_ < n, at(v, i_) == e))


def inc_loops(L):
    c = L.ctx
    v = c.arg(0)
    return [('kind %d' % e, yes(L.f(REQ[e])) == Or(had(c, e), inlist(v, e, L.k), inlist(v, ALLK, L.k))) for e in REQ]


def exc_loops(L):
    c = L.ctx
    v = c.arg(0)
    return [('kind %d' % e, yes(L.f(REQ[e])) == And(had(c, e), Not(inlist(v, e, L.k)))) for e in OFF]


def listed(c):
    """the included kinds in a list, each once"""
    out = []
    r = c.ret
    n = sum((If(had(c, e), IntVal(1), IntVal(0)) for e in REQ), IntVal(1))
    out.append(('as many as are requested, and nodes', r.len == n))
    for e in list(REQ) + [NODE]:
        there = Or(*[And(k < r.len, at(r, k) == e) for k in range(7)])
        out.append(('kind %d listed exactly when requested' % e, there == (z3.BoolVal(True) if e == NODE else had(c, e))))
    return out


opts += [
    Contract(F + '::included_entities', nparams=0, label='MeshFactory::included_entities()', post=listed),
    Contract(F + '::included_entities', nparams=1, sig=r'\((const )?(Jali::)?Entity_kind( const)?\)', label='MeshFactory::included_entities(kind)', mods=ALLREQ,
             post=lambda c: [('kind %d' % e, has(c, e) == Or(had(c, e), c.arg(0) == e, c.arg(0) == ALLK)) for e in REQ]),
    Contract(F + '::included_entities', nparams=1, sig=r'vector', label='MeshFactory::included_entities(list)', mods=ALLREQ, loops=inc_loops,
             post=lambda c: [('kind %d' % e, has(c, e) == Or(had(c, e), inlist(c.arg(0), e, c.arg(0).len), inlist(c.arg(0), ALLK, c.arg(0).len))) for e in REQ]),
    Contract(F + '::excluded_entities', nparams=1, mods=['this.' + REQ[e] for e in OFF], loops=exc_loops, post=lambda c: [('kind %d' % e, has(c, e) == And(had(c, e), Not(inlist(c.arg(0), e, c.arg(0).len)))) for e in OFF]),
    Contract(F + '::reset_options', mods=['this.' + f for f in OPTS], pre=constants, post=lambda c: [('%s is the default' % f, dflt(c, f)) for f in OPTS]),
    Contract(F + '::MeshFactory', nparams=1, label='MeshFactory::MeshFactory', post=lambda c: [('%s is the default' % f, dflt(c, f)) for f in OPTS] + [('constant defaults', And(*[eq(c.f(f + 'default_') if f != 'framework_' else c.f('default_framework_'), DEFAULTS[f] if DEFAULTS[f] is not None else 0) for f in OPTS if f not in ('geometric_model_', 'contiguous_gids_')]))]),
    Contract(F + '::framework', nparams=1, label='MeshFactory::framework(value)', mods=['this.framework_'], throws=lambda c: And(c.arg(0) != SIMPLE, c.arg(0) != MSTK), post=lambda c: [('the framework is the given one', c.f('framework_') == c.arg(0))]),
    Contract('Jali::framework_available', post=lambda c: [yes(c.ret) == Or(c.arg(0) == SIMPLE, c.arg(0) == MSTK)]),
]
for ct in opts:
    if ct.name.endswith('::framework') and ct.throws is not None:
        pass


# ---- the constructor of the mesh records what it was asked for
A3 = ['x0', 'y0', 'z0', 'x1', 'y1', 'z1', 'nx', 'ny', 'nz', None, 'gm', 'faces', 'edges', 'sides', 'wedges', 'corners', 'tiles', 'gtile', 'gdist', 'bghost', 'part']
A1 = ['x', None, 'gm', 'faces', 'edges', 'sides', 'wedges', 'corners', 'tiles', 'gtile', 'gdist', 'bghost', 'part', 'geom']
TY = {**{k: ('real',) for k in ('x0', 'y0', 'z0', 'x1', 'y1', 'z1')}, **{k: ('bool',) for k in ('faces', 'edges', 'sides', 'wedges', 'corners', 'bghost')}}
TY['x'] = ('vec', ('real',))
GHOST = {(MSX, 'asked_' + a): TY.get(a, ('int', True, 32)) for a in set(A3 + A1) - {None}}
OKMESH = z3.Function('framework_can_build', z3.IntSort(), z3.BoolSort(), z3.BoolSort())       # dimension, whether edges are needed


def same(a, b):
    if hasattr(a, 'arr'):
        return And(a.len == b.len, ForAll([i_], Implies(And(0 <= i_, i_ < b.len), at(a, i_) == at(b, i_)), patterns=[at(a, i_)]))
    if z3.is_bool(a) or z3.is_bool(b):
        return yes(a) == yes(b)
    return a == b


def needs_edges(c, names):
    return Or(*[yes(c.arg(names.index(k))) for k in ('edges', 'sides', 'wedges', 'corners')])


def ctor(names, dim):
    return Contract(MSX + '::Mesh_simple', nparams=len(names), sig=r'^void \((const std::vector<double> &|double, double, double, double, double, double, int, int, int)', label='Mesh_simple::Mesh_simple(%dD)' % dim, trusted=True,
                    throws=lambda c: Not(OKMESH(dim, needs_edges(c, names))), post=lambda c: [same(c.f('asked_' + a), c.arg(k)) for k, a in enumerate(names) if a])


def allreduce(p, argn, n):
    a = p.ev(argn[0])
    b = p.ev(argn[1])
    v = p.load(p.deref(a, ('ptr', ('int', True, 32)), n))
    r = p.fresh(z3.IntSort(), 'sum_over_ranks')
    p.assume((r > 0) == (v > 0))     # every rank makes the same request
    p.save(p.deref(b, ('ptr', ('int', True, 32)), n), r)
    return IntVal(0)


def comm_size(p, argn, n):
    b = p.ev(argn[1])
    p.save(p.deref(b, ('ptr', ('int', True, 32)), n), NPROCS)
    return IntVal(0)


EXT = {'MPI_Allreduce': allreduce, 'MPI_Comm_size': comm_size}
gmok = lambda c, d: Or(c.oldf('geometric_model_') == 0, GDIM(c.oldf('geometric_model_')) == d)
sub = lambda c: Or(*[had(c, e) for e in (EDGE, SIDE, WEDGE, CORNER)])


def valid3(c):
    x = [c.arg(k) for k in range(9)]
    return And(gmok(c, 3), x[6] > 0, x[7] > 0, x[8] > 0, *[x[3 + k] > x[k] for k in range(3)], c.oldf('framework_') == SIMPLE, NPROCS == 1, OKMESH(3, sub(c)))


def increasing(v):
    return ForAll([i_], Implies(And(0 <= i_, i_ + 1 < v.len), at(v, i_) < at(v, i_ + 1)), patterns=[at(v, i_)])


def valid1(c, v):
    return And(gmok(c, 1), v.len >= 2, increasing(v), c.oldf('framework_') == SIMPLE, NPROCS == 1, OKMESH(1, sub(c)))


ASK = dict(gm='geometric_model_', faces='request_faces_', edges='request_edges_', sides='request_sides_', wedges='request_wedges_', corners='request_corners_', tiles='num_tiles_', gtile='num_ghost_layers_tile_',
           gdist='num_ghost_layers_distmesh_', bghost='request_boundary_ghosts_', part='partitioner_', geom='geom_type_')


def asked(c, names, args):
    o = c.ret
    g = lambda a: c.p.unpack(Select(c.p.heapget(MSX, 'asked_' + a)[0], o), GHOST[MSX, 'asked_' + a])
    out = [('a mesh is returned', And(o > 0, Not(ALLOC(o))))]
    for a in names:
        if a in ASK:
            out.append(('%s as the options say' % a, same(g(a), c.oldf(ASK[a]))))
        elif a:
            out.append(('%s as given' % a, same(g(a), args(a))))
    return out


create = [
    Contract(F + '::create', nparams=9, label='MeshFactory::create(3D)', throws=lambda c: Not(valid3(c)), post=lambda c: asked(c, A3, lambda a: c.arg(A3.index(a)))),
    Contract(F + '::create', nparams=6, label='MeshFactory::create(2D)', throws=lambda c: z3.BoolVal(True)),
    Contract(F + '::create', nparams=1, sig=r'vector', label='MeshFactory::create(1D)', throws=lambda c: Not(valid1(c, c.arg(0))), post=lambda c: asked(c, A1, lambda a: c.arg(0)),
             loops=lambda L: (lambda v, i, d: [('position', And(1 <= i, i <= v.len - 1, v.len >= 2)), ('smallest spacing so far', And(ForAll([i_], Implies(And(0 <= i_, i_ < i), at(v, i_ + 1) - at(v, i_) >= d), patterns=[at(v, i_)]), Exists([i_], And(0 <= i_, i_ < i, at(v, i_ + 1) - at(v, i_) == d))))])(L.ctx.arg(0), L.local('i'), L.local('delta'))),
    Contract(F + '::create', nparams=1, sig=r'string', label='MeshFactory::create(file)', throws=lambda c: z3.BoolVal(True)),
    Contract(F + '::create', nparams=5, label='MeshFactory::create(extract)', throws=lambda c: z3.BoolVal(True)),
    Contract(F + '::operator()', nparams=3, label='MeshFactory::operator()(1D, count)', throws=lambda c: Not(And(gmok(c, 1), c.arg(2) > 0, c.arg(1) > c.arg(0), c.oldf('framework_') == SIMPLE, NPROCS == 1, OKMESH(1, sub(c)))),
             post=lambda c: asked(c, [a for a in A1 if a != 'x'], None) + (lambda x: [('one node more than cells', x.len == c.arg(2) + 1), ('equally spaced from end to end', ForAll([i_], Implies(And(0 <= i_, i_ < x.len), at(x, i_) == c.arg(0) + i_ * (c.arg(1) - c.arg(0)) / c.arg(2)), patterns=[at(x, i_)]))])(c.p.unpack(Select(c.p.heapget(MSX, 'asked_x')[0], c.ret), GHOST[MSX, 'asked_x'])),
             loops=lambda L: (lambda c, i, x: [('position', And(0 <= i, Or(i <= c.arg(2) + 1, i == 0), x.len == If(c.arg(2) > 0, c.arg(2) + 1, IntVal(0)))), ('nodes so far', ForAll([i_], Implies(And(0 <= i_, i_ < i, i_ < x.len), at(x, i_) == c.arg(0) + i_ * (c.arg(1) - c.arg(0)) / c.arg(2)), patterns=[at(x, i_)]))])(L.ctx, L.local('i'), L.local('x'))),
]
ops = [Contract(F + '::operator()', nparams=n, sig=s, label='MeshFactory::operator()' + l, throws=lambda c: z3.BoolVal(True)) for n, s, l in ((6, None, '(2D)'), (5, None, '(extract)'), (1, 'string', '(file)'))]
ops += [Contract(F + '::operator()', nparams=9, label='MeshFactory::operator()(3D)', throws=lambda c: Not(valid3(c)), post=lambda c: asked(c, A3, lambda a: c.arg(A3.index(a)))),
        Contract(F + '::operator()', nparams=1, sig='vector', label='MeshFactory::operator()(1D)', throws=lambda c: Not(valid1(c, c.arg(0))), post=lambda c: asked(c, A1, lambda a: c.arg(0)))]
err = [Contract('JaliGeometry::GeometricModel::dimension', trusted=True, label='GeometricModel::dimension', ret=lambda c: GDIM(c.this.root.oid))]
two = Contract(MSX + '::Mesh_simple', nparams=19, sig=r'double, double, double, double, int, int', label='Mesh_simple::Mesh_simple(2D)', trusted=True, throws=lambda c: z3.BoolVal(True), post=lambda c: [])
MB = 'Jali::Mesh'
imp = lambda *a: Or(*[yes(v) for v in a])


def records(c, arg, gm):
    """what the mesh remembers of the request: flags closed under dependence"""
    f, e, s, w, k = [arg(n) for n in ('faces', 'edges', 'sides', 'wedges', 'corners')]
    want = dict(corners_requested=imp(k), wedges_requested=imp(k, w), sides_requested=imp(k, w, s), faces_requested=imp(k, w, s, f), edges_requested=imp(k, w, s, e))
    out = [('%s' % n, yes(c.f(n)) == v) for n, v in want.items()]
    out += [('tiles', c.f('num_tiles_ini_') == arg('tiles')), ('tile ghost layers', c.f('num_ghost_layers_tile_') == arg('gtile')), ('mesh ghost layers', c.f('num_ghost_layers_distmesh_') == arg('gdist')),
            ('boundary ghosts', yes(c.f('boundary_ghosts_requested_')) == yes(arg('bghost'))), ('partitioner', c.f('partitioner_pref_') == arg('part')), ('geometry', c.f('geomtype') == arg('geom'))]
    if gm:
        out.append(('geometric model', c.f('geometric_model_') == arg('gm')))
    return out


BASE = ['faces', 'edges', 'sides', 'wedges', 'corners', 'tiles', 'gtile', 'gdist', 'bghost', 'part', 'geom']
later = ['clear_internals_3d_', 'update_internals_3d_', 'clear_internals_1d_', 'update_internals_1d_']
trust = [Contract(MSX + '::' + n, trusted=True, post=lambda c: []) for n in later] + [Contract(MB + '::' + n, trusted=True, post=lambda c: []) for n in ('cache_extra_variables', 'build_tiles')]
ctors = [Contract(MB + '::Mesh', nparams=12, label='Mesh::Mesh', modular=False, post=lambda c: records(c, lambda n: c.arg(BASE.index(n)), 0) + [('caches empty', And(*[Not(yes(c.f(n + '_info_cached'))) for n in ('cell2face', 'face2cell', 'cell2edge', 'face2edge', 'side', 'wedge', 'corner', 'type')]))]),
         Contract(MSX + '::Mesh_simple', nparams=len(A3), sig=r'^void \(double', label='Mesh_simple::Mesh_simple(3D) records the request', pre=lambda c: [Not(yes(c.arg(A3.index('bghost'))))],
                  post=lambda c: records(c, lambda n: IntVal(0) if n == 'geom' else c.arg(A3.index(n)), 1) + [(n, c.f(n + '_') == c.arg(A3.index(n))) for n in A3[:9]] + [('dimension', And(c.f('space_dim_') == 3, c.f('manifold_dim_') == 3))]),
         Contract(MSX + '::Mesh_simple', nparams=len(A1), sig=r'^void \(const std::vector<double> &', label='Mesh_simple::Mesh_simple(1D) records the request', pre=lambda c: [Not(yes(c.arg(A1.index('bghost')))), c.arg(0).len >= 2],
                  post=lambda c: records(c, lambda n: c.arg(A1.index(n)), 0) + [('as many cells as spaces', c.f('nx_') == c.arg(0).len - 1), ('coordinates', same(c.f('coordinates_'), c.arg(0))), ('dimension', And(c.f('space_dim_') == 1, c.f('manifold_dim_') == 1))])]
UNITS = lambda: [Unit('src/mesh/mesh_factory/MeshFactory.cc', opts + create + ops + err + [ctor(A3, 3), ctor(A1, 1), two], ghost=GHOST, externals=EXT),
                 Unit('src/mesh/mesh_simple/Mesh_simple.cc', ctors + trust)]
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c20.cc', repo=_d.ALLSRC, mpi=True, what='random option histories against a model of the options; valid and invalid requests in 1D, 2D, 3D, import and extraction')]
EXPLANATION = ('Every option setter changes its option and nothing else and every getter returns it; including and excluding kinds (one or a list, ALL_KIND) changes exactly the named requests; reset and construction give the documented defaults; included_entities lists each requested kind and nodes once. '
               'create and operator() in all forms throw exactly when the request is invalid, otherwise return a new mesh whose constructor got the arguments and every option in place; the 1D form from a count makes count+1 equally spaced nodes. The Mesh and Mesh_simple constructors record the request, closed under the dependence corner, wedge, side, face and edge.')
TRUSTED = ['whether the framework itself can build the requested entities (an uninterpreted condition on dimension and kinds; in the driver: the simple framework makes edges and smaller entities in 1D only)', 'MPI_Allreduce over equal requests is positive exactly when the local flag is', 'GeometricModel::dimension is a function of the model',
           'filling of the tables inside the Mesh_simple constructor leaves the recorded request alone (tables: C15)', 'text of error messages (opaque streams)', 'raising policy in force (C21)']
ASSUMPTIONS = ['boundary ghosts are not requested of the simple framework (it asserts)', 'a configuration without MSTK: import, extraction and 2D always raise', 'reals for floating point']
BOUNDED = ['entities and extents of the mesh that is built: driver over 600 random option histories (4000 thorough); node coordinates of the lattice: C15']
