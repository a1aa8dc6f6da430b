"""C15: counts, lists and types of mesh entities agree."""
from .common import *

ME = 'Jali::Mesh'
UNKNOWN, DELETED, OWNED, GHOST, BGHOST, ALL = -1, 0, 1, 2, 3, 4
NODE, EDGE, FACE, CELL, SIDE, WEDGE, CORNER = range(7)
KINDS = {'node': NODE, 'edge': EDGE, 'face': FACE, 'cell': CELL, 'side': SIDE, 'wedge': WEDGE, 'corner': CORNER}
BG = ('cell', 'side', 'wedge', 'corner')
SUF = {OWNED: 'owned', GHOST: 'ghost', BGHOST: 'boundary_ghost', ALL: 'all'}
i_, j_, x_ = z3.Ints('i!q j!q x!q')
fld = lambda n, t: '%sids_%s_' % (n, SUF[t])
ln = lambda c, n, t: c.oldf(fld(n, t)).len


def total(c, n):
    return ln(c, n, OWNED) + ln(c, n, GHOST) + (ln(c, n, BGHOST) if n in BG else 0)


def is_list(n, t):
    return lambda c: [('the list of that class', c.retlv is not None and z3.BoolVal(len(c.retlv.path) == 1 and c.retlv.path[0][1] == fld(n, t)))]


counts, lists = [], []
for n in KINDS:
    types = (OWNED, GHOST) + ((BGHOST,) if n in BG else ())
    for t in types:
        counts.append(Contract(ME + '::num_%ss' % n, targs=[str(t)], label='Mesh::num_%ss<%d>' % (n, t), modular=False, post=(lambda n, t: lambda c: [('length of the list', c.ret == ln(c, n, t))])(n, t)))
    counts.append(Contract(ME + '::num_%ss' % n, targs=['4'], label='Mesh::num_%ss<4>' % n, modular=False, post=(lambda n: lambda c: [('sum over the classes', c.ret == total(c, n))])(n)))
    for t in types + (ALL,):
        lists.append(Contract(ME + '::%ss' % n, targs=[str(t)], label='Mesh::%ss<%d>' % (n, t), modular=False, post=is_list(n, t)))


def nent_post(c):
    k, t = c.arg(0), c.arg(1)
    out = []
    for n, kk in KINDS.items():
        for tt in (OWNED, GHOST) + ((BGHOST,) if n in BG else ()):
            out.append(('%ss of class %s' % (n, SUF[tt]), Implies(And(k == kk, t == tt), c.ret == ln(c, n, tt))))
        if n not in BG:
            out.append(('no boundary ghost %ss' % n, Implies(And(k == kk, t == BGHOST), c.ret == 0)))
        out.append(('all %ss' % n, Implies(And(k == kk, t == ALL), c.ret == total(c, n))))
    return out + [('no other kinds', Implies(Or(k < NODE, k > CORNER), c.ret == 0)), ('no other classes', Implies(Or(t < OWNED, t > ALL), c.ret == 0))]


V1 = ('vec', ('int', True, 32))
rl = lambda p, v, i: p.T.sort(V1).accessor(0, 0)(at(v, i))
re_ = lambda p, v, i, j: Select(p.T.sort(V1).accessor(0, 1)(at(v, i)), j)


def ctype(c, e):
    return at(c.oldf('cell_type'), e)


def of_side(c, s):
    return ctype(c, at(c.oldf('side_cell_id'), s))


def get_pre(c):
    k, e = c.arg(0), c.arg(1)
    ins = lambda e, f: And(0 <= e, e < c.oldf(f).len)
    w0 = re_(c.p, c.oldf('corner_wedge_ids'), e, 0)
    req = lambda f: yes(c.oldf(f))
    side = lambda s: And(ins(s, 'side_cell_id'), ins(at(c.oldf('side_cell_id'), s), 'cell_type'))
    return [Implies(k == CELL, ins(e, 'cell_type')), Implies(And(k == FACE, req('faces_requested')), ins(e, 'face_type')), Implies(And(k == EDGE, req('edges_requested')), ins(e, 'edge_type')), Implies(k == NODE, ins(e, 'node_type')),
            Implies(And(k == SIDE, req('sides_requested')), side(e)), Implies(And(k == WEDGE, req('wedges_requested')), And(e >= 0, side(e / 2))),
            Implies(And(k == CORNER, req('corners_requested')), And(ins(e, 'corner_wedge_ids'), rl(c.p, c.oldf('corner_wedge_ids'), e) >= 1, w0 >= 0, side(w0 / 2)))]


def get_post(c):
    k, e = c.arg(0), c.arg(1)
    req = lambda f: yes(c.oldf(f))
    w0 = re_(c.p, c.oldf('corner_wedge_ids'), e, 0)
    out = [('cell', Implies(k == CELL, c.ret == ctype(c, e))), ('node', Implies(k == NODE, c.ret == at(c.oldf('node_type'), e)))]
    for n, kk, v in (('face', FACE, at(c.oldf('face_type'), e)), ('edge', EDGE, at(c.oldf('edge_type'), e)), ('side', SIDE, of_side(c, e)), ('wedge', WEDGE, of_side(c, e / 2)), ('corner', CORNER, of_side(c, w0 / 2))):
        out.append((n + ' has the class recorded for it or for its cell', Implies(k == kk, c.ret == If(req(n + 's_requested'), v, IntVal(UNKNOWN)))))
    return out + [('other kinds have none', Implies(Or(k < NODE, k > CORNER), c.ret == UNKNOWN))]


def recorded(get, own, gh, bg, tf, k=None, upto=None):
    """the table of classes agrees with the lists (up to position k of list upto)"""
    out = []
    for t, l in ((OWNED, own), (GHOST, gh), (BGHOST, bg)):
        if l is None:
            continue
        n = l.len if upto is None or t < upto else (k if t == upto else None)
        if n is not None:
            out.append(('class %s' % SUF[t], ForAll([i_], Implies(And(0 <= i_, i_ < n), at(tf, at(l, i_)) == t), patterns=[at(l, i_)])))
    return out


def type_pre(c):
    out = []
    for n in ('cell', 'face', 'edge', 'node'):
        ls = [c.oldf(fld(n, t)) for t in (OWNED, GHOST) + ((BGHOST,) if n in BG else ())]
        for a, l in enumerate(ls):
            out.append(('%s ids are in range' % n, ForAll([i_], Implies(And(0 <= i_, i_ < l.len), And(0 <= at(l, i_), at(l, i_) < total(c, n))), patterns=[at(l, i_)])))
            for m in ls[a + 1:]:
                out.append(('%s lists are disjoint' % n, ForAll([i_, j_], Implies(And(0 <= i_, i_ < l.len, 0 <= j_, j_ < m.len), at(l, i_) != at(m, j_)), patterns=[z3.MultiPattern(at(l, i_), at(m, j_))])))
    return out


def type_post(c):
    out = []
    for n in ('cell', 'face', 'edge', 'node'):
        g = lambda t: c.oldf(fld(n, t))
        cond = {'face': yes(c.oldf('faces_requested')), 'edge': yes(c.oldf('edges_requested'))}.get(n)
        fs = [('%s: a class for each' % n, c.f(n + '_type').len == total(c, n))] + [('%s: %s' % (n, a), b) for a, b in recorded(None, g(OWNED), g(GHOST), g(BGHOST) if n in BG else None, c.f(n + '_type'))]
        out += [(a, b if cond is None else Implies(cond, b)) for a, b in fs]
    return out + [('types are known from now on', yes(c.f('type_info_cached')))]


TORDER = [('cell', OWNED), ('cell', GHOST), ('cell', BGHOST), ('face', OWNED), ('face', GHOST), ('edge', OWNED), ('edge', GHOST), ('node', OWNED), ('node', GHOST)]


def type_loops(L):
    """which list is walked is read off the range itself"""
    c = L.ctx
    lv = getattr(L.rng, 'lv', None)
    name = lv.path[0][1] if lv is not None and lv.path else None
    if name is None:
        n, t = TORDER[L.ordinal]
    else:
        n = name.split('ids_')[0]
        t = {v: k for k, v in SUF.items()}[name.split('ids_')[1][:-1]]
    g = lambda t: c.oldf(fld(n, t))
    return [('table size', L.f(n + '_type').len == total(c, n))] + recorded(None, g(OWNED), g(GHOST), g(BGHOST) if n in BG else None, L.f(n + '_type'), L.k, t)


FC = 'face_cell_ids'


def fgc_pre(c):
    f = c.arg(0)
    a = lambda j: re_(c.p, c.oldf(FC), f, j)
    return [('cached', yes(c.oldf('face2cell_info_cached'))), ('an id of the table', And(0 <= f, f < c.oldf(FC).len)), ('two slots per face', rl(c.p, c.oldf(FC), f) == 2)] + \
           [('slots hold cells or -1', And(a(j) >= -1, a(j) < c.oldf('cell_type').len)) for j in (0, 1)]


def fgc_post(c):
    f, t = c.arg(0), c.arg(1)
    r = c.cur(2)
    a = [re_(c.p, c.oldf(FC), f, j) for j in (0, 1)]
    sel = [And(a[j] != -1, Or(t == ALL, And(Or(t == OWNED, t == GHOST, t == BGHOST), ctype(c, a[j]) == t))) for j in (0, 1)]
    n = lambda b: If(b, IntVal(1), IntVal(0))
    return [('exactly the cells of the face that are of the class', r.len == n(sel[0]) + n(sel[1])), ('first slot first', Implies(sel[0], at(r, 0) == a[0])), ('second slot after it', Implies(sel[1], at(r, n(sel[0])) == a[1]))]


def strs(prefix, names, lo=0):
    def post(c):
        k = c.arg(0)
        return [('%s' % (nm or 'no name %d' % i), Implies(k == i + lo, c.ret == z3.StringVal(prefix + nm))) for i, nm in enumerate(names)] + [('other values have none', Implies(Or(k < lo, k >= lo + len(names)), c.ret == z3.StringVal('')))]
    return post


KN = ['NODE', 'EDGE', 'FACE', 'CELL', 'SIDE', 'WEDGE', 'CORNER', 'FACET', 'BOUNDARY_FACE']
TN = ['TYPE_UNKNOWN', 'DELETED', 'PARALLEL_OWNED', 'PARALLEL_GHOST', 'BOUNDARY_GHOST', 'ALL']
CN = ['CELLTYPE_UNKNOWN', 'TRI', 'QUAD', 'POLYGON', 'TET', 'PRISM', 'PYRAMID', 'HEX', 'POLYHED']
PN = ['INDEX', 'BLOCK', 'METIS', 'ZOLTAN_GRAPH', 'ZOLTAN_RCB']
names = [
    Contract('Jali::Entity_kind_string', post=strs('Entity_kind::', KN)), Contract('Jali::Entity_type_string', post=strs('Entity_type::', TN, -1)),
    Contract('Jali::Cell_type_string', post=strs('Cell_type::', CN)), Contract('Jali::Partitioner_type_string', post=strs('Partitioner_type::', PN)),
    Contract('Jali::valid_entity_type', ret=lambda c: And(c.arg(0) >= DELETED, c.arg(0) <= ALL)), Contract('Jali::entity_valid_kind', ret=lambda c: And(c.arg(0) >= NODE, c.arg(0) <= CELL)),
    Contract('Jali::cell_valid_type', ret=lambda c: And(c.arg(0) >= 1, c.arg(0) <= 8))]

body = [
    Contract(ME + '::num_entities', label='Mesh::num_entities', post=nent_post),
    Contract(ME + '::entity_get_type', label='Mesh::entity_get_type', pre=get_pre, post=get_post),
    Contract(ME + '::face_get_cells', label='Mesh::face_get_cells', mods=['*2'], pre=fgc_pre, post=fgc_post),
    Contract(ME + '::cache_type_info', label='Mesh::cache_type_info', mods=['this.%s' % f for f in ('cell_type', 'face_type', 'edge_type', 'node_type', 'type_info_cached')], pre=type_pre, post=type_post, loops=type_loops),
]
UNITS = lambda: [Unit('src/mesh/Mesh.cc', counts + lists + body + names)]
LEMMAS = lambda: []
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c15.cc', repo=_d.ALLSRC, mpi=True, what='random 2D/3D meshes with ghosts and boundary ghosts, bricks and lines: every list, count, type and filtered query compared; all names')]
EXPLANATION = ('Every count and list accessor of the mesh is proved to report its own list (or the sum over the classes), num_entities to select the right one for all kinds and classes, cache_type_info to record for every listed entity '
               'the class of the list it is in, entity_get_type to report that record (through side and cell for sides, wedges and corners), face_get_cells to return exactly the recorded cells of the class asked for, and the name functions to be one to one.')
ASSUMPTIONS = ['the lists of a mesh are disjoint and hold ids below their total (established by the frameworks and the subdivision caches; see C01, C02 and C12, checked by the driver here)']
