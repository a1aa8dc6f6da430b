"""C12: sides, wedges and corners are a consistent subdivision of the cells."""
from .geo import *

M = 'src/mesh/Mesh.cc'
SC, SF_, SE, SU, SO_ = 'side_cell_id', 'side_face_id', 'side_edge_id', 'side_edge_use', 'side_opp_side_id'
CWI, CSI, CCI, NCI = 'corner_wedge_ids', 'cell_side_ids', 'cell_corner_ids', 'node_corner_ids'


def get(name, field, div=1):
    """value of the table for the side (of the wedge)"""
    def idx(c):
        return c.arg(0) / div if div > 1 else c.arg(0)
    return Contract(ME + '::' + name, label='Mesh::' + name, pre=lambda c: [('an entity of the table', And(0 <= c.arg(0), idx(c) < c.oldf(field).len))], ret=lambda c: at(c.oldf(field), idx(c)))


def node_of(c, s, k):
    """node k of a side: that end of its edge, by the sense in which it uses it"""
    e, use = at(c.oldf(SE), s), yes(at(c.oldf(SU), s))
    return If(use == (k == 0), EN[0](e), EN[1](e))


sane = lambda c, s: And(s >= 0, *[s < c.oldf(f).len for f in (SC, SE, SU)])
side_node = Contract(ME + '::side_get_node', label='Mesh::side_get_node', pre=lambda c: [sane(c, c.arg(0)), Or(c.arg(1) == 0, c.arg(1) == 1)], ret=lambda c: node_of(c, c.arg(0), c.arg(1)))
wedge_node = Contract(ME + '::wedge_get_node', label='Mesh::wedge_get_node', pre=lambda c: [c.arg(0) >= 0, sane(c, c.arg(0) / 2)], ret=lambda c: node_of(c, c.arg(0) / 2, c.arg(0) % 2))
nat = lambda c: [c.arg(0) >= 0]
side_acc = [get('side_get_face', SF_), get('side_get_edge', SE), get('side_get_cell', SC), get('side_get_opposite_side', SO_), get('wedge_get_cell', SC, 2), get('wedge_get_face', SF_, 2), get('wedge_get_edge', SE, 2), get('wedge_get_corner', 'wedge_corner_id'), side_node, wedge_node,
            Contract(ME + '::side_get_edge_use', pre=lambda c: [sane(c, c.arg(0))], post=lambda c: [('sense of the edge', (c.ret != 0) == yes(at(c.oldf(SU), c.arg(0))))]),
            Contract(ME + '::side_get_wedge', pre=lambda c: nat(c) + [Or(c.arg(1) == 0, c.arg(1) == 1)], post=lambda c: [('a wedge of the side', And(c.ret == 2 * c.arg(0) + c.arg(1), c.ret / 2 == c.arg(0)))]),
            Contract(ME + '::wedge_get_side', pre=nat, ret=lambda c: c.arg(0) / 2),
            Contract(ME + '::wedge_get_adjacent_wedge', pre=nat, post=lambda c: [('the other wedge of the side', And(c.ret != c.arg(0), c.ret / 2 == c.arg(0) / 2)), ('adjacency is an involution', adj(c.ret) == c.arg(0)), ('formula', c.ret == adj(c.arg(0)))]),
            Contract(ME + '::wedge_get_opposite_wedge', pre=lambda c: nat(c) + [('an entity of the table', c.arg(0) / 2 < c.oldf(SO_).len), ('an opposite side or none', at(c.oldf(SO_), c.arg(0) / 2) >= -1)], post=lambda c: [('none exactly when the side has none', (c.ret == -1) == (at(c.oldf(SO_), c.arg(0) / 2) == -1)), ('wedge of the opposite side on the other end', Implies(c.ret != -1, And(c.ret / 2 == at(c.oldf(SO_), c.arg(0) / 2), c.ret % 2 == 1 - c.arg(0) % 2)))])]


def adj(w):
    return If(w % 2 == 1, w - 1, w + 1)


# corners
def cpre(c):
    cn = c.arg(0)
    n, w = wedges_of(c, cn)
    return [('a corner with wedges', And(0 <= cn, cn < c.oldf(CWI).len, n >= 1)), ('its wedges are wedges of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(w(i_) >= 0, sane(c, w(i_) / 2))), patterns=[w(i_)]))]


w0 = lambda c, cn: re_(c.p, c.oldf(CWI), cn, IntVal(0))
corner_acc = [Contract(ME + '::corner_get_node', label='Mesh::corner_get_node', pre=cpre, ret=lambda c: node_of(c, w0(c, c.arg(0)) / 2, w0(c, c.arg(0)) % 2)),
              Contract(ME + '::corner_get_cell', label='Mesh::corner_get_cell', pre=cpre, ret=lambda c: at(c.oldf(SC), w0(c, c.arg(0)) / 2))]


def copies(name, field):
    def post(c):
        e, r = c.arg(0), c.cur(1)
        v = c.oldf(field)
        return [('as many as recorded', r.len == rl(c.p, v, e)), ('the recorded ones', ForAll([i_], Implies(And(0 <= i_, i_ < r.len), at(r, i_) == re_(c.p, v, e, i_)), patterns=[at(r, i_)]))]
    return Contract(ME + '::' + name, label='Mesh::' + name, mods=['*1'], pre=lambda c: [('an entity of the table', And(0 <= c.arg(0), c.arg(0) < c.oldf(field).len, rl(c.p, c.oldf(field), c.arg(0)) >= 0))], post=post)


def cw_state(c, r, n):
    v = c.oldf(CSI)
    s = lambda q: re_(c.p, v, c.arg(0), q)
    return [('two wedges per side so far', ForAll([i_], Implies(And(0 <= i_, i_ < 2 * n), at(r, i_) == 2 * s(i_ / 2) + i_ % 2), patterns=[at(r, i_)]))]


def cw_loops(L):
    c = L.ctx
    r = c.p.load(c._ref(1))
    return [('size', r.len == 2 * rl(c.p, c.oldf(CSI), c.arg(0)))] + cw_state(c, r, L.local('i'))


cwedges = Contract(ME + '::cell_get_wedges', label='Mesh::cell_get_wedges', mods=['*1'], pre=lambda c: [('an entity of the table', And(0 <= c.arg(0), c.arg(0) < c.oldf(CSI).len, rl(c.p, c.oldf(CSI), c.arg(0)) >= 0))],
                   post=lambda c: [('two for each side of the cell', c.cur(1).len == 2 * rl(c.p, c.oldf(CSI), c.arg(0)))] + cw_state(c, c.cur(1), rl(c.p, c.oldf(CSI), c.arg(0))), loops=cw_loops)
lists_ = [copies('cell_get_sides', CSI), copies('cell_get_corners', CCI), copies('corner_get_wedges', CWI), cwedges]


# corner of a cell at a node
def corners_ok(c, v, e):
    """the corners in row e are corners with wedges"""
    k = lambda q: re_(c.p, v, e, q)
    W = c.oldf(CWI)
    return [('an entity of the table', And(0 <= e, e < v.len, rl(c.p, v, e) >= 0)),
            ('its corners are corners of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < rl(c.p, v, e)), And(0 <= k(i_), k(i_) < W.len, rl(c.p, W, k(i_)) >= 1)), patterns=[k(i_)])),
            ('their wedges are wedges of the mesh', ForAll([i_, j_], Implies(And(0 <= i_, i_ < rl(c.p, v, e), 0 <= j_, j_ < rl(c.p, W, k(i_))), And(re_(c.p, W, k(i_), j_) >= 0, sane(c, re_(c.p, W, k(i_), j_) / 2), at(c.oldf(SC), re_(c.p, W, k(i_), j_) / 2) >= 0, at(c.oldf(SC), re_(c.p, W, k(i_), j_) / 2) < c.oldf('cell_type').len)), patterns=[re_(c.p, W, k(i_), j_)]))]


def node_at(c, cn):
    w = w0(c, cn)
    return node_of(c, w / 2, w % 2)


def can_post(c):
    v, e, n = c.oldf(CCI), c.arg(0), c.arg(1)
    k = lambda q: re_(c.p, v, e, q)
    g = And(0 <= i_, i_ < rl(c.p, v, e))
    return [('a corner of the cell at the node', Implies(c.ret != -1, Exists([i_], And(g, k(i_) == c.ret, node_at(c, k(i_)) == n)))), ('none only when the cell has none there', Implies(c.ret == -1, ForAll([i_], Implies(g, node_at(c, k(i_)) != n), patterns=[k(i_)])))]


def can_loops(L):
    c = L.ctx
    if not L.fn.endswith('corner_at_node'):
        return None
    v, e, n = c.oldf(CCI), c.arg(0), c.arg(1)
    k = lambda q: re_(c.p, v, e, q)
    it = L.local('itc')
    return [('position', And(0 <= it.pos, it.pos <= rl(c.p, v, e))), ('none so far', ForAll([i_], Implies(And(0 <= i_, i_ < it.pos), node_at(c, k(i_)) != n), patterns=[k(i_)]))]


can = Contract(ME + '::cell_get_corner_at_node', label='Mesh::cell_get_corner_at_node', pre=lambda c: corners_ok(c, c.oldf(CCI), c.arg(0)), post=can_post, loops=can_loops)

# wedges and corners at a node, of a class
PW = F('selected before', Z, Z, Z)


def ngw(c):
    v, W, n, t = c.oldf(NCI), c.oldf(CWI), c.arg(0), c.arg(1)
    k = lambda q: re_(c.p, v, n, q)
    w = lambda q, m: re_(c.p, W, k(q), m)
    okw = lambda q, m: Or(t == ALL, at(c.oldf('cell_type'), at(c.oldf(SC), w(q, m) / 2)) == t)
    return rl(c.p, v, n), (lambda q: rl(c.p, W, k(q))), w, okw


def ngw_setup(c):
    N, n, w, ok = ngw(c)
    c.p.assume(PW(0, 0) == 0)


def ngw_state(c, r, q, m=None):
    N, n, w, ok = ngw(c)
    here = PW(q, 0) if m is None else PW(q, m)
    g = And(0 <= i_, 0 <= j_, j_ < n(i_), i_ < q) if m is None else And(0 <= i_, 0 <= j_, Or(And(i_ < q, j_ < n(i_)), And(i_ == q, j_ < m)))
    return [('exactly the selected ones', r.len == here), ('each of them in its place', ForAll([i_, j_], Implies(And(g, ok(i_, j_)), And(0 <= PW(i_, j_), PW(i_, j_) < here, at(r, PW(i_, j_)) == w(i_, j_))), patterns=[PW(i_, j_), w(i_, j_)]))]


def ngw_loops(L):
    c = L.ctx
    p = c.p
    r = p.load(c._ref(2))
    N, n, w, ok = ngw(c)
    if L.ordinal == 0:
        q = L.k
        p.assume(Implies(And(0 <= q, q < N), PW(q + 1, 0) == PW(q, n(q))))
        return ngw_state(c, r, q)
    q, m = L.outer(0), L.k
    p.assume(Implies(And(0 <= m, m < n(q)), PW(q, m + 1) == PW(q, m) + If(ok(q, m), IntVal(1), IntVal(0))))
    return ngw_state(c, r, q, m)


nwedges = Contract(ME + '::node_get_wedges', label='Mesh::node_get_wedges', mods=['*2'], setup=ngw_setup, pre=lambda c: corners_ok(c, c.oldf(NCI), c.arg(0)), post=lambda c: ngw_state(c, c.cur(2), ngw(c)[0]), loops=ngw_loops)


def ngc(c):
    v, n, t = c.oldf(NCI), c.arg(0), c.arg(1)
    k = lambda q: re_(c.p, v, n, q)
    return rl(c.p, v, n), k, (lambda q: Or(t == ALL, at(c.oldf('cell_type'), at(c.oldf(SC), w0(c, k(q)) / 2)) == t))


PK = F('corners selected before', Z, Z)


def ngc_state(c, r, q):
    N, k, ok = ngc(c)
    return [('exactly the selected ones', r.len == PK(q)), ('each of them in its place', ForAll([i_], Implies(And(0 <= i_, i_ < q, ok(i_)), And(0 <= PK(i_), PK(i_) < PK(q), at(r, PK(i_)) == k(i_))), patterns=[PK(i_), k(i_)]))]


def ngc_loops(L):
    c = L.ctx
    N, k, ok = ngc(c)
    c.p.assume(Implies(And(0 <= L.k, L.k < N), PK(L.k + 1) == PK(L.k) + If(ok(L.k), IntVal(1), IntVal(0))))
    return ngc_state(c, c.p.load(c._ref(2)), L.k)


def ngc_post(c):
    N, k, ok = ngc(c)
    r = c.cur(2)
    every = [('all corners of the node', And(r.len == N, ForAll([i_], Implies(And(0 <= i_, i_ < N), at(r, i_) == k(i_)), patterns=[at(r, i_)])))]
    return [(a, Implies(c.arg(1) == ALL, b)) for a, b in every] + [(a, Implies(c.arg(1) != ALL, b)) for a, b in ngc_state(c, r, N)]


ncorners = Contract(ME + '::node_get_corners', label='Mesh::node_get_corners', mods=['*2'], setup=lambda c: c.p.assume(PK(0) == 0), pre=lambda c: corners_ok(c, c.oldf(NCI), c.arg(0)), post=ngc_post, loops=ngc_loops)
at_node = [can, nwedges, ncorners]
en = [f for f in framework if f.name.endswith('edge_get_nodes')]
UNITS = lambda: [Unit(M, side_acc + corner_acc + lists_ + en), Unit(M, at_node + en)]


def LEMMAS():
    """from what the caches record (opposites are symmetric, share face and edge, and run the edge the other way) to the wedges"""
    out = []
    s, o, k = z3.Ints('s o k')
    e0, e1 = z3.Ints('e0 e1')
    us, uo = z3.Bools('us uo')
    nd = lambda u, k: If(u == (k == 0), e0, e1)
    w = 2 * s + k
    opp = lambda o_, k_: If(k_ == 1, 2 * o_, 2 * o_ + 1)
    r = opp(o, k)
    out.append(('opposite of the opposite wedge is the wedge', [Or(k == 0, k == 1), s >= 0, o >= 0], opp(s, r % 2) == w))
    out.append(('a wedge and its opposite are at the same node when the two sides use the edge in opposite senses', [Or(k == 0, k == 1), uo == Not(us)], nd(us, k) == nd(uo, 1 - k)))
    out.append(('the two wedges of a side are at different ends of its edge', [e0 != e1], nd(us, IntVal(0)) != nd(us, IntVal(1))))
    return out


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c12.cc', repo=_d.ALLSRC, mpi=True, what='random 1D, 2D and 3D meshes with ghosts and boundary ghosts: the whole subdivision recomputed from faces, edges and nodes and compared, involutions, per-cell and per-node lists')]
EXPLANATION = ('Every query about sides, wedges and corners is proved to return what the subdivision tables record: the wedges of a side are 2s and 2s+1 and share its face, edge and cell, each at one end of the edge; adjacency is an involution within the side; the opposite wedge is the wedge of the opposite side at the '
               'other index, so opposites are involutions at the same node (lemma); lists of a cell and corner lookup by node are exact; lists at a node are exactly the recorded ones of the class asked for.')
TRUSTED = ['edge_get_nodes returns the nodes of the edge (cached from the framework)']
