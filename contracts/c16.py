"""C16: tiles partition the mesh."""
from .bags import *
from .bags import LEMMAS
from . import c15

MT, ME = 'Jali::MeshTile', 'Jali::Mesh'
Z, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
ARR = z3.ArraySort(Z, Z)
KINDS = ('node', 'face', 'edge', 'side', 'wedge', 'corner')
SHARED, FOLLOW = KINDS[:3], KINDS[3:]
OWNED, GHOST, ALL = 1, 2, 4
SUF = {OWNED: 'owned', GHOST: 'ghost', ALL: 'all'}
fld = lambda n, t: '%sids_%s_' % (n, SUF[t])
# the mesh: the entities of a cell in the order the mesh lists them, their number; cells around a cell
KA = {k: F('%ss of the cell' % k, Z, ARR) for k in KINDS}
KL = {k: F('number of %ss of the cell' % k, Z, Z) for k in KINDS}
NUM = {k: Int('number of %ss of the mesh' % k) for k in ('cell',) + KINDS}
ADJ, NADJ = F('cells around the cell', Z, ARR), F('number of cells around the cell', Z, Z)
INL, WC, WJ = F('within layers', Z, Z, B), F('a neighbour in the layers before', Z, Z, Z), F('its position among the cells around it', Z, Z, Z)
BEL = {(k, w): F('%s of an %s cell' % (k, w), Z, B) for k in SHARED for w in ('own', 'gho')}
WQ = {(k, w): F('which %s cell has the %s' % (w, k), Z, Z) for k in SHARED for w in ('own', 'gho')}
WP = {(k, w): F('where the %s is in that %s cell' % (k, w), Z, Z) for k in SHARED for w in ('own', 'gho')}
OFF = {k: F('%ss of the cells before' % k, ARR, Z, Z) for k in FOLLOW}
master = lambda m, k: m.get('%s_master_tile_ID_' % k)


# ---- accessors of a tile
def is_list(n, t):
    return lambda c: [('the list of that class', c.retlv is not None and z3.BoolVal(len(c.retlv.path) == 1 and c.retlv.path[0][1] == fld(n, t)))]


ln = lambda c, n, t: c.oldf(fld(n, t)).len
counts, lists = [], []
for n in ('cell',) + KINDS:
    for t in (OWNED, GHOST):
        counts.append(Contract(MT + '::num_%ss' % n, targs=[str(t)], label='MeshTile::num_%ss<%d>' % (n, t), modular=False, post=(lambda n, t: lambda c: [('length of the list', c.ret == ln(c, n, t))])(n, t)))
    counts.append(Contract(MT + '::num_%ss' % n, targs=['4'], label='MeshTile::num_%ss<4>' % n, modular=False, post=(lambda n: lambda c: [('owned and ghosts', c.ret == ln(c, n, OWNED) + ln(c, n, GHOST))])(n)))
    for t in SUF:
        lists.append(Contract(MT + '::%ss' % n, targs=[str(t)], label='MeshTile::%ss<%d>' % (n, t), modular=False, post=is_list(n, t)))


def nent_post(c):
    k, t = c.arg(0), c.arg(1)
    out = []
    for n, kk in c15.KINDS.items():
        out += [('%ss of class %s' % (n, SUF[tt]), Implies(And(k == kk, t == tt), c.ret == ln(c, n, tt))) for tt in (OWNED, GHOST)]
        out.append(('all %ss' % n, Implies(And(k == kk, t == ALL), c.ret == ln(c, n, OWNED) + ln(c, n, GHOST))))
    return out


counts.append(Contract(MT + '::num_entities', label='MeshTile::num_entities', post=nent_post))
IDF = Contract(MT + '::ID', modular=False, post=lambda c: [('id', c.ret == c.oldf('mytileid_'))])


# ---- master tiles of entities
def mst(n):
    f = '%s_master_tile_ID_' % n
    return Contract(ME + '::master_tile_ID_of_%s' % n, label='Mesh::master_tile_ID_of_%s' % n, modular=False, pre=lambda c: [Or(Not(yes(c.oldf('tiles_initialized_'))), And(0 <= c.arg(0), c.arg(0) < c.oldf(f).len))],
                    post=lambda c: [('recorded master', c.ret == If(yes(c.oldf('tiles_initialized_')), at(c.oldf(f), c.arg(0)), IntVal(-1)))])


def smst(n):
    f = '%s_master_tile_ID_' % n
    return Contract(ME + '::set_master_tile_ID_of_%s' % n, label='Mesh::set_master_tile_ID_of_%s' % n, modular=False, mods=['this.' + f], pre=lambda c: [And(0 <= c.arg(0), c.arg(0) < c.oldf(f).len)],
                    post=lambda c: [('recorded', at(c.f(f), c.arg(0)) == c.arg(1)), ('size', c.f(f).len == c.oldf(f).len), ('others unchanged', ForAll([x_], Implies(x_ != c.arg(0), at(c.f(f), x_) == at(c.oldf(f), x_)), patterns=[at(c.f(f), x_)]))])


masters = [mst(n) for n in ('node', 'edge', 'face', 'cell')] + [smst(n) for n in ('node', 'edge', 'face', 'cell')]
ids = lambda c, k: ForAll([i_], Implies(And(0 <= i_, i_ < KL[k](c.arg(0))), And(0 <= Select(KA[k](c.arg(0)), i_), Select(KA[k](c.arg(0)), i_) < NUM[k])), patterns=[Select(KA[k](c.arg(0)), i_)])


def of_cell(k):
    return Contract(ME + '::cell_get_%ss' % k, trusted=True, label='Mesh::cell_get_%ss' % k, mods=['*1'], post=lambda c: [c.cur(1).arr == KA[k](c.arg(0)), c.cur(1).len == KL[k](c.arg(0)), KL[k](c.arg(0)) >= 0, ids(c, k)])


mesh_side = [of_cell(k) for k in KINDS] + [Contract(ME + '::cell_get_node_adj_cells', trusted=True, label='Mesh::cell_get_node_adj_cells', mods=['*2'], pre=lambda c: [('cells of every class are asked for', c.arg(1) == ALL)],
                                                    post=lambda c: [c.cur(2).arr == ADJ(c.arg(0)), c.cur(2).len == NADJ(c.arg(0)), NADJ(c.arg(0)) >= 0])]


# ---- the constructor
def setup(c):
    p, O = c.p, c.arg(1)
    c_, l_ = z3.Ints('c!q l!q')
    members(p, O.arr, O.len)
    p.assume(ForAll([x_], cnt(O, x_) >= 0, patterns=[cnt(O, x_)]))
    # layers of cells around the owned ones
    p.assume(ForAll([x_], INL(0, x_) == (cnt(O, x_) >= 1), patterns=[INL(0, x_)]))
    p.assume(ForAll([l_, c_, j_], Implies(And(l_ >= 0, INL(l_, c_), 0 <= j_, j_ < NADJ(c_)), INL(l_ + 1, Select(ADJ(c_), j_))), patterns=[z3.MultiPattern(INL(l_, c_), Select(ADJ(c_), j_))]))
    p.assume(ForAll([l_, x_], Implies(And(l_ >= 0, INL(l_, x_)), INL(l_ + 1, x_)), patterns=[INL(l_, x_), INL(l_ + 1, x_)]))
    p.assume(ForAll([l_, x_], Implies(And(l_ >= 0, INL(l_ + 1, x_), Not(INL(l_, x_))), And(INL(l_, WC(l_, x_)), 0 <= WJ(l_, x_), WJ(l_, x_) < NADJ(WC(l_, x_)), Select(ADJ(WC(l_, x_)), WJ(l_, x_)) == x_)), patterns=[INL(l_ + 1, x_)]))


def layer(p, l):
    """the defining property of INL at layer l + 1"""
    p.assume(Implies(l >= 0, ForAll([x_], Implies(And(INL(l + 1, x_), Not(INL(l, x_))), And(INL(l, WC(l, x_)), 0 <= WJ(l, x_), WJ(l, x_) < NADJ(WC(l, x_)), Select(ADJ(WC(l, x_)), WJ(l, x_)) == x_)), patterns=[INL(z3.simplify(l + 1), x_)])))


def belongs(p, k, w, v):
    """definition of BEL[k,w]: listed for one of the cells v"""
    b, q, j = BEL[k, w], WQ[k, w], WP[k, w]
    p.assume(ForAll([i_, j_], Implies(And(0 <= i_, i_ < v.len, 0 <= j_, j_ < KL[k](at(v, i_))), b(Select(KA[k](at(v, i_)), j_))), patterns=[Select(KA[k](at(v, i_)), j_)]))
    p.assume(ForAll([x_], Implies(b(x_), And(0 <= q(x_), q(x_) < v.len, 0 <= j(x_), j(x_) < KL[k](at(v, q(x_))), Select(KA[k](at(v, q(x_))), j(x_)) == x_)), patterns=[b(x_)]))


def offsets(p, k, v):
    o = OFF[k]
    p.assume(o(v.arr, 0) == 0)
    p.assume(ForAll([i_], Implies(i_ >= 0, o(v.arr, i_ + 1) == o(v.arr, i_) + KL[k](at(v, i_))), patterns=[o(v.arr, i_ + 1)]))


tile = lambda c: c.old(0).get('meshtiles').len
REQ = {'node': None, 'face': 3, 'edge': 4, 'side': (5, 6), 'wedge': 6, 'corner': 7}


def req(c, k):
    r = REQ[k]
    if r is None:
        return z3.BoolVal(True)
    return Or(*[yes(c.arg(i)) for i in r]) if isinstance(r, tuple) else yes(c.arg(r))


def ctor_pre(c):
    m, O = c.old(0), c.arg(1)
    T = tile(c)
    out = [('tile numbers fit', T < 2 ** 31 - 1), ('tiles are initialised', yes(m.get('tiles_initialized_'))), ('owned cells are distinct', ForAll([x_], cnt(O, x_) <= 1, patterns=[cnt(O, x_)])),
           ('owned cells are cells of the mesh', ForAll([i_], Implies(And(0 <= i_, i_ < O.len), And(0 <= at(O, i_), at(O, i_) < NUM['cell'])), patterns=[at(O, i_)])),
           ('a master per cell', master(m, 'cell').len == NUM['cell'])]
    for k in SHARED:
        M = master(m, k)
        out += [('a master per %s' % k, Implies(req(c, k), M.len == NUM[k])), ('masters of %ss are earlier tiles' % k, ForAll([x_], And(at(M, x_) >= -1, at(M, x_) < T), patterns=[at(M, x_)]))]
    return out


def cat(g, n):
    o, h, a = g(fld(n, OWNED)), g(fld(n, GHOST)), g(fld(n, ALL))
    return [('%ss: the full list has as many entries as owned and ghost' % n, a.len == o.len + h.len),
            ('%ss: owned come first in the full list' % n, ForAll([i_], Implies(And(0 <= i_, i_ < o.len), at(a, i_) == at(o, i_)), patterns=[at(a, i_)])),
            ('%ss: ghosts follow in the full list' % n, ForAll([i_], Implies(And(o.len <= i_, i_ < o.len + h.len), at(a, i_) == at(h, i_ - o.len)), patterns=[at(a, i_)]))]


def one(b):
    return If(b, IntVal(1), IntVal(0))


def ctor_post(c):
    m0, m, O = c.old(0), c.cur(0), c.arg(1)
    T = tile(c)
    g = c.f
    oc, gc = g(fld('cell', OWNED)), g(fld('cell', GHOST))
    n = If(c.arg(2) > 0, c.arg(2), IntVal(0))
    out = [('tile id', g('mytileid_') == T), ('owned cells as given', And(oc.len == O.len, ForAll([i_], Implies(And(0 <= i_, i_ < O.len), at(oc, i_) == at(O, i_)), patterns=[at(oc, i_)]))),
           ('ghost cells are exactly those within the layers that are not owned, each once', ForAll([x_], cnt(gc, x_) == one(And(INL(n, x_), cnt(O, x_) == 0)), patterns=[cnt(gc, x_)])),
           ('owned and ghost cells are disjoint', ForAll([x_], Or(cnt(oc, x_) == 0, cnt(gc, x_) == 0), patterns=[cnt(gc, x_)])),
           ('this tile is the master of its cells and of no other', ForAll([x_], at(master(m, 'cell'), x_) == If(cnt(O, x_) >= 1, T, at(master(m0, 'cell'), x_)), patterns=[at(master(m, 'cell'), x_)]))] + cat(g, 'cell')
    for k in SHARED:
        M0, M = master(m0, k), master(m, k)
        o, h = g(fld(k, OWNED)), g(fld(k, GHOST))
        belongs(c.p, k, 'own', oc)
        belongs(c.p, k, 'gho', gc)
        r = lambda f: Implies(req(c, k), f)
        out += [('%ss: this tile becomes the master of those of its cells that had none, and of no other' % k, r(ForAll([x_], at(M, x_) == If(And(BEL[k, 'own'](x_), at(M0, x_) == -1), T, at(M0, x_)), patterns=[at(M, x_)]))),
                ('%ss: owned are exactly those whose master this tile is, each once' % k, r(ForAll([x_], cnt(o, x_) == one(at(M, x_) == T), patterns=[cnt(o, x_)]))),
                ('%ss: ghosts are exactly the others of its owned and ghost cells, each once' % k, r(ForAll([x_], cnt(h, x_) == one(And(Or(BEL[k, 'own'](x_), BEL[k, 'gho'](x_)), at(M, x_) != T)), patterns=[cnt(h, x_)])))]
        out += [(a, r(f)) for a, f in cat(g, k)]
    for k in FOLLOW:
        o, h = g(fld(k, OWNED)), g(fld(k, GHOST))
        r = lambda f: Implies(req(c, k), f)
        for what, v, l in (('owned', oc, o), ('ghost', gc, h)):
            offsets(c.p, k, v)
            out += [('%ss: %s: as many as its %s cells have' % (k, what, what), r(l.len == OFF[k](v.arr, v.len))), ('%ss: %s: those of its %s cells in order' % (k, what, what), r(listed(k, v, l, v.len)))]
        out += [(a, r(f)) for a, f in cat(g, k)]
    return out


def listed(k, v, l, n):
    o = OFF[k]
    return ForAll([i_, j_], Implies(And(0 <= i_, i_ < n, 0 <= j_, j_ < KL[k](at(v, i_))), at(l, o(v.arr, i_) + j_) == Select(KA[k](at(v, i_)), j_)), patterns=[Select(KA[k](at(v, i_)), j_)])


def halo(L):
    c, p = L.ctx, L.p
    O = c.arg(1)
    A, H = L.f(fld('cell', ALL)), L.f(fld('cell', GHOST))
    if L.ordinal == 0:
        i = L.local('i')
        members(p, A.arr, A.len)
        position(p, A.arr, A.len, 'cellpos')
        for l in (i, i - 1):
            layer(p, z3.simplify(l))
        return [('layer', And(0 <= i, Or(i <= c.arg(2), i == 0))), ('cells so far: each once', ForAll([x_], And(cnt(A, x_) >= 0, cnt(A, x_) <= 1), patterns=[cnt(A, x_)])), ('cells so far: within the layers', ForAll([x_], Implies(cnt(A, x_) >= 1, INL(i, x_)), patterns=[cnt(A, x_)])),
                ('cells so far: all within the layers', ForAll([x_], Implies(INL(i, x_), cnt(A, x_) >= 1), patterns=[INL(i, x_)])),
                ('ghosts so far', ForAll([x_], cnt(H, x_) == one(And(INL(i, x_), cnt(O, x_) == 0)), patterns=[cnt(H, x_)])),
                ('owned cells are within', ForAll([x_], Implies(cnt(O, x_) >= 1, INL(i, x_)), patterns=[cnt(O, x_)])), ('all have owned and ghosts', A.len == O.len + H.len), ('owned first', ForAll([i_], Implies(And(0 <= i_, i_ < O.len), at(A, i_) == at(O, i_)), patterns=[at(A, i_)])),
                ('then ghosts', ForAll([i_], Implies(And(O.len <= i_, i_ < A.len), at(A, i_) == at(H, i_ - O.len)), patterns=[at(A, i_)]))]
    i, N = L.local('i'), L.local('next_halo_layer')
    k = L.k if L.ordinal == 1 else L.outer(0)
    members(p, A.arr, A.len)
    seen = lambda y: cnt(A, y) + cnt(N, y) >= 1
    out = [('next layer', ForAll([x_], And(cnt(N, x_) >= 0, cnt(N, x_) <= 1, Implies(cnt(N, x_) >= 1, And(cnt(A, x_) == 0, INL(i + 1, x_)))), patterns=[cnt(N, x_)])),
           ('neighbours of the cells so far are in', ForAll([i_, j_], Implies(And(0 <= i_, i_ < k, 0 <= j_, j_ < NADJ(at(A, i_))), seen(Select(ADJ(at(A, i_)), j_))), patterns=[Select(ADJ(at(A, i_)), j_)]))]
    if L.ordinal == 2:
        e = at(A, k)
        out += [('neighbours of this cell so far are in', ForAll([j_], Implies(And(0 <= j_, j_ < L.k), seen(Select(ADJ(e), j_))), patterns=[Select(ADJ(e), j_)]))]
    return out


def shared(L, k, phase, inner):
    """phase 0: entities of owned cells; 1: of ghost cells"""
    c, p = L.ctx, L.p
    T = tile(c)
    M0, M = master(c.old(0), k), master(c.cur(0), k)
    o, h = L.f(fld(k, OWNED)), L.f(fld(k, GHOST))
    oc, gc = L.f(fld('cell', OWNED)), L.f(fld('cell', GHOST))
    belongs(p, k, 'own', oc)
    belongs(p, k, 'gho', gc)
    v = gc if phase else oc
    n = L.outer(0) if inner else L.k
    bo, bg = BEL[k, 'own'], BEL[k, 'gho']
    p.assume(ForAll([x_], cnt(h, x_) >= 0, patterns=[cnt(h, x_)]))
    done = lambda y: And(at(M, y) != -1, Or(at(M, y) == T, cnt(h, y) >= 1)) if not phase else Or(at(M, y) == T, cnt(h, y) >= 1)
    out = [('masters: size', M.len == M0.len)]
    if phase == 0:
        out += [('masters: unchanged or now this tile', ForAll([x_], Or(at(M, x_) == at(M0, x_), And(at(M0, x_) == -1, at(M, x_) == T, bo(x_))), patterns=[at(M, x_)]))]
    else:
        out += [('entities of owned cells stay in', ForAll([x_], Implies(And(bo(x_), at(M, x_) != T), cnt(h, x_) >= 1), patterns=[bo(x_)]))]
    out += [('owned: those whose master this tile is', ForAll([x_], cnt(o, x_) == one(at(M, x_) == T), patterns=[cnt(o, x_)])) if phase == 0 else True,
            ('ghosts: each once, of the cells, with another master', ForAll([x_], And(cnt(h, x_) <= 1, Implies(cnt(h, x_) >= 1, And(at(M, x_) != T, z3.BoolVal(True) if phase else at(M, x_) != -1, Or(bo(x_), And(bool(phase), bg(x_)))))), patterns=[cnt(h, x_)])),
            ('entities of the cells so far are in', ForAll([i_, j_], Implies(And(0 <= i_, i_ < n, 0 <= j_, j_ < KL[k](at(v, i_))), done(Select(KA[k](at(v, i_)), j_))), patterns=[Select(KA[k](at(v, i_)), j_)]))]
    if inner:
        e = at(v, n)
        out += [('entities of this cell so far are in', ForAll([j_], Implies(And(0 <= j_, j_ < L.k), done(Select(KA[k](e), j_))), patterns=[Select(KA[k](e), j_)]))]
    return out


def follow(L, k, phase, inner):
    v = L.f(fld('cell', GHOST if phase else OWNED))
    l = L.f(fld(k, GHOST if phase else OWNED))
    offsets(L.p, k, v)
    n = L.outer(0) if inner else L.k
    o = OFF[k]
    out = [('as many as the cells so far have', l.len == o(v.arr, n) + (L.k if inner else 0)), ('room', ForAll([i_], Implies(And(0 <= i_, i_ < n), And(o(v.arr, i_) >= 0, o(v.arr, i_) + KL[k](at(v, i_)) <= o(v.arr, n))), patterns=[o(v.arr, i_)])), ('offset', o(v.arr, n) >= 0),
           ('those of the cells so far in order', listed(k, v, l, n))]
    if inner:
        e = at(v, n)
        out += [('those of this cell so far', ForAll([j_], Implies(And(0 <= j_, j_ < L.k), at(l, o(v.arr, n) + j_) == Select(KA[k](e), j_)), patterns=[Select(KA[k](e), j_)]))]
    return out


def ctor_loops(L):
    q = L.ordinal
    if q < 3:
        return halo(L)
    if q == 3:
        c, O = L.ctx, L.ctx.arg(1)
        M0, M = master(c.old(0), 'cell'), master(c.cur(0), 'cell')
        unfold(L.p, O.arr, L.k)
        return [('masters: size', M.len == M0.len), ('masters so far', ForAll([x_], at(M, x_) == If(CNT(O.arr, L.k, x_) >= 1, tile(c), at(M0, x_)), patterns=[at(M, x_)]))]
    k = KINDS[(q - 4) // 4]
    return (shared if k in SHARED else follow)(L, k, (q - 4) % 4 // 2, (q - 4) % 2)


def ctor_asserts(L):
    if L.ordinal == 1 and not getattr(L, 'end', False):
        return [('the cell is within the layers so far', INL(L.local('i'), at(L.f(fld('cell', ALL)), L.k)))]
    return []


ctor = Contract(MT + '::MeshTile', nparams=8, label='MeshTile::MeshTile', bags=True, join=True, mods=['*0'], setup=setup, pre=ctor_pre, post=ctor_post, loops=ctor_loops, asserts=ctor_asserts, timeout=600)


# ---- partitioning and setting up the tiles
rl, re_ = c15.rl, c15.re_
UPTO = F('cells of the parts before', Z, Z)       # UPTO(i) = i * (cells per part), by recursion


def part_pre(c):
    p = c.arg(0)
    return [p >= 1, c.old(1).len == p]


def part_post(c):
    """part i holds the cells UPTO(i), UPTO(i)+1, ... below UPTO(i+1) and below the number of cells"""
    n, p, P = c.oldf('cellids_owned_').len, c.arg(0), c.cur(1)
    lo = lambda i: If(UPTO(i) < n, UPTO(i), n)
    return [('as many parts as asked for', P.len == p), ('the first part starts with the first cell', lo(IntVal(0)) == 0), ('the last part ends with the last cell', lo(p) == n),
            ('each part has the cells up to the next part', ForAll([i_], Implies(And(0 <= i_, i_ < p), rl(c.p, P, i_) == lo(i_ + 1) - lo(i_)), patterns=[at(P, i_)])),
            ('its cells are consecutive', ForAll([i_, j_], Implies(And(0 <= i_, i_ < p, 0 <= j_, j_ < rl(c.p, P, i_)), re_(c.p, P, i_, j_) == lo(i_) + j_), patterns=[re_(c.p, P, i_, j_)]))]


def part_loops(L):
    c = L.ctx
    n, p, P = c.oldf('cellids_owned_').len, c.arg(0), c.cur(1)
    m = L.local('maxcells_per_tile')
    i = L.local('i')
    index = L.local('index')
    lo = lambda i: If(UPTO(i) < n, UPTO(i), n)
    L.p.assume(UPTO(0) == 0)
    L.p.assume(ForAll([i_], Implies(i_ >= 0, UPTO(i_ + 1) == UPTO(i_) + m), patterns=[UPTO(i_ + 1)]))
    L.p.assume(UPTO(p) == p * m)                  # lemma 'UPTO is multiplication'
    L.p.assume(Implies(And(p >= 1, p * z3.ToReal(m) >= z3.ToReal(n)), p * m >= n))
    out = [('parts', P.len == p), ('cells per part', And(m >= 1, z3.ToReal(m) * z3.ToReal(p) >= z3.ToReal(n))), ('part', And(0 <= i, i <= p)), ('cells of the parts before', UPTO(i) >= 0),
           ('each part so far has the cells up to the next part', ForAll([i_], Implies(And(0 <= i_, i_ < i), rl(c.p, P, i_) == lo(i_ + 1) - lo(i_)), patterns=[at(P, i_)])),
           ('its cells are consecutive', ForAll([i_, j_], Implies(And(0 <= i_, i_ < i, 0 <= j_, j_ < rl(c.p, P, i_)), re_(c.p, P, i_, j_) == lo(i_) + j_), patterns=[re_(c.p, P, i_, j_)]))]
    if L.ordinal == 0:
        return out + [('next cell', index == lo(i))]
    j = L.local('j')
    return out + [('room', And(i < p, rl(c.p, P, i) == m)), ('cells of this part so far', And(0 <= j, j <= m, index == lo(i) + j, index <= n, at(L.p.load(L.local('ncells_per_tile').lv), i) == j)),
                  ('they are consecutive', ForAll([j_], Implies(And(0 <= j_, j_ < j), re_(c.p, P, i, j_) == lo(i) + j_), patterns=[re_(c.p, P, i, j_)]))]


index_parts = Contract(ME + '::get_partitioning_by_index_space', mods=['*1'], pre=part_pre, post=part_post, loops=part_loops)
no_masters = lambda c, n: c.oldf('%s_master_tile_ID_' % n).len == 0


def init_post(c):
    out = [('tiles are initialised', yes(c.f('tiles_initialized_')))]
    for n in ('node', 'edge', 'face', 'cell'):
        v = c.f('%s_master_tile_ID_' % n)
        cond = {'face': yes(c.oldf('faces_requested')), 'edge': yes(c.oldf('edges_requested'))}.get(n, z3.BoolVal(True))
        out += [('%ss: one entry each' % n, Implies(cond, v.len == c15.total(c, n))), ('%ss: no master yet' % n, ForAll([i_], Implies(And(0 <= i_, i_ < v.len), at(v, i_) == -1), patterns=[at(v, i_)]))]
    return out


init = Contract(ME + '::init_tiles', mods=['this.tiles_initialized_'] + ['this.%s_master_tile_ID_' % n for n in ('node', 'edge', 'face', 'cell')], pre=lambda c: [no_masters(c, n) for n in ('node', 'edge', 'face', 'cell')], post=init_post)
addt = Contract(ME + '::add_tile', modular=False, mods=['this.meshtiles'], post=lambda c: [('one tile more', And(c.f('meshtiles').len == c.oldf('meshtiles').len + 1, at(c.f('meshtiles'), c.oldf('meshtiles').len) == c.arg(0))),
                                                                          ('earlier tiles keep their place', ForAll([i_], Implies(And(0 <= i_, i_ < c.oldf('meshtiles').len), at(c.f('meshtiles'), i_) == at(c.oldf('meshtiles'), i_)), patterns=[at(c.f('meshtiles'), i_)]))])


def of_sub(n, cell):
    return Contract(ME + '::master_tile_ID_of_%s' % n, label='Mesh::master_tile_ID_of_%s' % n, modular=False, pre=lambda c: cell(c)[0],
                    post=lambda c: [('master of its cell', c.ret == If(yes(c.oldf('tiles_initialized_')), at(c.oldf('cell_master_tile_ID_'), cell(c)[1]), IntVal(-1)))])


def of_side(c, s):
    q = at(c.oldf('side_cell_id'), s)
    return [0 <= s, s < c.oldf('side_cell_id').len, 0 <= q, q < c.oldf('cell_master_tile_ID_').len], q


def of_corner(c):
    k = c.arg(0)
    w = re_(c.p, c.oldf('corner_wedge_ids'), k, 0)
    a, q = of_side(c, w / 2)
    return [0 <= k, k < c.oldf('corner_wedge_ids').len, rl(c.p, c.oldf('corner_wedge_ids'), k) >= 1, w >= 0] + a, q


subs = [of_sub('side', lambda c: of_side(c, c.arg(0))), of_sub('wedge', lambda c: ([c.arg(0) >= 0] + of_side(c, c.arg(0) / 2)[0], of_side(c, c.arg(0) / 2)[1])), of_sub('corner', of_corner)]
S, M = 'src/mesh/MeshTile.cc', 'src/mesh/Mesh.cc'
UNITS = lambda: [Unit(S, counts + lists + [IDF]), Unit(S, [ctor] + mesh_side), Unit(M, masters + subs + [init, addt, index_parts])]


def LEMMAS():
    m, p, n, i, T, U = z3.Ints('m p n i T U')
    r = z3.Real('r')
    M0, M1, M2 = z3.Ints('M0 M1 M2')
    b1, b2 = z3.Bools('b1 b2')
    step = lambda M0, M1, b, T: M1 == If(And(b, M0 == -1), T, M0)
    from .bags import LEMMAS as bl
    return bl() + [('UPTO is multiplication (step)', [UPTO(i) == i * m, UPTO(i + 1) == UPTO(i) + m], UPTO(i + 1) == (i + 1) * m),
                   ('a later tile takes no entity from an earlier one', [step(M0, M1, b1, T), step(M1, M2, b2, U), T >= 0, U > T, M1 == T], M2 == T),
                   ('an entity has one owning tile: the first of whose cells it is', [step(M0, M1, b1, T), M0 >= -1, T > M0, T >= 0], And((M1 == T) == And(b1, M0 == -1), Implies(M1 == -1, Not(b1))))]


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c16.cc', repo=_d.ALLSRC, mpi=True, what='random 2D/3D meshes with ghosts, bricks and lines, 1 to 12 tiles, index, block and METIS partitions, 0 to 2 halo layers, all combinations of requested kinds: every tile list, count and master against an independent search of the mesh')]
EXPLANATION = ('The constructor of MeshTile is proved for all meshes, cell lists, halo depths and requested kinds: ghost cells are exactly the cells within the layers (least relation closed under the mesh\'s node adjacency) that are not owned; this tile becomes the master of its cells and of those nodes, faces and edges of its cells that had none; '
               'owned are exactly those with this master, ghosts exactly the others of its owned and ghost cells, each once; sides, wedges and corners follow their cells in order; full lists are owned then ghost. With the lemmas over successive tiles each entity keeps its one owner. Also proved: all accessors and counts of a tile, '
               'the master tables of the mesh, init_tiles, add_tile, and the index partition (consecutive parts that cover all cells exactly).')
TRUSTED = ['Mesh::cell_get_nodes/faces/edges/sides/wedges/corners and cell_get_node_adj_cells are functions of the mesh with ids in range (C01, C02, C12; the side, wedge and corner lists of different cells are disjoint by C12)', 'std::vector, std::find, std::shared_ptr; make_shared in make_meshtile', 'METIS']
ASSUMPTIONS = ['tiles are created one after another (mytileid_ is the number of tiles before); fewer than 2^31 - 1 tiles', 'the owned cells of a mesh are numbered 0..n-1 (C15)']
BOUNDED = ['make_meshtile, build_tiles and get_partitioning (dispatch), the block and METIS partitions of a mesh: driver only (the block table itself is C08)']
