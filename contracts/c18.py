"""C18: materials of the state, the cells of each, and the multi-material vectors."""
from .bags import *
from .bags import LEMMAS
from . import c09, c17
from .c17 import VTYPE, isa, SB, UNI, MULTI
from .c09 import MS, AL, OWN, GH, NENT, ETYPE, OWNED, GHOST, ALL

MV = {d: 'Jali::MultiStateVectorBase<Jali::%s>' % d for d in ('Mesh', 'MeshTile')}
VV = ('vec', ('vec', ('real',)))
CELL = 3
SETS, CM, SV = 'material_cellsets_', 'cell_materials_', 'state_vectors_'
c_, o_ = z3.Ints('c!q o!q')
NC = NENT(IntVal(CELL), IntVal(ALL))


def H(c, rec, f, heap=None):
    return c.p.heapget(rec, f, heap)[0]


def lst(c, f, o, heap=None):
    """a member list of set object o"""
    a, t = c.p.heapget(MS, f, heap)
    return c.p.unpack(Select(a, o), t)


def vals(c, d, o, heap=None):
    a, t = c.p.heapget(MV[d], 'lists', heap)
    return c.p.unpack(Select(a, o), t)


def ln(p, v, m, t=VV):
    return p.T.sort(t[1]).accessor(0, 0)(at(v, m))


def ar(p, v, m, t=VV):
    return p.T.sort(t[1]).accessor(0, 1)(at(v, m))


IV = ('vec', ('vec', ('int', True, 32)))


def ccnt(p, cm, c, x):
    """how often cell c lists material x"""
    return CNT(ar(p, cm, c, IV), ln(p, cm, c, IV), x)


def countpos(p, cm):
    s = p.T.sort(IV[1])
    a, n = Select(cm.arr, c_), None
    p.assume(ForAll([c_, x_], And(CNT(s.accessor(0, 1)(a), s.accessor(0, 0)(a), x_) >= 0), patterns=[CNT(s.accessor(0, 1)(a), s.accessor(0, 0)(a), x_)]))


def wf(c, sets, sv, heap=None, mine=True):
    """sets and vectors exist, are distinct, hold distinct cells"""
    out = [('material sets exist and differ', And(ForAll([m_], Implies(And(0 <= m_, m_ < sets.len), And(at(sets, m_) > 0, ALLOC(at(sets, m_)))), patterns=[at(sets, m_)]),
                                              ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < sets.len), at(sets, i_) != at(sets, j_)), patterns=[z3.MultiPattern(at(sets, i_), at(sets, j_))]))),
           ('registered vectors exist and differ', And(ForAll([j_], Implies(And(0 <= j_, j_ < sv.len), And(at(sv, j_) > 0, ALLOC(at(sv, j_)), Implies(VTYPE(at(sv, j_)) == MULTI, isa(MV['Mesh'], at(sv, j_)) != isa(MV['MeshTile'], at(sv, j_))))), patterns=[at(sv, j_)]),
                                                       ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < sv.len), at(sv, i_) != at(sv, j_)), patterns=[z3.MultiPattern(at(sv, i_), at(sv, j_))])))]
    return out


def member_facts(c, heap=None):
    """counting facts of every member list (lemmas of bags)"""
    p = c.p
    for f in (AL, OWN, GH):
        v = lst(c, f, o_, heap)
        p.assume(ForAll([o_, x_], CNT(v.arr, v.len, x_) >= 0, patterns=[CNT(v.arr, v.len, x_)]))
        p.assume(ForAll([o_], v.len >= 0, patterns=[v.len]))
        p.assume(ForAll([o_, x_], Implies(v.len == 0, CNT(v.arr, v.len, x_) == 0), patterns=[CNT(v.arr, v.len, x_)]))
    v = lst(c, AL, o_, heap)
    p.assume(ForAll([o_, i_], Implies(And(0 <= i_, i_ < v.len), CNT(v.arr, v.len, Select(v.arr, i_)) >= 1), patterns=[Select(v.arr, i_)]))


def scnt(c, sets, m, x, heap=None):
    v = lst(c, AL, at(sets, m), heap)
    return CNT(v.arr, v.len, x)


def consistent(c, sets, cm, heap=None):
    """cells and materials agree"""
    n = sets.len
    return [('one material list per cell', Or(cm.len == NC, And(cm.len == 0, n == 0))),
            ('a set holds cells of the mesh, each once', ForAll([m_, x_], Implies(And(0 <= m_, m_ < n), And(scnt(c, sets, m_, x_, heap) <= 1, scnt(c, sets, m_, x_, heap) >= 0, Implies(scnt(c, sets, m_, x_, heap) >= 1, And(0 <= x_, x_ < NC)))), patterns=[scnt(c, sets, m_, x_, heap)])),
            ('a cell lists exactly the materials whose set contains it, each once', ForAll([c_, m_], Implies(And(0 <= c_, c_ < cm.len), ccnt(c.p, cm, c_, m_) == If(And(0 <= m_, m_ < n), scnt(c, sets, m_, c_, heap), IntVal(0))), patterns=[ccnt(c.p, cm, c_, m_)]))]


def mine(o, d):
    return And(VTYPE(o) == MULTI, isa(MV[d], o))


def sized(c, sets, sv, heap=None):
    out = []
    for d in MV:
        v = lambda j: vals(c, d, at(sv, j), heap)
        out += [('vectors on a %s: one list per material' % d, ForAll([j_], Implies(And(0 <= j_, j_ < sv.len, mine(at(sv, j_), d)), v(j_).len == sets.len), patterns=[at(sv, j_)])),
                ('vectors on a %s: one value per cell of each material' % d, ForAll([j_, m_], Implies(And(0 <= j_, j_ < sv.len, mine(at(sv, j_), d), 0 <= m_, m_ < sets.len), ln(c.p, v(j_), m_) == lst(c, AL, at(sets, m_), heap).len), patterns=[z3.MultiPattern(at(sv, j_), at(sets, m_))]))]
    return out


def inv_pre(c):
    sets, cm, sv = c.oldf(SETS), c.oldf(CM), c.oldf(SV)
    member_facts(c)
    countpos(c.p, cm)
    return [('a mesh', NC >= 0)] + wf(c, sets, sv) + consistent(c, sets, cm) + sized(c, sets, sv)


def changed(c, sv, upto, rel, h0, heap=None):
    """vectors before `upto` are related by rel(new, old), the others are as before"""
    out = []
    for d in MV:
        new, old = (lambda o: vals(c, d, o)), (lambda o: vals(c, d, o, h0))
        for lab, f in rel(d):
            out.append(('%s (on a %s)' % (lab, d), ForAll([j_], Implies(And(0 <= j_, j_ < upto, mine(at(sv, j_), d)), f(new(at(sv, j_)), old(at(sv, j_)))), patterns=[at(sv, j_)])))
    return out


def rest(c, sv, frm, h0):
    out = []
    for d in MV:
        a, b = H(c, MV[d], 'lists'), H(c, MV[d], 'lists', h0)
        out.append(('vectors not visited unchanged (%s)' % d, ForAll([j_], Implies(And(frm <= j_, j_ < sv.len), Select(a, at(sv, j_)) == Select(b, at(sv, j_))), patterns=[at(sv, j_)])))
    return out


LEN = ('vec', ('int', True, 32))
# ---- operations of a set, as proved in C09 and restated on the full list
MODS = ['this.' + f for f in (OWN, GH, AL, c09.RM)]


def mcnt(c, f, x, old=False):
    v = c.oldf(f) if old else c.f(f)
    return CNT(v.arr, v.len, x)


def add_pre(c):
    v = c.arg(0)
    return [('cells of the mesh, each once, not members yet', ForAll([x_], And(CNT(v.arr, v.len, x_) <= 1, Implies(CNT(v.arr, v.len, x_) >= 1, And(0 <= x_, x_ < NC, Or(ETYPE(CELL, x_) == OWNED, ETYPE(CELL, x_) == GHOST), mcnt(c, AL, x_, True) == 0))), patterns=[CNT(v.arr, v.len, x_)]))]


def add_post(c):
    v, n0 = c.arg(0), c.oldf(OWN).len
    d = c.f(OWN).len - n0
    a, b = c.f(AL), c.oldf(AL)
    return [ForAll([x_], mcnt(c, AL, x_) == mcnt(c, AL, x_, True) + CNT(v.arr, v.len, x_), patterns=[mcnt(c, AL, x_)]), a.len == b.len + v.len, And(0 <= d, d <= v.len), 0 <= n0, n0 <= b.len, c.f(OWN).len <= a.len,
            ForAll([i_], Implies(And(0 <= i_, i_ < n0), at(a, i_) == at(b, i_)), patterns=[at(a, i_)]), ForAll([i_], Implies(And(n0 <= i_, i_ < b.len), at(a, i_ + d) == at(b, i_)), patterns=[at(b, i_)])]


def rem_post(c):
    v = c.arg(0)
    # the last fact: a list without members is empty (lemma 'bags: an element is counted')
    return [c.f(AL).len >= 0, Or(c.f(AL).len == 0, mcnt(c, AL, at(c.f(AL), 0)) >= 1), ForAll([x_], mcnt(c, AL, x_) == If(CNT(v.arr, v.len, x_) >= 1, IntVal(0), mcnt(c, AL, x_, True)), patterns=[mcnt(c, AL, x_)])]


def idx_post(c):
    a = c.oldf(AL)
    return [If(mcnt(c, AL, c.arg(0), True) >= 1, And(0 <= c.ret, c.ret < a.len, at(a, c.ret) == c.arg(0)), c.ret == -1)]


def T(name, **k):
    return Contract(MS + '::' + name, trusted=True, **k)


setops = [T('add_entities', mods=MODS, pre=add_pre, post=add_post), T('rem_entities', mods=MODS, post=rem_post), T('index_in_set', pre=lambda c: [0 <= c.arg(0), c.arg(0) < NC], post=idx_post),
          Contract(MS + '::num_entities', sig=r'\((const )?(Jali::)?Entity_type( const)?\)', trusted=True, label='MeshSet::num_entities', ret=lambda c: If(c.arg(0) == OWNED, c.oldf(OWN).len, If(c.arg(0) == GHOST, c.oldf(GH).len, If(c.arg(0) == ALL, c.oldf(AL).len, IntVal(0))))),
          Contract(MS + '::name', modular=False, verify=False), Contract(MS + '::entities', modular=False, verify=False)]


def find_post(c):
    o = c.ret
    v = lst(c, AL, o)
    # a set of the mesh of that name, or none
    return [Or(o == 0, And(o > 0, ALLOC(o), Select(H(c, MS, 'name_'), o) == c.arg(0), ForAll([x_], And(CNT(v.arr, v.len, x_) <= 1, Implies(CNT(v.arr, v.len, x_) >= 1, And(0 <= x_, x_ < NC))), patterns=[CNT(v.arr, v.len, x_)])))]


def make_post(c):
    o = c.ret
    return [o > 0, Not(ALLOC(o)), Select(H(c, MS, 'name_'), o) == c.arg(0), lst(c, AL, o).len == 0, lst(c, OWN, o).len == 0] + [ForAll([x_], CNT(lst(c, AL, o).arr, 0, x_) == 0)]


mesh = [Contract('Jali::Mesh::find_meshset', trusted=True, post=find_post),
        Contract('Jali::make_meshset', trusted=True, pre=lambda c: [c.arg(2) == CELL, c.arg(3).len == 0, c.arg(4).len == 0], allocates=[], post=make_post),
        Contract('Jali::Mesh::num_entities', trusted=True, ret=lambda c: NENT(c.arg(0), c.arg(1)))]


# ---- operations of multi-material vectors, as proved in C19
def mvops(d):
    L = lambda c: c.f('lists')
    O = lambda c: c.oldf('lists')
    C = MV[d]
    oth = lambda c: ForAll([m_], Implies(And(0 <= m_, m_ < O(c).len, m_ != c.arg(0)), at(L(c), m_) == at(O(c), m_)), patterns=[at(L(c), m_)])
    inr = lambda c: [('a material of the vector', And(0 <= c.arg(0), c.arg(0) < O(c).len))]
    K = dict(trusted=True, mods=['this.lists'])
    return [Contract(C + '::add_material', label=C + '::add_material', post=lambda c: [L(c).len == O(c).len + 1, ln(c.p, L(c), O(c).len) == c.arg(0), ForAll([m_], Implies(And(0 <= m_, m_ < O(c).len), at(L(c), m_) == at(O(c), m_)), patterns=[at(L(c), m_)])], **K),
            Contract(C + '::rem_material', label=C + '::rem_material', pre=inr, post=lambda c: [L(c).len == O(c).len - 1, ForAll([m_], Implies(And(0 <= m_, m_ < L(c).len), at(L(c), m_) == at(O(c), If(m_ < c.arg(0), m_, m_ + 1))), patterns=[at(L(c), m_)])], **K),
            Contract(C + '::insert', label=C + '::insert', pre=lambda c: inr(c) + [('position in the list', And(0 <= c.arg(1), c.arg(1) <= ln(c.p, O(c), c.arg(0)), c.arg(2) >= 0))],
                     post=lambda c: [L(c).len == O(c).len, ln(c.p, L(c), c.arg(0)) == ln(c.p, O(c), c.arg(0)) + c.arg(2), oth(c),
                                     ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(1)), Select(ar(c.p, L(c), c.arg(0)), i_) == Select(ar(c.p, O(c), c.arg(0)), i_)), patterns=[Select(ar(c.p, L(c), c.arg(0)), i_)]),
                                     ForAll([i_], Implies(And(c.arg(1) <= i_, i_ < ln(c.p, O(c), c.arg(0))), Select(ar(c.p, L(c), c.arg(0)), i_ + c.arg(2)) == Select(ar(c.p, O(c), c.arg(0)), i_)), patterns=[Select(ar(c.p, O(c), c.arg(0)), i_)])], **K),
            Contract(C + '::resize', nparams=2, label=C + '::resize', pre=lambda c: inr(c) + [c.arg(1) >= 0], post=lambda c: [L(c).len == O(c).len, ln(c.p, L(c), c.arg(0)) == c.arg(1), oth(c),
                     ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(1), i_ < ln(c.p, O(c), c.arg(0))), Select(ar(c.p, L(c), c.arg(0)), i_) == Select(ar(c.p, O(c), c.arg(0)), i_)), patterns=[Select(ar(c.p, L(c), c.arg(0)), i_)])], **K),
            Contract(C + '::size', nparams=1, trusted=True, label=C + '::size', pre=inr, ret=lambda c: ln(c.p, O(c), c.arg(0)))]


vtype = Contract(SB + '::type', trusted=True, label='StateVectorBase::type (virtual)', ret=lambda c: VTYPE(c.this.root.oid))


# ---- State::add_material
def used(c):
    s = c.oldf(SETS)
    nm = H(c, MS, 'name_', c.heap0)
    return And(0 <= m_, m_ < s.len, Select(nm, at(s, m_)) == c.arg(0))


def unused(c):
    return ForAll([m_], Not(used(c)), patterns=[at(c.oldf(SETS), m_)])


def cells_pre(c, v):
    c.p.assume(ForAll([x_], CNT(v.arr, v.len, x_) >= 0, patterns=[CNT(v.arr, v.len, x_)]))
    members(c.p, v.arr, v.len)
    return [('cells of the mesh, each once', ForAll([x_], And(CNT(v.arr, v.len, x_) <= 1, Implies(CNT(v.arr, v.len, x_) >= 1, And(0 <= x_, x_ < NC, Or(ETYPE(CELL, x_) == OWNED, ETYPE(CELL, x_) == GHOST)))), patterns=[CNT(v.arr, v.len, x_)]))]


def prefix(a, b, n):
    return ForAll([i_], Implies(And(0 <= i_, i_ < n), at(a, i_) == at(b, i_)), patterns=[at(a, i_)])


def samesets(c, s, n):
    out = []
    for f in (AL, OWN, GH):
        a, b = H(c, MS, f), H(c, MS, f, c.heap0)
        out.append(ForAll([m_], Implies(And(0 <= m_, m_ < n), Select(a, at(s, m_)) == Select(b, at(s, m_))), patterns=[at(s, m_)]))
    return And(*out)


def addmat_post(c):
    v = c.arg(0 + 1)
    s, s0, cm, cm0, sv = c.f(SETS), c.oldf(SETS), c.f(CM), c.oldf(CM), c.f(SV)
    n = s0.len
    U = unused(c)
    member_facts(c)
    nofx = And(s.len == n, prefix(s, s0, n), cm.len == cm0.len, prefix(cm, cm0, cm0.len), *[H(c, r, f) == H(c, r, f, c.heap0) for r, f in ((MS, AL), (MV['Mesh'], 'lists'), (MV['MeshTile'], 'lists'))])
    imp = lambda lf: (lf[0], Implies(U, lf[1]))
    new = [('one material more', And(s.len == n + 1, prefix(s, s0, n), at(s, n) > 0)), ('its name', Select(H(c, MS, 'name_'), at(s, n)) == c.arg(0)), ('differs from other sets', ForAll([m_], Implies(And(0 <= m_, m_ < n), at(s, m_) != at(s, n)), patterns=[at(s, m_)])),
           ('other material sets unchanged', samesets(c, s0, n)), ('exactly the given cells', ForAll([x_], scnt(c, s, n, x_) == CNT(v.arr, v.len, x_), patterns=[scnt(c, s, n, x_)]))]
    new += consistent(c, s, cm)
    # one value per cell of each material: the earlier ones (whose sets are s0's) and the new one
    new += [('as many cells in the set as given', lst(c, AL, at(s, n)).len == v.len)]
    for d in MV:
        w = lambda j: vals(c, d, at(sv, j))
        new += [('vectors on a %s: one list per material' % d, ForAll([j_], Implies(And(0 <= j_, j_ < sv.len, mine(at(sv, j_), d)), w(j_).len == n + 1), patterns=[at(sv, j_)])),
                ('vectors on a %s: one value per cell of the new material' % d, ForAll([j_], Implies(And(0 <= j_, j_ < sv.len, mine(at(sv, j_), d)), ln(c.p, w(j_), n) == v.len), patterns=[at(sv, j_)])),
                ('vectors on a %s: one value per cell of each earlier material' % d, ForAll([j_, m_], Implies(And(0 <= j_, j_ < sv.len, mine(at(sv, j_), d), 0 <= m_, m_ < n), ln(c.p, w(j_), m_) == lst(c, AL, at(s0, m_)).len), patterns=[z3.MultiPattern(at(sv, j_), at(s0, m_))]))]
    new += changed(c, sv, sv.len, lambda d: [('values of other materials kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < n), at(a, m_) == at(b, m_)), patterns=[at(a, m_)]))], c.heap0)
    return [('a name in use changes nothing', ForAll([m_], Implies(used(c), nofx), patterns=[at(s0, m_)]))] + [imp(x) for x in new]


def addmat_loops(L):
    p, c = L.p, L.ctx
    o = L.ordinal
    v = c.arg(1)
    s0 = c.oldf(SETS)
    nm = H(c, MS, 'name_', c.heap0)
    if o == 0:
        return [('not used so far', ForAll([m_], Implies(And(0 <= m_, m_ < L.k), Select(nm, at(s0, m_)) != c.arg(0)), patterns=[at(s0, m_)]))]
    if o == 1:
        cm, cm0 = L.f(CM), L.entryf(CM)
        countpos(p, cm)
        countpos(p, cm0)
        n = L.local('matid')
        return [('lists', cm.len == cm0.len),
                ('cells visited list the material', ForAll([c_, x_], Implies(And(0 <= c_, c_ < cm.len), ccnt(p, cm, c_, x_) == ccnt(p, cm0, c_, x_) + If(x_ == n, CNT(v.arr, L.k, c_), IntVal(0))), patterns=[ccnt(p, cm, c_, x_)]))]
    sv = c.oldf(SV)
    h0 = c.heap0
    n = s0.len
    return changed(c, sv, L.k, lambda d: [('one list more', lambda a, b: And(a.len == b.len + 1, ln(p, a, b.len) == v.len)), ('others kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < b.len), at(a, m_) == at(b, m_)), patterns=[at(a, m_)]))], h0) + rest(c, sv, L.k, h0)


# ---- State::rem_material
def remmat_post(c):
    m = c.arg(0)
    s, s0, cm, cm0, sv = c.f(SETS), c.oldf(SETS), c.f(CM), c.oldf(CM), c.f(SV)
    n = s0.len
    member_facts(c)
    up = lambda i: If(i < m, i, i + 1)
    nofx = And(s.len == n, prefix(s, s0, n), cm.len == cm0.len, prefix(cm, cm0, cm0.len), *[H(c, r, f) == H(c, r, f, c.heap0) for r, f in ((MS, AL), (MV['Mesh'], 'lists'), (MV['MeshTile'], 'lists'))])
    new = [('one material less', s.len == n - 1), ('later materials move up', ForAll([m_], Implies(And(0 <= m_, m_ < s.len), at(s, m_) == at(s0, up(m_))), patterns=[at(s, m_)])), ('sets unchanged', H(c, MS, AL) == H(c, MS, AL, c.heap0))]
    new += consistent(c, s, cm) + sized(c, s, sv)
    new += changed(c, sv, sv.len, lambda d: [('values of other materials kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < n - 1), at(a, m_) == at(b, up(m_))), patterns=[at(a, m_)]))], c.heap0)
    return [('no such material: nothing changes', Implies(m >= n, nofx))] + [(l, Implies(m < n, f)) for l, f in new]


def remmat_loops(L):
    p, c = L.p, L.ctx
    m = c.arg(0)
    shift = lambda cur, old, x: cur == If(x < m, old(x), old(x + 1))
    if L.ordinal == 0:
        cm, cm0 = L.f(CM), c.oldf(CM)
        countpos(p, cm)
        return [('lists', cm.len == cm0.len),
                ('renumbered so far', ForAll([c_, x_], Implies(And(0 <= c_, c_ < L.k), ccnt(p, cm, c_, x_) == If(x_ < m, ccnt(p, cm0, c_, x_), ccnt(p, cm0, c_, x_ + 1))), patterns=[ccnt(p, cm, c_, x_)])),
                ('others as before', ForAll([c_], Implies(And(L.k <= c_, c_ < cm.len), at(cm, c_) == at(cm0, c_)), patterns=[at(cm, c_)]))]
    if L.ordinal == 1:
        w, u = L.local('newmats'), L.rng
        p.assume(ForAll([x_], And(CNT(w.arr, w.len, x_) >= 0, CNT(w.arr, 0, x_) == 0), patterns=[CNT(w.arr, w.len, x_)]))
        p.assume(ForAll([x_], CNT(u.arr, 0, x_) == 0, patterns=[CNT(u.arr, 0, x_)]))
        return [('renumbered', ForAll([x_], CNT(w.arr, w.len, x_) == If(x_ < m, CNT(u.arr, L.k, x_), CNT(u.arr, L.k, x_ + 1)), patterns=[CNT(w.arr, w.len, x_)]))]
    sv = c.oldf(SV)
    return changed(c, sv, L.k, lambda d: [('one list less', lambda a, b: a.len == b.len - 1), ('others kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < a.len), at(a, m_) == at(b, If(m_ < m, m_, m_ + 1))), patterns=[at(a, m_)]))], c.heap0) + rest(c, sv, L.k, c.heap0)


# ---- State::add_cells_to_material
def addcells_post(c):
    m, v = c.arg(0), c.arg(1)
    s, s0, cm, cm0, sv = c.f(SETS), c.oldf(SETS), c.f(CM), c.oldf(CM), c.f(SV)
    n = s0.len
    member_facts(c)
    A, A0 = lst(c, AL, at(s0, m)), lst(c, AL, at(s0, m), c.heap0)
    O, O0 = lst(c, OWN, at(s0, m)).len, lst(c, OWN, at(s0, m), c.heap0).len
    d_ = O - O0
    was = lambda x: CNT(A0.arr, A0.len, x)
    out = [('same materials', And(s.len == n, prefix(s, s0, n))),
           ('the set gains exactly the given cells', ForAll([x_], scnt(c, s0, m, x_) == If(CNT(v.arr, v.len, x_) >= 1, IntVal(1), was(x_)), patterns=[scnt(c, s0, m, x_)])),
           ('other sets unchanged', ForAll([m_], Implies(And(0 <= m_, m_ < n, m_ != m), Select(H(c, MS, AL), at(s0, m_)) == Select(H(c, MS, AL, c.heap0), at(s0, m_))), patterns=[at(s0, m_)])),
           ('cells already there stay in order', And(d_ >= 0, ForAll([i_], Implies(And(0 <= i_, i_ < A0.len), at(A, If(i_ < O0, i_, i_ + d_)) == at(A0, i_)), patterns=[at(A0, i_)])))]
    out += consistent(c, s, cm) + sized(c, s, sv)
    out += changed(c, sv, sv.len, lambda d: [('values of other materials kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < n, m_ != m), at(a, m_) == at(b, m_)), patterns=[at(a, m_)])),
                                             ('values stay with their cells', lambda a, b: ForAll([i_], Implies(And(0 <= i_, i_ < A0.len), Select(ar(c.p, a, m), If(i_ < O0, i_, i_ + d_)) == Select(ar(c.p, b, m), i_)), patterns=[Select(ar(c.p, b, m), i_)]))], c.heap0)
    return out


def addcells_loops(L):
    p, c = L.p, L.ctx
    m, v = c.arg(0), c.arg(1)
    s0 = c.oldf(SETS)
    A0 = lst(c, AL, at(s0, m), c.heap0)
    if L.ordinal == 0:
        w = L.local('newcells')
        p.assume(ForAll([x_], And(CNT(w.arr, w.len, x_) >= 0, CNT(w.arr, 0, x_) == 0), patterns=[CNT(w.arr, w.len, x_)]))
        return [('those not in the material so far', ForAll([x_], CNT(w.arr, w.len, x_) == If(CNT(A0.arr, A0.len, x_) >= 1, IntVal(0), CNT(v.arr, L.k, x_)), patterns=[CNT(w.arr, w.len, x_)]))]
    w = L.local('newcells')
    if L.ordinal == 1:
        members(p, w.arr, w.len)
        cm, cm0 = L.f(CM), L.entryf(CM)
        countpos(p, cm)
        countpos(p, cm0)
        return [('lists', cm.len == cm0.len),
                ('cells visited list the material', ForAll([c_, x_], Implies(And(0 <= c_, c_ < cm.len), ccnt(p, cm, c_, x_) == ccnt(p, cm0, c_, x_) + If(x_ == m, CNT(w.arr, L.k, c_), IntVal(0))), patterns=[ccnt(p, cm, c_, x_)]))]
    sv = c.oldf(SV)
    no, nn = L.local('nowned'), L.local('nnew')
    return changed(c, sv, L.k, lambda d: [('as many lists', lambda a, b: And(a.len == b.len, ln(p, a, m) == ln(p, b, m) + w.len)), ('others kept', lambda a, b: ForAll([m_], Implies(And(0 <= m_, m_ < b.len, m_ != m), at(a, m_) == at(b, m_)), patterns=[at(a, m_)])),
                                          ('values moved', lambda a, b: ForAll([i_], Implies(And(0 <= i_, i_ < A0.len), Select(ar(p, a, m), If(i_ < no, i_, i_ + nn)) == Select(ar(p, b, m), i_)), patterns=[Select(ar(p, b, m), i_)]))], c.heap0) + rest(c, sv, L.k, c.heap0)


# ---- queries
def first_named(c, name, hit, none):
    s = c.oldf(SETS)
    nm = H(c, MS, 'name_', c.heap0)
    named = lambda m: Select(nm, at(s, m)) == name
    return [('the first material of that name', ForAll([m_], Implies(And(0 <= m_, m_ < s.len, named(m_), ForAll([j_], Implies(And(0 <= j_, j_ < m_), Not(named(j_))), patterns=[at(s, j_)])), hit(m_)), patterns=[at(s, m_)])),
            ('nothing otherwise', Implies(ForAll([m_], Implies(And(0 <= m_, m_ < s.len), Not(named(m_))), patterns=[at(s, m_)]), none))]


def named_loops(L):
    c = L.ctx
    s = c.oldf(SETS)
    nm = H(c, MS, 'name_', c.heap0)
    m = L.local('m')
    return [And(0 <= m, m <= s.len), ForAll([j_], Implies(And(0 <= j_, j_ < m), Select(nm, at(s, j_)) != c.arg(0)), patterns=[at(s, j_)])]


ST = 'Jali::State'
sset = lambda c, m: at(c.oldf(SETS), m)
alln = lambda c, m: lst(c, AL, sset(c, m), c.heap0).len
mpre = lambda c: wf(c, c.oldf(SETS), c.oldf(SV)) + [('a material index', c.arg(0) >= 0)]
qpre = lambda c: wf(c, c.oldf(SETS), c.oldf(SV))
isl = lambda c, o: z3.BoolVal(False) if c.retlv is None else And(c.retlv.root.oid == o, z3.BoolVal(c.retlv.path[-1][1] == AL))
queries = [
    Contract(ST + '::num_materials', modular=False, pre=qpre, post=lambda c: [('number of materials', c.ret == c.oldf(SETS).len)]),
    Contract(ST + '::material_name', modular=False, pre=mpre, post=lambda c: [('name of the material', c.ret == If(c.arg(0) < c.oldf(SETS).len, Select(H(c, MS, 'name_', c.heap0), sset(c, c.arg(0))), z3.StringVal('UNDEFINED_MATERIAL')))]),
    Contract(ST + '::material_index_by_name', pre=qpre, loops=named_loops, post=lambda c: first_named(c, c.arg(0), lambda m: c.ret == m, c.ret == -1)),
    Contract(ST + '::material_set_by_name', pre=qpre, loops=named_loops, post=lambda c: first_named(c, c.arg(0), lambda m: c.ret == sset(c, m), c.ret == 0)),
    Contract(ST + '::material_set', modular=False, pre=lambda c: mpre(c) + [c.arg(0) < c.oldf(SETS).len], post=lambda c: [('set of the material', c.ret == sset(c, c.arg(0)))]),
    Contract(ST + '::num_material_cells', modular=False, pre=mpre, post=lambda c: [('size of its set', c.ret == If(c.arg(0) < c.oldf(SETS).len, alln(c, c.arg(0)), IntVal(0)))]),
    Contract(ST + '::material_cells', modular=False, pre=lambda c: mpre(c) + [c.oldf('dummy_cellset_') > 0], post=lambda c: [('the full list of its set', isl(c, If(c.arg(0) < c.oldf(SETS).len, sset(c, c.arg(0)), c.oldf('dummy_cellset_'))))]),
    Contract(ST + '::num_cell_materials', modular=False, pre=lambda c: qpre(c) + [0 <= c.arg(0), c.arg(0) < NC, Or(c.oldf(SETS).len == 0, c.oldf(CM).len == NC)], post=lambda c: [('as many as the cell lists', c.ret == If(c.oldf(SETS).len == 0, IntVal(0), ln(c.p, c.oldf(CM), c.arg(0), IV)))]),
    Contract(ST + '::cell_index_in_material', modular=False, pre=lambda c: (member_facts(c), qpre(c) + [0 <= c.arg(0), c.arg(0) < NC, 0 <= c.arg(1), c.arg(1) < c.oldf(SETS).len])[1],
             post=lambda c: [('position in the set of the material, -1 outside', (lambda a: If(CNT(a.arr, a.len, c.arg(0)) >= 1, And(0 <= c.ret, c.ret < a.len, at(a, c.ret) == c.arg(0)), c.ret == -1))(lst(c, AL, sset(c, c.arg(1)), c.heap0)))]),
]
SMODS = ['this.' + CM] + ['heap:%s.%s' % (MS, f) for f in (AL, OWN, GH, c09.RM)] + ['heap:%s.lists' % MV[d] for d in MV]
B = dict(bags=True)
ops = [Contract(ST + '::add_material', mods=SMODS + ['this.' + SETS], pre=lambda c: inv_pre(c) + cells_pre(c, c.arg(1)), post=addmat_post, loops=addmat_loops, timeout=150, **B),
       Contract(ST + '::rem_material', mods=['this.' + CM, 'this.' + SETS] + ['heap:%s.lists' % MV[d] for d in MV], pre=lambda c: inv_pre(c) + [('a material index', c.arg(0) >= 0)], post=remmat_post, loops=remmat_loops, timeout=150, **B),
       Contract(ST + '::add_cells_to_material', mods=SMODS, pre=lambda c: inv_pre(c) + [0 <= c.arg(0), c.arg(0) < c.oldf(SETS).len] + cells_pre(c, c.arg(1)), post=addcells_post, loops=addcells_loops, timeout=150, **B)]
UNITS = lambda: [Unit('src/statemanager/JaliState.cc', queries + ops + setops + mesh + mvops('Mesh') + mvops('MeshTile') + [vtype], ghost={(MV[d], 'lists'): VV for d in MV})]
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c18.cc', repo=_d.ALLSRC, mpi=True, what='random histories of adding and removing materials, adding cells and vectors on meshes with ghosts and tiles, against a set model')]
EXPLANATION = ('State::add_material, rem_material and add_cells_to_material are proved to preserve the invariant that a cell lists material m exactly once if the set of m contains it and not otherwise, that indices are 0..n-1, and that every multi-material vector has one list per material with one value per cell of its set; '
               'the postconditions add that other sets and the values of other materials are untouched, that cells already in a material keep their order and their values move with them, and what each query returns. A name already in use changes nothing.')
TRUSTED = ['MeshSet::add_entities, rem_entities, index_in_set by contracts on the full list that restate what C09 proves', 'MultiStateVector::add_material, rem_material, insert, resize, size by the contracts proved in C19 (through the virtual base)',
           'Mesh::find_meshset returns a set of that name or none; make_meshset returns a new empty set (constructor proved in C09)', 'std::vector, std::shared_ptr, dynamic_pointer_cast; the dynamic type of a vector is fixed', 'counting lemmas proved by induction step']
ASSUMPTIONS = ['cells handed to the state are distinct cells of the mesh, owned or ghost', 'two registered vectors or two material sets are different objects (registration appends new objects, C17; set names are unique)', 'material sets are changed only through the state', 'indices are not negative']
BOUNDED = ['cell_materials() and the empty-state queries: driver', 'several vectors, removals and re-additions in one history: driver in addition to the proof']
