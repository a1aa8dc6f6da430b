"""C09: mesh sets under additions and removals."""
from .bags import *
from .bags import LEMMAS

MS = 'Jali::MeshSet'
ME = 'Jali::Mesh'
ETYPE = z3.Function('entity_type', z3.IntSort(), z3.IntSort(), z3.IntSort())     # of an entity (kind, id) of the mesh
NENT = z3.Function('num_entities', z3.IntSort(), z3.IntSort(), z3.IntSort())     # of a kind and type in the mesh
OWNED, GHOST, ALL = 1, 2, 4
OWN, GH, AL, RM = 'entityids_owned_', 'entityids_ghost_', 'entityids_all_', 'mesh2subset_'


def lists(p, g):
    """facts about the three lists of one state: g(field)"""
    for f in (OWN, GH, AL):
        v = g(f)
        members(p, v.arr, v.len)
        p.assume(ForAll([x_], CNT(v.arr, v.len, x_) >= 0, patterns=[CNT(v.arr, v.len, x_)]))


def cat(g):
    o, h, a = g(OWN), g(GH), g(AL)
    return [('full list has as many entries as owned and ghost', a.len == o.len + h.len),
            ('owned entities come first in the full list', ForAll([i_], Implies(And(0 <= i_, i_ < o.len), at(a, i_) == at(o, i_)), patterns=[at(a, i_)])),
            ('ghosts follow in the full list', ForAll([i_], Implies(And(o.len <= i_, i_ < o.len + h.len), at(a, i_) == at(h, i_ - o.len)), patterns=[at(a, i_)]))]


def union(g):
    return ('full list is the union of owned and ghost', ForAll([x_], cnt(g(AL), x_) == cnt(g(OWN), x_) + cnt(g(GH), x_), patterns=[cnt(g(AL), x_)]))


def typed(g, k):
    """members are entities of the mesh, each once, in the list of their ownership class"""
    o, h = g(OWN), g(GH)
    inr = lambda x: And(0 <= x, x < NENT(k, ALL))
    return [('owned list holds owned entities, each once', ForAll([x_], And(cnt(o, x_) <= 1, Implies(cnt(o, x_) >= 1, And(ETYPE(k, x_) == OWNED, inr(x_)))), patterns=[cnt(o, x_)])),
            ('ghost list holds ghost entities, each once', ForAll([x_], And(cnt(h, x_) <= 1, Implies(cnt(h, x_) >= 1, And(ETYPE(k, x_) == GHOST, inr(x_)))), patterns=[cnt(h, x_)]))]


def revmap(g, k, on):
    a, r = g(AL), g(RM)
    return [('reverse map has an entry per mesh entity', Implies(on, r.len == NENT(k, ALL))),
            ('index of a member is its position in the full list', Implies(on, ForAll([i_], Implies(And(0 <= i_, i_ < a.len), Select(r.arr, at(a, i_)) == i_), patterns=[at(a, i_)]))),
            ('index of an entity not in the set is -1', Implies(on, ForAll([x_], Implies(And(0 <= x_, x_ < r.len, cnt(a, x_) == 0), at(r, x_) == -1), patterns=[at(r, x_)]))),
            ('no reverse map: no entries', Implies(Not(on), r.len == 0))]


def inv(g, k, on):
    return cat(g) + [union(g)] + typed(g, k) + revmap(g, k, on)


def dup(p, v):
    """distinct elements are at distinct positions (lemma 'bags: two equal elements are counted twice')"""
    p.assume(Implies(ForAll([x_], cnt(v, x_) <= 1), ForAll([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < v.len), at(v, i_) != at(v, j_)), patterns=[z3.MultiPattern(at(v, i_), at(v, j_))] if patok(at(v, i_)) else None)))


def pre(c):
    lists(c.p, c.oldf)
    dup(c.p, c.oldf(AL))
    return [NENT(c.oldf('kind_'), ALL) >= 0] + inv(c.oldf, c.oldf('kind_'), yes(c.oldf('have_reverse_map_')))


def post_inv(c):
    lists(c.p, c.f)
    return inv(c.f, c.oldf('kind_'), yes(c.oldf('have_reverse_map_')))


def rev_loops(get, kf, lenvar='nall', start=lambda L: IntVal(0), arr0=None):
    """for (i = start; i < n; ++i) mesh2subset_[all[i]] = i"""
    def loops(L):
        p = L.p
        a, r = L.f(AL), L.f(RM)
        i = L.local('i')
        for f in (OWN, GH, AL):
            v = L.f(f)
            members(p, v.arr, v.len)
        dup(p, a)
        unfold(p, a.arr, i)
        members(p, a.arr, i)
        monotone(p, a.arr, i + 1, a.len)
        s = start(L)
        monotone(p, a.arr, s, a.len)
        monotone(p, a.arr, s, i)
        r0 = L.entryf(RM)
        return [('index', And(s <= i, Or(i <= a.len, i == s))), ('size', r.len == r0.len),
                ('members are distinct', ForAll([x_], cnt(a, x_) <= 1, patterns=[cnt(a, x_)])),
                ('entries written so far', ForAll([j_], Implies(And(s <= j_, j_ < i), Select(r.arr, at(a, j_)) == j_), patterns=[at(a, j_)])),
                ('entries of earlier members as before', ForAll([j_], Implies(And(0 <= j_, j_ < s), Select(r.arr, at(a, j_)) == Select(r0.arr, at(a, j_))), patterns=[at(a, j_)])),
                ('other entries as before', ForAll([x_], Implies(CNT(a.arr, i, x_) == CNT(a.arr, s, x_), at(r, x_) == at(r0, x_)), patterns=[at(r, x_)]))]
    return loops


def ctor_pre(c):
    k, o, h = c.arg(2), c.arg(3), c.arg(4)
    for v in (o, h):
        members(c.p, v.arr, v.len)
        c.p.assume(ForAll([x_], cnt(v, x_) >= 0, patterns=[cnt(v, x_)]))
    return [NENT(k, ALL) >= 0] + typed(lambda f: o if f == OWN else h, k)


def ctor_post(c):
    lists(c.p, c.f)
    same = lambda a, b: And(a.len == b.len, ForAll([i_], Implies(And(0 <= i_, i_ < b.len), at(a, i_) == at(b, i_)), patterns=[at(b, i_)]))
    return inv(c.f, c.arg(2), c.arg(5)) + [('name', c.f('name_') == c.arg(0)), ('kind', c.f('kind_') == c.arg(2)), ('reverse map as asked', yes(c.f('have_reverse_map_')) == c.arg(5)),
                                           ('owned list as given', same(c.f(OWN), c.arg(3))), ('ghost list as given', same(c.f(GH), c.arg(4))),
                                           ('owned members as given', ForAll([x_], cnt(c.f(OWN), x_) == cnt(c.arg(3), x_), patterns=[cnt(c.f(OWN), x_)])), ('ghost members as given', ForAll([x_], cnt(c.f(GH), x_) == cnt(c.arg(4), x_), patterns=[cnt(c.f(GH), x_)]))]


def add_pre(c):
    k = c.oldf('kind_')
    return pre(c) + [And(0 <= c.arg(0), c.arg(0) < NENT(k, ALL)), ('not a member yet', cnt(c.oldf(AL), c.arg(0)) == 0)]


def kept(c, f, cur=None):
    v = c.f(f) if cur is None else cur
    return And(v.len >= c.oldf(f).len, ForAll([i_], Implies(And(0 <= i_, i_ < c.oldf(f).len), at(v, i_) == at(c.oldf(f), i_)), patterns=[at(v, i_)]))


def one(b):
    return If(b, IntVal(1), IntVal(0))


def add_post(c):
    k, e = c.oldf('kind_'), c.arg(0)
    return post_inv(c) + [('earlier owned entries keep their place', kept(c, OWN)), ('earlier ghost entries keep their place', kept(c, GH)),
                          ('one entry more', c.f(OWN).len + c.f(GH).len == c.oldf(OWN).len + c.oldf(GH).len + one(Or(ETYPE(k, e) == OWNED, ETYPE(k, e) == GHOST))),
                          ('owned: exactly the entity was added if it is owned', ForAll([x_], cnt(c.f(OWN), x_) == cnt(c.oldf(OWN), x_) + one(And(x_ == e, ETYPE(k, e) == OWNED)), patterns=[cnt(c.f(OWN), x_)])),
                          ('ghost: exactly the entity was added if it is a ghost', ForAll([x_], cnt(c.f(GH), x_) == cnt(c.oldf(GH), x_) + one(And(x_ == e, ETYPE(k, e) == GHOST)), patterns=[cnt(c.f(GH), x_)]))]


def rem_pre(c):
    k = c.oldf('kind_')
    return pre(c) + [And(0 <= c.arg(0), c.arg(0) < NENT(k, ALL))]


def rem_post(c):
    k, e = c.oldf('kind_'), c.arg(0)
    wasin = lambda f: cnt(c.oldf(f), e) >= 1
    return post_inv(c) + [('%s: exactly the entity was removed' % n, ForAll([x_], cnt(c.f(f), x_) == If(x_ == e, IntVal(0), cnt(c.oldf(f), x_)), patterns=[cnt(c.f(f), x_)])) for n, f in (('owned', OWN), ('ghost', GH))]


def adds_pre(c):
    k, v = c.oldf('kind_'), c.arg(0)
    members(c.p, v.arr, v.len)
    return pre(c) + [('entities of the mesh, each once, not members yet', ForAll([x_], And(cnt(v, x_) <= 1, cnt(v, x_) >= 0, Implies(cnt(v, x_) >= 1, And(0 <= x_, x_ < NENT(k, ALL), cnt(c.oldf(AL), x_) == 0))), patterns=[cnt(v, x_)]))]


def adds_post(c):
    k, v = c.oldf('kind_'), c.arg(0)
    return post_inv(c) + [('earlier owned entries keep their place', kept(c, OWN)), ('earlier ghost entries keep their place', kept(c, GH)), ('as many entries more as given', Implies(known(k, v), c.f(AL).len == c.oldf(AL).len + v.len)),
                          ('owned: exactly the owned ones were added', ForAll([x_], cnt(c.f(OWN), x_) == cnt(c.oldf(OWN), x_) + If(ETYPE(k, x_) == OWNED, cnt(v, x_), IntVal(0)), patterns=[cnt(c.f(OWN), x_)])),
                          ('ghost: exactly the ghosts were added', ForAll([x_], cnt(c.f(GH), x_) == cnt(c.oldf(GH), x_) + If(ETYPE(k, x_) == GHOST, cnt(v, x_), IntVal(0)), patterns=[cnt(c.f(GH), x_)]))]


def known(k, v):
    """every listed entity is owned or a ghost"""
    return ForAll([x_], Implies(CNT(v.arr, v.len, x_) >= 1, Or(ETYPE(k, x_) == OWNED, ETYPE(k, x_) == GHOST)), patterns=[CNT(v.arr, v.len, x_)])


def adds_loops(L):
    p, c = L.p, L.ctx
    k = c.oldf('kind_')
    v = c.arg(0)
    if L.ordinal == 0:
        # counting owned and ghost entities among the first k
        no, ng = L.local('nowned'), L.local('nghost')
        j = L.k
        return [('counts', And(0 <= no, 0 <= ng, no + ng <= j)),
                ('all owned so far', Implies(no == j, And(ng == 0, ForAll([x_], Implies(CNT(v.arr, j, x_) >= 1, ETYPE(k, x_) == OWNED), patterns=[CNT(v.arr, j, x_)])))),
                ('all ghosts so far', Implies(ng == j, And(no == 0, ForAll([x_], Implies(CNT(v.arr, j, x_) >= 1, ETYPE(k, x_) == GHOST), patterns=[CNT(v.arr, j, x_)]))))]
    if L.ordinal == 1:
        j = L.k
        g = L.f
        lists(p, g)
        return inv(g, k, yes(c.oldf('have_reverse_map_'))) + [('kind unchanged', And(g('kind_') == k, g('have_reverse_map_') == c.oldf('have_reverse_map_'))), ('owned added so far', ForAll([x_], cnt(g(OWN), x_) == cnt(c.oldf(OWN), x_) + If(ETYPE(k, x_) == OWNED, CNT(v.arr, j, x_), IntVal(0)), patterns=[cnt(g(OWN), x_)])),
                ('ghosts added so far', ForAll([x_], cnt(g(GH), x_) == cnt(c.oldf(GH), x_) + If(ETYPE(k, x_) == GHOST, CNT(v.arr, j, x_), IntVal(0)), patterns=[cnt(g(GH), x_)])),
                ('nothing lost', kept(c, OWN, g(OWN))), ('no ghost lost', kept(c, GH, g(GH))), ('entries so far', Implies(known(k, v), g(OWN).len + g(GH).len == c.oldf(OWN).len + c.oldf(GH).len + j))]
    return rev_loops(None, None, start=lambda L: L.local('nowned_old'))(L)


def rems_pre(c):
    k, v = c.oldf('kind_'), c.arg(0)
    members(c.p, v.arr, v.len)
    return pre(c) + [('entities of the mesh', ForAll([x_], And(cnt(v, x_) >= 0, Implies(cnt(v, x_) >= 1, And(0 <= x_, x_ < NENT(k, ALL)))), patterns=[cnt(v, x_)]))]


def rems_post(c):
    v = c.arg(0)
    return post_inv(c) + [('%s: exactly the listed entities were removed' % n, ForAll([x_], cnt(c.f(f), x_) == If(cnt(v, x_) >= 1, IntVal(0), cnt(c.oldf(f), x_)), patterns=[cnt(c.f(f), x_)])) for n, f in (('owned', OWN), ('ghost', GH))]


def rems_loops(L):
    p, c = L.p, L.ctx
    k, v = c.oldf('kind_'), c.arg(0)
    if L.ordinal in (0, 1):
        f = OWN if L.ordinal == 0 else GH
        a, a0 = L.f(f), c.oldf(f)
        nd, j = L.local('ndel'), L.k
        m = a0.len - nd
        unfold(p, a.arr, m)
        unfold(p, a.arr, m - 1)
        return [('deleted so far', And(0 <= nd, nd <= a0.len, a.len == a0.len)),
                ('the remaining ones are those not listed so far', ForAll([x_], CNT(a.arr, m, x_) == If(CNT(v.arr, j, x_) >= 1, IntVal(0), cnt(a0, x_)), patterns=[CNT(a.arr, m, x_)]))]
    if L.ordinal == 2:
        r, r0 = L.f(RM), L.entryf(RM)
        j = L.k
        return [('size', r.len == r0.len), ('cleared or as before', ForAll([x_], Implies(And(0 <= x_, x_ < r.len), at(r, x_) == If(CNT(v.arr, j, x_) >= 1, IntVal(-1), at(r0, x_))), patterns=[at(r, x_)]))]
    return rev_loops(None, None)(L)


MODS = ['this.' + f for f in (OWN, GH, AL, RM)]
etype = Contract(ME + '::entity_get_type', trusted=True, label='Mesh::entity_get_type', pre=lambda c: [And(0 <= c.arg(1), c.arg(1) < NENT(c.arg(0), ALL))], ret=lambda c: ETYPE(c.arg(0), c.arg(1)))
nent = Contract(ME + '::num_entities', trusted=True, label='Mesh::num_entities', ret=lambda c: NENT(c.arg(0), c.arg(1)))
addset = Contract(ME + '::add_set', trusted=True, label='Mesh::add_set', post=lambda c: [])
B = dict(bags=True)
meshset = [
    Contract(MS + '::MeshSet', nparams=6, label='MeshSet::MeshSet', pre=ctor_pre, post=ctor_post, loops=rev_loops(None, None), **B),
    Contract(MS + '::MeshSet', nparams=1, label='MeshSet::MeshSet(copy)',
             post=lambda c: [('copy keeps %s' % f, g) for f in ('name_', 'kind_', OWN, GH, AL, RM, 'have_reverse_map_') for _, g in c.p.eq_parts(c.f(f), c.arg(0).get(f), f)]),
    Contract(MS + '::add_entity', mods=MODS, pre=add_pre, post=add_post, loops=rev_loops(None, None, start=lambda L: L.local('nowned_old')), timeout=220, **B),
    Contract(MS + '::rem_entity', mods=MODS, pre=rem_pre, post=rem_post, loops=rev_loops(None, None), timeout=330, **B),
    Contract(MS + '::add_entities', mods=MODS, pre=adds_pre, post=adds_post, loops=adds_loops, timeout=220, **B),
    Contract(MS + '::rem_entities', mods=MODS, pre=rems_pre, post=rems_post, loops=rems_loops, timeout=220, **B),
    Contract(MS + '::index_in_set', modular=False, pre=lambda c: pre(c) + [And(0 <= c.arg(0), c.arg(0) < NENT(c.oldf('kind_'), ALL))],
             post=lambda c: [('position in the full list with a reverse map', Implies(yes(c.oldf('have_reverse_map_')), If(cnt(c.oldf(AL), c.arg(0)) >= 1, And(0 <= c.ret, c.ret < c.oldf(AL).len, at(c.oldf(AL), c.ret) == c.arg(0)), c.ret == -1)))],
             setup=lambda c: (position(c.p, c.oldf(AL).arr, c.oldf(AL).len), None)[1], **B),
    Contract(MS + '::num_entities', sig=r'\((const )?(Jali::)?Entity_type( const)?\)', label='MeshSet::num_entities', modular=False,
             post=lambda c: [('count per ownership class', c.ret == If(c.arg(0) == OWNED, c.oldf(OWN).len, If(c.arg(0) == GHOST, c.oldf(GH).len, If(c.arg(0) == ALL, c.oldf(AL).len, IntVal(0)))))]),
    Contract(MS + '::num_entities', nparams=2, label='MeshSet::num_entities(kind,type)', modular=False, pre=lambda c: [c.arg(0) == c.oldf('kind_')],
             post=lambda c: [('count per ownership class', c.ret == If(c.arg(1) == OWNED, c.oldf(OWN).len, If(c.arg(1) == GHOST, c.oldf(GH).len, If(c.arg(1) == ALL, c.oldf(AL).len, IntVal(0)))))]),
    Contract(MS + '::name', modular=False, post=lambda c: [('name', c.ret == c.oldf('name_'))]),
    Contract(MS + '::kind', modular=False, post=lambda c: [('kind', c.ret == c.oldf('kind_'))]),
]
UNITS = lambda: [Unit('src/mesh/MeshSet.cc', meshset + [etype, nent, addset])]
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c09.cc', repo=_d.ALLSRC, mpi=True, what='random histories of additions and removals of single entities and lists, with and without reverse map and ghosts, against a set model')]
EXPLANATION = ('Each operation of MeshSet is a transition on the member lists and the reverse map; the class invariant (full list = owned then ghost, each member once and in the list of its ownership class, '
               'reverse map = position) is proved to hold after construction and to be preserved by every operation, so it holds after every history. Entity types and counts of the mesh are an opaque function.')
TRUSTED = ['Mesh::entity_get_type and Mesh::num_entities are functions of the mesh that the set operations do not change']
