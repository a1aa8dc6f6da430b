"""C10: union, difference, intersection and complement of mesh sets."""
from .bags import *
from . import bags, c09
from .c09 import MS, ME, NENT, OWNED, GHOST, ALL, OWN, GH, AL, RM, etype, nent, addset, meshset

LISTS = (('owned', OWN), ('ghost', GH))
_fn = {}


def heap(c, f, entry=True):
    return c.p.heapget(MS, f, c.heap0 if entry else None)[0]


def lst(c, h, f, o):
    """list f of set o in heap component h"""
    return c.p.unpack(Select(h, o), c.p.heapget(MS, f)[1])


def ghostfn(tag, c, f):
    h = heap(c, f)
    k = tag + f
    if k not in _fn:
        _fn[k] = z3.Function(k, z3.ArraySort(z3.IntSort(), z3.IntSort()), h.sort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    return lambda v, n, x: _fn[k](v.arr, h, n, x)


def has(c, f, o, x):
    v = lst(c, heap(c, f), f, o)
    return CNT(v.arr, v.len, x) >= 1


def any_of(c, f):
    """x is a member of one of the first n sets"""
    return ghostfn('in_some_', c, f)


def all_of(c, f):
    return ghostfn('in_every_', c, f)


def unfold_any(p, c, f, v, n):
    g = any_of(c, f)
    p.assume(ForAll([x_], And(Not(g(v, IntVal(0), x_)), g(v, n + 1, x_) == Or(g(v, n, x_), has(c, f, at(v, n), x_))), patterns=[g(v, n + 1, x_)]))
    p.assume(ForAll([x_], Not(g(v, IntVal(0), x_)), patterns=[g(v, IntVal(0), x_)]))
    # once a member, always a member (lemma)
    p.assume(Implies(And(0 <= n, n + 1 <= v.len), ForAll([x_], Implies(g(v, n + 1, x_), g(v, v.len, x_)), patterns=[g(v, v.len, x_)])))


def unfold_all(p, c, f, v, n):
    g = all_of(c, f)
    p.assume(ForAll([x_], g(v, n + 1, x_) == And(g(v, n, x_), has(c, f, at(v, n), x_)), patterns=[g(v, n + 1, x_)]))
    p.assume(ForAll([x_], g(v, IntVal(0), x_), patterns=[g(v, IntVal(0), x_)]))
    p.assume(Implies(And(0 <= n, n + 1 <= v.len), ForAll([x_], Implies(g(v, v.len, x_), g(v, n + 1, x_)), patterns=[g(v, v.len, x_)])))


def set_ok(c, o, k):
    """class invariant of an operand (C09)"""
    out = []
    for ty, f in ((OWNED, OWN), (GHOST, GH)):
        v = lst(c, heap(c, f), f, o)
        out.append(ForAll([x_], And(CNT(v.arr, v.len, x_) <= 1, CNT(v.arr, v.len, x_) >= 0, Implies(CNT(v.arr, v.len, x_) >= 1, And(c09.ETYPE(k, x_) == ty, 0 <= x_, x_ < NENT(k, ALL)))), patterns=[CNT(v.arr, v.len, x_)]))
    return And(*out)


def kind(c, o):
    return Select(heap(c, 'kind_'), o)


def meshof(c, o):
    return Select(heap(c, 'mesh_'), o)


def mesh_ok(k):
    return And(NENT(k, OWNED) >= 0, NENT(k, GHOST) >= 0, NENT(k, ALL) == NENT(k, OWNED) + NENT(k, GHOST),
               ForAll([x_], And(Implies(And(0 <= x_, x_ < NENT(k, OWNED)), c09.ETYPE(k, x_) == OWNED), Implies(And(NENT(k, OWNED) <= x_, x_ < NENT(k, ALL)), c09.ETYPE(k, x_) == GHOST)), patterns=[c09.ETYPE(k, x_)]))


def sets_ok(c, v, s0):
    k = kind(c, s0)
    return [('operands are sets of one kind on one mesh', ForAll([i_], Implies(And(0 <= i_, i_ < v.len), And(at(v, i_) != 0, kind(c, at(v, i_)) == k, meshof(c, at(v, i_)) == meshof(c, s0), set_ok(c, at(v, i_), k))), patterns=[at(v, i_)])),
            mesh_ok(k)]


def counted(p, v):
    p.assume(ForAll([x_], CNT(v.arr, v.len, x_) >= 0, patterns=[CNT(v.arr, v.len, x_)]))
    p.assume(ForAll([x_], CNT(v.arr, 0, x_) == 0, patterns=[CNT(v.arr, 0, x_)]))


def result(c, f):
    h = heap(c, f, entry=False)
    return lst(c, h, f, c.ret)


def is_set(c, f, member):
    r = result(c, f)
    return ForAll([x_], CNT(r.arr, r.len, x_) == If(member(x_), IntVal(1), IntVal(0)), patterns=[CNT(r.arr, r.len, x_)])


def fresh_set(c, s0):
    return [('a set', c.ret != 0), ('same kind', Select(heap(c, 'kind_', False), c.ret) == kind(c, s0))]


# ---------------------------------------------------------------- merge
def merge_pre(c):
    v = c.arg(0)
    for _, f in LISTS:
        unfold_any(c.p, c, f, v, IntVal(0))
    return [v.len >= 1] + sets_ok(c, v, at(v, IntVal(0)))


def merge_post(c):
    v = c.arg(0)
    s0 = at(v, IntVal(0))
    return fresh_set(c, s0) + [('%s: exactly the entities in at least one operand, each once' % n, is_set(c, f, lambda x, f=f: any_of(c, f)(v, v.len, x))) for n, f in LISTS]


def merge_loops(L):
    p, c = L.p, L.ctx
    v = c.arg(0)
    o = L.ordinal
    if o in (2, 5):
        f, nm = (OWN, 'owned_list') if o == 2 else (GH, 'ghost_list')
        k = L.k
        unfold_any(p, c, f, v, k)
        w = L.local(nm)
        counted(p, w)
        s0 = at(v, IntVal(0))
        kk, ty = kind(c, s0), (OWNED if o == 2 else GHOST)
        # instance of the precondition for the operand being visited
        p.assume(Implies(And(0 <= k, k < v.len), set_ok(c, at(v, k), kk)))
        return [('entities of the right class', ForAll([x_], Implies(CNT(w.arr, w.len, x_) >= 1, And(c09.ETYPE(kk, x_) == ty, 0 <= x_, x_ < NENT(kk, ALL))), patterns=[CNT(w.arr, w.len, x_)])),
                ('members of the first operand and of those visited', ForAll([x_], CNT(w.arr, w.len, x_) == one(Or(has(c, f, s0, x_), any_of(c, f)(v, k, x_))), patterns=[CNT(w.arr, w.len, x_)]))]
    if o in (3, 6):
        nm = 'owned_list' if o == 3 else 'ghost_list'
        w, w0, u = L.local(nm), L.entry_local(nm), L.rng
        counted(p, w)
        counted(p, w0)
        counted(p, u)
        kk, ty = kind(c, at(v, IntVal(0))), (OWNED if o == 3 else GHOST)
        return [('entities of the right class', ForAll([x_], Implies(CNT(w.arr, w.len, x_) >= 1, And(c09.ETYPE(kk, x_) == ty, 0 <= x_, x_ < NENT(kk, ALL))), patterns=[CNT(w.arr, w.len, x_)])),
                ('members so far', ForAll([x_], CNT(w.arr, w.len, x_) == one(Or(CNT(w0.arr, w0.len, x_) >= 1, CNT(u.arr, L.k, x_) >= 1)), patterns=[CNT(w.arr, w.len, x_)]))]
    return []


def one(b):
    return If(b, IntVal(1), IntVal(0))


# ---------------------------------------------------------------- subtract
def sub_pre(c):
    v, s0 = c.arg(1), c.arg(0)
    return [s0 != 0, v.len >= 1, set_ok(c, s0, kind(c, s0))] + sets_ok(c, v, s0)


def sub_post(c):
    v, s0 = c.arg(1), c.arg(0)
    return fresh_set(c, s0) + [('%s: exactly the entities of the first and of none of the others, each once' % n, is_set(c, f, lambda x, f=f: And(has(c, f, s0, x), Not(any_of(c, f)(v, v.len, x))))) for n, f in LISTS]


def sub_loops(L):
    p, c = L.p, L.ctx
    v, s0 = c.arg(1), c.arg(0)
    if L.ordinal in (1, 2):
        f, nm = (OWN, 'owned_list') if L.ordinal == 1 else (GH, 'ghost_list')
        w, u = L.local(nm), L.rng
        counted(p, w)
        counted(p, u)
        return [('remaining so far', ForAll([x_], CNT(w.arr, w.len, x_) == one(And(CNT(u.arr, L.k, x_) >= 1, Not(any_of(c, f)(v, v.len, x_)))), patterns=[CNT(w.arr, w.len, x_)]))]
    return []


# ---------------------------------------------------------------- intersect
def int_post(c):
    v = c.arg(0)
    s0 = at(v, IntVal(0))
    return fresh_set(c, s0) + [('%s: exactly the entities in every operand, each once' % n, is_set(c, f, lambda x, f=f: all_of(c, f)(v, v.len, x))) for n, f in LISTS]


def int_pre(c):
    v = c.arg(0)
    for _, f in LISTS:
        unfold_all(c.p, c, f, v, IntVal(0))
    return [v.len >= 1] + sets_ok(c, v, at(v, IntVal(0)))


def int_loops(L):
    p, c = L.p, L.ctx
    v = c.arg(0)
    if L.ordinal in (1, 3):
        f, nm = (OWN, 'owned_list') if L.ordinal == 1 else (GH, 'ghost_list')
        w, u = L.local(nm), L.rng
        counted(p, w)
        counted(p, u)
        return [('common so far', ForAll([x_], CNT(w.arr, w.len, x_) == one(And(CNT(u.arr, L.k, x_) >= 1, all_of(c, f)(v, v.len, x_))), patterns=[CNT(w.arr, w.len, x_)]))]
    if L.ordinal in (2, 4):
        f = OWN if L.ordinal == 2 else GH
        unfold_all(p, c, f, v, L.k)
        e, b = L.local('ent'), L.local('present_in_all')
        return [('present in all visited', And(yes(b), all_of(c, f)(v, L.k, e)))]
    return []


# ---------------------------------------------------------------- complement
def com_post(c):
    v = c.arg(0)
    s0 = at(v, IntVal(0))
    k = kind(c, s0)
    rng = {OWN: lambda x: And(0 <= x, x < NENT(k, OWNED)), GH: lambda x: And(NENT(k, OWNED) <= x, x < NENT(k, ALL))}
    return fresh_set(c, s0) + [('%s: exactly the entities of that class in none of the operands, each once' % n, is_set(c, f, lambda x, f=f: And(rng[f](x), Not(any_of(c, f)(v, v.len, x))))) for n, f in LISTS]


def com_loops(L):
    p, c = L.p, L.ctx
    v = c.arg(0)
    k = kind(c, at(v, IntVal(0)))
    if L.ordinal in (0, 1):
        f, nm, lo = (OWN, 'owned_list', IntVal(0)) if L.ordinal == 0 else (GH, 'ghost_list', NENT(k, OWNED))
        hi = NENT(k, OWNED) if L.ordinal == 0 else NENT(k, ALL)
        w, e = L.local(nm), L.local('ent')
        counted(p, w)
        return [('index', And(lo <= e, e <= hi)), ('complement so far', ForAll([x_], CNT(w.arr, w.len, x_) == one(And(lo <= x_, x_ < e, Not(any_of(c, f)(v, v.len, x_)))), patterns=[CNT(w.arr, w.len, x_)]))]
    return []


import copy as _copy


def used(label, **kw):
    k = _copy.copy([m for m in meshset if m.label == label][0])
    k.verify = False
    for a, b in kw.items():
        setattr(k, a, b)
    return k


NEW = []


def mm_post(c):
    k = c.arg(2)
    out = [('a set', c.ret != 0), ('kind', Select(heap(c, 'kind_', False), c.ret) == k), ('name', Select(heap(c, 'name_', False), c.ret) == c.arg(0))]
    for n, f, j in (('owned', OWN, 3), ('ghost', GH, 4)):
        r, a = result(c, f), c.arg(j)
        out.append(('%s list as given' % n, And(r.len == a.len, ForAll([i_], Implies(And(0 <= i_, i_ < a.len), at(r, i_) == at(a, i_)), patterns=[at(r, i_)]),
                                                ForAll([x_], CNT(r.arr, r.len, x_) == CNT(a.arr, a.len, x_), patterns=[CNT(r.arr, r.len, x_)]))))
    return out


B = dict(bags=True, timeout=150)
ops = [
    Contract('Jali::merge', pre=merge_pre, post=merge_post, loops=merge_loops, **B),
    Contract('Jali::subtract', pre=sub_pre, post=sub_post, loops=sub_loops, **B),
    Contract('Jali::intersect', pre=int_pre, post=int_post, loops=int_loops, **B),
    Contract('Jali::complement', pre=merge_pre, post=com_post, loops=com_loops, **B),
]
UNITS = lambda: [Unit('src/mesh/MeshSet.cc', ops + [used('MeshSet::MeshSet'), etype, nent, addset], heap_ptrs=(MS,))]


def LEMMAS():
    out = bags.LEMMAS()
    b, d, e = z3.Bools('b d e')
    out.append(('union: membership in the first n operands implies membership in the first n+1', [], Implies(b, Or(b, d))))
    out.append(('intersection: membership in the first n+1 operands implies membership in the first n', [], Implies(And(b, d), b)))
    return out


LEVEL = 'proof'
DRIVERS = [dict(src='c10.cc', repo=c09._d.ALLSRC, mpi=True, what='all operations on random operand lists (including repeated and empty operands) against set algebra; operands compared before and after')]
EXPLANATION = ('merge, subtract, intersect and complement are proved against set algebra on multisets (each member exactly once), for any number of operands, with operands unchanged by the frame rule; '
               'the new set object is specified by the constructor contract of C09.')
TRUSTED = ['Mesh::num_entities is a function of the mesh; owned entities are numbered before ghosts (C15)']
