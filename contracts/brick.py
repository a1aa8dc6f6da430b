"""The brick lattice: numbering of nodes, cells and faces, and the construction of the tables (used by C01 and C03)."""
from .lattice import *

Z = z3.IntSort()
NI, CI, XYF, XZF, YZF = [z3.Function(n, Z, Z, Z, Z) for n in ('node number', 'cell number', 'xy face number', 'xz face number', 'yz face number')]
NT, CT, FT1, FT2, FT3 = [z3.Function(n, Z, Z, Z, z3.BoolSort()) for n in ('node', 'cell', 'xy face', 'xz face', 'yz face')]      # triggers only: true of every triple
a_, b_, c_ = z3.Ints('a!q b!q c!q')
ABC = (a_, b_, c_)
FAM = (XYF, XZF, YZF)
FTR = (FT1, FT2, FT3)
ext = {NI: lambda n: (n[0] + 1, n[1] + 1, n[2] + 1), CI: lambda n: n, XYF: lambda n: (n[0], n[1], n[2] + 1), XZF: lambda n: (n[0], n[1] + 1, n[2]), YZF: lambda n: (n[0] + 1, n[1], n[2])}
TRIG = {NI: NT, CI: CT, XYF: FT1, XZF: FT2, YZF: FT3}
# nodes of a cell and of the faces of each family, as offsets
CNODES = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
FNODES = {XYF: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], XZF: [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)], YZF: [(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)]}
# faces of a cell with their directions; the cells of a face by slot
CFACES = [(XZF, (0, 0, 0), 1), (YZF, (1, 0, 0), 1), (XZF, (0, 1, 0), -1), (YZF, (0, 0, 0), -1), (XYF, (0, 0, 0), -1), (XYF, (0, 0, 1), 1)]
FCELLS = {XYF: [(0, 0, 0), (0, 0, -1)], XZF: [(0, -1, 0), (0, 0, 0)], YZF: [(0, 0, 0), (-1, 0, 0)]}
# cells at a node and faces at a node, in the order of their numbers
NCELLS = [(x - 1, y - 1, z - 1) for z in (0, 1) for y in (0, 1) for x in (0, 1)]
NFACES = [(XYF, (x - 1, y - 1, 0)) for y in (0, 1) for x in (0, 1)] + [(XZF, (x - 1, 0, z - 1)) for z in (0, 1) for x in (0, 1)] + [(YZF, (0, y - 1, z - 1)) for z in (0, 1) for y in (0, 1)]


# in the composition lemmas the trigger predicates are the patterns; in the loops z3 finds better ones itself
TRIGGERS = [False]


def trig(t):
    return [t] if TRIGGERS[0] else []


def inside(F, n, t):
    return And(*[And(0 <= x, x < e) for x, e in zip(t, ext[F](n))])


def off(t, o):
    return tuple(x + IntVal(d) if d else x for x, d in zip(t, o))


def base(F, n):
    return {NI: IntVal(0), CI: IntVal(0), XYF: IntVal(0), XZF: XYF(0, 0, n[2] + 1), YZF: XZF(0, 0, n[2])}[F]


def last(F, n):
    return F(0, 0, ext[F](n)[2])


def formula(F, n, t):
    """the definition of the numbering (what the index functions compute)"""
    e = ext[F](n)
    return t[0] + t[1] * e[0] + t[2] * e[0] * e[1] + base(F, n)


def every(F, n, f, t=None):
    """for all triples of the lattice (numbered below t)"""
    g = And(TRIG[F](*ABC), inside(F, n, ABC))
    if t is not None:
        g = And(g, F(*ABC) < t)
    return ForAll(list(ABC), Implies(g, f(ABC)), patterns=trig(TRIG[F](*ABC)))


def inv3(F):
    nm = F.name()
    return [z3.Function('%s of %s' % (x, nm), Z, Z) for x in ('i', 'j', 'k')]


def facts(p, n, *a):
    """what the callers know of the numbering (each is a lemma below)"""
    for f in memo(lambda: collect(facts_, n, *a), 'facts' + str(a) + str(TRIGGERS), n):
        p.assume(f)


class Collect(list):
    assume = list.append


def collect(f, *a):
    l = Collect()
    f(l, *a)
    return l


def memo(f, key, *args, _m={}):
    k = (key,) + tuple(x.get_id() if z3.is_expr(x) else tuple(y.get_id() for y in x) if isinstance(x, tuple) else x for x in args[0])
    if k not in _m:
        _m[k] = (args, f())
    return _m[k][1]


def facts_(p, n, fams=(NI, CI, XYF, XZF, YZF), order=True):
    for F, T in TRIG.items():
        p.assume(ForAll(list(ABC), T(*ABC), patterns=[T(*ABC)]))
        if F in fams:
            I = inv3(F)
            f = F(*ABC)
            p.assume(ForAll(list(ABC), Implies(inside(F, n, ABC), And(base(F, n) <= f, f < last(F, n), *[I[k](f) == ABC[k] for k in range(3)])), patterns=[f]))
        p.assume(base(F, n) >= 0)
        p.assume(F(0, 0, 0) == base(F, n))
    p.assume(last(CI, n) == n[0] * n[1] * n[2])
    p.assume(last(NI, n) == (n[0] + 1) * (n[1] + 1) * (n[2] + 1))
    p.assume(last(YZF, n) == (n[0] + 1) * n[1] * n[2] + n[0] * (n[1] + 1) * n[2] + n[0] * n[1] * (n[2] + 1))
    p.assume(And(0 <= last(XYF, n), last(XYF, n) <= last(XZF, n), last(XZF, n) <= last(YZF, n), last(CI, n) >= 0, last(NI, n) >= 0))
    # cells and faces at a node have increasing numbers
    if order:
        cs = [(CI, o) for o in NCELLS]
        for l in (cs, NFACES):
            if l[0][0] in fams:
                ts = [(inside(F, n, off(ABC, o)), F(*off(ABC, o))) for F, o in l]
                p.assume(ForAll(list(ABC), And(*[Implies(And(ts[x][0], ts[y][0]), ts[x][1] < ts[y][1]) for x in range(len(ts)) for y in range(x + 1, len(ts))]), patterns=trig(NT(*ABC))))


def ground(p, F, n, t):
    """the range of one number"""
    p.assume(Implies(inside(F, n, t), And(base(F, n) <= F(*t), F(*t) < last(F, n))))


def step(p, F, n, t):
    """the numbering at a triple: successor and row ends"""
    e = ext[F](n)
    i, j, k = t
    p.assume(F(i + 1, j, k) == F(i, j, k) + 1)
    p.assume(F(e[0], j, k) == F(0, j + 1, k))
    p.assume(F(0, e[1], k) == F(0, 0, k + 1))
    p.assume(And(*[Implies(And(0 <= j, j <= e[1], 0 <= k, k <= e[2]), And(base(F, n) <= F(0, j, k)))]))


def nodes_of_cells(g, n, t):
    return [('node %d of the cells' % m, every(CI, n, lambda x: at(g(CN), 8 * CI(*x) + m) == NI(*off(x, o)), t)) for m, o in enumerate(CNODES)]


SLOTS = {NC: [(CI, o) for o in NCELLS], NF: NFACES}
PER = {NC: 9, NF: 13}
WHAT = {NC: 'cells', NF: 'faces'}
SOFAR = {t: z3.Function('%s of the node so far' % WHAT[t], Z, Z, Z, Z, Z) for t in SLOTS}
PLACE = {t: [z3.Function('place of %s %d at the node' % (WHAT[t], q), Z, Z, Z, Z) for q in range(len(SLOTS[t]))] for t in SLOTS}


def slot_in(table, n, x, q):
    F, o = SLOTS[table][q]
    return inside(F, n, off(x, o))


def slot_num(table, x, q):
    F, o = SLOTS[table][q]
    return F(*off(x, o))


def place(table, n, x, q):
    """how many of the possible entries before the q-th there are"""
    return sum((one(slot_in(table, n, x, e)) for e in range(q)), IntVal(0))


def sofar(table, n, x, t):
    return sum((one(And(slot_in(table, n, x, q), slot_num(table, x, q) < t)) for q in range(len(SLOTS[table]))), IntVal(0))


def slot_of(table, F, o):
    """the slot of the entity at a node of it, the node given by its offset"""
    return SLOTS[table].index((F, tuple(-d for d in o)))


def nodefacts(p, n, table):
    """what is known of the counts and places (lemmas below); trigger: the node"""
    N = len(SLOTS[table])
    S, P = SOFAR[table], PLACE[table]
    x = ABC
    t_ = z3.Int('t!q')
    p.assume(ForAll(list(x), Implies(inside(NI, n, x), And(*[And(0 <= P[q](*x), P[q](*x) <= q) for q in range(N)])), patterns=trig(NT(*x))))
    p.assume(ForAll(list(x), And(*[Implies(And(slot_in(table, n, x, a), slot_in(table, n, x, b)), P[a](*x) < P[b](*x)) for a in range(N) for b in range(a + 1, N)]), patterns=trig(NT(*x))))
    p.assume(ForAll(list(x) + [t_], And(0 <= S(*(x + (t_,))), S(*(x + (t_,))) <= N), patterns=[S(*(x + (t_,)))]))
    p.assume(ForAll(list(x), S(*(x + (IntVal(0),))) == 0, patterns=trig(NT(*x))))


def nodestep(p, n, table, F, cur):
    """the effect of the entity at this triple on the counts (lemmas below)"""
    S, P = SOFAR[table], PLACE[table]
    t = F(*cur)
    x = ABC
    for o in (CNODES if F is CI else FNODES[F]):
        v = off(cur, o)
        s = slot_of(table, F, o)
        p.assume(Implies(inside(F, n, cur), And(S(*(v + (t,))) == P[s](*v), S(*(v + (t + 1,))) == P[s](*v) + 1, 0 <= P[s](*v), P[s](*v) <= s)))
        # instances of the facts above at this node
        I = inv3(NI)
        p.assume(Implies(inside(F, n, cur), And(inside(NI, n, v), *[I[k](NI(*v)) == v[k] for k in range(3)])))
        for q in range(len(SLOTS[table])):
            a, b = min(q, s), max(q, s)
            if q != s:
                p.assume(Implies(And(slot_in(table, n, v, a), slot_in(table, n, v, b)), And(P[a](*v) < P[b](*v), slot_num(table, v, a) < slot_num(table, v, b))))
    p.assume(Implies(inside(F, n, cur), ForAll(list(x), Implies(And(inside(NI, n, x), *[Or(*[u != w for u, w in zip(x, off(cur, o))]) for o in (CNODES if F is CI else FNODES[F])]), S(*(x + (t + 1,))) == S(*(x + (t,)))), patterns=trig(NT(*x)))))


def nodedefs(p, n, table):
    """the counts and places as numbers of entities of the lattice (definitions)"""
    end = last(CI, n) if table == NC else last(YZF, n)
    x = ABC
    p.assume(ForAll(list(x), Implies(inside(NI, n, x), And(SOFAR[table](*(x + (end,))) == place(table, n, x, len(SLOTS[table])), *[PLACE[table][q](*x) == place(table, n, x, q) for q in range(len(SLOTS[table]))])), patterns=trig(NT(*x))))


def at_nodes(g, n, table, t):
    """rows of the node tables after the entities numbered below t"""
    S, P = SOFAR[table], PLACE[table]
    out = [('number of %s of the nodes' % WHAT[table], every(NI, n, lambda x: at(g(table), PER[table] * NI(*x)) == S(*(x + (t,)))))]
    for q in range(len(SLOTS[table])):
        out.append(('%s %d of the nodes' % (WHAT[table], q), every(NI, n, lambda x: Implies(And(slot_in(table, n, x, q), slot_num(table, x, q) < t), at(g(table), PER[table] * NI(*x) + 1 + P[q](*x)) == slot_num(table, x, q)))))
    return out


def at_nodes_all(g, n, table):
    """rows of the node tables: how many, and each in its place"""
    N = len(SLOTS[table])
    out = [('number of %s of the nodes' % WHAT[table], every(NI, n, lambda x: at(g(table), PER[table] * NI(*x)) == place(table, n, x, N)))]
    for q in range(N):
        out.append(('%s %d of the nodes' % (WHAT[table], q), every(NI, n, lambda x: Implies(slot_in(table, n, x, q), at(g(table), PER[table] * NI(*x) + 1 + place(table, n, x, q)) == slot_num(table, x, q)))))
    return out


def faces_of_cells(g, n, t):
    out = []
    for m, (F, o, d) in enumerate(CFACES):
        out.append(('face %d of the cells' % m, every(CI, n, lambda x: And(at(g(CF), 6 * CI(*x) + m) == F(*off(x, o)), at(g(CD), 6 * CI(*x) + m) == d), t)))
    return out


def cells_of_faces(g, n, t):
    out = []
    for F in FAM:
        for s, o in enumerate(FCELLS[F]):
            c = lambda x: CI(*off(x, o))
            has = lambda x: And(inside(CI, n, off(x, o)), c(x) < t) if t is not None else inside(CI, n, off(x, o))
            out.append(('cell in slot %d of the %s' % (s, TRIG[F].name()), every(F, n, lambda x: at(g(FC), 2 * F(*x) + s) == If(has(x), c(x), IntVal(-1)))))
    return out


def nodes_of_faces(g, n, t):
    return [('node %d of the %s' % (m, TRIG[F].name()), every(F, n, lambda x: at(g(FN), 4 * F(*x) + m) == NI(*off(x, o)), t)) for F in FAM for m, o in enumerate(FNODES[F])]


def positions(g, n, t, c):
    f = c.oldf
    out = []
    for d, (lo, hi) in enumerate((('x0_', 'x1_'), ('y0_', 'y1_'), ('z0_', 'z1_'))):
        h = (f(hi) - f(lo)) / z3.ToReal(n[d])
        out.append(('coordinate %d of the nodes' % d, every(NI, n, lambda x: at(g('coordinates_'), 3 * NI(*x) + d) == f(lo) + z3.ToReal(x[d]) * h, t)))
    return out


TABLES = [CF, CD, CN, FN, FC, NF, NC]
LISTS = ['%sids_%s_' % (k, t) for k in ('node', 'edge', 'face', 'cell') for t in ('owned', 'ghost', 'all')]
NXYZ = lambda c: tuple(c.oldf('n%s_' % x) for x in 'xyz')


def tabsizes(g, n):
    nc, nn, nf = last(CI, n), last(NI, n), last(YZF, n)
    return [('%s has its size' % f, g(f).len == s) for f, s in ((CN, 8 * nc), (CF, 6 * nc), (CD, 6 * nc), (FN, 4 * nf), (FC, 2 * nf), (NF, 13 * nn), (NC, 9 * nn), ('coordinates_', 3 * nn))]


def content(g, n, c):
    return positions(g, n, None, c) + nodes_of_cells(g, n, None) + at_nodes_all(g, n, NC) + faces_of_cells(g, n, None) + cells_of_faces(g, n, None) + nodes_of_faces(g, n, None) + \
        at_nodes_all(g, n, NF)


def identity(l, n):
    return And(l.len == n, ForAll([i_], Implies(And(0 <= i_, i_ < n), at(l, i_) == i_), patterns=[at(l, i_)]))


def enum(g, kind, n, cond=None):
    f = lambda t: g('%sids_%s_' % (kind, t))
    if n is None:
        return [('no %ss' % kind, And(*[f(t).len == 0 for t in ('owned', 'ghost', 'all')]))]
    c = True if cond is None else cond
    return [('%ss are numbered from 0' % kind, Implies(c, And(identity(f('owned'), n), identity(f('all'), n)))), ('no ghost %ss' % kind, f('ghost').len == 0), ('no %ss when not requested' % kind, Implies(Not(c), And(f('owned').len == 0, f('all').len == 0)))]


FAMS = {'coordinates': ((NI,), False), 'cells of nodes': ((NI, CI), False), 'cells': ((CI,), False), 'cells of faces': ((CI,) + FAM, False), **{'faces of nodes, %s faces' % x: ((NI,) + FAM, False) for x in ('xy', 'xz', 'yz')}, 'faces': (FAM, False), 'numbering': ((), False)}


def up_pre(c, part=None):
    n = NXYZ(c)
    facts(c.p, n, *(FAMS[part] if part else ()))
    for pt, table in (('cells of nodes', NC), ('faces of nodes', NF)):
        if part and part.startswith(pt):
            nodefacts(c.p, n, table)
            nodedefs(c.p, n, table)
    return [('at least one cell each way', And(*[x >= 1 for x in n]))] + [('%s is empty' % f, c.oldf(f).len == 0) for f in TABLES + ['coordinates_']]


def up_post(c):
    n = NXYZ(c)
    nc, nn, nf = last(CI, n), last(NI, n), last(YZF, n)
    return [('number of cells', c.f('num_cells_') == nc), ('number of nodes', c.f('num_nodes_') == nn), ('number of faces', c.f('num_faces_') == nf)] + tabsizes(c.f, n) + content(c.f, n, c) + \
        enum(c.f, 'node', nn) + enum(c.f, 'edge', None) + enum(c.f, 'face', nf, yes(c.oldf('faces_requested'))) + enum(c.f, 'cell', nc)


NESTS = [NI, CI, CI, XYF, XZF, YZF]
SAFE = ['coordinates', 'cells of nodes', 'cells', 'faces of nodes, xy faces', 'faces of nodes, xz faces', 'faces of nodes, yz faces']        # which part shows that the indices are in range
UPTO = {'cells of nodes': 1, 'cells': 2, SAFE[3]: 3, SAFE[4]: 4, SAFE[5]: 5, 'numbering': 5}      # where the part needs the sizes of the tables
HERE = {'coordinates': [0], 'cells of nodes': [1], 'cells': [1, 2], 'cells of faces': [2], SAFE[3]: [3], SAFE[4]: [4], SAFE[5]: [5], 'faces': [3, 4, 5], 'numbering': []}   # the loops the part is about; the others are left to the part in SAFE
PARTS = ['faces of nodes, xy faces', 'faces of nodes, xz faces', 'faces of nodes, yz faces', 'cells of nodes', 'faces', 'cells', 'coordinates', 'cells of faces', 'numbering']


def up_part(part, g, n, c):
    return {'coordinates': lambda: positions(g, n, None, c), 'cells of nodes': lambda: at_nodes_all(g, n, NC), 'cells': lambda: nodes_of_cells(g, n, None) + faces_of_cells(g, n, None), 'cells of faces': lambda: cells_of_faces(g, n, None),
            'faces': lambda: nodes_of_faces(g, n, None), SAFE[3]: lambda: [], SAFE[4]: lambda: [], SAFE[5]: lambda: at_nodes_all(g, n, NF),
            'numbering': lambda: enum(g, 'node', last(NI, n)) + enum(g, 'edge', None) + enum(g, 'face', last(YZF, n), yes(c.oldf('faces_requested'))) + enum(g, 'cell', last(CI, n)) + tabsizes(g, n)}[part]()


def up_loops(part):
    def loops(L):
        c, p = L.ctx, L.p
        n = NXYZ(c)
        nest, depth = divmod(L.ordinal, 3)
        if nest >= 6:
            if part != 'numbering':
                L.skip = 'update_internals_3d_: numbering'
                return []
            l = L.f({18: 'node', 19: 'face', 20: 'cell'}[L.ordinal] + 'ids_owned_')
            i = L.local('i')
            return [('numbered so far', ForAll([i_], Implies(And(0 <= i_, i_ < i), at(l, i_) == i_), patterns=[at(l, i_)]))]
        F = NESTS[nest]
        L.nosafety = part != SAFE[nest]
        iz = L.local('iz')
        if depth == 0 and nest not in HERE[part]:
            L.skip = 'update_internals_3d_: ' + SAFE[nest]
            if nest == 0:
                return [('size', L.f('coordinates_').len == 3 * last(NI, n))]
            return (tabsizes(L.f, n) if nest <= UPTO.get(part, 0) else []) + ([('layer', And(0 <= iz, iz <= ext[F](n)[2]))] + at_nodes(L.f, n, NF, F(0, 0, iz)) if part in SAFE[4:] and 3 <= nest < SAFE.index(part) else [])
        iz = L.local('iz')
        iy = L.local('iy') if depth >= 1 else IntVal(0)
        ix = L.local('ix') if depth >= 2 else IntVal(0)
        step(p, F, n, (ix, iy, iz))
        t = F(ix, iy, iz)
        if depth == 2:
            here = [(F, (0, 0, 0))] + ([(NI, o) for o in (CNODES if F is CI else FNODES[F])] if F is not NI else []) + ([(G, o) for G, o, d in CFACES] if nest == 2 else [])
            for G, o in here:
                p.assume(TRIG[G](*off((ix, iy, iz), o)))
                ground(p, G, n, off((ix, iy, iz), o))
            vs = sorted([o for G, o in here if G is NI], key=lambda o: (o[2], o[1], o[0]))
            for u, v in zip(vs, vs[1:]):
                p.assume(Implies(inside(F, n, (ix, iy, iz)), NI(*off((ix, iy, iz), u)) < NI(*off((ix, iy, iz), v))))
            if nest == 1 and part == 'cells of nodes':
                nodestep(p, n, NC, F, (ix, iy, iz))
            if nest >= 3 and part == SAFE[nest]:
                nodestep(p, n, NF, F, (ix, iy, iz))
        out = []
        if nest == 0:
            out += [('size', L.f('coordinates_').len == 3 * last(NI, n))]
            if part == 'coordinates':
                out += positions(L.f, n, t, c)
        elif nest <= UPTO.get(part, 0):
            out += tabsizes(L.f, n)
        if nest == 1 and part == 'cells':
            out += nodes_of_cells(L.f, n, t)
        if nest == 1 and part == 'cells of nodes':
            out += at_nodes(L.f, n, NC, t)
        if nest == 2 and part == 'cells':
            out += faces_of_cells(L.f, n, t)
        if nest == 2 and part == 'cells of faces':
            out += cells_of_faces(L.f, n, t)
        if nest >= 3 and part == 'faces':
            out += nodes_of_faces(L.f, n, t)
        if nest >= 3 and part == SAFE[nest]:
            out += at_nodes(L.f, n, NF, t) + ([('layer', And(0 <= iz, iz <= ext[F](n)[2]))] if depth == 0 else [])
        return out
    return loops


def up_asserts(part):
    def asserts(L):
        nest, depth = divmod(L.ordinal, 3)
        n = NXYZ(L.ctx)
        if depth != 2 or not (part == 'cells of nodes' and nest == 1 or 3 <= nest <= 5 and part == SAFE[nest]):
            return []
        F, table = NESTS[nest], NC if nest == 1 else NF
        cur = tuple(L.local(x) for x in ('ix', 'iy', 'iz'))
        vs = [(m, off(cur, o), slot_of(table, F, o)) for m, o in enumerate(CNODES if F is CI else FNODES[F])]
        P, per, N = PLACE[table], PER[table], len(SLOTS[table])
        new = L.f(table)
        if not L.end:
            L.p.stash = new
            return [('entries of node %d so far' % m, at(new, per * NI(*v)) == P[s](*v)) for m, v, s in vs]
        old = L.p.stash
        out = [('entries of node %d' % m, at(new, per * NI(*v)) == P[s](*v) + 1) for m, v, s in vs] + [('last entry of node %d' % m, at(new, per * NI(*v) + 1 + P[s](*v)) == F(*cur)) for m, v, s in vs] + \
              [('entry %d of node %d' % (q, m), Implies(slot_in(table, n, v, q), at(new, per * NI(*v) + 1 + P[q](*v)) == at(old, per * NI(*v) + 1 + P[q](*v)))) for m, v, s in vs for q in range(N) if q < s]
        x = ABC
        other = And(*[Or(*[a != b for a, b in zip(x, v)]) for m, v, s in vs])
        out.append(('other nodes have other numbers', ForAll(list(x), Implies(And(inside(NI, n, x), other), And(*[Or(NI(*x) < NI(*v), NI(*x) > NI(*v)) for m, v, s in vs])), patterns=trig(NT(*x)))))
        out.append(('number of entries of other nodes', ForAll(list(x), Implies(And(inside(NI, n, x), other), at(new, per * NI(*x)) == at(old, per * NI(*x))), patterns=trig(NT(*x)))))
        out += [('entry %d of other nodes' % q, ForAll(list(x), Implies(And(inside(NI, n, x), other), at(new, per * NI(*x) + 1 + P[q](*x)) == at(old, per * NI(*x) + 1 + P[q](*x))), patterns=trig(NT(*x)))) for q in range(N)]
        good = lambda u, q: Implies(And(slot_in(table, n, u, q), slot_num(table, u, q) < F(*cur) + 1), at(new, per * NI(*u) + 1 + P[q](*u)) == slot_num(table, u, q))
        for q in range(N):
            out += [('%s %d of node %d' % (WHAT[table], q, m), good(v, q)) for m, v, s in vs]
            out.append(('%s %d of other nodes' % (WHAT[table], q), ForAll(list(x), Implies(And(inside(NI, n, x), other), good(x, q)))))
        return out
    return asserts


def idx_contract(F, name):
    def known(c):
        n = NXYZ(c)
        t = tuple(c.arg(k) for k in range(3))
        e = ext[F](n)
        return [And(*[x >= 0 for x in t + n]), t[1] * e[0] >= 0, t[2] * e[0] * e[1] >= 0, base(F, n) >= 0, F(*t) == formula(F, n, t)]

    def setup(c):
        for f in known(c):
            c.p.assume(f)
    return Contract(MX + '::' + name, nparams=3, label=name + '(i,j,k)', setup=setup, pre=lambda c: [('numbers of the lattice', And(*[c.arg(k) >= 0 for k in range(3)] + [x >= 0 for x in NXYZ(c)]))], ret=lambda c: F(*[c.arg(k) for k in range(3)]))


idx = [idx_contract(F, nm) for F, nm in ((NI, 'node_index_'), (CI, 'cell_index_'), (XYF, 'xyface_index_'), (XZF, 'xzface_index_'), (YZF, 'yzface_index_'))]
MODS3 = ['this.' + f for f in TABLES + LISTS + ['coordinates_', 'num_cells_', 'num_nodes_', 'num_faces_']]
build = [Contract(MX + '::update_internals_3d_', setup=sizes(3), mods=MODS3, pre=up_pre, post=up_post, verify=False)] + \
        [Contract(MX + '::update_internals_3d_', label='update_internals_3d_: ' + part, modular=False, setup=sizes(3), mods=MODS3, pre=lambda c, part=part: up_pre(c, part), post=lambda c, part=part: up_part(part, c.f, NXYZ(c), c), loops=up_loops(part), asserts=up_asserts(part), timeout=600) for part in PARTS]


# ---- the facts assumed above, proved from the numbering formulas
def lattice_lemmas():
    out = []
    n = tuple(z3.Ints('nx ny nz'))
    pos = [x >= 1 for x in n]
    A = tuple(z3.Ints('i j k'))
    B = tuple(z3.Ints("i' j' k'"))
    x, y, z = z3.Ints('x y z')
    # elementary facts of integer products; instances of them are used as hints
    def mono(a, b, c):
        return Implies(And(a <= b, c >= 0), a * c <= b * c)
    out.append(('products keep the order', [], mono(x, y, z)))

    # each numbering by its formula (base as an unknown number)
    class Num:
        def __init__(self, F):
            self.F, self.e, self.base = F, ext[F](n), z3.Int('base')

        def __call__(self, t):
            return t[0] + t[1] * self.e[0] + t[2] * self.e[0] * self.e[1] + self.base

        def ins(self, t):
            return And(*[And(0 <= a, a < e) for a, e in zip(t, self.e)])
    nums = {F: Num(F) for F in TRIG}
    for F, N in nums.items():
        nm = TRIG[F].name()
        e = N.e
        L = lambda s, h, g: out.append(('%s numbers: %s' % (nm, s), pos + h, g))
        i, j, k = A
        L('the next in the row', [], And(N((i + 1, j, k)) == N(A) + 1, N((e[0], j, k)) == N((0, j + 1, k)), N((0, e[1], k)) == N((0, 0, k + 1)), N((0, 0, 0)) == N.base))
        area = e[0] * e[1]
        rowh = [mono(j + 1, e[1], e[0]), mono(k + 1, e[2], area), mono(IntVal(0), j, e[0]), mono(IntVal(0), k, area), mono(IntVal(0), e[0], e[1]), area >= 0]
        L('area of a layer', [mono(IntVal(0), e[0], e[1])], area >= 0)
        L('in range', [N.ins(A)] + rowh, And(N.base <= N(A), N(A) < N((0, 0, e[2]))))
        L('rows start in range', [0 <= j, j <= e[1], 0 <= k, k <= e[2]] + rowh, N.base <= N((0, j, k)))
        later = Or(A[2] < B[2], And(A[2] == B[2], A[1] < B[1]), And(A[2] == B[2], A[1] == B[1], A[0] < B[0]))
        lexh = rowh + [mono(B[1] * 0 + j + 1, B[1], e[0]), mono(k + 1, B[2], area), mono(IntVal(0), B[1], e[0])]
        L('later triples have larger numbers', [N.ins(A), N.ins(B), later] + lexh, N(A) < N(B))
        L('distinct', [N.ins(A), N.ins(B), N(A) == N(B), Implies(And(N.ins(A), N.ins(B), later), N(A) < N(B)), Implies(And(N.ins(A), N.ins(B), Or(B[2] < A[2], And(B[2] == A[2], B[1] < A[1]), And(B[2] == A[2], B[1] == A[1], B[0] < A[0]))), N(B) < N(A))], And(*[a == b for a, b in zip(A, B)]))
        r, q1 = z3.Ints('r row')
        L('every number is taken', [0 <= r, r < e[0] * e[1] * e[2], r == q1 * e[0] + i, 0 <= i, i < e[0], q1 == k * e[1] + j, 0 <= j, j < e[1], mono(q1 + 1, IntVal(0), e[0]), mono(k + 1, IntVal(0), e[1]), mono(e[2], k, area), mono(IntVal(0), j, e[0]), area >= 0], And(0 <= k, k < e[2], N(A) == N.base + r))
    # the ranges follow each other
    for F, G in ((XYF, XZF), (XZF, YZF)):
        e = ext[F](n)
        out.append(('%s numbers end where %s numbers start' % (TRIG[F].name(), TRIG[G].name()), pos + [mono(IntVal(0), e[0], e[1]), mono(IntVal(0), e[2], e[0] * e[1])], nums[F]((0, 0, e[2])) >= nums[F].base))
    e1, e2, e3 = [ext[F](n) for F in FAM]
    total = lambda e: e[0] * e[1] * e[2]
    out.append(('numbers of cells, nodes and faces', pos, And(nums[CI]((0, 0, n[2])) - nums[CI].base == n[0] * n[1] * n[2], nums[NI]((0, 0, n[2] + 1)) - nums[NI].base == (n[0] + 1) * (n[1] + 1) * (n[2] + 1),
                                                                 total(e1) + total(e2) + total(e3) == (n[0] + 1) * n[1] * n[2] + n[0] * (n[1] + 1) * n[2] + n[0] * n[1] * (n[2] + 1))))

    # from here the numberings are the functions, with the facts above
    def lex(F, s, t):
        later = Or(s[2] < t[2], And(s[2] == t[2], s[1] < t[1]), And(s[2] == t[2], s[1] == t[1], s[0] < t[0]))
        return Implies(And(inside(F, n, s), inside(F, n, t), later), F(*s) < F(*t))

    def rng(F, t):
        return Implies(inside(F, n, t), And(base(F, n) <= F(*t), F(*t) < last(F, n)))

    def inj(F, s, t):
        return Implies(And(inside(F, n, s), inside(F, n, t), F(*s) == F(*t)), And(*[a == b for a, b in zip(s, t)]))
    chain = pos + [And(0 <= last(XYF, n), last(XYF, n) <= last(XZF, n), last(XZF, n) <= last(YZF, n))]
    v = tuple(z3.Ints('a b c'))
    for table, sl in SLOTS.items():
        w = WHAT[table]
        N = len(sl)
        X = [(inside(F, n, off(v, o)), F(*off(v, o)), F, off(v, o)) for F, o in sl]
        hy = chain + [rng(F, t) for _, _, F, t in X] + [lex(X[a][2], X[a][3], X[b][3]) for a in range(N) for b in range(a + 1, N) if X[a][2] is X[b][2]]
        order = [Implies(And(X[a][0], X[b][0]), X[a][1] < X[b][1]) for a in range(N) for b in range(a + 1, N)]
        for a in range(N):
            out.append(('%s at a node have increasing numbers (%d)' % (w, a), hy, And(*[Implies(And(X[a][0], X[b][0]), X[a][1] < X[b][1]) for b in range(a + 1, N)])))
        ins = [z3.Bool('there%d' % q) for q in range(N)]
        pl = lambda q: sum((one(ins[e]) for e in range(q)), IntVal(0))
        out.append(('places of %s at a node' % w, [], And(*[And(0 <= pl(q), pl(q) <= q) for q in range(N)])))
        out.append(('places of %s at a node are distinct' % w, [], And(*[Implies(ins[a], pl(a) < pl(b)) for a in range(N) for b in range(a + 1, N)])))
        num = [z3.Int('number%d' % q) for q in range(N)]
        t = z3.Int('t')
        sf = lambda t: sum((one(And(ins[q], num[q] < t)) for q in range(N)), IntVal(0))
        o2 = [Implies(And(ins[a], ins[b]), num[a] < num[b]) for a in range(N) for b in range(a + 1, N)]
        out.append(('at most %d %s at a node' % (N, w), [], And(0 <= sf(t), sf(t) <= N)))
        out.append(('no %s at a node at first' % w, [Implies(ins[q], num[q] >= 0) for q in range(N)], sf(IntVal(0)) == 0))
        out.append(('in the end all %s at a node' % w, [Implies(ins[q], num[q] < t) for q in range(N)], sf(t) == pl(N)))
        for s in range(N):
            out.append(('%s at a node before the entry at place %d, and with it' % (w, s), o2 + [ins[s], t == num[s]], And(sf(t) == pl(s), sf(t + 1) == pl(s) + 1)))
        for F in ([CI] if table == NC else FAM):
            cur = tuple(z3.Ints('i j k'))
            vs = [off(cur, o) for o in (CNODES if F is CI else FNODES[F])]
            for o in (CNODES if F is CI else FNODES[F]):
                s = slot_of(table, F, o)
                out.append(('%s: slot %d of its node is the %s itself' % (w, s, TRIG[F].name()), [], And(*[a == b for a, b in zip(off(off(cur, o), sl[s][1]), cur)])))
            h = chain + [rng(F, cur)] + [rng(G, off(v, o)) for G, o in sl] + [inj(F, cur, off(v, o)) for G, o in sl if G is F]
            out.append(('no other node has the %s among its %s' % (TRIG[F].name(), w), h + [inside(F, n, cur)] + [Or(*[a != b for a, b in zip(v, u)]) for u in vs], And(*[Implies(X[q][0], X[q][1] != F(*cur)) for q in range(N)])))
        out.append(('%s that are not the next one keep the counts' % w, [Implies(ins[q], num[q] != t) for q in range(N)], sf(t + 1) == sf(t)))
    for F in (CI,) + FAM:
        cur = tuple(z3.Ints('i j k'))
        os_ = sorted(CNODES if F is CI else FNODES[F], key=lambda o: (o[2], o[1], o[0]))
        out.append(('nodes of a %s in the order of their numbers' % TRIG[F].name(), pos + [inside(F, n, cur)] + [lex(NI, off(cur, a), off(cur, b)) for a, b in zip(os_, os_[1:])], And(*[NI(*off(cur, a)) < NI(*off(cur, b)) for a, b in zip(os_, os_[1:])])))
    return out
