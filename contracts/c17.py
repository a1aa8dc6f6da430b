"""C17: looking up and registering state vectors in the state manager."""
import os, re
from .common import *
from . import c19

HERE = os.path.dirname(os.path.abspath(__file__))
NENT, NMATS = c19.NENT, c19.NMATS
VTYPE = z3.Function('vector_type', z3.IntSort(), z3.IntSort())       # what type() of an object returns, fixed by its class
SELF = z3.Int('shared_this')                                         # shared_from_this()
ANY_KIND, ALL_TYPE = -2, 4
UNI, MULTI = 0, 1
SB = 'Jali::StateVectorBase'
i_, j_, m_ = z3.Ints('i!q j!q m!q')
CLS = {UNI: 'Jali::UniStateVector<%s, Jali::%s>', MULTI: 'Jali::MultiStateVector<%s, Jali::%s>'}
BASE = {UNI: 'Jali::UniStateVectorBase<Jali::%s>', MULTI: 'Jali::MultiStateVectorBase<Jali::%s>'}
NM = {UNI: 'UniStateVector', MULTI: 'MultiStateVector'}


def isa(rec, o):
    return z3.Function('isa_' + re.sub(r'\W', '_', rec), z3.IntSort(), z3.BoolSort())(o)


def fld(p, o, f, heap=None, rec=SB):
    return Select(p.heapget(rec, f, heap)[0], o)


def basic(p, o, name, kind, typ, heap=None):
    return And(fld(p, o, 'myname_', heap) == name, Or(kind == ANY_KIND, fld(p, o, 'entity_kind_', heap) == kind), Or(typ == ALL_TYPE, fld(p, o, 'entity_type_', heap) == typ))


def match(p, o, name, dom, kind, typ, D=None, T=None, vt=None, heap=None):
    """vector o answers a lookup"""
    m = basic(p, o, name, kind, typ, heap)
    if D is None:
        return m
    inb = lambda v: And(VTYPE(o) == v, isa(BASE[v] % D, o), fld(p, o, 'mydomain_', heap, BASE[v] % D) == dom)
    if T is not None:
        return And(m, isa(CLS[vt] % (T, D), o), fld(p, o, 'mydomain_', heap, BASE[vt] % D) == dom)
    return And(m, Or(*[inb(v) for v in ((UNI, MULTI) if vt is None else (vt,))]))


def arr(c):
    return c.p.field(c.this, 'state_vectors_')


def wf(p, v):
    return [('registered vectors exist', ForAll([j_], Implies(And(0 <= j_, j_ < v.len), And(at(v, j_) > 0, ALLOC(at(v, j_)))), patterns=[at(v, j_)]))]


def find(label, const, D=None, T=None, vt=None, nparams=4, **kw):
    from cxv.engine import IterV
    d = 0 if D is None else 1

    def mt(c, o, heap=None):
        return match(c.p, o, c.arg(0), c.arg(1) if d else None, c.arg(1 + d), c.arg(2 + d), D, T, vt, c.heap0 if heap is None else heap)

    def post(c):
        v = c.oldf('state_vectors_')
        r = c.ret.pos
        return [('in range', And(0 <= r, r <= v.len)), ('what is found answers the lookup', Implies(r < v.len, mt(c, at(v, r)))),
                ('nothing before it does', ForAll([j_], Implies(And(0 <= j_, j_ < r), Not(mt(c, at(v, j_)))), patterns=[at(v, j_)]))]

    def loops(L):
        c = L.ctx
        v = L.f('state_vectors_')
        r = L.local('it').pos
        return [('position', And(0 <= r, r <= v.len)), ('no answer so far', ForAll([j_], Implies(And(0 <= j_, j_ < r), Not(mt(c, at(v, j_)))), patterns=[at(v, j_)]))]
    return Contract('Jali::State::find', label='State::find' + label + (' const' if const else ''), nparams=3 + d, sig=r'\) const$' if const else r'\)$', pre=lambda c: wf(c.p, c.oldf('state_vectors_')), post=post, loops=loops,
                    shape=lambda c: IterV(arr(c), c.p.fresh(z3.IntSort(), 'found')), **kw)


def finds(T, D):
    out = []
    for const in (False, True):
        out += [find('<%s>' % D, const, D, targs=['Jali::' + D])]
        for v in (UNI, MULTI):
            out += [find('<%s,%s>' % (D, NM[v]), const, D, vt=v, targs=['Jali::' + D, str(v)]), find('<%s,%s,%s>' % (T, D, NM[v]), const, D, T, v, targs=[T, 'Jali::' + D, '?'], mangled='%d%sE' % (len(NM[v]), NM[v])),
                    find('<%s,%s,%d>' % (T, D, v), const, D, T, v, targs=[T, 'Jali::' + D, str(v)], modular=False)]
    return out


# ---- get
META = c19.META


def get(T, D, vt, form, const):
    C = CLS[vt] % (T, D)
    full = form in ('copy', 'ptr')
    short = form == 'copy_mesh'
    n = {'copy': 5, 'ptr': 5, 'copy_mesh': 2, 'ptr_short': 3}[form]
    out = n - 1
    isptr = form.startswith('ptr')
    base = r'%s<%s, %s>' % (NM[vt], T, D)
    sig = (r'shared_ptr<%s%s> \*\)' % ('const ' if const else '', base)) if isptr else r', %s \*\)' % base

    def args(c):
        dom = c.oldf('mymesh_') if short else c.arg(1)
        k = c.arg(2) if full else IntVal(ANY_KIND)
        t = c.arg(3) if full else IntVal(ALL_TYPE)
        return c.arg(0), dom, k, t

    def post(c):
        v = c.oldf('state_vectors_')
        n_, dom, k, t = args(c)
        m = lambda o: match(c.p, o, n_, dom, k, t, D, T, vt, c.heap0)
        first = And(0 <= i_, i_ < v.len, m(at(v, i_)), ForAll([j_], Implies(And(0 <= j_, j_ < i_), Not(m(at(v, j_)))), patterns=[at(v, j_)]))
        o = at(v, i_)
        if isptr:
            got = c.cur(out) == o
            kept = c.cur(out) == c.old(out)
        else:
            new, old = c.cur(out), c.old(out)
            rec = lambda f: SB if f != 'mydomain_' and f != 'mydata_' else (BASE[vt] % D if f == 'mydomain_' else C)
            got = And(*[new.get(f) == fld(c.p, o, f, c.heap0, rec(f)) for f in META + ('mydata_',)])
            kept = And(*[new.get(f) == old.get(f) for f in META + ('mydata_',)])
        return [('the first answer is delivered, sharing its data', ForAll([i_], Implies(first, And(yes(c.ret), got)), patterns=[at(v, i_)])),
                ('reports failure and delivers nothing when no vector answers', Implies(ForAll([j_], Implies(And(0 <= j_, j_ < v.len), Not(m(at(v, j_)))), patterns=[at(v, j_)]), And(Not(yes(c.ret)), kept)))]
    return Contract('Jali::State::get', label='State::get(%s,%s,%s,%s%s)' % (T, D, NM[vt], form, ',const' if const else ''), nparams=n, targs=[T, 'Jali::' + D, '?'], sig=sig + (r' const$' if const else '$'), mods=['*%d' % out], modular=False,
                    pre=lambda c: wf(c.p, c.oldf('state_vectors_')), post=post)


def gets(T, D):
    out = []
    for vt in (UNI, MULTI):
        out += [get(T, D, vt, 'copy', False), get(T, D, vt, 'ptr', False), get(T, D, vt, 'ptr', True), get(T, D, vt, 'ptr_short', False), get(T, D, vt, 'ptr_short', True)]
        if D == 'Mesh':
            out += [get(T, D, vt, 'copy_mesh', False)]
    return out


# ---- add
def add(T, D, vt, form):
    C = CLS[vt] % (T, D)
    et = ('real',) if T == 'double' else ('int', True, 32)
    VT = ('vec', et) if vt == UNI else ('vec', ('vec', et))
    n = {'none': 4, 'array': 5 if vt == UNI else 6, 'value': 5, 'vector': 1}[form]
    sig = {'none': r'Entity_type\)$', 'array': r'Entity_type, const %s \*const\)$' % T if vt == UNI else r'\*const \*\)$', 'value': r'Entity_type, const %s &\)$' % T, 'vector': r'\(const %s<%s, %s> &\)$' % (NM[vt], T, D)}[form]
    sig = r'%s<%s, %s>.*' % (NM[vt], T, D) + sig

    def args(c):
        if form != 'vector':
            return c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        a = c.arg(0)
        return a.get('myname_'), c.oldf('mymesh_'), a.get('entity_kind_'), a.get('entity_type_')

    def pre(c):
        n_, dom, k, t = args(c)
        v = c.oldf('state_vectors_')
        out = wf(c.p, v) + [('an entity kind', And(0 <= k, k < 9)), ('a domain', dom > 0), ('as many names as vectors', c.oldf('names_').len == v.len)]
        out += [NENT(dom, k, t) >= 0]
        if vt == MULTI:
            out += [NMATS(SELF) >= 0]
        if form == 'array':
            if vt == UNI:
                out += [('an array of enough values', c.p.load(c.binds[4].lv).len >= NENT(dom, k, t))]
            else:
                out += [Or(c.arg(4) == 0, c.arg(4) == 1), c19.HM[T, D]['rect'](c, c.p.load(c.binds[5].lv), c.arg(4), SELF)]
        if form == 'vector':
            out += [And(c.arg(0).get('mydata_') > 0, ALLOC(c.arg(0).get('mydata_'))), c.oldf('mymesh_') > 0]
            out += [('as many values as entities of this mesh', c.box(c.arg(0).get('mydata_'), VT).len == NENT(dom, k, t)), ('not empty when it comes from another mesh', Or(c.arg(0).get('mydomain_') == dom, NENT(dom, k, t) > 0))]
        return out

    def values(c, d):
        n_, dom, k, t = args(c)
        v = c.box(d, VT)
        num = NENT(dom, k, t)
        if vt == MULTI:
            H = c19.HM[T, D]
            out = H['sizes'](c.p, v, SELF)
            if form == 'array':
                out += [H['values'](c, v, c.p.load(c.binds[5].lv), c.arg(4), SELF, NMATS(SELF))]
            if form == 'value':
                out += [('every value is the given one', ForAll([m_, i_], Implies(And(0 <= m_, m_ < NMATS(SELF), 0 <= i_, i_ < H['ents'](c.p, SELF, m_).len), H['el'](c.p, v, m_, i_) == c.arg(4)), patterns=[H['el'](c.p, v, m_, i_)]))]
            return out
        out = [('one value per entity', v.len == num)]
        src = {'array': lambda: at(c.p.load(c.binds[4].lv), i_), 'value': lambda: c.arg(4), 'vector': lambda: at(c.box(c.arg(0).get('mydata_'), VT, True), i_)}.get(form)
        if src:
            out += [('values as given', ForAll([i_], Implies(And(0 <= i_, i_ < num), at(v, i_) == src()), patterns=[at(v, i_)]))]
        return out

    def post(c):
        v, w = c.oldf('state_vectors_'), c.f('state_vectors_')
        nv, nw = c.oldf('names_'), c.f('names_')
        ei, ej = c.oldf('entity_indexes_'), c.f('entity_indexes_')
        n_, dom, k, t = args(c)
        m = lambda o: match(c.p, o, n_, dom, k, t, D, T, vt, c.heap0)
        first = And(0 <= i_, i_ < v.len, m(at(v, i_)), ForAll([j_], Implies(And(0 <= j_, j_ < i_), Not(m(at(v, j_)))), patterns=[at(v, j_)]))
        none = ForAll([j_], Implies(And(0 <= j_, j_ < v.len), Not(m(at(v, j_)))), patterns=[at(v, j_)])
        root = c.retlv.root
        ro = root.oid if hasattr(root, 'oid') else IntVal(0)
        same = [w.len == v.len, ForAll([j_], Implies(And(0 <= j_, j_ < v.len), at(w, j_) == at(v, j_)), patterns=[at(w, j_)]), nw.len == nv.len, ForAll([j_], Implies(And(0 <= j_, j_ < nv.len), at(nw, j_) == at(nv, j_)), patterns=[at(nw, j_)])]
        eq = lambda a, b: And(a.len == b.len, ForAll([j_], Implies(And(0 <= j_, j_ < b.len), at(a, j_) == at(b, j_)), patterns=[at(a, j_)]))
        o = at(w, v.len)
        out = [('an existing answer is returned', ForAll([i_], Implies(first, ro == at(v, i_)), patterns=[at(v, i_)])),
               ('and nothing is registered', Implies(Not(none), And(*same))), ('nor indexed', Implies(Not(none), And(*[eq(c19.item(c.p, ej, q), c19.item(c.p, ei, q)) for q in range(9)]))),
               ('otherwise one vector is registered', Implies(none, And(w.len == v.len + 1, o > 0, Not(ALLOC(o)), isa(C, o)))),
               ('it is the one returned', Implies(none, ro == o)),
               ('earlier vectors keep their place', Implies(none, ForAll([j_], Implies(And(0 <= j_, j_ < v.len), at(w, j_) == at(v, j_)), patterns=[at(w, j_)]))),
               ('its name is registered', Implies(none, And(nw.len == v.len + 1, at(nw, v.len) == n_))),
               ('earlier names keep their place', Implies(none, ForAll([j_], Implies(And(0 <= j_, j_ < nv.len), at(nw, j_) == at(nv, j_)), patterns=[at(nw, j_)])))]
        for q in range(9):
            a, b = c19.item(c.p, ej, q), c19.item(c.p, ei, q)
            out += [('indexed by kind %d' % q, Implies(none, If(k == q, And(a.len == b.len + 1, at(a, b.len) == v.len, ForAll([j_], Implies(And(0 <= j_, j_ < b.len), at(a, j_) == at(b, j_)), patterns=[at(a, j_)])), eq(a, b))))]
        out += [('name as given', Implies(none, fld(c.p, o, 'myname_') == n_)), ('domain as given', Implies(none, fld(c.p, o, 'mydomain_', None, BASE[vt] % D) == dom)),
                ('kind as given', Implies(none, fld(c.p, o, 'entity_kind_') == k)), ('type as given', Implies(none, fld(c.p, o, 'entity_type_') == t)), ('belongs to this state', Implies(none, fld(c.p, o, 'mystate_') == SELF)) if form != 'vector' else True]
        d = fld(c.p, o, 'mydata_', None, C)
        out += [('data of its own', Implies(none, And(d > 0, Not(ALLOC(d)))))]
        out += [(lab, Implies(none, f)) for lab, f in values(c, d)]
        return out
    return Contract('Jali::State::add', label='State::add(%s,%s,%s,%s)' % (T, D, NM[vt], form), nparams=n, sig=sig, mods=['this.state_vectors_', 'this.names_', 'this.entity_indexes_'], modular=False, dyn={'arrays': ('data',)}, setup=(lambda c: c19.HM[T, D]['setsok'](c.p, SELF)) if vt == MULTI else None,
                    pre=pre, post=post)


def adds(T, D):
    out = [add(T, D, vt, form) for vt in (UNI, MULTI) for form in ('none', 'array', 'value')]
    return out + ([add(T, D, UNI, 'vector')] if D == 'Mesh' else [])


vtype = Contract(SB + '::type', trusted=True, label='StateVectorBase::type (virtual)', ret=lambda c: VTYPE(c.this.root.oid))
selfp = lambda p, argn, n: SELF
def pos(f, get):
    return lambda c: [('position', And(c.ret.pos == get(c), z3.BoolVal(c.ret.lv.root == c.this.root and c.ret.lv.path == c.p.field(c.this, f).path)))]


def elem(c):
    return [('the vector of that index', c.ret == at(c.oldf('state_vectors_'), c.arg(0)))]


SV, NA = 'state_vectors_', 'names_'
acc = [Contract('Jali::State::' + n, label='State::' + n, modular=False, post=pos(f, (lambda f, e: lambda c: c.oldf(f).len if e else IntVal(0))(f, e)))
       for n, f, e in (('begin', SV, 0), ('end', SV, 1), ('cbegin', SV, 0), ('cend', SV, 1), ('names_begin', NA, 0), ('names_end', NA, 1))]
acc += [Contract('Jali::State::size', label='State::size', modular=False, post=lambda c: [('number of registered vectors', c.ret == c.oldf(SV).len)])]
acc += [Contract('Jali::State::operator[]', label='State::operator[]' + x, sig=r'\) const$' if x else r'\)$', modular=False, pre=lambda c: [0 <= c.arg(0), c.arg(0) < c.oldf(SV).len], post=elem) for x in ('', ' const')]
SRC = HERE + '/inst/state.cc'
plain = [find('(name)', False), find('(name)', True)]
def multi(T, D):
    """contracts of the multi-material vectors' own functions, proved in C19"""
    out = [ct for ct in c19.M(T, D) if ct.name.endswith(('::allocate', '::assign'))]
    for ct in out:
        ct.verify = False
    return out


MD, MI = multi('double', 'Mesh'), multi('int', 'MeshTile')
UNITS = lambda: [Unit(SRC, plain + acc + finds('double', 'Mesh') + gets('double', 'Mesh') + adds('double', 'Mesh') + MD + [vtype] + c19.dom + c19.stm),
                 Unit(SRC, finds('int', 'MeshTile') + gets('int', 'MeshTile') + adds('int', 'MeshTile') + MI + [vtype] + c19.dom + c19.stm)]
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c17.cc', repo=_d.ALLSRC, mpi=True, what='random registration histories (names, kinds, types, data types, meshes and tiles, single and multi valued) against a list model, every lookup and get form')]

EXPLANATION = ('Every overload of State::find, get and add (with no data, an array, a value, another vector) is proved on the instantiated template bodies for single and multi-valued vectors of double on the mesh and int on a tile: a lookup returns the position of the first registered vector that answers it or the end; '
               'get delivers that vector or reports failure and changes nothing; add returns the existing answer and changes nothing, or appends exactly one vector with the given name, domain, kind, type and values, its name, and its index under its kind, leaving all earlier entries in place.')
TRUSTED = ['StateVectorBase::type() and dynamic types are fixed by the class of an object', 'shared_from_this() owns the state it is called on', 'num_entities, num_materials and material sets (decided in C15 and C18)', 'MultiStateVector::allocate and assign by their contracts, proved in C19', 'std::vector, std::string, std::shared_ptr, dynamic_pointer_cast']
ASSUMPTIONS = ['names, vectors and per-kind index lists have grown together (add is the only function that changes them, and each call extends them in step)', 'a vector copied from another mesh has as many values as this mesh has entities of its kind and type, and at least one',
               'an array handed to add has an entry for every entity it is read for', 'the bodies are verified for the listed template arguments; other arguments share the same source text and are exercised by the driver']
BOUNDED = ['iteration over the vectors of one kind (boost permutation iterators): driver only; the index lists they walk are proved']
