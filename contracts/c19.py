"""C19: state vectors: one value per entity, deep copies, shared assignment, both storage layouts."""
import os
from .common import *

HERE = os.path.dirname(os.path.abspath(__file__))
NENT = z3.Function('num_entities', *[z3.IntSort()] * 4)          # of a domain, kind and type
NMATS = z3.Function('num_materials', z3.IntSort(), z3.IntSort())   # of a state
MSET = z3.Function('material_set', *[z3.IntSort()] * 3)           # of a state and material: the set object
IDX = z3.Function('index_in_set', *[z3.IntSort()] * 3)            # of a set object and a mesh entity
UN = lambda T, D: 'Jali::UniStateVector<%s, Jali::%s>' % (T, D)
MU = lambda T, D: 'Jali::MultiStateVector<%s, Jali::%s>' % (T, D)
CELLC, MATC = 0, 1
i_, m_, k_ = z3.Ints('i!q m!q k!q')
META = ('myname_', 'entity_kind_', 'entity_type_', 'mystate_', 'mydomain_')


def U(T, D):
    C = UN(T, D)
    et = ('real',) if T == 'double' else ('int', True, 32)
    VT = ('vec', et)
    nm = C.split('<')[0].split('::')[-1]
    dat = lambda c: c.box(c.f('mydata_'), VT)
    odat = lambda c: c.box(c.oldf('mydata_'), VT, True)
    same = lambda a, b: [('as many values', a.len == b.len), ('each value in its place', ForAll([i_], Implies(And(0 <= i_, i_ < b.len), at(a, i_) == at(b, i_)), patterns=[at(a, i_)]))]
    num = lambda c: NENT(c.arg(1), c.arg(3), c.arg(4))
    meta = lambda c: [('name as given', c.f('myname_') == c.arg(0)), ('domain as given', c.f('mydomain_') == c.arg(1)), ('kind as given', c.f('entity_kind_') == c.arg(3)), ('type as given', c.f('entity_type_') == c.arg(4)), ('state as given', c.f('mystate_') == c.arg(2))]
    metaof = lambda c: [('%s of the source' % f, c.f(f) == c.arg(0).get(f)) for f in META]
    own = lambda c: ('data of its own', And(c.f('mydata_') > 0, Not(ALLOC(c.f('mydata_')))))
    has = lambda c: [c.oldf('mydata_') > 0]
    domok = lambda c: [c.arg(1) > 0, num(c) >= 0]
    bx = lambda c: [c.p.deref(c.oldf('mydata_'), ('ptr', VT), None)]
    L = '%s<%s,%s>' % (nm, T, D)
    loaded = lambda c: [('within the data', And(0 <= c.arg(0), c.arg(0) < odat(c).len))]
    isel = lambda c: [('the addressed element of the data', And(z3.BoolVal(getattr(c.retlv.root, 'rec', '').startswith('@')), c.retlv.root.oid == c.oldf('mydata_'), c.retlv.path[1][1] == c.arg(0)) if c.retlv is not None and len(c.retlv.path) == 2 else z3.BoolVal(False))]
    return [
        Contract(C + '::' + nm, nparams=6, sig=r'\*const', label=L + '(array)', dyn={'arrays': ('data',)},
                 pre=lambda c: domok(c) + [('an array of enough values', c.p.load(c.binds[5].lv).len >= num(c))],
                 post=lambda c: meta(c) + [own(c), ('one value per entity', dat(c).len == num(c)), ('the given values in order', ForAll([i_], Implies(And(0 <= i_, i_ < num(c)), at(dat(c), i_) == at(c.p.load(c.binds[5].lv), i_)), patterns=[at(dat(c), i_)]))]),
        Contract(C + '::' + nm, nparams=6, sig=r'\*const', label=L + '(no array)', dyn={'null': ('data',)}, pre=domok,
                 post=lambda c: meta(c) + [own(c), ('one value per entity', dat(c).len == num(c))]),
        Contract(C + '::' + nm, nparams=6, sig=r'Entity_type, %s\)' % T, label=L + '(value)', pre=domok,
                 post=lambda c: meta(c) + [own(c), ('one value per entity', dat(c).len == num(c)), ('every value is the given one', ForAll([i_], Implies(And(0 <= i_, i_ < num(c)), at(dat(c), i_) == c.arg(5)), patterns=[at(dat(c), i_)]))]),
        Contract(C + '::' + nm, nparams=1, label=L + '(copy)', pre=lambda c: [And(c.arg(0).get('mydata_') > 0, ALLOC(c.arg(0).get('mydata_')))],
                 post=lambda c: metaof(c) + [own(c)] + same(dat(c), c.box(c.arg(0).get('mydata_'), VT))),
        Contract(C + '::operator=', label=L + '::operator=', modular=False, mods=['this.' + f for f in META + ('mydata_',)], post=lambda c: metaof(c) + [('shares the data of the source', c.f('mydata_') == c.arg(0).get('mydata_'))]),
        Contract(C + '::operator[]', sig=r'\) const', label=L + '::operator[] const', modular=False, pre=lambda c: has(c) + loaded(c), post=isel),
        Contract(C + '::operator[]', sig=r'\)$', label=L + '::operator[]', modular=False, pre=lambda c: has(c) + loaded(c), post=isel),
        Contract(C + '::size', label=L + '::size', modular=False, pre=has, post=lambda c: [('number of values', c.ret == odat(c).len)]),
        Contract(C + '::resize', nparams=1, label=L + '::resize', mods=[bx], pre=lambda c: has(c), post=lambda c: [('as many values as asked', dat(c).len == c.arg(0)), ('values kept', ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(0), i_ < odat(c).len), at(dat(c), i_) == at(odat(c), i_)), patterns=[at(dat(c), i_)]))]),
        Contract(C + '::resize', nparams=2, label=L + '::resize(value)', mods=[bx], pre=lambda c: has(c), post=lambda c: [('as many values as asked', dat(c).len == c.arg(0)), ('values kept, new ones as given', ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(0)), at(dat(c), i_) == If(i_ < odat(c).len, at(odat(c), i_), c.arg(1))), patterns=[at(dat(c), i_)]))]),
        Contract(C + '::clear', label=L + '::clear', mods=[bx], pre=has, post=lambda c: [('no values', dat(c).len == 0)]),
        Contract(C + '::get_data', label=L + '::get_data', modular=False, post=lambda c: [('the data itself', c.ret == c.oldf('mydata_'))]),
        Contract('Jali::UniStateVectorBase<Jali::%s>::type' % D, label=L + '::type', modular=False, post=lambda c: [('single valued', c.ret == 0)]),
        Contract('Jali::UniStateVectorBase<Jali::%s>::domain' % D, label=L + '::domain', modular=False, post=lambda c: [('domain', c.ret == c.oldf('mydomain_'))]),
    ] + [Contract(C + '::' + f, label=L + '::' + f, modular=False, pre=has, post=(lambda pos: lambda c: [('position in the data', And(c.ret.lv.root.oid == c.oldf('mydata_'), c.ret.pos == (odat(c).len if pos else 0)))])(f in ('end', 'cend'))) for f in ('begin', 'end', 'cbegin', 'cend')]


base = [Contract('Jali::StateVectorBase::' + q, modular=False, post=(lambda f: lambda c: [('as stored', c.ret == c.oldf(f))])(f)) for q, f in (('name', 'myname_'), ('entity_kind', 'entity_kind_'), ('entity_type', 'entity_type_'))]


HM = {}


def M(T, D):
    C = MU(T, D)
    et = ('real',) if T == 'double' else ('int', True, 32)
    V1, V2 = ('vec', et), ('vec', ('vec', et))
    nm = 'MultiStateVector'
    L = '%s<%s,%s>' % (nm, T, D)
    dat = lambda c: c.box(c.f('mydata_'), V2)
    odat = lambda c: c.box(c.oldf('mydata_'), V2, True)
    ln = lambda p, v, m: p.T.sort(V1).accessor(0, 0)(at(v, m))
    el = lambda p, v, m, i: Select(p.T.sort(V1).accessor(0, 1)(at(v, m)), i)
    ents = lambda p, st, m: p.load(p.deref(MSET(st, m), ('ptr', ('rec', 'Jali::MeshSet')), None).ext(('f', 'entityids_all_'), ('vec', ('int', True, 32))))
    has = lambda c: [c.oldf('mydata_') > 0]
    stok = lambda c: [c.oldf('mystate_') != 0, NMATS(c.oldf('mystate_')) >= 0]
    sizes = lambda p, v, st, n=None: [('one list per material', v.len == NMATS(st)), ('one value per cell of each material', ForAll([m_], Implies(And(0 <= m_, m_ < (NMATS(st) if n is None else n)), ln(p, v, m_) == ents(p, st, m_).len), patterns=[ln(p, v, m_), MSET(st, m_)]))]
    setsok = lambda p, st: p.assume(ForAll([m_], Implies(And(0 <= m_, m_ < NMATS(st)), And(MSET(st, m_) > 0, ALLOC(MSET(st, m_)), ents(p, st, m_).len >= 0)), patterns=[MSET(st, m_)]))
    bx = lambda c: [c.p.deref(c.oldf('mydata_'), ('ptr', V2), None)]
    meta = lambda c: [('name as given', c.f('myname_') == c.arg(0)), ('domain as given', c.f('mydomain_') == c.arg(1)), ('kind as given', c.f('entity_kind_') == c.arg(3)), ('type as given', c.f('entity_type_') == c.arg(4)), ('state as given', c.f('mystate_') == c.arg(2))]
    metaof = lambda c: [('%s of the source' % f, c.f(f) == c.arg(0).get(f)) for f in META]
    own = lambda c: ('data of its own', And(c.f('mydata_') > 0, Not(ALLOC(c.f('mydata_')))))

    def val(c, src, layout, m, i, st):
        e = at(ents(c.p, st, m), i)
        return If(layout == CELLC, el(c.p, src, e, m), el(c.p, src, m, e))

    def values(c, v, src, layout, st, n):
        return ('the values given for the cells of each material', ForAll([m_, i_], Implies(And(0 <= m_, m_ < n, 0 <= i_, i_ < ents(c.p, st, m_).len), el(c.p, v, m_, i_) == val(c, src, layout, m_, i_, st)), patterns=[z3.MultiPattern(el(c.p, v, m_, i_))]))

    def rect(c, src, layout, st):
        """the array has an entry for each cell of each material"""
        e = at(ents(c.p, st, m_), i_)
        return ('array covers the cells of every material', ForAll([m_, i_], Implies(And(0 <= m_, m_ < NMATS(st), 0 <= i_, i_ < ents(c.p, st, m_).len),
                And(e >= 0, If(layout == CELLC, And(e < src.len, m_ < ln(c.p, src, e)), And(m_ < src.len, e < ln(c.p, src, m_))))), patterns=[at(ents(c.p, st, m_), i_)]))

    def aloop(kind):
        def loops(Lc):
            p, c = Lc.p, Lc.ctx
            st = c.oldf('mystate_')
            setsok(p, st)
            v = p.load(p.deref(Lc.f('mydata_'), ('ptr', V2), None))
            m = Lc.local('m')
            here = Lc.f('mydata_')
            src = None if kind != 'array' else p.load(c.binds[1].lv)
            want = (lambda mm, i: val(c, src, c.arg(0), mm, i, st)) if kind == 'array' else (lambda mm, i: c.arg(0))
            out = [('materials', And(0 <= m, m <= NMATS(st))), ('lists', v.len == NMATS(st)), ('no other data written', p.heap_same(V2, [here], c.heap0)),
                   ('sizes so far', ForAll([m_], Implies(And(0 <= m_, m_ < m), ln(p, v, m_) == ents(p, st, m_).len), patterns=[ln(p, v, m_)]))]
            if kind in ('array', 'value'):
                out += [('values so far', ForAll([m_, i_], Implies(And(0 <= m_, m_ < m, 0 <= i_, i_ < ents(p, st, m_).len), el(p, v, m_, i_) == want(m_, i_)), patterns=[el(p, v, m_, i_)]))]
                if Lc.ordinal == 1:
                    i = Lc.local('i')
                    n = Lc.local('numents')
                    out += [('cells', And(0 <= i, i <= n, n == ents(p, st, m).len)), ('this list', And(m < NMATS(st), ln(p, v, m) == n)),
                            ('values of this material so far', ForAll([i_], Implies(And(0 <= i_, i_ < i), el(p, v, m, i_) == want(m, i_)), patterns=[el(p, v, m, i_)]))]
            return out
        return loops

    def rd(c):
        st = c.oldf('mystate_')
        m = If(c.arg(2) == MATC, c.arg(0), c.arg(1))
        cell = If(c.arg(2) == MATC, c.arg(1), c.arg(0))
        return st, m, cell, IDX(MSET(st, m), cell)

    def rdpre(c):
        st, m, cell, ix = rd(c)
        v = odat(c)
        return has(c) + stok(c) + [('a material of the state', And(0 <= m, m < NMATS(st))), ('a cell', cell >= 0), MSET(st, m) > 0] + sizes(c.p, v, st)

    def rdpost(c):
        st, m, cell, ix = rd(c)
        e = ents(c.p, st, m)
        return st, m, cell, ix, e
    setarr = lambda c: setsok(c.p, c.oldf('mystate_'))

    def ctorset(c):
        st = c.arg(2)
        setsok(c.p, st)
    HM[(T, D)] = dict(rect=rect, values=values, sizes=sizes, setsok=setsok, el=el, ents=ents)
    ctor_pre = lambda c: [c.arg(2) != 0, NMATS(c.arg(2)) >= 0]
    isptr = lambda c, m: [('the values of that material', And(c.retlv.root.oid == c.oldf('mydata_'), c.retlv.path[1][1] == m) if c.retlv is not None and len(c.retlv.path) == 2 else z3.BoolVal(False))]
    mat = lambda c: [('a material of the vector', And(0 <= c.arg(0), c.arg(0) < odat(c).len))]
    others = lambda c, lim: ForAll([m_], Implies(And(0 <= m_, m_ < lim, m_ != c.arg(0)), at(dat(c), m_) == at(odat(c), m_)), patterns=[at(dat(c), m_)])
    return [
        Contract(C + '::allocate', label=L + '::allocate', mods=['this.mydata_'], allocates=[(V2, lambda c: c.f('mydata_'))], setup=setarr, pre=stok, loops=aloop('none'),
                 post=lambda c: [own(c)] + sizes(c.p, dat(c), c.oldf('mystate_'))),
        Contract(C + '::assign', nparams=2, label=L + '::assign(layout,array)', dyn={'arrays': ('data',)}, mods=[bx], setup=setarr, loops=aloop('array'),
                 pre=lambda c: has(c) + stok(c) + [Or(c.arg(0) == CELLC, c.arg(0) == MATC), rect(c, c.p.load(c.binds[1].lv), c.arg(0), c.oldf('mystate_'))],
                 post=lambda c: sizes(c.p, dat(c), c.oldf('mystate_')) + [values(c, dat(c), c.p.load(c.binds[1].lv), c.arg(0), c.oldf('mystate_'), NMATS(c.oldf('mystate_')))], timeout=150),
        Contract(C + '::assign', nparams=1, label=L + '::assign(value)', mods=[bx], setup=setarr, loops=aloop('value'), pre=lambda c: has(c) + stok(c),
                 post=lambda c: sizes(c.p, dat(c), c.oldf('mystate_')) + [('every value is the given one', ForAll([m_, i_], Implies(And(0 <= m_, m_ < dat(c).len, 0 <= i_, i_ < ents(c.p, c.oldf('mystate_'), m_).len), el(c.p, dat(c), m_, i_) == c.arg(0)), patterns=[el(c.p, dat(c), m_, i_)]))]),
        Contract(C + '::' + nm, nparams=7, label=L + '(array)', dyn={'arrays': ('data',)}, setup=ctorset, modular=False, allocates=[(V2, lambda c: c.f('mydata_'))],
                 pre=lambda c: ctor_pre(c) + [Or(c.arg(5) == CELLC, c.arg(5) == MATC), rect(c, c.p.load(c.binds[6].lv), c.arg(5), c.arg(2))],
                 post=lambda c: meta(c) + [own(c)] + sizes(c.p, dat(c), c.arg(2)) + [values(c, dat(c), c.p.load(c.binds[6].lv), c.arg(5), c.arg(2), NMATS(c.arg(2)))]),
        Contract(C + '::' + nm, nparams=6, label=L + '(value)', setup=ctorset, modular=False, allocates=[(V2, lambda c: c.f('mydata_'))], pre=ctor_pre,
                 post=lambda c: meta(c) + [own(c)] + sizes(c.p, dat(c), c.arg(2)) + [('every value is the given one', ForAll([m_, i_], Implies(And(0 <= m_, m_ < dat(c).len, 0 <= i_, i_ < ents(c.p, c.arg(2), m_).len), el(c.p, dat(c), m_, i_) == c.arg(5)), patterns=[el(c.p, dat(c), m_, i_)]))]),
        Contract(C + '::' + nm, nparams=1, label=L + '(copy)', modular=False, pre=lambda c: [And(c.arg(0).get('mydata_') > 0, ALLOC(c.arg(0).get('mydata_')))],
                 post=lambda c: metaof(c) + [own(c), ('as many materials', dat(c).len == c.box(c.arg(0).get('mydata_'), V2).len), ('same values', ForAll([m_], Implies(And(0 <= m_, m_ < dat(c).len), at(dat(c), m_) == at(c.box(c.arg(0).get('mydata_'), V2), m_)), patterns=[at(dat(c), m_)]))]),
        Contract(C + '::operator=', label=L + '::operator=', modular=False, mods=['this.' + f for f in META + ('mydata_',)], post=lambda c: metaof(c) + [('shares the data of the source', c.f('mydata_') == c.arg(0).get('mydata_'))]),
        Contract(C + '::operator()', sig=r'\) const', label=L + '::operator() const', modular=False, setup=setarr, pre=rdpre,
                 post=lambda c: [('value of the material in the cell, zero when it is not there', (lambda st, m, cell, ix, e: And(Implies(ix != -1, c.ret == el(c.p, odat(c), m, ix)), Implies(ix == -1, c.ret == 0)))(*rdpost(c)))]),
        Contract(C + '::operator()', sig=r'\)$', label=L + '::operator()', modular=False, setup=setarr, pre=rdpre, throws=lambda c: rd(c)[3] == -1,
                 post=lambda c: [('the addressed value', And(c.retlv.root.oid == c.oldf('mydata_'), c.retlv.path[1][1] == rd(c)[1], c.retlv.path[2][1] == rd(c)[3]) if c.retlv is not None and len(c.retlv.path) == 3 else z3.BoolVal(False))]),
        Contract(C + '::size', nparams=0, label=L + '::size', modular=False, pre=has, post=lambda c: [('number of materials', c.ret == odat(c).len)]),
        Contract(C + '::size', nparams=1, label=L + '::size(m)', modular=False, pre=lambda c: has(c) + mat(c), post=lambda c: [('number of values of the material', c.ret == ln(c.p, odat(c), c.arg(0)))]),
        Contract(C + '::resize', nparams=2, label=L + '::resize', mods=[bx], pre=lambda c: has(c) + mat(c), post=lambda c: [('as many values as asked', ln(c.p, dat(c), c.arg(0)) == c.arg(1)), ('as many materials', dat(c).len == odat(c).len), ('other materials unchanged', others(c, odat(c).len)),
                 ('values kept', ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(1), i_ < ln(c.p, odat(c), c.arg(0))), el(c.p, dat(c), c.arg(0), i_) == el(c.p, odat(c), c.arg(0), i_)), patterns=[el(c.p, dat(c), c.arg(0), i_)]))]),
        Contract(C + '::resize', nparams=3, label=L + '::resize(value)', mods=[bx], pre=lambda c: has(c) + mat(c), post=lambda c: [('as many values as asked', ln(c.p, dat(c), c.arg(0)) == c.arg(1)), ('as many materials', dat(c).len == odat(c).len), ('other materials unchanged', others(c, odat(c).len)),
                 ('values kept, new ones as given', ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(1)), el(c.p, dat(c), c.arg(0), i_) == If(i_ < ln(c.p, odat(c), c.arg(0)), el(c.p, odat(c), c.arg(0), i_), c.arg(2))), patterns=[el(c.p, dat(c), c.arg(0), i_)]))]),
        Contract(C + '::insert', nparams=3, label=L + '::insert', mods=[bx], pre=lambda c: has(c) + mat(c) + [0 <= c.arg(1), c.arg(1) <= ln(c.p, odat(c), c.arg(0)), c.arg(2) >= 0], post=lambda c: [('room for the new values', ln(c.p, dat(c), c.arg(0)) == ln(c.p, odat(c), c.arg(0)) + c.arg(2)), ('as many materials', dat(c).len == odat(c).len), ('other materials unchanged', others(c, odat(c).len)),
                 ('values before the position kept', ForAll([i_], Implies(And(0 <= i_, i_ < c.arg(1)), el(c.p, dat(c), c.arg(0), i_) == el(c.p, odat(c), c.arg(0), i_)), patterns=[el(c.p, dat(c), c.arg(0), i_)])),
                 ('values after it moved', ForAll([i_], Implies(And(c.arg(1) + c.arg(2) <= i_, i_ < ln(c.p, dat(c), c.arg(0))), el(c.p, dat(c), c.arg(0), i_) == el(c.p, odat(c), c.arg(0), i_ - c.arg(2))), patterns=[el(c.p, dat(c), c.arg(0), i_)]))]),
        Contract(C + '::get_data', label=L + '::get_data', modular=False, post=lambda c: [('the data itself', c.ret == c.oldf('mydata_'))]),
        Contract(C + '::clear', nparams=0, label=L + '::clear', mods=[bx], pre=has, post=lambda c: [('no materials', dat(c).len == 0)]),
        Contract(C + '::clear', nparams=1, label=L + '::clear(m)', mods=[bx], pre=lambda c: has(c) + mat(c), post=lambda c: [('no values for the material', ln(c.p, dat(c), c.arg(0)) == 0), ('as many materials', dat(c).len == odat(c).len), ('other materials unchanged', others(c, odat(c).len))]),
        Contract(C + '::add_material', label=L + '::add_material', mods=[bx], pre=lambda c: has(c) + [c.arg(0) >= 0], post=lambda c: [('one more material', dat(c).len == odat(c).len + 1), ('with a value for each of its cells', ln(c.p, dat(c), odat(c).len) == c.arg(0)),
                 ('values of other materials kept', ForAll([m_], Implies(And(0 <= m_, m_ < odat(c).len), at(dat(c), m_) == at(odat(c), m_)), patterns=[at(dat(c), m_)]))]),
        Contract(C + '::rem_material', label=L + '::rem_material', mods=[bx], pre=lambda c: has(c) + mat(c), post=lambda c: [('one material less', dat(c).len == odat(c).len - 1),
                 ('values of other materials kept', ForAll([m_], Implies(And(0 <= m_, m_ < dat(c).len), at(dat(c), m_) == at(odat(c), If(m_ < c.arg(0), m_, m_ + 1))), patterns=[at(dat(c), m_)]))]),
        Contract(C + '::get_matdata', sig=r'\)$', label=L + '::get_matdata', modular=False, pre=lambda c: has(c) + mat(c), post=lambda c: isptr(c, c.arg(0))),
        Contract(C + '::get_matdata', sig=r'\) const', label=L + '::get_matdata const', modular=False, pre=lambda c: has(c) + mat(c), post=lambda c: isptr(c, c.arg(0))),
        Contract('Jali::MultiStateVectorBase<Jali::%s>::type' % D, label=L + '::type', modular=False, post=lambda c: [('multi valued', c.ret == 1)]),
    ]


dom = [Contract('Jali::%s::num_entities' % d, trusted=True, label='%s::num_entities' % d, ret=lambda c: NENT(c.this.root.oid, c.arg(0), c.arg(1))) for d in ('Mesh', 'MeshTile')]
stm = [Contract('Jali::state_get_num_materials', trusted=True, label='state_get_num_materials', ret=lambda c: NMATS(c.arg(0))),
       Contract('Jali::state_get_material_set', trusted=True, label='state_get_material_set', pre=lambda c: [And(0 <= c.arg(1), c.arg(1) < NMATS(c.arg(0)))], ret=lambda c: MSET(c.arg(0), c.arg(1)))]


def idx(c):
    return IDX(c.this.root.oid, c.arg(0))


def idxpost(c):
    v = c.p.load(c.p.field(c.this, 'entityids_all_'))
    r = idx(c)
    return [Or(r == -1, And(0 <= r, r < v.len, at(v, r) == c.arg(0)))]


iset = Contract('Jali::MeshSet::index_in_set', trusted=True, label='MeshSet::index_in_set', ret=idx, post=idxpost)
SRC = HERE + '/inst/state_vector.cc'
UNITS = lambda: [Unit(SRC, U('double', 'Mesh') + base + dom + stm), Unit(SRC, U('int', 'MeshTile') + dom + stm), Unit(SRC, M('double', 'Mesh') + dom + stm + [iset])]
LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c19.cc', repo=_d.ALLSRC, mpi=True, what='vectors of double, int and array<double,2> on meshes (with ghosts), tiles and mesh sets, every entity kind and type, against plain arrays; multi-material vectors in both layouts; copies, assignments, resizes, type queries')]
EXPLANATION = ('Every constructor, copy, assignment, accessor, iterator and resize of UniStateVector<double,Mesh>, UniStateVector<int,MeshTile> and MultiStateVector<double,Mesh> is proved on the instantiated template bodies: '
               'the number of values equals num_entities of the domain (one list per material, one value per cell of its set), values are the given ones in order whichever layout, a copy owns fresh data with equal values, an assigned vector points to the data of its source, element access addresses exactly the named element.')
TRUSTED = ['num_entities of the domain is a function of domain, kind and type (decided in C15)', 'state_get_num_materials and state_get_material_set return the number of materials and the set of a material of the state (decided in C18)',
           'MeshSet::index_in_set is the position in the set or -1 (decided in C09)', 'std::type_info comparisons in data_type (covered by the driver only)', 'std::shared_ptr, std::vector']
ASSUMPTIONS = ['an array handed to a vector has an entry for every entity (every cell and material) it is read for', 'the bodies are verified for the listed template arguments; other arguments share the same source text and are exercised by the driver',
               'int and size_t counts do not overflow']


def item(p, a, k):
    """entry k of a fixed size array value of vectors"""
    from cxv.ctypes_ import ArrV
    return a.items[k]
