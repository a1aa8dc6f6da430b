"""C04: Point arithmetic."""
from .common import *

PT = 'JaliGeometry::Point'
two = 'const (JaliGeometry::)?Point &, const (JaliGeometry::)?Point &'


def bin_(op):
    return lambda c: pt_is(c.ret, dim(c.arg(0)), lambda k: op(co(c.arg(0), k), co(c.arg(1), k)))


def same_dim(c):
    return [('valid dimension', valid(c.arg(0))), ('equal dimensions', dim(c.arg(0)) == dim(c.arg(1)))]


def cross_post(c):
    p, q = c.arg(0), c.arg(1)
    d, r = dim(p), c.ret
    x = vec(p, 3).cross(vec(q, 3)).c
    return [('dimension', dim(r) == d),
            ('scalar product in 1D vanishes', Implies(d == 1, co(r, 0) == 0)),
            ('signed area in 2D', Implies(d == 2, co(r, 0) == co(p, 0) * co(q, 1) - co(p, 1) * co(q, 0)))] + \
        [('vector product %d' % k, Implies(d == 3, co(r, k) == x[k])) for k in range(3)]


def this_is(d, f):
    """post state of *this"""
    def post(c):
        dd = d(c)
        out = [('dimension', c.f('d') == dd)]
        x = c.f('xyz')
        for k in range(3):
            out.append(('coordinate %d' % k, Implies(k < dd, term(x.items[k] if not isinstance(x, Undef) else Undef(('real',))) == f(c, k))))
        return out
    return post


def returns_this(c):
    lv = getattr(c, 'retlv', None)
    return [('returns the object itself', lv is not None and lv.root is c.this.root and lv.path == c.this.path)]


def inplace(op):
    b = this_is(lambda c: c.oldf('d'), lambda c, k: op(c.oldf('xyz').items[k], c.arg(0), k))
    return lambda c: b(c)


ON = dict(mods=['this.xyz'])
vthis = lambda c: [('valid dimension', And(c.oldf('d') >= 1, c.oldf('d') <= 3))]
vsame = lambda c: vthis(c) + [('equal dimensions', dim(c.arg(0)) == c.oldf('d'))]
nz = ('divisor is not zero',)


def point_contracts(modular=False, names=None):
    cs = []

    def K(label, name, **kw):
        kw.setdefault('modular', modular)
        cs.append(Contract(name, label=label, **kw))
    K('Point::operator+', PT + '::operator+', sig=two, pre=same_dim, post=bin_(lambda a, b: a + b))
    K('Point::operator-(binary)', PT + '::operator-', sig=two, pre=same_dim, post=bin_(lambda a, b: a - b))
    K('Point::operator-(unary)', PT + '::operator-', nparams=1, pre=lambda c: [valid(c.arg(0))],
      post=lambda c: pt_is(c.ret, dim(c.arg(0)), lambda k: -co(c.arg(0), k)))
    K('Point::operator*(scalar,point)', PT + '::operator*', sig=r'\(const double &, const', pre=lambda c: [valid(c.arg(1))],
      post=lambda c: pt_is(c.ret, dim(c.arg(1)), lambda k: c.arg(0) * co(c.arg(1), k)))
    K('Point::operator*(point,scalar)', PT + '::operator*', sig=r'Point &, const double &', pre=lambda c: [valid(c.arg(0))],
      post=lambda c: pt_is(c.ret, dim(c.arg(0)), lambda k: c.arg(1) * co(c.arg(0), k)))
    K('Point::operator/', PT + '::operator/', sig=r'Point &, const double &', pre=lambda c: [valid(c.arg(0)), c.arg(1) != 0],
      post=lambda c: pt_is(c.ret, dim(c.arg(0)), lambda k: co(c.arg(0), k) / c.arg(1)))
    K('Point::operator*(dot)', PT + '::operator*', sig=two, pre=same_dim,
      post=lambda c: [('inner product', c.ret == dot(c.arg(0), c.arg(1)))])
    K('Point::operator^', PT + '::operator^', sig=two, pre=same_dim, post=cross_post)
    K('L22', 'JaliGeometry::L22', pre=lambda c: [valid(c.arg(0))], post=lambda c: [('squared length', c.ret == dot(c.arg(0), c.arg(0)))])
    K('norm', 'JaliGeometry::norm', pre=lambda c: [valid(c.arg(0))],
      post=lambda c: [('length', And(c.ret >= 0, c.ret * c.ret == dot(c.arg(0), c.arg(0))))])
    for op, nm in ((lambda a, p, k: a + co(p, k), '+='), (lambda a, p, k: a - co(p, k), '-=')):
        K('Point::operator' + nm, PT + '::operator' + nm, pre=vsame, mods=['this.xyz'],
          post=lambda c, op=op: inplace(op)(c) + returns_this(c))
    for op, nm in ((lambda a, r, k: a * r, '*='), (lambda a, r, k: a / r, '/=')):
        K('Point::operator' + nm, PT + '::operator' + nm, mods=['this.xyz'],
          pre=lambda c, nm=nm: vthis(c) + ([('divisor is not zero', c.arg(0) != 0)] if nm == '/=' else []),
          post=lambda c, op=op: inplace(op)(c) + returns_this(c))
    def own(j):
        def setup(c):
            # the factor is a reference to a coordinate of the point itself
            from cxv.ast import params
            p0 = params(c.fn)[0]
            if c.p.T.of(p0['type'])[0] == 'ref':
                lv = c.p.field(c.this, 'xyz').ext(('i', IntVal(j)), ('real',))
                c.binds[0] = lv
                c.p.frames[-1][p0['id']] = lv
            else:
                c.p.assume(c.arg(0) == c.f('xyz').items[j])
            c.p.assume(c.oldf('d') > j)
        return setup
    for j in range(3):
        for op, nm in ((lambda a, r, k: a * r, '*='), (lambda a, r, k: a / r, '/=')):
            K('Point::operator%s (by own coordinate %d)' % (nm, j), PT + '::operator' + nm, mods=['this.xyz'], setup=own(j),
              pre=lambda c, nm=nm: vthis(c) + ([('divisor is not zero', c.arg(0) != 0)] if nm == '/=' else []),
              post=lambda c, op=op: inplace(op)(c) + returns_this(c))
    K('Point::operator=', PT + '::operator=', sig='const (JaliGeometry::)?Point &', mods=['this.xyz', 'this.d'], pre=lambda c: [valid(c.arg(0))],
      post=lambda c: this_is(lambda c: dim(c.arg(0)), lambda c, k: co(c.arg(0), k))(c) + returns_this(c))
    K('Point::Point(copy)', PT + '::Point', sig=r'\(const (JaliGeometry::)?Point &\)', pre=lambda c: [valid(c.arg(0))],
      post=this_is(lambda c: dim(c.arg(0)), lambda c, k: co(c.arg(0), k)))
    K('Point::Point()', PT + '::Point', nparams=0, post=lambda c: [('empty dimension', c.f('d') == 0)])
    K('Point::Point(int)', PT + '::Point', sig=r'\(const int\)', pre=lambda c: [And(c.arg(0) >= 1, c.arg(0) <= 3)],
      post=this_is(lambda c: c.arg(0), lambda c, k: RealVal(0)))
    K('Point::Point(x,y)', PT + '::Point', nparams=2, post=this_is(lambda c: IntVal(2), lambda c, k: c.arg(min(k, 1))))
    K('Point::Point(x,y,z)', PT + '::Point', nparams=3, post=this_is(lambda c: IntVal(3), lambda c, k: c.arg(k)))
    K('Point::set(value)', PT + '::set', sig=r'\((const )?double( &)?\)', pre=vthis, mods=['this.xyz'],
      post=this_is(lambda c: c.oldf('d'), lambda c, k: c.arg(0)))
    K('Point::set(point)', PT + '::set', sig=r'Point &\)', pre=lambda c: [valid(c.arg(0))], mods=['this.xyz', 'this.d'],
      post=this_is(lambda c: dim(c.arg(0)), lambda c, k: co(c.arg(0), k)))
    arr = lambda i: (lambda c, k: at(c.p.load(c.arg(i).lv, c.store0, c.heap0), k))
    K('Point::set(array)', PT + '::set', sig=r'\(const double \*\)', mods=['this.xyz'], dyn={'arrays': ('val',)},
      pre=lambda c: vthis(c) + [c.p.load(c.arg(0).lv).len >= c.oldf('d')],
      post=this_is(lambda c: c.oldf('d'), arr(0)))
    K('Point::set(int,array)', PT + '::set', sig=r'\(const int, const double \*\)', mods=['this.xyz', 'this.d'], dyn={'arrays': ('val',)},
      pre=lambda c: [And(c.arg(0) >= 1, c.arg(0) <= 3), c.p.load(c.arg(1).lv).len >= c.arg(0)],
      post=this_is(lambda c: c.arg(0), arr(1)))
    K('Point::set(x,y)', PT + '::set', sig=r'\((const )?double( &)?, (const )?double( &)?\)', mods=['this.xyz', 'this.d'],
      post=this_is(lambda c: IntVal(2), lambda c, k: c.arg(min(k, 1))))
    K('Point::set(x,y,z)', PT + '::set', nparams=3, mods=['this.xyz', 'this.d'], post=this_is(lambda c: IntVal(3), lambda c, k: c.arg(k)))
    for k, nm in enumerate('xyz'):
        K('Point::' + nm, PT + '::' + nm, pre=vthis,
          post=lambda c, k=k: [('coordinate or zero beyond the dimension', c.ret == If(k < c.oldf('d'), c.oldf('xyz').items[k], RealVal(0)))])
    K('Point::dim', PT + '::dim', post=lambda c: [('dimension', c.ret == c.oldf('d'))])
    K('Point::operator[]', PT + '::operator[]', pre=lambda c: vthis(c) + [And(c.arg(0) >= 0, c.arg(0) < c.oldf('d'))],
      post=lambda c: [('addressed coordinate %d' % k, Implies(c.arg(0) == k, c.ret == c.oldf('xyz').items[k])) for k in range(3)])
    K('Point::is_valid', PT + '::is_valid', post=lambda c: [('1, 2 and 3 are the valid dimensions', (c.ret == 1) == And(c.oldf('d') >= 1, c.oldf('d') <= 3))])
    return cs


UNITS = lambda: [Unit('src/geometry/Geometry.cc', point_contracts())]
DRIVERS = [dict(src='c04.cc', repo=[], what='every Point operation on grids and random coordinates, incl. aliased operands')]
