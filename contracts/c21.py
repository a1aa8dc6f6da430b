"""C21: error messages and error policy."""
from .common import *
from cxv.engine import FMTD, FMTG

MSG = 'Errors::Message'
X = 'Exceptions::'
RAISE, ABORT = 0, 1
POLICY = z3.Int('policy in force')     # what exception_behavior() returns (for code in other translation units)

from cxv.stl import strof
text = lambda c, i=0: strof(c.p, c.arg(i))
ctor = lambda want: (lambda c: [('text', c.f('message_') == want(c))])
app = lambda what: (lambda c: [('text appended at the end', c.cur(0).get('message_') == z3.Concat(c.old(0).get('message_'), what(c))), ('the message itself is returned', c.retlv is not None and z3.BoolVal(c.retlv.root == c._ref(0).root))])
addp = lambda c: [('text appended at the end', c.f('message_') == z3.Concat(c.oldf('message_'), text(c)))]

errors = [
    Contract(MSG + '::Message', nparams=0, label='Message()', post=ctor(lambda c: z3.StringVal(''))),
    Contract(MSG + '::Message', sig=r'char', label='Message(const char*)', post=ctor(text)),
    Contract(MSG + '::Message', sig=r'string', label='Message(string)', post=ctor(text)),
    Contract(MSG + '::what', ret=lambda c: c.oldf('message_')),
    Contract(MSG + '::add_data', sig=r'char \*', label='add_data(const char*)', mods=['this.message_'], post=addp),
    Contract(MSG + '::add_data', sig=r'string', label='add_data(string)', mods=['this.message_'], post=addp),
    Contract('Errors::operator<<', sig=r', const char \*', label='operator<<(const char*)', mods=['*0'], post=app(lambda c: text(c, 1))),
    Contract('Errors::operator<<', sig=r', const std::.*string', label='operator<<(string)', mods=['*0'], post=app(lambda c: text(c, 1))),
    Contract('Errors::operator<<', sig=r', int\)', label='operator<<(int)', mods=['*0'], post=app(lambda c: FMTD(c.arg(1)))),
    Contract('Errors::operator<<', sig=r', double\)', label='operator<<(double)', mods=['*0'], post=app(lambda c: FMTG(c.arg(1)))),
]
G = dict(uses_globals=['behavior'])
policy = [
    Contract(X + 'exception_behavior', ret=lambda c: c.oldg('behavior'), **G),
    Contract(X + 'set_exception_behavior_raise', mods=['global:behavior'], post=lambda c: [('policy is to raise', c.g('behavior') == RAISE)], **G),
    Contract(X + 'set_exception_behavior_abort', mods=['global:behavior'], post=lambda c: [('policy is to abort', c.g('behavior') == ABORT)], **G),
    Contract(X + 'set_exception_behavior', mods=['global:behavior'], post=lambda c: [('policy is the given one', c.g('behavior') == c.arg(0))], **G),
]
asked = Contract(X + 'exception_behavior', label='exception_behavior()', trusted=True, ret=lambda c: POLICY, post=lambda c: [])


def same_exception(c):
    e, a = c.exc, c.arg(0)
    if isinstance(a, RecV) and a.get('message_') is not None:
        return [('carries the message of the given error', e.get('message_') == a.get('message_'))]
    return []


raising = lambda s: Contract(X + 'Jali_throw', label='Jali_throw in ' + s.split('/')[-1], throws=lambda c: POLICY == RAISE, aborts=lambda c: POLICY != RAISE, thrown=same_exception, setup=lambda c: c.p.assume(Or(POLICY == RAISE, POLICY == ABORT)))
SITES = ['src/geometry/' + f for f in ('BoxRegion.cc', 'PlaneRegion.cc', 'PointRegion.cc', 'PolygonRegion.cc', 'LogicalRegion.cc', 'LabeledSetRegion.cc')] + \
        ['src/mesh/Mesh.cc', 'src/mesh/mesh_simple/Mesh_simple.cc', 'src/mesh/mesh_factory/MeshFactory.cc']
UNITS = lambda: [Unit('src/error_handling/errors.cc', errors, filters=('Errors',)), Unit('src/error_handling/exceptions.cc', policy, filters=('Exceptions',))] + [Unit(s, [raising(s), asked], filters=('Exceptions', 'Errors')) for s in SITES]


def LEMMAS():
    a, b, d = z3.Strings('a b d')
    return [('appending twice appends the concatenation', [], z3.Concat(z3.Concat(a, b), d) == z3.Concat(a, z3.Concat(b, d)))]


LEVEL = 'proof'
from cxv import driver as _d
DRIVERS = [dict(src='c21.cc', repo=_d.ALLSRC, mpi=True, what='random append histories against the C library format; every policy history; errors raised by regions, mesh, factory and the program itself under both policies (aborting in a child process)')]
EXPLANATION = ('Every Message constructor and append operator is proved to append exactly its argument (numbers in the text snprintf gives for %d and %g); the policy functions set and return one variable; '
               'each instance of Jali_throw in every translation unit that raises errors throws its argument when exception_behavior() is RAISE and aborts otherwise.')
TRUSTED = ['snprintf writes the decimal text of %d and %g (at most 11 and 13 characters)', 'std::string concatenation', 'exception_behavior() in other translation units is the one function verified in exceptions.cc']
