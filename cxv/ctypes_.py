"""C++ type strings -> small tuples, and tuples -> z3 sorts; structured values."""
import re, z3
from fractions import Fraction

INTS = {'int': (True, 32), 'unsigned int': (False, 32), 'unsigned': (False, 32), 'long': (True, 64),
        'unsigned long': (False, 64), 'long long': (True, 64), 'unsigned long long': (False, 64),
        'short': (True, 16), 'unsigned short': (False, 16), 'signed char': (True, 8), 'unsigned char': (False, 8),
        'char': (True, 8), 'size_t': (False, 64), 'std::size_t': (False, 64), 'size_type': (False, 64),
        'difference_type': (True, 64), 'ptrdiff_t': (True, 64)}


class Unsupported(Exception):
    pass


def strip_ns(s):
    for p in ('std::__cxx11::', 'std::', 'JaliGeometry::', 'Jali::', '__gnu_cxx::', 'Errors::', 'Exceptions::'):
        if s.startswith(p):
            return strip_ns(s[len(p):])
    return s


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            depth += 1
        if ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


SORTS = {}


class Types:
    def __init__(self, tu):
        self.tu = tu
        self.cache = {}
        self.sorts = SORTS

    def parse(self, s):
        if s in self.cache:
            return self.cache[s]
        r = self._parse(s.strip())
        self.cache[s] = r
        return r

    def of(self, node_type):
        """node['type'] dict"""
        q = node_type.get('desugaredQualType') or node_type['qualType']
        try:
            t = self.parse(q)
            if t[0] != 'opaque':
                return t
        except Unsupported:
            pass
        return self.parse(node_type['qualType'])

    def _parse(self, s):
        s = s.strip()
        # function types etc.
        while True:
            o = s
            s = re.sub(r'^(const|volatile|struct|class|enum|typename)\s+', '', s)
            s = re.sub(r'\s*(\bconst|\bvolatile|__restrict)$', '', s).strip()
            if s == o:
                break
        if s.endswith('&&'):
            return ('ref', self.parse(s[:-2]))
        if s.endswith('&'):
            return ('ref', self.parse(s[:-1]))
        if re.sub(r'\s', '', s) == 'ompi_communicator_t*':
            return ('int', True, 64)
        if s.endswith('*'):
            return ('ptr', self.parse(s[:-1]))
        m = re.match(r'^(.*?)\s*\[(\d+)\]$', s)
        if m:
            return ('arr', self.parse(m.group(1)), int(m.group(2)))
        m = re.match(r'^(.*)\s*\[\]$', s)
        if m:
            return ('ptr', self.parse(m.group(1)))
        if s in INTS:
            return ('int',) + INTS[s]
        if s in ('double', 'float', 'long double'):
            return ('real',)
        if s == 'bool':
            return ('bool',)
        if s == 'void':
            return ('void',)
        if s in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>', 'std::__cxx11::basic_string<char>'):
            return ('str',)
        if s in ('std::nullptr_t', 'nullptr_t'):
            return ('ptr', ('void',))
        b = strip_ns(s)
        m = re.match(r'^([\w:~]+)<(.*)>$', b)
        if m:
            name, args = m.group(1), split_args(m.group(2))
            if name == 'vector':
                return ('vec', self.parse(args[0]))
            if name == 'array':
                n = re.sub(r'\(.*\)', '', args[1]).rstrip('UL').strip()
                try:
                    return ('arr', self.parse(args[0]), int(n))
                except ValueError:
                    return ('opaque', s)
            if name in ('shared_ptr', '__shared_ptr_access', '__shared_ptr'):
                return ('ptr', self.parse(args[0]))
            if name == 'weak_ptr':
                return ('ptr', self.parse(args[0]))
            if name == 'pair':
                return ('pair', self.parse(args[0]), self.parse(args[1]))
            if name == 'map':
                return ('map', self.parse(args[0]), self.parse(args[1]))
            if name in ('__normal_iterator', '_Bit_iterator', 'move_iterator'):
                return ('iter', s)
            if name == 'initializer_list':
                return ('vec', self.parse(args[0]))
            for full in ('Jali::' + name, 'JaliGeometry::' + name):
                if full in self.tu.tdefaults:
                    a = args + [x or '?' for x in self.tu.tdefaults[full][len(args):]]
                    a = [strip_ns(re.sub(r'^(struct|class|enum)\s+', '', x)) for x in a]
                    for r in self.tu.records:
                        if r.startswith(full + '<') and [strip_ns(x) for x in split_args(r[len(full) + 1:-1])] == a:
                            return ('rec', r)
            if name.endswith('__alloc_traits') or 'iterator' in name:
                return ('opaque', s)
            if s in self.tu.records:
                return ('rec', s)
            for p in ('Jali::', 'JaliGeometry::'):
                if p + b in self.tu.records:
                    return ('rec', p + b)
            return ('opaque', s)
        m = re.match(r'^vector<(.*)>::(const_|reverse_)?(iterator|reference|value_type|size_type|const_reference)$', b)
        if m:
            if m.group(3) == 'iterator':
                return ('iter', s)
            if m.group(3) == 'size_type':
                return ('int', False, 64)
            return self.parse(m.group(1))
        # typedefs
        for c in (s, b):
            if c in self.tu.typedefs:
                t = self.tu.typedefs[c]
                if t != s:
                    return self.parse(t)
        for c in (s, b):
            if c in self.tu.enums:
                return ('enum', strip_ns(c))
        for c in (s, 'Jali::' + b, 'JaliGeometry::' + b, 'Errors::' + b, 'Exceptions::' + b, b):
            if c in self.tu.records or c in self.tu.allrecs:
                return ('rec', c)
        if b in ('Comm', 'MPI_Comm', 'ompi_communicator_t', 'ompi_communicator_t *'):
            return ('int', True, 64)
        if 'iterator' in b:
            return ('iter', s)
        return ('opaque', s)

    # ------------------------------------------------------------ sorts
    def sort(self, t):
        if t in self.sorts:
            return self.sorts[t]
        k = t[0]
        if k in ('int', 'enum'):
            r = z3.IntSort()
        elif k == 'real':
            r = z3.RealSort()
        elif k == 'bool':
            r = z3.BoolSort()
        elif k == 'str':
            r = z3.StringSort()
        elif k in ('ptr', 'ref'):
            r = z3.IntSort()
        elif k == 'vec':
            es = self.sort(t[1])
            d = z3.Datatype('Vec_' + sname(es))
            d.declare('mk', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), es)))
            r = d.create()
        elif k == 'arr':
            es = self.sort(t[1])
            d = z3.Datatype('Arr%d_%s' % (t[2], sname(es)))
            d.declare('mk', *[('a%d' % i, es) for i in range(t[2])])
            r = d.create()
        elif k == 'pair':
            d = z3.Datatype('Pair_%s_%s' % (sname(self.sort(t[1])), sname(self.sort(t[2]))))
            d.declare('mk', ('first', self.sort(t[1])), ('second', self.sort(t[2])))
            r = d.create()
        elif k == 'rec':
            d = z3.Datatype('Rec_' + re.sub(r'\W', '_', t[1]))
            fs = self.allfields(t[1])
            d.declare('mk', *[(f, self.sort(ft)) for f, ft in fs])
            r = d.create()
        else:
            raise Unsupported('no sort for type %r' % (t,))
        self.sorts[t] = r
        return r

    def allfields(self, rec):
        out = []
        if rec not in self.tu.records:
            raise Unsupported('record %s unknown' % rec)
        for b in self.tu.bases(rec):
            bt = self.parse(b)
            if bt[0] == 'rec' and bt[1] in self.tu.records:
                out += self.allfields(bt[1])
        for f in self.tu.fields(rec):
            out.append((f['name'], self.of(f['type'])))
        return out


def sname(s):
    return re.sub(r'\W+', '_', str(s))


# ---------------------------------------------------------------- values
class Undef:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Undef(%r)' % (self.t,)


class VecV:
    """std::vector value: length term and contents array"""
    __slots__ = ('et', 'len', 'arr')

    def __init__(self, et, ln, arr):
        self.et, self.len, self.arr = et, ln, arr


class ArrV:
    __slots__ = ('et', 'items')

    def __init__(self, et, items):
        self.et, self.items = et, list(items)


class PairV:
    __slots__ = ('t', 'first', 'second')

    def __init__(self, t, a, b):
        self.t, self.first, self.second = t, a, b


class Lazy:
    """field values created on first use; shared by every later version of the object"""
    __slots__ = ('gen', 'd')

    def __init__(self, gen):
        self.gen, self.d = gen, {}

    def get(self, f):
        if f not in self.d:
            self.d[f] = self.gen(f)
        return self.d[f]


class RecV:
    """record value: overrides on top of a lazily materialised base"""
    __slots__ = ('rec', 'fields', 'base')

    def __init__(self, rec, fields, base=None):
        self.rec, self.fields, self.base = rec, fields, base

    def get(self, f):
        if f in self.fields:
            return self.fields[f]
        if self.base is None:
            raise Unsupported('record %s has no field %s' % (self.rec, f))
        return self.base.get(f)

    def set(self, f, v):
        d = dict(self.fields)
        d[f] = v
        return RecV(self.rec, d, self.base)


class PtrV:
    """raw/shared pointer to an lvalue; `null` is a z3 Bool (may be concrete)"""
    __slots__ = ('lv', 'null')

    def __init__(self, lv, null):
        self.lv, self.null = lv, null


class IterV:
    """iterator into the container at lvalue `lv` (position `pos`)"""
    __slots__ = ('lv', 'pos')

    def __init__(self, lv, pos):
        self.lv, self.pos = lv, pos


class LamV:
    __slots__ = ('node', 'env')

    def __init__(self, node, env):
        self.node, self.env = node, env


class Opaque:
    """a value the verifier does not interpret (streams, communicators...)"""

    def __init__(self, what):
        self.what = what


class Root:
    __slots__ = ('name', 'type', 'birth', 'key')

    def __init__(self, name, type_, birth, key):
        self.name, self.type, self.birth, self.key = name, type_, birth, key

    def __repr__(self):
        return 'Root(%s)' % self.name


class HeapRoot:
    """an object identified by an integer term"""
    __slots__ = ('rec', 'oid')

    def __init__(self, rec, oid):
        self.rec, self.oid = rec, oid


class LV:
    __slots__ = ('root', 'path', 'type')

    def __init__(self, root, path, type_):
        self.root, self.path, self.type = root, tuple(path), type_

    def ext(self, p, t):
        return LV(self.root, self.path + (p,), t)

    def __repr__(self):
        return 'LV(%r,%r)' % (self.root, self.path)
