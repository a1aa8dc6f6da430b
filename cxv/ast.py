"""Mechanical extraction: clang's JSON AST of the real translation units of /repo, indexed."""
import json, os, re, subprocess, hashlib

REPO = os.environ.get('CXV_REPO', '/repo')
INCDIRS = ['src/mesh', 'src/geometry', 'src/error_handling', 'src/mesh/mesh_simple',
           'src/mesh/mesh_factory', 'src/statemanager']
DEFS = ['-DNDEBUG', '-DJali_HAVE_METIS', '-DJali_HAVE_ZOLTAN', '-DOMPI_SKIP_MPICXX']
CXXFLAGS = ['-std=c++11'] + DEFS + ['-I/usr/include/trilinos',
            '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include']


def incflags(repo=None):
    r = repo or REPO
    return ['-I%s/%s' % (r, d) for d in INCDIRS]


class ExtractError(Exception):
    pass


def kids(n):
    return n.get('inner', [])


class TU:
    """All declarations matched by the filters, from one translation unit."""

    def __init__(self, src, filters=('Jali',), extra_flags=(), repo=None):
        self.decl = {}       # id -> node
        self.qual = {}       # id -> qualified name
        self.canon_of = {}   # id -> canonical id
        self.body = {}       # canonical id -> defining node (with body)
        self.byname = {}     # qualified name -> [canonical ids]
        self.typedefs = {}
        self.tdefaults = {}
        self.enums = {}      # enum name -> {const: value}
        self.enumconst = {}  # const decl id -> (enum, value)
        self.records = {}    # name -> node (with fields)
        self.parent_rec = {} # method/field canonical id -> record name
        self.allrecs = set()
        self.src = src
        r = repo or REPO
        path = src if os.path.isabs(src) else os.path.join(r, src)
        for f in filters:
            cmd = ['clang++'] + CXXFLAGS + list(extra_flags) + incflags(r) + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                   '-Xclang', '-ast-dump-filter=' + f, path]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise ExtractError('clang failed on %s: %s' % (path, p.stderr.decode()[:2000]))
            self._load(p.stdout.decode())
        self._finish()

    def _load(self, s):
        d = json.JSONDecoder()
        i = 0
        n = len(s)
        while True:
            while i < n and s[i] in ' \n\r\t':
                i += 1
            if i >= n:
                break
            o, i = d.raw_decode(s, i)
            self._walk_decl(o, '', None)

    FUN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

    def _walk_decl(self, n, ctx, rec):
        k = n.get('kind')
        if not k:
            return
        i = n.get('id')
        name = n.get('name', '')
        if k == 'NamespaceDecl' or k == 'LinkageSpecDecl':
            c = ctx + name + '::' if name else ctx
            for x in kids(n):
                self._walk_decl(x, c, None)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            q = ctx + name
            if k != 'CXXRecordDecl':
                args = []
                for x in kids(n):
                    if x.get('kind') == 'TemplateArgument':
                        if 'type' in x:
                            args.append(x['type'].get('qualType', '?'))
                        elif 'value' in x:
                            args.append(str(x['value']))
                        else:
                            args.append('?')
                q = q + '<' + ', '.join(args) + '>'
            self.decl[i] = n
            self.qual[i] = q
            self.allrecs.add(q)
            if n.get('completeDefinition') or any(x.get('kind') == 'FieldDecl' for x in kids(n)):
                self.records[q] = n
            for x in kids(n):
                self._walk_decl(x, q + '::', q)
        elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl', 'FriendDecl', 'TypeAliasTemplateDecl'):
            first = True
            if k == 'ClassTemplateDecl':
                d = [(x.get('defaultArg') or {}).get('type') for x in kids(n) if x.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl')]
                d = [(t.get('desugaredQualType') or t.get('qualType')) if t else None for t in d]
                old = self.tdefaults.get(ctx + name, [None] * len(d))
                self.tdefaults[ctx + name] = [a or b for a, b in zip(d, old)]
            for x in kids(n):
                if k in ('ClassTemplateDecl', 'FunctionTemplateDecl') and x.get('kind') in self.FUN + ('CXXRecordDecl',) and first:
                    x['_pattern'] = True   # uninstantiated template pattern
                    first = False
                self._walk_decl(x, ctx, rec)
        elif k in self.FUN:
            if i not in self.decl or (not self._has_body(self.decl[i]) and self._has_body(n)):
                self.decl[i] = n
            self.qual.setdefault(i, ctx + name)
            n['_rec'] = rec if k != 'FunctionDecl' else None
            n['_targs'] = targs(n)
            for x in kids(n):
                if x.get('kind') == 'ParmVarDecl':
                    self.decl[x['id']] = x
            self._walk_local(n)
        elif k in ('FieldDecl', 'VarDecl', 'IndirectFieldDecl'):
            self.decl[i] = n
            self.qual[i] = ctx + name
            n['_rec'] = rec
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n['type']
            self.typedefs[name] = t.get('desugaredQualType', t['qualType'])
            self.typedefs[ctx + name] = self.typedefs[name]
        elif k == 'EnumDecl':
            vals = {}
            cur = -1
            for x in kids(n):
                if x.get('kind') == 'EnumConstantDecl':
                    v = None
                    for y in kids(x):
                        v = self._const_of(y)
                    if v is not None:
                        cur = int(v)
                    else:
                        cur += 1
                    vals[x['name']] = cur
                    self.enumconst[x['id']] = (name, cur)
                    self.decl[x['id']] = x
            self.enums[name] = vals
            self.enums[ctx + name] = vals

    def _const_of(self, y):
        if 'value' in y:
            return y['value']
        for z in kids(y):
            v = self._const_of(z)
            if v is not None:
                if y.get('kind') == 'UnaryOperator' and y.get('opcode') == '-':
                    return -int(v)
                return v
        return None

    def _walk_local(self, n):
        """register lambdas' call operators and local declarations"""
        for x in kids(n):
            if not isinstance(x, dict):
                continue
            if x.get('kind') == 'CXXMethodDecl' and 'id' in x:
                self.decl[x['id']] = x
            self._walk_local(x)

    @staticmethod
    def _has_body(n):
        return any(x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in kids(n))

    def canon(self, i):
        seen = 0
        while True:
            n = self.decl.get(i)
            if not n or 'previousDecl' not in n or seen > 20:
                return i
            if n['previousDecl'] not in self.decl:
                return i
            i = n['previousDecl']
            seen += 1

    def _finish(self):
        for i, n in list(self.decl.items()):
            if n.get('kind') in self.FUN:
                c = self.canon(i)
                if 'parentDeclContextId' in n and n['parentDeclContextId'] in self.qual:
                    pq = self.qual[n['parentDeclContextId']]
                    pd = self.decl.get(n['parentDeclContextId'], {})
                    if pd.get('kind', '').find('Record') >= 0 or pd.get('kind', '').startswith('ClassTemplate'):
                        self.qual[i] = pq + '::' + n.get('name', '')
                        n['_rec'] = pq
                if c != i and self.decl[c].get('_rec'):
                    n['_rec'] = self.decl[c]['_rec']
                    self.qual[i] = self.qual[c]
                if self._has_body(n):
                    self.body[c] = n
                q = self.qual.get(c, n.get('name', ''))
                l = self.byname.setdefault(q, [])
                if c not in l:
                    l.append(c)

    # ---------------------------------------------------------------- lookup
    def find(self, qname, sig=None, nparams=None):
        """canonical ids of functions named qname with a body (optionally filtered by type text)"""
        out = []
        for c in self.byname.get(qname, []):
            if c not in self.body:
                continue
            n = self.body[c]
            t = n['type']['qualType']
            if sig is not None and not re.search(sig, t):
                continue
            if nparams is not None and len(params(n)) != nparams:
                continue
            if n.get('isImplicit'):
                continue
            if is_template_pattern(n):
                continue
            out.append(c)
        return out

    def bases(self, rec):
        n = self.records.get(rec)
        out = []
        if n:
            for b in n.get('bases', []):
                t = b['type'].get('desugaredQualType', b['type']['qualType'])
                out.append(t)
        return out

    def fields(self, rec):
        n = self.records[rec]
        return [x for x in kids(n) if x.get('kind') == 'FieldDecl']


def params(fn):
    return [x for x in kids(fn) if x.get('kind') == 'ParmVarDecl']


def targs(n):
    """template arguments of an instantiated function, as text"""
    out = []
    for x in kids(n):
        if x.get('kind') == 'TemplateArgument':
            if 'type' in x:
                out.append(x['type'].get('qualType', '?'))
            elif 'value' in x:
                out.append(str(x['value']))
            else:
                out.append('?')
    return out


def is_template_pattern(n):
    return n.get('_pattern', False)


def source_digest(n):
    """a digest of a function's AST with ids and locations removed"""
    def strip(x):
        if isinstance(x, dict):
            return {k: (v.get('name', v.get('kind')) if k in ('referencedDecl', 'foundReferencedDecl') and isinstance(v, dict) else strip(v))
                    for k, v in x.items() if k not in ('loc', 'range', '_rec', 'mangledName')}
        if isinstance(x, list):
            return [strip(y) for y in x]
        if isinstance(x, str):
            if re.match(r'^0x[0-9a-f]+$', x):
                return ''
            if ':' in x:
                return re.sub(r'\(?(lambda|anonymous|unnamed)[^()]* at [^)]*:\d+:\d+\)?', 'lambda', x)
        return x
    return hashlib.sha256(json.dumps(strip(n), sort_keys=True).encode()).hexdigest()[:12]
