"""Clang AST front end: loads the AST of /repo's current sources (no copies, no edits) and links the TUs."""
import json, os, subprocess, re, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('CCV_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'libcatnip')
GEN = os.environ.get('CCV_GEN', '/tmp')


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- types
# canonical types: tuples ('int',) ('uint',) ('size',) ('double',) ('bool',) ('char',) ('string',) ('void',)
# ('vec',T) ('map',K,V,ordered) ('set',T) ('pair',A,B) ('ptr',T) ('ref',T) ('cls',name) ('iter',T) ('opaque',s)

_SIMPLE = {
    'int': ('int',), 'const int': ('int',), 'double': ('double',), 'float': ('double',), 'bool': ('bool',),
    'char': ('char',), 'void': ('void',), 'unsigned int': ('uint',), 'unsigned': ('uint',),
    'unsigned long': ('size',), 'size_t': ('size',), 'std::size_t': ('size',), 'long': ('long',),
    'long long': ('long',), 'unsigned long long': ('size',), 'ptrdiff_t': ('long',),
    'size_type': ('size',), 'difference_type': ('long',), 'unsigned char': ('uint',),
    'fpos<__mbstate_t>': ('long',), 'std::fpos<__mbstate_t>': ('long',), 'streampos': ('long',), 'std::streampos': ('long',),
    'ifstream': ('ifs',), 'std::ifstream': ('ifs',), 'istringstream': ('iss',), 'std::istringstream': ('iss',),
    'string': ('string',), 'std::string': ('string',), 'std::nullptr_t': ('nullptr',), '_Bool': ('bool',),
}


def _split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_cache = {}


def parse_type(s):
    if s in _cache:
        return _cache[s]
    t = _parse_type(s.strip())
    _cache[s] = t
    return t


def _parse_type(s):
    s = s.strip()
    while True:
        o = s
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if s.startswith(p):
                s = s[len(p):].strip()
        for p in (' const', '*const', '* const', ' volatile'):
            if s.endswith(p):
                s = s[:-len(p)].strip() + ('*' if '*' in p else '')
        if s == o:
            break
    if s in _SIMPLE:
        return _SIMPLE[s]
    if '(*)(' in s and '<' not in s.split('(*)')[0]:
        return ('fptr',)
    if s.endswith('&&'):
        return ('ref', parse_type(s[:-2]))
    if s.endswith('&'):
        return ('ref', parse_type(s[:-1]))
    if s.endswith('*'):
        return ('ptr', parse_type(s[:-1]))
    m = re.match(r'^(.*)\[(\d*)\]$', s)
    if m:
        return ('arr', parse_type(m.group(1)), int(m.group(2) or 0))
    for p in ('std::__cxx11::', 'std::'):
        if s.startswith(p):
            s = s[len(p):]
    if s.startswith('catnip::'):
        s = s[len('catnip::'):]
    if s in _SIMPLE:
        return _SIMPLE[s]
    m = re.match(r'^(\w[\w:]*)<(.*)>((?:::\w+)?)$', s, re.S)
    if m:
        name, args, tail = m.group(1), _split_args(m.group(2)), m.group(3)
        name = name.split('::')[-1] if name.startswith('__gnu_cxx') else name
        if tail and tail not in ('::iterator', '::const_iterator', '::value_type', '::reference'):
            if tail == '::size_type':
                return ('size',)
            return ('opaque', s)
        if tail in ('::iterator', '::const_iterator'):
            return ('iter', parse_type(s[:-len(tail)]))
        if tail:
            t = parse_type(s[:-len(tail)])
            return t[1] if t[0] in ('vec', 'set') else ('opaque', s)
        if name == 'basic_string':
            return ('string',)
        if name in ('vector', 'list', 'deque', 'initializer_list'):
            return ('vec', parse_type(args[0]))
        if name == 'istream_iterator' and parse_type(args[0]) == ('string',):
            return ('words',)
        if name in ('basic_ifstream', 'basic_istringstream'):
            return ('ifs',) if name == 'basic_ifstream' else ('iss',)
        if name in ('map', 'unordered_map'):
            return ('map', parse_type(args[0]), parse_type(args[1]))
        if name in ('set', 'unordered_set'):
            return ('set', parse_type(args[0]))
        if name == 'pair':
            return ('pair', parse_type(args[0]), parse_type(args[1]))
        if name in ('unique_ptr', 'shared_ptr'):
            return ('ptr', parse_type(args[0]))
        if name in ('__normal_iterator', '_List_iterator', '_List_const_iterator', '_Rb_tree_iterator',
                    '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator'):
            return ('iter', ('opaque', s))
        return ('cls', s)
    if re.match(r'^[\w:]+$', s):
        return ('cls', s)
    return ('opaque', s)


def type_of(node):
    t = node.get('type', {})
    q = t.get('desugaredQualType') or t.get('qualType', '')
    r = parse_type(q)
    if has_opaque(r) and 'qualType' in t:
        r2 = parse_type(t['qualType'])
        if not has_opaque(r2):
            return r2
    return r


def has_opaque(t):
    return t[0] == 'opaque' or any(isinstance(x, tuple) and has_opaque(x) for x in t[1:])


def strip_ref(t):
    return t[1] if t[0] == 'ref' else t


def tstr(t):
    if t[0] in ('ptr',):
        return tstr(t[1]) + '*'
    if t[0] == 'ref':
        return tstr(t[1]) + '&'
    if t[0] in ('vec', 'set'):
        return '%s<%s>' % (t[0], tstr(t[1]))
    if t[0] in ('map', 'pair'):
        return '%s<%s,%s>' % (t[0], tstr(t[1]), tstr(t[2]))
    if t[0] == 'cls':
        return t[1]
    if len(t) == 1:
        return t[0]
    return str(t)


# ----------------------------------------------------------------- AST loading
def clang_ast(path, filt):
    cmd = ['clang++', '-std=c++11', '-I' + SRC, '-I' + GEN, '-fsyntax-only', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + filt, path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Unsupported('clang cannot parse %s: %s' % (path, p.stderr[:400]))
    out = p.stdout
    d = json.JSONDecoder()
    i, roots = 0, []
    n = len(out)
    while i < n:
        while i < n and out[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(out, i)
        roots.append(o)
    return roots


FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Func:
    """A function of the program: declaration, body (clang AST), class."""
    __slots__ = ('mangled', 'name', 'cls', 'node', 'body', 'params', 'tu', 'sig', 'virtual', 'static', 'rtype',
                 'inits', 'file', 'line', 'pure', 'key')

    def __repr__(self):
        return '<Func %s>' % self.key


class Class:
    __slots__ = ('name', 'bases', 'fields', 'methods', 'node', 'tu')

    def __repr__(self):
        return '<Class %s>' % self.name


class Program:
    def __init__(self, files, extra_globals=()):
        self.funcs = {}       # mangled -> Func with body (preferred)
        self.by_id = {}       # id -> mangled
        self.decls = {}       # id -> node
        self.classes = {}     # name -> Class
        self.globals = {}     # id -> (node)
        self.files = files
        self.texts = {}

        def load(f):
            return f, clang_ast(f, 'catnip')
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(load, files))
        for f, roots in res:
            for r in roots:
                self._collect(r, f, None, '')
        # global-scope functions defined in the TU files but outside of the namespace
        jobs = []
        for f, roots in res:
            with open(f) as fh:
                txt = fh.read()
            self.texts[f] = txt
            names = {}
            for r in roots:
                self._refs(r, names, f)
            for nm in sorted(names):
                if re.search(r'^[\w:<>,&* ]+\b%s\s*\([^;{}]*\)\s*\{' % re.escape(nm), txt, re.M):
                    jobs.append((f, nm, names[nm]))
        with ThreadPoolExecutor(8) as ex:
            dumps = list(ex.map(lambda j: clang_ast(j[0], j[1]), jobs))
        for (f, nm, refs), roots in zip(jobs, dumps):
            for r in roots:
                if r.get('kind') == 'FunctionDecl' and r.get('name') == nm:
                    tu = f + '#' + nm
                    self._collect(r, tu, None, '', force=True)
                    for i in refs:
                        self.by_id[(f, i)] = r.get('mangledName')
                    self._link(r, tu)
        self.boxes()

    def _link(self, n, tu):
        """functions of the namespace called from a separately extracted function: by name and type"""
        rd = n.get('referencedDecl')
        if rd and rd.get('kind') == 'FunctionDecl' and (tu, rd['id']) not in self.by_id:
            ty = lambda x: x.get('type', {}).get('qualType', '').replace('std::', '').replace('catnip::', '')
            m = [f for f in self.funcs.values() if f.cls is None and f.name == rd.get('name') and ty(f.node) == ty(rd)]
            if len(m) == 1:
                self.by_id[(tu, rd['id'])] = m[0].node.get('mangledName')
        for x in n.get('inner', []) or []:
            if x:
                self._link(x, tu)

    def _refs(self, n, names, tu):
        rd = n.get('referencedDecl')
        if rd and rd.get('kind') == 'FunctionDecl' and (tu, rd['id']) not in self.by_id:
            nm = rd.get('name', '')
            if re.match(r'^\w+$', nm):
                names.setdefault(nm, set()).add(rd['id'])
        for x in n.get('inner', []) or []:
            if x:
                self._refs(x, names, tu)

    def _collect(self, n, tu, cls, ns, force=False):
        k = n.get('kind')
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            for x in n.get('inner', []):
                self._collect(x, tu, None, ns + n.get('name', '') + '::')
            return
        if k == 'ClassTemplateDecl':
            for x in n.get('inner', []):
                if x.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._collect(x, tu, cls, ns)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for x in n.get('inner', []):
                if x.get('kind') in FUNC_KINDS:
                    if not first:
                        self._collect(x, tu, cls, ns)
                    first = False
            return
        if k in ('TypedefDecl', 'TypeAliasDecl') and '(*)(' in n.get('type', {}).get('qualType', ''):
            _SIMPLE[n['name']] = ('fptr',)
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if not n.get('completeDefinition') and not n.get('inner'):
                return
            name = n.get('name', 'anon')
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for x in n.get('inner', []):
                    if x.get('kind') == 'TemplateArgument':
                        args.append(x.get('type', {}).get('qualType', str(x.get('value', '?'))))
                name = '%s<%s>' % (name, ', '.join(args))
            if cls:
                name = cls.name + '::' + name
            if not n.get('completeDefinition'):
                return
            c = self.classes.get(name)
            if c is None:
                c = Class()
                c.name, c.bases, c.fields, c.methods, c.node, c.tu = name, [], [], [], n, tu
                self.classes[name] = c
                fresh = True
            else:
                fresh = False
            self.decls[(tu, n['id'])] = n
            if fresh:
                for b in n.get('bases', []):
                    c.bases.append(strip_cls(b['type'].get('desugaredQualType') or b['type']['qualType']))
            for x in n.get('inner', []):
                if x.get('kind') == 'FieldDecl':
                    self.decls[(tu, x['id'])] = x
                    if fresh:
                        c.fields.append((x['name'], type_of(x), x))
                elif x.get('kind') in FUNC_KINDS or x.get('kind') in ('CXXRecordDecl', 'FunctionTemplateDecl', 'TypedefDecl', 'TypeAliasDecl', 'VarDecl', 'EnumDecl'):
                    self._collect(x, tu, c, ns + name + '::')
            return
        if k in FUNC_KINDS:
            self._func(n, tu, cls, ns)
            return
        if k == 'VarDecl':
            self.globals[(tu, n['id'])] = n
            self.decls[(tu, n['id'])] = n
            return
        if k == 'EnumDecl':
            v = 0
            for x in n.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    x['_value'] = v
                    v += 1
                    self.decls[(tu, x['id'])] = x

    def _func(self, n, tu, cls, ns):
        if n.get('isImplicit') and n.get('kind') != 'CXXConstructorDecl' and not any(
                x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])):
            pass
        m = n.get('mangledName') or ('anon' + n['id'])
        self.by_id[(tu, n['id'])] = m
        self.decls[(tu, n['id'])] = n
        if n.get('previousDecl'):
            self.by_id.setdefault((tu, n['previousDecl']), m)
        inner = n.get('inner', []) or []
        body = None
        for x in inner:
            if x.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                body = x
        old = self.funcs.get(m)
        if cls is None and n.get('kind') != 'FunctionDecl':
            # out of class definition: the class is known by the in-class declaration
            pass
        if old is not None and (old.body is not None or body is None):
            if old.cls is None and cls is not None:
                old.cls = cls.name
            old.virtual = old.virtual or n.get('virtual', False)
            old.pure = old.pure or n.get('pure', False)
            return
        f = Func()
        f.mangled, f.name, f.node, f.body, f.tu = m, n.get('name'), n, body, tu
        f.cls = cls.name if cls else (old.cls if old else None)
        f.virtual = n.get('virtual', False) or (old.virtual if old else False)
        f.pure = n.get('pure', False)
        f.static = n.get('storageClass') == 'static' or (old.static if old else False)
        f.params = [x for x in inner if x.get('kind') == 'ParmVarDecl']
        f.inits = [x for x in inner if x.get('kind') == 'CXXCtorInitializer']
        qt = n.get('type', {}).get('qualType', '')
        f.rtype = parse_type(qt[:qt.index('(')].strip()) if '(' in qt else ('void',)
        ptypes = [type_of(p) for p in f.params]
        f.sig = '(' + ', '.join(tstr(t) for t in ptypes) + ')'
        f.line = n.get('loc', {}).get('line')
        f.file = tu
        nm = f.name
        f.key = (f.cls + '::' if f.cls else '') + str(nm) + f.sig
        self.funcs[m] = f

    def boxes(self):
        """void* storage: the type it is always cast to, when there is exactly one"""
        for c in self.classes.values():
            if not any(has_voidptr(t) for _, t, _ in c.fields):
                continue
            ts = set()
            for f in self.funcs.values():
                if f.cls == c.name and f.body is not None:
                    void_casts(f.body, ts)
            if len(ts) == 1:
                t = ts.pop()
                c.fields = [(n, set_box(ft, t), x) for n, ft, x in c.fields]

    def find(self, key):
        """key: 'Matrix::set_elem(double, int)' in the canonical spelling."""
        for f in self.funcs.values():
            if f.key == key and f.body is not None:
                return f
        return None

    def func_of_id(self, tu, i):
        m = self.by_id.get((tu, i))
        return self.funcs.get(m) if m else None

    def all_fields(self, cname):
        from .vals import ABSTRACT
        if cname in ABSTRACT:
            return [(n, t, {}, cname) for n, t in ABSTRACT[cname].items()]
        c = self.classes.get(cname)
        if c is None:
            raise Unsupported('unknown class ' + cname)
        out = []
        for b in c.bases:
            if b in self.classes:
                out += self.all_fields(b)
        return out + [(n, own_abstract(t, ABSTRACT) if ABSTRACT else t, x, cname) for n, t, x in c.fields]

    def derived(self, b):
        return [c for c in self.classes if c != b and self.derives(c, b)]

    def derives(self, c, b):
        if c == b:
            return True
        cl = self.classes.get(c)
        return bool(cl) and any(self.derives(x, b) for x in cl.bases)

    def overrider(self, cname, name, sig):
        """final overrider of method name+sig for dynamic class cname"""
        key = '%s::%s%s' % (cname, name, sig)
        for f in self.funcs.values():
            if f.key == key:
                return f
        c = self.classes.get(cname)
        if c:
            for b in c.bases:
                r = self.overrider(b, name, sig)
                if r:
                    return r
        return None


def has_voidptr(t):
    return t == ('ptr', ('void',)) or any(isinstance(x, tuple) and has_voidptr(x) for x in t[1:])


def set_box(t, b):
    if t == ('ptr', ('void',)):
        return ('box', b)
    return tuple([t[0]] + [set_box(x, b) if isinstance(x, tuple) else x for x in t[1:]])


def own_abstract(t, names, inside=False):
    """pointers to abstract objects kept in a container belong to the container"""
    if inside and t[0] == 'ptr' and t[1][0] == 'cls' and t[1][1] in names:
        return ('box', t[1])
    return tuple([t[0]] + [own_abstract(x, names, t[0] in ('vec', 'map')) if isinstance(x, tuple) else x for x in t[1:]])


def void_casts(n, out):
    if n.get('kind') in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr'):
        t = type_of(n)
        if t[0] == 'ptr' and t[1] != ('void',) and n.get('inner') and type_of(n['inner'][0]) == ('ptr', ('void',)):
            out.add(t[1])
    for x in n.get('inner', []) or []:
        if x:
            void_casts(x, out)


def strip_cls(s):
    t = parse_type(s)
    return t[1] if t[0] == 'cls' else s


if __name__ == '__main__':
    import sys, time
    t = time.time()
    P = Program([os.path.join(SRC, x) for x in sys.argv[1:]])
    print(time.time() - t)
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        print(f.key, 'body' if f.body else '-', f.file[-20:], 'virt' if f.virtual else '', 'impl' if f.node.get('isImplicit') else '')
    for c in P.classes.values():
        print(c, c.bases, [(a, tstr(b)) for a, b, _ in c.fields])
