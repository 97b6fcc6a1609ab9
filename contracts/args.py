"""Contracts of src/libcatnip/io/arguments (properties C27..C33): stated by what the option getters return."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract
from contracts import strings

STR = 'std::basic_string<char>'
SET, VEC = 'std::set<%s>' % STR, 'std::vector<%s>' % STR
ARG = {'int': 'int&', 'double': 'double&', 'unsigned long': 'size&', STR: 'string&', SET: 'set<string>&', VEC: 'vec<string>&'}


def PO(s, t):
    return 'PropertyObject<%s, %s>::' % (s, t)


def same(a, b):
    """equality of option values"""
    if isinstance(a, MapV) and isinstance(b, MapV):
        return Q(lambda k: (a.has(k) == b.has(k), None), sorts=[S])
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Q(lambda i: (AND(a.len == b.len, IMP(AND(i >= 0, i < a.len), a.at(i) == b.at(i))), None))
    return a == b if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort() else z3.BoolVal(False)


# ------------------------------------------------------------------ C32 option storage
def storage(s, t):
    get = PO(s, t) + 'getPropOption(string&)'

    def set_(C, listed):
        name, val = C.val(0), C.val(1)
        other = z3.Const('g!other', S)
        v0, miss0 = C.observe(get, other)
        if listed:
            C.throws(C.observe(get, name)[1], 'invalid_argument', 'an option that is not listed')

        def post(obs):
            v, miss = obs(get, name)
            w, missw = obs(get, other)
            return [('the option set is readable', NOT(miss)), ('reading returns the value set', same(v, val)),
                    ('other options are listed as before', IMP(NOT(other == name), missw == miss0)),
                    ('other options keep their values', guarded(AND(NOT(other == name), NOT(miss0)), same(w, v0)))]
        C.ensures(lambda E: E.after(post))
    @contract(get, inline=True)
    def _(C):
        # reading changes nothing; it throws exactly where an observation says 'not listed'
        v, miss = C.observe(get, C.val(0))
        C.throws(miss, 'invalid_argument', 'an option that is not listed')
        C.ensures(lambda E: Opaque('any'))
    contract(PO(s, t) + 'setPropOption(string, %s)' % ARG[t], inline=True)(lambda C: set_(C, True))
    contract(PO(s, t) + 'setPropOption_(string&, %s)' % ARG[t], inline=True)(lambda C: set_(C, False))


def guarded(g, x):
    if isinstance(x, Q):
        return Q(lambda *v: (IMP(g, x._get(v)[0]), None), sorts=x.sorts)
    return IMP(g, x)


STORES = [('int', 'int'), ('double', 'double'), (STR, 'int'), (STR, 'unsigned long'), (STR, STR), (STR, SET), (STR, VEC)]
for st in STORES:
    storage(*st)


# ------------------------------------------------------------------ the properties
OPTS = {}


def prop(cls, s, t, *opts):
    """the options a property lists are exactly the ones that can be read"""
    OPTS[cls] = (PO(s, t) + 'getPropOption(string&)', opts)


prop('PropertyInt', 'int', 'int', 'MIN', 'MAX')
prop('PropertyDouble', 'double', 'double', 'MIN', 'MAX')
prop('PropertyString', STR, 'unsigned long', 'MIN_LENGTH', 'MAX_LENGTH')
prop('PropertySwitch', STR, STR, 'DEFAULT')
prop('PropertyStringChoice', STR, SET, 'STRING_CHOICE_ENFORCED', 'STRING_CHOICES')
prop('PropertyFileExt', STR, SET, 'ALLOWED_FILE_EXT')
prop('PropertySisterFile', STR, VEC, 'ALLOWED_SISTER_FILE_EXT', 'SISTER_FILE_NAME', 'SISTER_FILE_PATH', 'SISTER_FILE_PATH_NAME',
     'SISTER_FILE_EXISTS')
prop('PropertyFileExist', STR, 'int', 'FILE_MUST_EXIST', 'FILE_DOES_EXIST')


def lit(x):
    return z3.StringVal(x)


def isone(k, names):
    return OR([k == lit(o) for o in names])


def option(C, cls, name):
    """current value of an option, which is listed"""
    v, miss = C.observe(OPTS[cls][0], lit(name) if isinstance(name, str) else name)
    C.requires('the option is listed', NOT(miss))
    return v


def built(cls, sig, more, throws=None):
    """a constructor: exactly the listed options are readable; more(get) further facts"""
    @contract('%s::%s(%s)' % (cls, cls, sig), inline=True)
    def _(C):
        get, opts = OPTS[cls]
        if throws:
            C.throws(throws(C), 'exception')
        k = z3.Const('g!option', S)
        lk = '%s::getOpts_()' % cls

        def post(obs):
            lst = obs(lk)[0]
            out = [('exactly the listed options are readable', obs(get, k)[1] == NOT(isone(k, opts))),
                   ('the listed options', lst.len == len(opts))]
            out += [('the listed options', OR([lst.at(i) == lit(o) for i in range(len(opts))])) for o in opts]
            return out + more(C, lambda n: obs(get, lit(n))[0])
        C.ensures(lambda E: E.after(post))


def valid(name, bad, modifies=False, **kw):
    """a check: throws exactly when bad, changes nothing, returns true (or nothing)"""
    @contract(name, **kw)
    def _(C):
        C.throws(bad(C), 'exception', modifies=[C.this] if modifies else ())
        C.ensures(lambda E: z3.BoolVal(True) if C.f.rtype == ('bool',) else None)


# ------------------------------------------------------------------ C27 ranges
def inside(cls, lo, hi, size=lambda v: v):
    return lambda C: OR(size(C.val(0)) < option(C, cls, lo), size(C.val(0)) > option(C, cls, hi))


for cls, arg, f, lo, hi, size in (('PropertyInt', 'int&', 'intValid', 'MIN', 'MAX', lambda v: v), ('PropertyDouble', 'double&', 'doubleValid', 'MIN', 'MAX', lambda v: v),
                                  ('PropertyString', 'string&', 'stringValid', 'MIN_LENGTH', 'MAX_LENGTH', z3.Length)):
    valid('%s::propValid(%s)' % (cls, arg), inside(cls, lo, hi, size))
    valid('%s::%s(%s)' % (cls, f, arg), inside(cls, lo, hi, size))

DMAX = z3.RealVal((2 ** 53 - 1) * 2 ** 971)
built('PropertyInt', '', lambda C, get: [('every int is accepted', AND(get('MIN') <= -2 ** 31, get('MAX') >= 2 ** 31 - 1))])
built('PropertyDouble', '', lambda C, get: [('every finite value is accepted', AND(get('MIN') <= -DMAX, get('MAX') >= DMAX))])
built('PropertyString', '', lambda C, get: [('every length is accepted', AND(get('MIN_LENGTH') == 0, get('MAX_LENGTH') >= 2 ** 63))])

# ------------------------------------------------------------------ C28 switches and choices
ON, OFF = ['1', 'ON', 'TRUE'], ['0', 'OFF', 'FALSE']
valid('PropertySwitch::switchValid(string)', lambda C: NOT(isone(C.val(0), ON + OFF)))
valid('PropertySwitch::propValid(string&)', lambda C: NOT(isone(C.val(0), ON + OFF)))
valid('PropertySwitch::switchValid(int)', lambda C: NOT(OR(C.val(0) == 0, C.val(0) == 1)))
valid('PropertySwitch::propValid(int)', lambda C: NOT(OR(C.val(0) == 0, C.val(0) == 1)))


@contract('PropertySwitch::propValid()')
def _(C):
    C.ensures(lambda E: z3.BoolVal(True))


built('PropertySwitch', '', lambda C, get: [('off by default', get('DEFAULT') == lit('OFF'))])


@contract('ArgumentSwitch::positive(string)')
def _(C):
    C.throws(NOT(isone(C.val(0), ON + OFF)), 'exception')
    C.ensures(lambda E: isone(C.val(0), ON))


@contract('ArgumentSwitch::positive(int)')
def _(C):
    C.ensures(lambda E: C.val(0) == 1)


ENF, CHO = 'STRING_CHOICE_ENFORCED', 'STRING_CHOICES'


@contract('PropertyStringChoice::propValid(string&)')
def _(C):
    e = option(C, 'PropertyStringChoice', ENF)
    c = option(C, 'PropertyStringChoice', CHO)
    t, f = lit('true'), lit('false')
    C.requires('enforced or not', AND(OR(e.has(t), e.has(f)), NOT(AND(e.has(t), e.has(f)))))
    C.requires('nothing but true or false', Q(lambda k: (IMP(e.has(k), OR(k == t, k == f)), [e.has(k)]), sorts=[S]))
    C.throws(AND(e.has(t), NOT(c.has(C.val(0)))), 'exception')
    C.ensures(lambda E: z3.BoolVal(True))


def only(v, x):
    """v is the set {x}"""
    return Q(lambda k: (v.has(k) == (k == x), None), sorts=[S])


built('PropertyStringChoice', '', lambda C, get: [('choices are not enforced', only(get(ENF), lit('false')))])


def setter(name, cls, bad, value):
    """sets option arg 0, if it is a legal value, and nothing else"""
    @contract(name, inline=True)
    def _(C):
        get, opts = OPTS[cls]
        o = C.val(0)
        other = z3.Const('g!other', S)
        v0, miss0 = C.observe(get, other)
        k = z3.Const('g!option', S)
        C.requires('exactly the listed options are readable', C.observe(get, o)[1] == NOT(isone(o, opts)))
        C.throws(bad(C, o, C.val(1)), 'exception')

        def post(obs):
            v, miss = obs(get, o)
            w, missw = obs(get, other)
            return [('the option is readable', NOT(miss)), ('reading returns the value set', value(v, C.val(1))),
                    ('the other options are listed as before', IMP(NOT(other == o), missw == miss0)),
                    ('the other options keep their values', guarded(AND(NOT(other == o), NOT(miss0)), same(w, v0)))]
        C.ensures(lambda E: E.after(post))


def bad_choice(C, o, v):
    t, f = lit('true'), lit('false')
    if isinstance(v, MapV):
        tf = AND(v.size == 1, OR(v.has(t), v.has(f)))
    else:
        tf = OR(v == t, v == f)
    return NOT(OR(AND(o == lit(ENF), tf), o == lit(CHO)))


setter('PropertyStringChoice::setPropOption(string, string)', 'PropertyStringChoice', bad_choice, only)
setter('PropertyStringChoice::setPropOption(string, set<string>&)', 'PropertyStringChoice', bad_choice, same)

# ------------------------------------------------------------------ C29 extensions
DOT = lit('.')
EXTS = 'ALLOWED_FILE_EXT'


def star(e):
    return z3.SubString(e, 0, 1) == lit('*')


def last_dot(s):
    return LAST(z3.Length(s), lambda j: z3.SubString(s, j, 1) == DOT)


def bad_ext(e):
    return NOT(OR(e == lit(''), star(e), last_dot(e) == 0))


def base_name(p):
    k = strings.last_sep(p)
    return z3.SubString(p, k + 1, z3.Length(p) - k - 1)


def ext_of(p):
    b = base_name(p)
    d = last_dot(b)
    return ITE(d >= 0, z3.SubString(b, d, z3.Length(b) - d), lit(''))


def unsupported_ext(C, e):
    m = option(C, 'PropertyFileExt', EXTS)
    return NOT(OR(m.has(e), C.some(m, star)))


valid('PropertyFileExt::checkExt(string&)', lambda C: bad_ext(C.val(0)))
valid('PropertyFileExt::extSupported(string&)', lambda C: OR(bad_ext(C.val(0)), unsupported_ext(C, C.val(0))))
valid('PropertyFileExt::propValid(string&)', lambda C: unsupported_ext(C, ext_of(C.val(0))))
built('PropertyFileExt', '', lambda C, get: [('every extension is allowed', get(EXTS).has(lit('*')))])
built('PropertyFileExt', 'string', lambda C, get: [('the given extension is allowed', only(get(EXTS), C.val(0)))],
      throws=lambda C: bad_ext(C.val(0)))
built('PropertyFileExt', 'set<string>', lambda C, get: [('the given extensions are allowed', same(get(EXTS), C.val(0)))],
      throws=lambda C: C.some(C.val(0), bad_ext))
unlisted = lambda C, o, v: NOT(o == lit(EXTS))
setter('PropertyFileExt::setPropOption(string, string)', 'PropertyFileExt', unlisted, only)
setter('PropertyFileExt::setPropOption(string, set<string>&)', 'PropertyFileExt', unlisted, same)

# ------------------------------------------------------------------ C31 existence
from ccv.stdlib import EXISTS
MUST, DOES = 'FILE_MUST_EXIST', 'FILE_DOES_EXIST'

for cls in ('PropertyFileExist', 'PropertySisterFile'):
    @contract(cls + '::fileExist(string&)')
    def _(C):
        C.ensures(lambda E: EXISTS(C.val(0)))


@contract('PropertyFileExist::propValid(string&)', inline=True)
def _(C):
    get, opts = OPTS['PropertyFileExist']
    must = option(C, 'PropertyFileExist', MUST)
    option(C, 'PropertyFileExist', DOES)
    there = EXISTS(C.val(0))
    k = z3.Const('g!option', S)
    C.requires('exactly the listed options are readable', C.observe(get, k)[1] == NOT(isone(k, opts)))
    C.throws(AND(NOT(must == 0), NOT(there)), 'exception', modifies=[C.this])

    def post(obs):
        return [('the reported flag says whether the file exists', (NOT(obs(get, lit(DOES))[0] == 0)) == there),
                ('whether it must exist is unchanged', obs(get, lit(MUST))[0] == must),
                ('exactly the listed options are readable', obs(get, k)[1] == NOT(isone(k, opts)))]

    def eff(E):
        E.after(post)
        return z3.BoolVal(True)
    C.ensures(eff)


valid('PropertyFileExist::postCheck()', lambda C: AND(NOT(option(C, 'PropertyFileExist', MUST) == 0), option(C, 'PropertyFileExist', DOES) == 0))
built('PropertyFileExist', '', lambda C, get: [('nothing is required', get(MUST) == 0), ('nothing is reported', get(DOES) == 0)])
built('PropertyFileExist', 'int', lambda C, get: [('as configured', get(MUST) == C.val(0)), ('nothing is reported', get(DOES) == 0)])

# ------------------------------------------------------------------ C30 sister files
SIS = 'PropertySisterFile'
ALLOWED, NAME, PATH, PATHNAME, THERE = OPTS[SIS][1]
UNDEF = lit('NOT_DEFINED')


def bad_sister(e):
    """the part before the last dot (all of it if there is no dot) is not empty"""
    d = last_dot(e)
    return NOT(OR(e == lit(''), d == 0))


valid('PropertySisterFile::checkExt(string&)', lambda C: bad_sister(C.val(0)))


def sister_listed(C):
    get, opts = OPTS[SIS]
    k = z3.Const('g!option', S)
    C.requires('exactly the listed options are readable', C.observe(get, k)[1] == NOT(isone(k, opts)))
    for o in opts:
        C.requires('the option is listed', NOT(C.observe(get, lit(o))[1]))
    return k


@contract('PropertySisterFile::propValid(string&)', inline=True, split=2)
def _(C):
    get, opts = OPTS[SIS]
    k = sister_listed(C)
    exts = C.observe(get, lit(ALLOWED))[0]
    default = C.part == 0
    if default:
        C.requires('no extension has been configured', AND(exts.len == 1, exts.at(0) == UNDEF))
    else:
        C.requires('configured extensions are extensions', Q(lambda i: (IMP(AND(i >= 0, i < exts.len), NOT(exts.at(i) == UNDEF)), None)))
    p = C.val(0)
    b = base_name(p)
    d = last_dot(b)
    core = ITE(d >= 0, z3.SubString(b, 0, d), b)
    j = strings.last_sep(p)
    path = z3.SubString(p, 0, j + 1)
    n = z3.IntVal(0) if default else exts.len

    def post(obs):
        out = [('exactly the listed options are readable', obs(get, k)[1] == NOT(isone(k, opts))),
               ('the configured extensions are unchanged', same(obs(get, lit(ALLOWED))[0], exts))]
        for o, want in ((NAME, lambda i: core + exts.at(i)), (PATH, lambda i: path), (PATHNAME, lambda i: path + (core + exts.at(i))),
                        (THERE, lambda i: ITE(EXISTS(path + (core + exts.at(i))), lit('true'), lit('false')))):
            v = obs(get, lit(o))[0]
            out.append(('one %s per configured extension' % o, v.len == n))
            if not default:
                out.append((o, Q(lambda i, v=v, want=want: (IMP(AND(i >= 0, i < n), v.at(i) == want(i)), None))))
        return out

    def eff(E):
        E.after(post)
        return z3.BoolVal(True)
    C.ensures(eff)


def lone(v, x):
    return AND(v.len == 1, v.at(0) == x)


built(SIS, '', lambda C, get: [('nothing is configured', AND([lone(get(o), UNDEF) for o in (ALLOWED, NAME, PATH, PATHNAME)] + [lone(get(THERE), lit('false'))]))])
setter('PropertySisterFile::setPropOption(string, string&)', SIS, lambda C, o, v: OR(NOT(o == lit(ALLOWED)), bad_sister(v)), lone)


def some_bad(C, v):
    """some element of the list is not an extension"""
    b, w = z3.Const(fresh_name('some'), B), z3.Const(fresh_name('witness'), I)
    for s in (C.st, C.pre):
        s.assume(IMP(b, AND(w >= 0, w < v.len, bad_sister(v.at(w)))))
        s.assume(Q(lambda i: (IMP(AND(i >= 0, i < v.len, bad_sister(v.at(i))), b), [v.at(i)])).hyp())
    return b


setter('PropertySisterFile::setPropOption(string, vec<string>&)', SIS, lambda C, o, v: OR(NOT(o == lit(ALLOWED)), some_bad(C, v)), same)
