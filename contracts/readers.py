"""Contracts of src/libcatnip/io/file_readers (properties C25, C37..C43)."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract, lemma_contract
from ccv.stdlib import *
from contracts import strings, args
from contracts.segments import segments

L = z3.Length


trimmed = strings.NAMED['trimmed']


def sub(s, i, n):
    return z3.SubString(s, i, n)


# ------------------------------------------------------------------ C37 coefficient lines
def number(t):
    return AND(NUMOK(t), DBLRANGE(t))


def mantissa(s, i):
    return trimmed(sub(s, 15 * i, 11))


def exponent(s, i):
    return trimmed(sub(s, 15 * i + 12, 3))


def coef(s, i):
    return STOD(mantissa(s, i)) * POW(z3.RealVal(10), STOD(exponent(s, i)))


@contract('PunReader::readGausCoefLine(string&)')
def _(C):
    s = C.val(0)
    C.requires('every complete field holds a number', Q(lambda i: (IMP(AND(i >= 0, 15 * i + 15 <= L(s)), AND(number(mantissa(s, i)), number(exponent(s, i)))), None)))
    C.ensures(lambda E: Vec(L(s) / 15, lambda i: coef(s, i), ('double',)))


# ------------------------------------------------------------------ streams
@contract('FileReader::nextLine_(string&)')
def _(C):
    f = C.field('fid_')
    d, k = f.f['lines'], f.f['pos']
    C.throws(OR(f.f['fail'], k >= d.len), 'runtime_error', modifies=[C.this.field('fid_'), C.args[0]])

    def eff(E):
        E.set(C.args[0], d.at(k))
        E.set(C.this.field('fid_'), Struct('ifstream', {'lines': d, 'pos': k + 1, 'fail': z3.BoolVal(False)}))
    C.ensures(eff)


@contract('splitSt(string&)')
def _(C):
    t = C.val(0)
    C.ensures(lambda E: Vec(NTOK(t), lambda i: TOK(t, i), ('string',)))


def opened(n):
    k = FLINES(n)
    return Struct('ifstream', {'lines': Vec(k, lambda i: FLINE(n, i), ('string',)), 'pos': z3.IntVal(0), 'fail': z3.BoolVal(False)})


def stream(d, pos):
    return Struct('ifstream', {'lines': d, 'pos': pos, 'fail': z3.BoolVal(False)})


# ------------------------------------------------------------------ C41 coordinates
END = '-' * 69


@contract('LogReader::CoordSectionReader(void*)')
def _(C):
    r = C.args[0]
    f = C.ex.load(r.field('fid_'), C.pre)
    d, k = f.f['lines'], f.f['pos']
    # the header line has been read; two lines later the table starts
    ends = lambda i: z3.Contains(d.at(k + 2 + i), z3.StringVal(END))
    C.requires('the stream is usable', NOT(f.f['fail']))
    rows = d.len - k - 2
    n = FIRST(rows, ends)
    row = lambda i: d.at(k + 2 + i)
    C.requires('rows of the table have six columns, numbers from the fourth on',
               Q(lambda i: (IMP(AND(i >= 0, i < n), AND([NTOK(row(i)) >= 6] + [number(TOK(row(i), c)) for c in (3, 4, 5)])), [row(i)])))
    C.throws(OR(rows <= 0, n >= rows), 'runtime_error', 'a table that is cut off', modifies=[r.field('fid_'), r.field('xyz')])

    def eff(E):
        E.set(r.field('fid_'), stream(d, k + 2 + n + 1))
        col = [Vec(n, lambda i, c=c: STOD(TOK(row(i), c)), ('double',)) for c in (3, 4, 5)]
        E.set(r.field('xyz'), Vec(3, lambda j: merge(j == 0, col[0], merge(j == 1, col[1], col[2])), ('vec', ('double',))))
    C.ensures(eff)


# ------------------------------------------------------------------ C40 orbital energies
NITEM = z3.Function('number of items of an energy line', S, I)
ITEM = z3.Function('item of an energy line', S, I, S)

# ------------------------------------------------------------------ C25 run-together energies
DASH = z3.StringVal('-')
NPOS_ = z3.IntVal(2 ** 64 - 1)


def cutpoint(*more):
    """cut(k, w): where the k-th piece of word w starts; a piece ends before the next '-' that is not its own sign"""
    def nxt(w, c):
        p = z3.IndexOf(w, DASH, c + 1)
        return ITE(c >= L(w), c, ITE(p >= 0, p, L(w)))
    return recdef([S] + [I for _ in more], I, lambda ps: z3.IntVal(0), lambda k, ps, me: nxt(ps[0], me(k, *ps)))


cut = cutpoint()


def dash(w, c):
    p = z3.IndexOf(w, DASH, c)
    return ITE(p >= 0, p - c, NPOS_)


@lemma('cut points')
def _(L_, n):
    """pieces start in the word and, but for the first, at a sign. The lemma is proved for a copy of cut (the same
    recursion; a parameter that is not used) so that its instances cannot be used in its own proof."""
    copy = cutpoint(0)
    cut = lambda k, w: copy(k, w, z3.IntVal(0))
    start = lambda k, w: AND(cut(k, w) >= 0, cut(k, w) <= L(w), OR(cut(k, w) >= k, cut(k, w) == L(w)))
    sign = lambda k, w: OR(k == 0, cut(k, w) == L(w), sub(w, cut(k, w), 1) == DASH)
    at = lambda f: lambda k: [Q(lambda w: (f(k, w), [cut(k, w)]), sorts=[S])]
    L_.induct('pieces start in the word', n, at(start))
    L_.induct('pieces start at a sign', n, at(sign))
    rng = lambda k: AND(k >= 0, k <= n)
    L_.conclude('pieces start in the word', Q(lambda k, w: (IMP(rng(k), start(k, w)), [cut(k, w)]), sorts=[I, S]))
    L_.conclude('pieces start at a sign', Q(lambda k, w: (IMP(rng(k), sign(k, w)), [cut(k, w)]), sorts=[I, S]))


lemma_contract('cut points', 'n')


def _cut(k, w):
    c = cut(k, w)
    return [IMP(k >= 0, AND(c >= 0, c <= L(w), OR(c >= k, c == L(w)), OR(k == 0, c == L(w), sub(w, c, 1) == DASH), OR(k != 0, c == 0)))]


INSTANCES[cut(z3.IntVal(0), z3.StringVal('')).decl().name()] = _cut        # instances of the lemma


def pieces(w):
    """until no sign is left: by the lemma the word ends there, so that the pieces are all of the word"""
    return ITE(z3.IndexOf(w, DASH, 0) >= 0, FIRST(1 + L(w), lambda k: dash(w, cut(k, w)) == NPOS_), z3.IntVal(1))


def piece(w, k):
    return ITE(z3.IndexOf(w, DASH, 0) >= 0, sub(w, cut(k, w), cut(k + 1, w) - cut(k, w)), w)


@contract('splitStEnergies(string&)')
def _(C):
    t = C.val(0)
    if C.mode == 'call':
        n = NITEM(t)
        C.st.assume(AND(n >= 0, n < 2 ** 31))
        C.ensures(lambda E: Vec(n, lambda i: ITEM(t, i), ('string',)))
        return
    word = lambda i: TOK(t, i)
    cnt = lambda i: ITE(i < 4, z3.IntVal(1), pieces(word(i)))
    n = NTOK(t)
    off, seg = segments(n, cnt)
    C.use('positions fall into segments', n, cnt)
    rest = lambda w, k: sub(w, cut(k, w), L(w) - cut(k, w))
    C.invariant(None, (), lambda k, ps, u: rest(u.init, k) if u.sort == S else None)

    def sign(k, ps, u):
        # the position of the next '-' in the rest of a word
        w = [x for x in subterms(u.init) if x.sort() == S and z3.is_app(x) and x.decl().eq(TOK(t, 0).decl())]
        return dash(w[0], cut(k, w[0])) if len({x.get_id() for x in w}) == 1 else None
    C.invariant(None, (), sign)

    def at(p):
        i = seg(p)
        return ITE(i < 4, word(i), piece(word(i), p - off(i)))
    C.ensures(lambda E: Vec(off(n), at, ('string',)))


def mapset(m, k, v):
    return MapV(lambda j: OR(j == k, m.has(j)), lambda j: merge(simp(j == k), v, m.val(j)), m.kty, m.vty, simp(ITE(m.has(k), m.size, m.size + 1)))


def energies(C, r, f, spin, k):
    d = f.f['lines']
    line = lambda i: d.at(k + i)
    txt = lambda w: z3.Concat(z3.StringVal(' '), spin, z3.StringVal(w)) if z3.is_expr(spin) else z3.StringVal(' ' + spin + w)
    occ = lambda i: z3.Contains(line(i), txt('  occ. eigenvalues -- '))
    virt = lambda i: z3.Contains(line(i), txt(' virt. eigenvalues -- '))
    key = spin if z3.is_expr(spin) else z3.StringVal(spin)
    rest = d.len - k
    N = FIRST(rest, lambda i: NOT(OR(occ(i), virt(i))))
    cnt = lambda i: ITE(NITEM(line(i)) >= 4, NITEM(line(i)) - 4, z3.IntVal(0))
    off, seg = segments(N, cnt)
    C.use('positions fall into segments', N, cnt)

    def at(p):
        l = seg(p)
        return ATOF(ITEM(line(l), 4 + p - off(l)))

    def eff(E):
        homo, en = C.ex.load(r.field('homoLevel'), C.pre), C.ex.load(r.field('OREnergies'), C.pre)
        E.set(r.field('homoLevel'), mapset(homo, key, SUM(N, lambda i: ITE(occ(i), cnt(i), z3.IntVal(0)))))
        E.set(r.field('OREnergies'), mapset(en, key, Vec(off(N), at, ('double',))))
        pos0 = C.ex.load(r.field('pos_'), C.pre)
        pos = ITE(N > 0, k + N, pos0)
        E.set(r.field('pos_'), pos)
        E.set(r.field('fid_'), Struct('ifstream', {'lines': d, 'pos': ITE(N < rest, pos, d.len), 'fail': N >= rest}))
    C.ensures(eff)


@contract('LogReader::ReadOrbEnergies(string&)')
def _(C):
    r = C.this
    f = C.ex.load(r.field('fid_'), C.pre)
    C.requires('the stream is usable', NOT(f.f['fail']))
    C.requires('the listing starts at the position noted', C.ex.load(r.field('pos_'), C.pre) == f.f['pos'])
    energies(C, r, f, C.val(0), f.f['pos'])


# ------------------------------------------------------------------ C43 which files are read
def ext(C, p):
    t = trimmed(args.base_name(p))
    d = args.last_dot(t)
    return d, sub(t, d, L(t) - d)


@contract('FileReader::fileExt_()')
def _(C):
    d, e = ext(C, C.field('fileName_'))
    C.throws(d < 0, 'invalid_argument')
    C.ensures(lambda E: e)


@contract('FileReader::getExt()')
def _(C):
    d, e = ext(C, C.field('fileName_'))
    C.throws(d < 0, 'invalid_argument')
    C.ensures(lambda E: e)


@contract('FileReader::fileExist_()')
def _(C):
    C.ensures(lambda E: EXISTS(C.field('fileName_')))


@contract('FileReader::open()')
def _(C):
    C.throws(NOT(EXISTS(C.field('fileName_'))), 'invalid_argument')
    n = C.field('fileName_')

    def eff(E):
        E.set(C.this.field('fileOpen_'), z3.BoolVal(True))
        E.set(C.this.field('fid_'), opened(n))
    C.ensures(eff)


@contract('FileReader::read()')
def _(C):
    C.requires('the file is missing', NOT(EXISTS(C.field('fileName_'))))
    C.throws(z3.BoolVal(True), 'invalid_argument')


def table(vty, **kv):
    """the map with these keys"""
    def val(k):
        out = None
        for w, v in kv.items():
            out = v if out is None else merge(k == z3.StringVal(w), v, out)
        return out
    return MapV(lambda k: OR([k == z3.StringVal(w) for w in kv]), val, ('string',), vty, z3.IntVal(len(kv)))


def texts(*ts):
    return MapV(lambda k: OR([k == z3.StringVal(t) for t in ts]), lambda k: z3.BoolVal(True), ('string',), ('bool',), z3.IntVal(len(ts)))


SECTIONS = {
    'LogReader': {'AOFunction': ('     Gross orbital populations:',), 'Overlap': (' *** Overlap ***',), 'OEAlpha': (' Alpha  occ. eigenvalues --',),
                  'OEBeta': ('  Beta  occ. eigenvalues --',), 'Coord': ('Center     Atomic      Atomic', 'Center     Atomic     Atomic')},
    'PunReader': {'CoefAlpha': (' 1 Alpha MO ',), 'CoefBeta': (' 1 Beta MO ',)}}
READS = {'AOFunction': 'AOFunction', 'Overlap': 'Overlap', 'OEAlpha': 'OrbitalEnergiesAlpha', 'OEBeta': 'OrbitalEnergiesBeta', 'Coord': 'Coord',
         'CoefAlpha': 'OrbitalCoefAlpha', 'CoefBeta': 'OrbitalCoefBeta'}

for cls, dot in (('LogReader', '.log'), ('PunReader', '.pun')):
    @contract(cls + '::validFileName_()')
    def _(C, dot=dot):
        d, e = ext(C, C.field('fileName_'))
        C.throws(OR(d < 0, NOT(e == z3.StringVal(dot))), 'invalid_argument')
        C.ensures(lambda E: None)

    @contract(cls + '::%s(string&)' % cls)
    def _(C, dot=dot, cls=cls):
        d, e = ext(C, C.val(0))
        C.throws(OR(d < 0, NOT(e == z3.StringVal(dot))), 'invalid_argument')

        def eff(E):
            put = lambda n, v: E.set(C.this.field(n), v)
            put('fileName_', C.val(0))
            put('sectionHeaders_', table(('set', ('string',)), **{t: texts(*h) for t, h in SECTIONS[cls].items()}))
            put('sectionReaders_', table(('fptr',), **{t: z3.StringVal('%s::%sSectionReader(void*)' % (cls, READS[t])) for t in SECTIONS[cls]}))
            put('fileOpen_', z3.BoolVal(False))
            put('pos_', z3.IntVal(0))
            put('fid_', Struct('ifstream', {'lines': Vec(0, lambda i: z3.StringVal(''), ('string',)), 'pos': z3.IntVal(0), 'fail': z3.BoolVal(False)}))
            if cls == 'PunReader':
                put('coefs', table(('ptr', ('cls', 'Matrix'))))
        C.ensures(eff)


# ------------------------------------------------------------------ C40 sections and results
for spin in ('Alpha', 'Beta'):
    @contract('LogReader::OrbitalEnergies%sSectionReader(void*)' % spin)
    def _(C, spin=spin):
        r = C.args[0]
        f, p = C.ex.load(r.field('fid_'), C.pre), C.ex.load(r.field('pos_'), C.pre)
        C.requires('the stream is usable', NOT(f.f['fail']))
        C.requires('the position of the section has been noted', AND(p >= 0, p <= f.f['lines'].len))
        energies(C, r, f, spin, p)


@contract('LogReader::getOE(string&)')
def _(C):
    m, k = C.field('OREnergies'), C.val(0)
    C.throws(NOT(m.has(k)), 'out_of_range')
    C.ensures(lambda E: m.val(k))


@contract('LogReader::getHOMOLevel(string&)')
def _(C):
    m, k = C.field('homoLevel'), C.val(0)
    C.throws(NOT(m.has(k)), 'out_of_range')
    C.ensures(lambda E: m.val(k))


@contract('LogReader::getCoords()')
def _(C):
    C.ensures(lambda E: C.field('xyz'))


# ------------------------------------------------------------------ C38 coefficients of a spin
@contract('PunReader::getCoefsMatrix(string&)')
def _(C):
    m, k = C.field('coefs'), C.val(0)
    C.throws(NOT(m.has(k)), 'invalid_argument')
    C.ensures(lambda E: m.val(k))
