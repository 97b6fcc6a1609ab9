"""Contracts of src/libcatnip/qc_functions.cpp (properties C12..C20)."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract, lemma_contract, Mat, mat_view
from .segments import segments
from . import matrix   # the contracts of the matrix operations used here

TC = 'TransferComplex::'
MSTR = 'Matrix*'


def half(x):
    return x / 2


# ------------------------------------------------------------------ C16 construction
@contract(TC + 'TransferComplex(Matrix*, Matrix*, Matrix*, pair<int,int>, pair<int,int>, Matrix*, Matrix*, bool)')
def _(C):
    m1, m2, mp, ms = C.mat(0), C.mat(1), C.mat(2), C.mat(5)
    cp = C.args[7]
    C.throws(OR(ms.cols != mp.cols,
                AND(cp, OR(m1.cols != mp.cols, m2.cols != mp.cols)),
                AND(NOT(cp), m1.cols + m2.cols > mp.cols)))

    def eff(E):
        E.set(C.this, Struct('TransferComplex', {
            'mat_1_Coef': C.args[0], 'mat_2_Coef': C.args[1], 'mat_P_Coef': C.args[2],
            'Orbs1': C.val(3), 'Orbs2': C.val(4), 'mat_S': C.args[5], 'mat_P_OE': C.args[6],
            'unscrambled': z3.BoolVal(False), 'counterPoise_': cp}))
    C.ensures(eff)


# ------------------------------------------------------------------ C19 the coupling
def coupling(m1, m2, mp, ms, oe, cp):
    """(J_ab - (e_a+e_b) S_ab/2) / (1 - S_ab^2) of the two monomer orbitals (first rows of m1 and m2)"""
    n = mp.cols           # basis functions of the dimer

    def zeta(j, which):
        """coefficient of basis function j (1-based) in the zero padded monomer orbital"""
        if which == 1:
            return ITE(j <= m1.cols, m1.at(1, j), z3.RealVal(0))
        return ITE(cp, m2.at(1, j), ITE(j > m1.cols, m2.at(1, j - m1.cols), z3.RealVal(0)))

    def gamma(q, which):
        """projection on dimer orbital q (1-based)"""
        return SUM(ms.rows, lambda i: zeta(i + 1, which) * SUM(ms.cols, lambda j: ms.at(i + 1, j + 1) * mp.at(q, j + 1)))

    def energy(q):
        return ITE(oe.cols > oe.rows, oe.at(1, q), oe.at(q, 1))
    O = mp.rows
    J = SUM(O, lambda q: gamma(q + 1, 2) * energy(q + 1) * gamma(q + 1, 1))
    ea = SUM(O, lambda q: gamma(q + 1, 1) * energy(q + 1) * gamma(q + 1, 1))
    eb = SUM(O, lambda q: gamma(q + 1, 2) * energy(q + 1) * gamma(q + 1, 2))
    s = SUM(O, lambda q: gamma(q + 1, 2) * gamma(q + 1, 1))
    return (J - (ea + eb) / 2 * s) / (1 - s * s)


@contract('calculate_transfer_integral(Matrix&, Matrix&, Matrix, Matrix&, Matrix&, bool)')
def _(C):
    m1, m2, mp, ms, oe = [C.mat(i) for i in range(5)]
    cp = C.args[5]
    for nm, m in (('monomer 1', m1), ('monomer 2', m2), ('dimer', mp), ('overlap', ms), ('energies', oe)):
        C.requires('%s matrix: one shelf, not empty' % nm, AND(m.rows >= 1, m.cols >= 1, m.shel == 1))
    C.requires('one orbital per monomer', AND(m1.rows == 1, m2.rows == 1))
    C.requires('energies form a vector', OR(oe.rows == 1, oe.cols == 1))
    n = ITE(oe.cols > oe.rows, oe.cols, oe.rows)
    C.exits(OR(ms.cols != mp.cols, n != mp.rows,
               ITE(cp, OR(m1.cols != ms.rows, m2.cols != ms.rows), m1.cols + m2.cols != ms.rows)))
    C.ensures(lambda E: coupling(m1, m2, mp, ms, oe, cp))


# ------------------------------------------------------------------ C18 which orbitals are used
@contract(TC + 'calcJ(map<string,string>&, map<string,int>&)')
def _(C):
    types, nums = C.val(0), C.val(1)
    th = C.ex.load(C.this, C.pre)
    m1, m2, mp, ms, oe = [C.mat(th.f[x]) for x in ('mat_1_Coef', 'mat_2_Coef', 'mat_P_Coef', 'mat_S', 'mat_P_OE')]
    cp = th.f['counterPoise_']
    for nm, m in (('monomer 1', m1), ('monomer 2', m2), ('dimer', mp), ('overlap', ms), ('energies', oe)):
        C.requires('%s matrix: one shelf, not empty' % nm, AND(m.rows >= 1, m.cols >= 1, m.shel == 1))
    C.requires('energies form a vector', OR(oe.rows == 1, oe.cols == 1))
    bad, rows = [], []
    for key, orbs, m in (('mon1', th.f['Orbs1'], m1), ('mon2', th.f['Orbs2'], m2)):
        k = z3.StringVal(key)
        n, homo = orbs.f['first'], orbs.f['second']
        C.requires('%s: one row per orbital, HOMO among them' % key, AND(n == m.rows, homo >= 0, homo <= n))
        ty, mo = types.val(k), nums.val(k)
        isH, isL = ty == z3.StringVal('HOMO'), ty == z3.StringVal('LUMO')
        bad += [NOT(types.has(k)), NOT(nums.has(k)), NOT(OR(isH, isL)),
                AND(isH, OR(mo > 0, mo <= -homo)), AND(isL, OR(mo < 0, mo >= n - homo))]
        rows.append(ITE(isH, homo + mo, homo + 1 + mo))
    C.throws(OR(bad), 'logic_error', 'request rejected')
    o1, o2 = [Mat(z3.IntVal(1), m.cols, z3.IntVal(1), lambda i, j, k, m=m, r=r: m.at(r, j, 1)) for m, r in zip((m1, m2), rows)]
    n = ITE(oe.cols > oe.rows, oe.cols, oe.rows)
    C.exits(OR(ms.cols != mp.cols, n != mp.rows,
               ITE(cp, OR(m1.cols != ms.rows, m2.cols != ms.rows), m1.cols + m2.cols != ms.rows)))
    C.ensures(lambda E: coupling(o1, o2, mp, ms, oe, cp))


# ------------------------------------------------------------------ C15 matches
def dup(match, i):
    """an earlier atom is matched to the same atom as atom i"""
    return LAST(i, lambda k: match.at(k) == match.at(i)) >= 0


@contract('checkMatch(vec<int>&, vec<bool>&)')
def _(C):
    match, done = C.val(0), C.val(1)

    def bad(i):
        a = match.at(i)
        return OR(a < 1, a > done.len, done.at(simp(a - 1)), dup(match, i))
    C.throws(FIRST(match.len, bad) < match.len, 'logic_error', modifies=(C.args[1],))
    C.ensures(lambda E: E.set(C.args[1], Vec(done.len, lambda p: OR(
        done.at(p), LAST(match.len, lambda k: match.at(k) == p + 1) >= 0), ('bool',))))


def match_bad(A, B, n):
    """the matches of the atoms (A then B) do not name distinct atoms among 1..n"""
    a = FIRST(A.len, lambda i: OR(A.at(i) < 1, A.at(i) > n, dup(A, i))) < A.len
    if B is None:
        return a
    b = FIRST(B.len, lambda i: OR(B.at(i) < 1, B.at(i) > n, dup(B, i), LAST(A.len, lambda k: A.at(k) == B.at(i)) >= 0)) < B.len
    return OR(a, b)


@contract('checkMatch(vec<int>&, vec<int>&, vec<int>&)')
def _(C):
    A, B, F = C.val(0), C.val(1), C.val(2)
    C.throws(OR(A.len + B.len > F.len, match_bad(A, B, F.len)), 'logic_error')
    C.ensures(lambda E: None)


# ------------------------------------------------------------------ C12 splitting and merging
def fmat(rows, cols, at, shel=1):
    """a matrix as element of a list; at(i,j,k) 1-based"""
    z = lambda x: z3.IntVal(x) if isinstance(x, int) else x
    rows, cols, shel = z(rows), z(cols), z(shel)
    return Frozen(Struct('Matrix', {'rows': rows, 'cols': cols, 'shel': shel, 'elem': Content(
        (rows, cols, shel), lambda a, b, c: at(simp(a + 1), simp(b + 1), simp(c + 1)))}), ('cls', 'Matrix'))


def forall(pred, name='q', pat=None):
    v = z3.Const('g!' + name + '!all', I)
    b = pred(v)
    p = pat(v) if pat else None
    ok = p is not None and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and contains(p, v)
    return z3.ForAll([v], b, patterns=[p]) if ok else z3.ForAll([v], b)


def before(dims, i):
    """basis functions of the blocks before block i (0-based)"""
    return SUM(i, lambda k: dims.at(k))


def split_ok(C, dims, total):
    C.requires('block sizes are positive and fit', forall(lambda i: IMP(AND(i >= 0, i < dims.len), AND(
        dims.at(i) >= 1, before(dims, i) >= 0, before(dims, i) + dims.at(i) <= total)), pat=lambda i: dims.at(i)))


def blocks(dims, m, columns):
    """the list of blocks of a matrix"""
    if columns:
        return lambda b: fmat(m.rows, dims.at(b), lambda i, j, k: m.at(i, before(dims, b) + j, 1))
    return lambda b: fmat(dims.at(b), m.cols, lambda i, j, k: m.at(before(dims, b) + i, j, 1))


for fn in ('splitMatrixIntoList', 'splitCoefsUpByAtoms'):
    @contract(fn + '(vec<int>&, Matrix*, string&)')
    def _(C):
        dims, m, d = C.val(0), C.mat(1), C.val(2)
        col, row = d == z3.StringVal('Columns'), d == z3.StringVal('Rows')
        C.requires('the matrix is not empty', AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
        split_ok(C, dims, ITE(col, m.cols, m.rows))
        C.throws(NOT(OR(col, row)))
        ty = ('ptr', ('cls', 'Matrix'))
        C.ensures(lambda E: Vec(dims.len, blocks(dims, m, True), ty), col, 'columns')
        C.ensures(lambda E: Vec(dims.len, blocks(dims, m, False), ty), row, 'rows')


def mlist(C, i):
    """view of a list of matrices: k (0-based) -> Mat"""
    v = C.val(i)
    from ccv.contract import mat_view
    return v.len, lambda k: mat_view(C.ex, v.at(k), C.pre)


def merged(n, at, columns):
    """element (i,j) of the merged matrix: the block that covers the line"""
    w = (lambda k: at(k).cols) if columns else (lambda k: at(k).rows)
    off = lambda k: SUM(k, w)

    def elem(i, j, _):
        x, y = (j, i) if columns else (i, j)
        hit = lambda k: AND(off(k) < x, x <= off(k) + w(k), y <= (at(k).rows if columns else at(k).cols))
        L = LAST(n, hit)
        o = simp(x - off(L))
        return ITE(L >= 0, at(L).at(i, o) if columns else at(L).at(o, j), z3.RealVal(0))
    return elem, off, w


for fn in ('mergeListOfMatrices', 'createNewMatrix'):
    @contract(fn + '(vec<Matrix*>&, int, int, string&)')
    def _(C):
        n, at = mlist(C, 0)
        rows, cols, d = C.args[1], C.args[2], C.val(3)
        col, row = d == z3.StringVal('Columns'), d == z3.StringVal('Rows')
        C.exits(OR(rows < 1, cols < 1))
        C.throws(NOT(OR(col, row)))
        for c, g in ((True, col), (False, row)):
            elem, off, w = merged(n, at, c)
            C.requires('blocks fit', IMP(g, forall(lambda k: IMP(AND(k >= 0, k < n), AND(
                off(k) >= 0, off(k) + w(k) <= (cols if c else rows), at(k).shel >= 1,
                (at(k).rows <= rows) if c else (at(k).cols <= cols))), pat=lambda k: w(k))))
            C.ensures(lambda E, elem=elem: E.new_mat(Mat(rows, cols, 1, elem)), g, 'columns' if c else 'rows')


# ------------------------------------------------------------------ C20 ranking
@contract('findRank(Matrix&, Matrix&)')
def _(C):
    a, b = C.mat(0), C.mat(1)
    C.requires('alpha energies are given', AND(a.rows >= 1, a.cols >= 1, a.shel >= 1))
    C.requires('beta energies are absent or given', OR(b.cols == 0, AND(b.rows >= 1, b.shel >= 1)))
    nb = ITE(b.cols > 0, b.rows, z3.IntVal(0))
    N = a.rows + nb
    energy = lambda i: ITE(i < a.rows, a.at(i + 1, 1), b.at(i - a.rows + 1, 1))
    spin = lambda i: ITE(i < a.rows, z3.StringVal('Alpha'), z3.StringVal('Beta'))

    def eff(E):
        def pred(v):
            P, Q = E.ex.sort_perm       # witness: which input has which rank, and its inverse
            r, s, i = gen('rank'), gen('rank'), gen('input')
            inr = lambda x: AND(x >= 1, x <= N)
            ini = AND(i >= 0, i < N)
            return [('the ranks are 1..N', v.has(r) == inr(r)),
                    ('energies do not decrease with rank', IMP(AND(inr(r), inr(s), r < s), v.val(r).f['first'] <= v.val(s).f['first'])),
                    ('every rank is an input', IMP(inr(r), AND(P(r - 1) >= 0, P(r - 1) < N))),
                    ('... with its energy', IMP(inr(r), v.val(r).f['first'] == energy(P(r - 1)))),
                    ('... and its spin', IMP(inr(r), v.val(r).f['second'] == spin(P(r - 1)))),
                    ('every input has a rank', IMP(ini, AND(Q(i) >= 0, Q(i) < N, P(Q(i)) == i))),
                    ('no input has two ranks', IMP(inr(r), Q(P(r - 1)) == r - 1))]
        return E.rel(('map', ('int',), ('pair', ('double',), ('string',))), pred)
    C.ensures(eff)


# ------------------------------------------------------------------ C13/C14 sequential swaps
# A list of pairs (first, second), read as "swap position first with position second", is made from a list of pairs
# (first, D) "what is at D has to go to first" by following the content that each swap displaces.
def pending(N, first, D):
    """pending(k, l): where the content wanted by pair l is after the first k swaps"""
    return recdef([I], I, lambda ps: D(ps[0]),
                  lambda k, ps, me: ITE(AND(ps[0] > k, me(k, ps[0]) == first(k)), me(k, k), me(k, ps[0])))


def content(first, second):
    """content(k, p): the original position of what is at position p after the first k swaps"""
    return recdef([I], I, lambda ps: ps[0],
                  lambda k, ps, me: me(k, ITE(ps[0] == first(k), second(k), ITE(ps[0] == second(k), first(k), ps[0]))))


def distinct(f, n):
    return Q(lambda a, b: (IMP(AND(a >= 0, a < n, b >= 0, b < n, f(a) == f(b)), a == b)), 2)


def inrange(f, n, lo, hi):
    return Q(lambda a: IMP(AND(a >= 0, a < n), AND(f(a) >= lo, f(a) <= hi)))


@lemma('rearranged sum')
def _(L, d, pi, n):
    """sizes in a rearranged order never add up to more than all of them"""
    mark = recdef([I], I, lambda ps: z3.IntVal(0), lambda k, ps, me: ITE(ps[0] == pi(k), d(ps[0]), me(k, ps[0])))
    L.assume(Q(lambda i: IMP(AND(i >= 0, i < n), d(i) >= 0)))
    L.assume(inrange(pi, n, 0, n - 1))
    L.assume(distinct(pi, n))
    marked = lambda u, m: SUM(u, lambda i: mark(m, i))
    L.induct('not yet counted', n, lambda m: [Q(lambda l: IMP(AND(l >= m, l < n), mark(m, pi(l)) == 0))])
    L.induct('counted once', n, lambda m: [Q(lambda i: (IMP(AND(i >= 0, i < n), AND(mark(m, i) >= 0, mark(m, i) <= d(i))), [mark(m, i)]))])
    L.induct('one more', n, lambda u: [Q(lambda m: (IMP(AND(m >= 0, m < n), marked(u, m + 1) == marked(u, m) + ITE(pi(m) < u, d(pi(m)), z3.IntVal(0))),
                                                    [marked(u, m + 1)]))])
    L.induct('none yet', n, lambda u: [marked(u, z3.IntVal(0)) == 0])
    L.induct('total', n, lambda m: [marked(n, m) == SUM(m, lambda k: d(pi(k)))])
    L.induct('not more', n, lambda u: [Q(lambda m: (IMP(AND(m >= 0, m <= n), marked(u, m) <= SUM(u, d)), [marked(u, m)]))])
    part = lambda k: SUM(k, lambda q: d(pi(q)))
    L.induct('not negative', n, lambda k: [part(k) >= 0])
    L.have('no more than all', Q(lambda k: (IMP(AND(k >= 0, k <= n), part(k) <= SUM(n, d)), [part(k)])))
    L.conclude('no more than all', Q(lambda k: (IMP(AND(k >= 0, k < n), AND(
        part(k) >= 0, part(k + 1) == part(k) + d(pi(k)), part(k + 1) <= SUM(n, d))), [part(k)])))


lemma_contract('rearranged sum', 'ffn')


@lemma('swap sequence')
def _(L, first, D, N):
    """the rewritten swap sequence realises the wanted moves"""
    pend = pending(N, first, D)
    cont = content(first, named_fn(lambda k: pend(k, k)))
    L.assume(distinct(first, N))
    L.assume(distinct(D, N))
    L.induct('settled', N, lambda k: [Q(lambda l: (IMP(AND(l >= 0, l <= k), pend(k, l) == pend(l, l)), [pend(k, l)]))])
    J = lambda k: [Q(lambda j: IMP(AND(j >= 0, j < k), cont(k, first(j)) == D(j))),
                   Q(lambda l: (IMP(AND(l >= k, l < N), cont(k, pend(k, l)) == D(l)), [pend(k, l)]))]
    L.induct('contents', N, J)
    L.conclude('settled', Q(lambda k, l: (IMP(AND(k >= 0, k <= N, l >= 0, l <= k), pend(k, l) == pend(l, l)), [pend(k, l)]), 2))
    L.conclude('moves done', Q(lambda j: (IMP(AND(j >= 0, j < N), cont(N, first(j)) == D(j)), [first(j)])))
    L.conclude('pending', Q(lambda k, l: (IMP(AND(k >= 0, k <= N, l >= k, l < N), cont(k, pend(k, l)) == D(l)), [pend(k, l)]), 2))
    L.conclude('pending places are distinct', Q(lambda k, l, m: (IMP(AND(k >= 0, k <= N, l >= k, l < N, m >= k, m < N, pend(k, l) == pend(k, m)), l == m),
                                                       [z3.MultiPattern(pend(k, l), pend(k, m))]), 3))


lemma_contract('swap sequence', 'ffn')


@lemma('swap places')
def _(L, first, D, N, hi):
    """the positions a swap sequence names exist, and it rearranges what is there"""
    pend = pending(N, first, D)
    cont = content(first, named_fn(lambda k: pend(k, k)))
    L.assume(inrange(first, N, 1, hi))
    L.assume(inrange(D, N, 1, hi))
    L.induct('places exist', N, lambda k: [Q(lambda l: (IMP(AND(l >= 0, l < N), AND(pend(k, l) >= 1, pend(k, l) <= hi)), [pend(k, l)]))])
    L.induct('contents exist', N, lambda k: [Q(lambda p: (IMP(AND(p >= 1, p <= hi), AND(cont(k, p) >= 1, cont(k, p) <= hi)), [cont(k, p)]))])
    L.induct('contents are distinct', N, lambda k: [Q(lambda p, q: (IMP(cont(k, p) == cont(k, q), p == q), [z3.MultiPattern(cont(k, p), cont(k, q))]), 2)])
    L.conclude('places exist', Q(lambda l: (IMP(AND(l >= 0, l < N), AND(pend(l, l) >= 1, pend(l, l) <= hi)), [pend(l, l)])))
    L.conclude('contents exist', Q(lambda p: (IMP(AND(p >= 1, p <= hi), AND(cont(N, p) >= 1, cont(N, p) <= hi)), [cont(N, p)])))
    L.conclude('contents are distinct', Q(lambda p, q: (IMP(cont(N, p) == cont(N, q), p == q), [z3.MultiPattern(cont(N, p), cont(N, q))]), 2))

lemma_contract('swap places', 'ffnn')


def ghost_fn(C, f, n):
    """a function that agrees with f on 0..n-1: any such function when the contract is verified; at a call, f simplified
    for arguments in the range"""
    t = gen('in')
    rng = AND(t >= 0, t < n)
    if C.mode == 'verify':
        F = z3.Function(fresh_name('ghost'), I, I)
        C.st.assume(z3.ForAll([t], IMP(rng, F(t) == f(t)), patterns=[F(t)]))
        return lambda x: F(x)
    known = [x for x in C.pre.pc if not any(z3.is_quantifier(y) for y in subterms(x))]

    def go(e, ctx):
        if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE):
            return e.decl()(*[go(x, ctx) for x in e.children()]) if z3.is_app(e) and e.children() and any(
                z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE for y in subterms(e)) else e
        c, a, b = e.children()
        if check_sat(ctx + [NOT(c)]) == z3.unsat:
            return go(a, ctx)
        if check_sat(ctx + [c]) == z3.unsat:
            return go(b, ctx)
        return ITE(c, go(a, ctx + [c]), go(b, ctx + [NOT(c)]))
    body = simp(go(simp(f(t)), known + [rng]))
    return named_fn(lambda x: subst(body, [(t, x)]))


def pairs(C, idx):
    """several lists of pairs, one after the other: number, first(t), second(t), and the offsets"""
    vs = [C.val(i) for i in idx]
    off = [z3.IntVal(0)]
    for v in vs:
        off.append(simp(off[-1] + v.len))

    def pick(vs, name):
        def f(t):
            r = vs[-1].at(simp(t - off[len(vs) - 1])).f[name]
            for i in reversed(range(len(vs) - 1)):
                r = ITE(simp(t < off[i + 1]), vs[i].at(simp(t - off[i])).f[name], r)
            return r
        return f
    return off, ghost_fn(C, pick(vs, 'first'), off[-1]), ghost_fn(C, pick(vs, 'second'), off[-1])


PAIR = ('pair', ('int',), ('int',))


def swap_order(n):
    name = 'refreshSwapOrder(%s)' % ', '.join(['vec<pair<int,int>>&'] * n)
    idx = list(range(n))

    @contract(name)
    def _(C):
        off, first, D = pairs(C, idx)
        N = off[-1]
        C.requires('positions are distinct', distinct(first, N))
        C.requires('wanted contents are distinct', distinct(D, N))
        C.use('swap sequence', first, D, N)
        pend = pending(N, first, D)
        for k in idx:
            for j in idx:
                # while list j is processed, list k holds what is pending
                C.invariant(C.args[k], ('[]', 'second'), lambda n, ps, u, j=j, k=k: ITE(
                    AND(ps[0] >= 0, ps[0] < C.val(k).len), pend(off[j] + n, off[k] + ps[0]), u.init))

        def eff(E):
            for k in idx:
                v = C.val(k)
                E.set(C.args[k], Vec(v.len, lambda i, v=v, k=k: v.at(i).set('second', pend(off[k] + i, off[k] + i)), PAIR))
        C.ensures(eff)


swap_order(1)
swap_order(2)


def swap_lists(n):
    name = 'updateSwapLists(%s, vec<Matrix*>&)' % ', '.join(['vec<pair<int,int>>&'] * n)
    idx = list(range(n))

    @contract(name)
    def _(C):
        off, first, second = pairs(C, idx)
        N = off[-1]
        v = C.val(n)
        C.requires('the positions exist', inrange(first, N, 1, v.len))
        C.requires('the positions swapped with exist', inrange(second, N, 1, v.len))
        cont = content(first, second)
        fns = {x.path: x.fn for x in leaves(v)}
        for j in idx:
            C.invariant(C.args[n], ('[]',), lambda n, ps, u, j=j: fns[u.path]([simp(cont(off[j] + n, ps[0] + 1) - 1)] + list(ps[1:])))
        C.ensures(lambda E: E.set(C.args[n], Vec(v.len, lambda p: v.at(simp(cont(N, p + 1) - 1)), ('ptr', ('cls', 'Matrix')))))


swap_lists(1)
swap_lists(2)


# ------------------------------------------------------------------ C13/C14 unscrambling
def matches(A, B):
    """the moves for monomer B's atoms (placed after A's) and then A's: (number, first, wanted content)"""
    if B is None:
        return A.len, named_fn(lambda t: t + 1), named_fn(A.at)
    return (simp(B.len + A.len), named_fn(lambda t: ITE(t < B.len, t + A.len + 1, t - B.len + 1)),
            named_fn(lambda t: ITE(t < B.len, B.at(t), A.at(simp(t - B.len)))))


def arrangement(C, A, B, dims):
    N, first, D = matches(A, B)
    pend = pending(N, first, D)
    cont = content(first, named_fn(lambda k: pend(k, k)))
    pi = lambda q: simp(cont(N, q + 1) - 1)
    C.use('swap sequence', first, D, N)
    C.use('swap places', first, D, N, dims.len)
    C.use('rearranged sum', dims.at, pi, dims.len)
    C.use('position in a block', dims.len, lambda q: dims.at(pi(q)))
    return N, first, D, cont, pi


def rearranged(m, dims, pi, columns):
    """the matrix with its blocks in the order pi"""
    b = blocks(dims, m, columns)
    view = lambda k: mat_view(None, b(pi(k)), None)
    elem, off, w = merged(dims.len, view, columns)
    return Mat(m.rows, m.cols, 1, elem), off


@lemma('position in a block')
def _(L, N, cnt):
    """the block that covers a position"""
    off, _ = segments(N, cnt)
    blk = lambda x: LAST(N, lambda k: AND(off(k) < x, x <= off(k) + cnt(k)))
    L.assume(Q(lambda a: IMP(AND(a >= 0, a < N), cnt(a) >= 0)))
    L.known.append(instance('positions fall into segments', N, cnt))
    L.conclude('found', Q(lambda p, x: (IMP(AND(p >= 0, p < N, off(p) < x, x <= off(p) + cnt(p)), blk(x) == p),
                                       [z3.MultiPattern(blk(x), off(p))]), 2))


lemma_contract('position in a block', 'nf')


def inblock(dims, pi, off, p, x):
    return IMP(AND(p >= 0, p < dims.len, off(p) < x, x <= off(p) + dims.at(pi(p))), LAST(dims.len, lambda k: AND(off(k) < x, x <= off(k) + dims.at(pi(k)))) == p)


def match_req(C, A, B, dims, m, sides):
    C.requires('the matrix is not empty', AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
    for total in sides:
        split_ok(C, dims, total)
        C.requires('all of the blocks fit', before(dims, dims.len) <= total)
    C.throws(OR((B.len + A.len if B is not None else A.len) > dims.len, match_bad(A, B, dims.len)), 'logic_error', 'not a match')


def unscramble_coef(two):
    @contract('unscramble_Coef(%svec<int>&, vec<int>&, Matrix*)' % ('vec<int>&, ' if two else ''))
    def _(C):
        A, B = C.val(0), C.val(1) if two else None
        dims, m = C.val(1 + two), C.mat(2 + two)
        match_req(C, A, B, dims, m, [m.cols])
        N, first, D, cont, pi = arrangement(C, A, B, dims)
        res, off = rearranged(m, dims, pi, True)

        def eff(E):
            if E.mode == 'verify':
                t, i, x = gen('swap'), gen('row'), gen('function')
                p, w = first(t) - 1, D(t) - 1
                E.fact([('the atom matched is in its place', IMP(AND(t >= 0, t < N), cont(N, first(t)) == D(t))),
                        ('the places exist', IMP(AND(t >= 0, t < N), AND(p >= 0, p < dims.len))),
                        ('block of the place', inblock(dims, pi, off, p, x)),
                        ('its functions are in its block', IMP(AND(t >= 0, t < N, pi(p) == w, i >= 1, i <= m.rows, x > off(p), x <= off(p) + dims.at(w)),
                                                               res.at(i, x) == m.at(i, before(dims, w) + x - off(p), 1)))])
            return E.new_mat(res)
        C.ensures(eff)


unscramble_coef(False)
unscramble_coef(True)


def unscramble_s(two):
    @contract('unscramble_S(%svec<int>&, vec<int>&, Matrix*)' % ('vec<int>&, ' if two else ''))
    def _(C):
        A, B = C.val(0), C.val(1) if two else None
        dims, m = C.val(1 + two), C.mat(2 + two)
        match_req(C, A, B, dims, m, [m.cols, m.rows])
        N, first, D, cont, pi = arrangement(C, A, B, dims)
        mid, off = rearranged(m, dims, pi, True)
        res, offr = rearranged(mid, dims, pi, False)

        def eff(E):
            if E.mode == 'verify':
                t, u, a, b = gen('swap'), gen('swap2'), gen('function'), gen('function2')
                p, v, q, w = first(t) - 1, D(t) - 1, first(u) - 1, D(u) - 1
                i, j = before(dims, v) + a - off(p), before(dims, w) + b - off(q)
                R1 = AND(t >= 0, t < N, pi(p) == v, a > off(p), a <= off(p) + dims.at(v))
                R2 = AND(u >= 0, u < N, pi(q) == w, b > off(q), b <= off(q) + dims.at(w))
                E.fact([('the atom matched is in its place', IMP(AND(t >= 0, t < N), cont(N, first(t)) == D(t))),
                        ('the places exist', AND(IMP(AND(t >= 0, t < N), AND(p >= 0, p < dims.len)), IMP(AND(u >= 0, u < N), AND(q >= 0, q < dims.len)))),
                        ('block of the place', inblock(dims, pi, off, p, a)),
                        ('block of the other place', inblock(dims, pi, off, q, b)),
                        ('positions of the first block', IMP(R1, AND(i >= 1, i <= m.rows, a <= m.rows))),
                        ('positions of the second block', IMP(R2, AND(j >= 1, j <= m.cols, b <= m.cols))),
                        ('rows rearranged', IMP(AND(R1, R2), res.at(a, b) == mid.at(i, b))),
                        ('columns rearranged', IMP(AND(R1, R2), mid.at(i, b) == m.at(i, j, 1))),
                        ('overlaps of two atoms', IMP(AND(R1, R2), res.at(a, b) == m.at(i, j, 1)))])
            return E.new_mat(res)
        C.ensures(eff)


unscramble_s(False)
unscramble_s(True)


# ------------------------------------------------------------------ C17 the whole complex
@contract(TC + 'unscramble(Matrix&, Matrix&, Matrix&, vec<int>&, vec<int>&)')
def _(C):
    th = C.ex.load(C.this, C.pre)
    x1, x2, xp = C.mat(0), C.mat(1), C.mat(2)
    basisP, basis2 = C.val(3), C.val(4)
    m2, mp, ms = [C.mat(th.f[x]) for x in ('mat_2_Coef', 'mat_P_Coef', 'mat_S')]
    cp = th.f['counterPoise_']
    for nm, m in (('monomer 1', x1), ('monomer 2', x2), ('dimer', xp)):
        C.requires('%s coordinates: one shelf, as many rows' % nm, AND(m.shel == 1, m.rows == x1.rows))
    for nm, m in (('monomer 2', m2), ('dimer', mp), ('overlap', ms)):
        C.requires('the %s matrix is not empty' % nm, AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
    for dims, total in ((basisP, mp.cols), (basisP, ms.cols), (basisP, ms.rows), (basis2, m2.cols)):
        split_ok(C, dims, total)
        C.requires('all of the blocks fit', before(dims, dims.len) <= total)
    match = lambda a, b: C.pure('Matrix::matchCol(Matrix&, int)', C.args[a], C.args[b], z3.IntVal(4))
    v12, v1p, v2p = match(0, 1), match(0, 2), match(1, 2)
    bad = lambda A, B, dims: OR((B.len + A.len if B is not None else A.len) > dims.len, match_bad(A, B, dims.len))
    C.throws(AND(cp, OR(bad(v12, None, basis2), bad(v1p, None, basisP))), 'logic_error', 'not a match (counterpoise)', modifies=(C.this,))
    C.throws(AND(NOT(cp), bad(v1p, v2p, basisP)), 'logic_error', 'not a match', modifies=(C.this,))

    def moved(m, A, B, dims, both):
        N, first, D, cont, pi = arrangement(C, A, B, dims)
        r, _ = rearranged(m, dims, pi, True)
        return rearranged(r, dims, pi, False)[0] if both else r

    def eff(c):
        def f(E):
            A, B = (v1p, None) if c else (v1p, v2p)
            new = {'unscrambled': z3.BoolVal(True), 'mat_P_Coef': E.new_mat(moved(mp, A, B, basisP, False)),
                   'mat_S': E.new_mat(moved(ms, A, B, basisP, True))}
            if c:
                new['mat_2_Coef'] = E.new_mat(moved(m2, v12, None, basis2, False))
            E.set(C.this, Struct('TransferComplex', dict(th.f, **new)))
        return f
    C.ensures(eff(True), cp, 'counterpoise')
    C.ensures(eff(False), NOT(cp), 'no counterpoise')
