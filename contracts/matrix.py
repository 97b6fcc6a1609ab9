"""Contracts of src/libcatnip/matrix.cpp (properties C01..C11)."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract, Mat

M = 'Matrix::'


def rng(x, n):
    return AND(x >= 1, x <= n)


# ------------------------------------------------------------------ C01 element access
@contract(M + 'index(int, int, int)')
def _(C):
    m = C.mat()
    r, c, s = C.args
    C.ensures(lambda E: (r - 1) * m.cols * m.shel + (c - 1) * m.shel + s - 1)


for nm in ('rows', 'cols', 'shel'):
    @contract(M + 'get_%s()' % nm)
    def _(C, nm=nm):
        C.ensures(lambda E: C.field(nm))


@contract(M + 'total_elem()')
def _(C):
    m = C.mat()
    C.ensures(lambda E: m.rows * m.cols * m.shel)


@contract(M + 'get_elem()')
def _(C):
    m = C.mat()
    C.requires('the matrix is not empty', AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
    C.ensures(lambda E: m.at(1, 1, 1))


@contract(M + 'get_elem(int)')
def _(C):
    m = C.mat()
    r = C.args[0]
    C.requires('columns and shelves exist', AND(m.cols >= 1, m.shel >= 1))
    C.exits(NOT(rng(r, m.rows)))
    C.ensures(lambda E: m.at(r, 1, 1))


@contract(M + 'get_elem(int, int)')
def _(C):
    m = C.mat()
    r, c = C.args
    C.requires('a shelf exists', m.shel >= 1)
    C.exits(NOT(AND(rng(r, m.rows), rng(c, m.cols))))
    C.ensures(lambda E: m.at(r, c, 1))


@contract(M + 'get_elem(int, int, int)')
def _(C):
    m = C.mat()
    r, c, s = C.args
    C.exits(NOT(m.inb(r, c, s)))
    C.ensures(lambda E: m.at(r, c, s))


@contract(M + 'get_elem_ptr(int, int)')
def _(C):
    m = C.mat()
    r, c = C.args
    C.requires('a shelf exists', m.shel >= 1)
    C.throws(NOT(AND(rng(r, m.rows), rng(c, m.cols))))

    def eff(E):
        p = E.ex.load(C.this, E.st).f['elem']
        return Ptr([(g, None if t is None else (t[0], (('b', simp(r - 1), simp(c - 1), z3.IntVal(0)),))) for g, t in p.alts])
    C.ensures(eff)


def put(C, conds, val):
    m = C.mat()
    return lambda E: E.write_elems(C.this, lambda i, j, k: ITE(conds(i, j, k), val(i, j, k), m.at(i, j, k)))


@contract(M + 'set_elem(double)')
def _(C):
    m = C.mat()
    v = C.args[0]
    C.requires('the matrix is not empty', AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
    C.ensures(put(C, lambda i, j, k: AND(i == 1, j == 1, k == 1), lambda *a: v))


@contract(M + 'set_elem(double, int)')
def _(C):
    m = C.mat()
    v, r = C.args
    C.requires('columns and shelves exist', AND(m.cols >= 1, m.shel >= 1))
    C.exits(NOT(rng(r, m.rows)))
    C.ensures(put(C, lambda i, j, k: AND(i == r, j == 1, k == 1), lambda *a: v))


@contract(M + 'set_elem(double, int, int)')
def _(C):
    m = C.mat()
    v, r, c = C.args
    C.requires('a shelf exists', m.shel >= 1)
    C.exits(NOT(AND(rng(r, m.rows), rng(c, m.cols))))
    C.ensures(put(C, lambda i, j, k: AND(i == r, j == c, k == 1), lambda *a: v))


@contract(M + 'set_elem(double, int, int, int)')
def _(C):
    m = C.mat()
    v, r, c, s = C.args
    C.exits(NOT(m.inb(r, c, s)))
    C.ensures(put(C, lambda i, j, k: AND(i == r, j == c, k == s), lambda *a: v))


# ------------------------------------------------------------------ C02 constructors
def zero(*a):
    return z3.RealVal(0)


@contract(M + 'Matrix()')
def _(C):
    C.ensures(lambda E: E.set_mat(C.this, Mat(1, 1, 1, zero)))


@contract(M + 'Matrix(int)')
def _(C):
    r = C.args[0]
    C.exits(r < 0)

    def eff0(E):
        E.set_mat(C.this, Mat(0, 0, 0, zero))
    C.ensures(eff0, r == 0, 'empty')
    C.ensures(lambda E: E.set_mat(C.this, Mat(r, 1, 1, zero)))


@contract(M + 'Matrix(int, int)')
def _(C):
    r, c = C.args
    C.exits(OR(r < 1, c < 1))
    C.ensures(lambda E: E.set_mat(C.this, Mat(r, c, 1, zero)))


@contract(M + 'Matrix(int, int, int)')
def _(C):
    r, c, s = C.args
    C.exits(OR(r < 1, c < 1, s < 1))
    C.ensures(lambda E: E.set_mat(C.this, Mat(r, c, s, zero)))


@contract(M + 'Matrix(vec<double>)')
def _(C):
    v = C.val(0)
    C.ensures(lambda E: E.set_mat(C.this, Mat(v.len, 1, 1, lambda i, j, k: v.at(simp(i - 1)))))


@contract(M + 'Matrix(vec<int>)')
def _(C):
    v = C.val(0)
    C.ensures(lambda E: E.set_mat(C.this, Mat(v.len, 1, 1, lambda i, j, k: z3.ToReal(v.at(simp(i - 1))))))


@contract(M + 'Matrix(vec<vec<double>>)')
def _(C):
    v = C.val(0)
    bad = lambda i: v.at(i).len != v.at(z3.IntVal(0)).len
    # an exception for no rows at all and for ragged rows
    C.throws(v.len == 0, 'out_of_range', 'no rows')
    C.throws(FIRST(v.len, bad) < v.len, 'invalid_argument', 'ragged rows')
    C.ensures(lambda E: E.set_mat(C.this, Mat(v.len, v.at(z3.IntVal(0)).len, 1,
                                              lambda i, j, k: v.at(simp(i - 1)).at(simp(j - 1)))))


# ------------------------------------------------------------------ C03 resizing
def keep(m, dims=(1, 1, 1)):
    return lambda i, j, k: ITE(AND(i <= m.rows, j <= m.cols, k <= m.shel), m.at(i, j, k), z3.RealVal(0))


for ax, nm in enumerate(('rows', 'cols', 'shel')):
    @contract(M + 'set_%s(int)' % nm)
    def _(C, ax=ax):
        m = C.mat()
        x = C.args[0]
        C.exits(x < 0)
        d = [m.rows, m.cols, m.shel]
        d[ax] = x
        C.ensures(lambda E: E.set_mat(C.this, Mat(d[0], d[1], d[2], keep(m))))


@contract(M + 'resize(int, int)')
def _(C):
    m = C.mat()
    r, c = C.args
    C.requires('a shelf exists', m.shel >= 1)
    C.exits(OR(r < 1, c < 1))

    def eff(E):
        E.set_mat(C.this, Mat(r, c, 1, keep(m)))
        return z3.IntVal(0)
    C.ensures(eff)


# ------------------------------------------------------------------ C04 copies
@contract(M + 'Matrix(Matrix&)')
def _(C):
    m = C.mat(0)
    C.ensures(lambda E: E.set_mat(C.this, Mat(m.rows, m.cols, m.shel, m.at)))


@contract(M + 'operator=(Matrix&)', alias=({0: 'this'},))
def _(C):
    m = C.mat(0)

    def eff(E):
        E.set_mat(C.this, Mat(m.rows, m.cols, m.shel, m.at))
        return C.this
    C.ensures(eff)


@contract('Matrix_copy(Matrix&)')
def _(C):
    m = C.mat(0)
    C.exits(OR(m.rows < 1, m.cols < 1, m.shel < 1))
    C.ensures(lambda E: E.mat_value(Mat(m.rows, m.cols, m.shel, m.at)))


# ------------------------------------------------------------------ C05 lines
@contract(M + 'get_row(int)')
def _(C):
    m = C.mat()
    r = C.args[0]
    C.requires('a shelf exists', m.shel >= 1)
    C.throws(NOT(rng(r, m.rows)))
    C.ensures(lambda E: Vec(m.cols, lambda i: m.at(r, i + 1, 1), ('double',)))


@contract(M + 'get_col(int)')
def _(C):
    m = C.mat()
    c = C.args[0]
    C.requires('a shelf exists', m.shel >= 1)
    C.throws(NOT(rng(c, m.cols)))
    C.ensures(lambda E: Vec(m.rows, lambda i: m.at(i + 1, c, 1), ('double',)))


@contract(M + 'set_row(vec<double>, int)')
def _(C):
    m = C.mat()
    v, r = C.val(0), C.args[1]
    C.requires('a shelf exists', m.shel >= 1)
    C.throws(OR(v.len != m.cols, NOT(rng(r, m.rows))))
    C.ensures(put(C, lambda i, j, k: AND(i == r, k == 1), lambda i, j, k: v.at(simp(j - 1))))


@contract(M + 'set_col(vec<double>, int)')
def _(C):
    m = C.mat()
    v, c = C.val(0), C.args[1]
    C.requires('a shelf exists', m.shel >= 1)
    C.throws(OR(v.len != m.rows, NOT(rng(c, m.cols))))
    C.ensures(put(C, lambda i, j, k: AND(j == c, k == 1), lambda i, j, k: v.at(simp(i - 1))))


@contract(M + 'getRow(int)')
def _(C):
    m = C.mat()
    r = C.args[0]
    C.exits(OR(NOT(rng(r, m.rows)), m.cols < 1, m.shel < 1))
    C.ensures(lambda E: E.mat_value(Mat(1, m.cols, m.shel, lambda i, j, k: m.at(r, j, k))))


@contract(M + 'getCol(int)')
def _(C):
    m = C.mat()
    c = C.args[0]
    C.exits(OR(NOT(rng(c, m.cols)), m.rows < 1, m.shel < 1))
    C.ensures(lambda E: E.mat_value(Mat(m.rows, 1, m.shel, lambda i, j, k: m.at(i, c, k))))


# ------------------------------------------------------------------ C06 swap and move
def moved(x, f, t):
    """line that ends up at position x after moving line f to t"""
    return ITE(x == t, f, ITE(AND(f < t, x >= f, x < t), x + 1, ITE(AND(t < f, x > t, x <= f), x - 1, x)))


for what, pick in (('row', 0), ('col', 1)):
    @contract(M + 'swap_%s(int, int)' % what)
    def _(C, pick=pick):
        m = C.mat()
        a, b = C.args
        n = (m.rows, m.cols)[pick]
        C.requires('a single shelf', m.shel == 1)
        C.throws(AND(a != b, OR(NOT(rng(a, n)), NOT(rng(b, n)))))

        def at(i, j, k):
            x = (i, j)[pick]
            y = ITE(x == a, b, ITE(x == b, a, x))
            return m.at(y, j, k) if pick == 0 else m.at(i, y, k)
        C.ensures(lambda E: E.write_elems(C.this, at))

    @contract(M + 'move_%s(int, int)' % what)
    def _(C, pick=pick):
        m = C.mat()
        a, b = C.args
        n = (m.rows, m.cols)[pick]
        C.requires('a single shelf', m.shel == 1)
        C.requires('both lines exist', OR(a == b, AND(rng(a, n), rng(b, n))))

        def at(i, j, k):
            x = (i, j)[pick]
            y = moved(x, a, b)
            return m.at(y, j, k) if pick == 0 else m.at(i, y, k)
        C.ensures(lambda E: E.write_elems(C.this, at))


# ------------------------------------------------------------------ C07 .. C10
@contract(M + 'invert()')
def _(C):
    m = C.mat()
    C.exits(OR(m.shel != 1, m.rows < 1, m.cols < 1))
    C.ensures(lambda E: E.mat_value(Mat(m.cols, m.rows, 1, lambda i, j, k: m.at(j, i, 1))))


@contract('operator*(Matrix&, Matrix&)')
def _(C):
    a, b = C.mat(0), C.mat(1)
    C.exits(OR(a.shel != 1, b.shel != 1, a.cols != b.rows, a.rows < 1, b.cols < 1))
    C.ensures(lambda E: E.new_mat(Mat(a.rows, b.cols, 1, lambda i, j, k: SUM(
        a.cols, lambda q: a.at(i, q + 1, 1) * b.at(q + 1, j, 1)))))


@contract('Matrix_diag(Matrix&)')
def _(C):
    m = C.mat(0)
    C.requires('the vector is not empty', AND(m.rows >= 1, m.cols >= 1, m.shel >= 1))
    C.throws(OR(AND(m.rows > 1, m.cols > 1), m.shel > 1))
    n = ITE(m.cols > m.rows, m.cols, m.rows)
    C.ensures(lambda E: E.mat_value(Mat(n, n, 1, lambda i, j, k: ITE(
        i == j, ITE(m.cols > m.rows, m.at(1, i, 1), m.at(i, 1, 1)), z3.RealVal(0)))))


@contract('Matrix_concatenate_rows(Matrix, Matrix&)')
def _(C):
    a, b = C.mat(0), C.mat(1)
    # refused combinations give a fresh 1x1 matrix of zero
    C.ensures(lambda E: E.mat_value(Mat(1, 1, 1, zero)), OR(a.cols != b.cols, a.shel != b.shel), 'refused')
    C.exits(OR(a.rows + b.rows < 1, a.cols < 1, a.shel < 1))
    C.ensures(lambda E: E.mat_value(Mat(a.rows + b.rows, a.cols, a.shel, lambda i, j, k: ITE(
        i <= a.rows, a.at(i, j, k), b.at(i - a.rows, j, k)))))


@contract('Matrix_concatenate_cols(Matrix&, Matrix&)')
def _(C):
    a, b = C.mat(0), C.mat(1)
    C.ensures(lambda E: E.mat_value(Mat(1, 1, 1, zero)), OR(a.rows != b.rows, a.shel != b.shel), 'refused')
    C.exits(OR(a.cols + b.cols < 1, a.rows < 1, a.shel < 1))
    C.ensures(lambda E: E.mat_value(Mat(a.rows, a.cols + b.cols, a.shel, lambda i, j, k: ITE(
        j <= a.cols, a.at(i, j, k), b.at(i, j - a.cols, k)))))


# ------------------------------------------------------------------ C11 matching
rnd = z3.Function('rounded_text', R, I, S)


@contract('double_tos(double, int)', trusted=True,
          note='text of the value rounded to nd decimals; equality of texts is equality of the rounded decimals')
def _(C):
    C.ensures(lambda E: rnd(C.args[0], C.args[1]))


for what, pick in (('Row', 0), ('Col', 1)):
    sig = 'matchRow(Matrix&, int)' if pick == 0 else 'matchCol(Matrix&, int)'

    @contract(M + sig, pure=True)
    def _(C, pick=pick):
        a, b = C.mat(), C.mat(0)
        sf = C.args[1]
        ac, bc = (a.cols, b.cols) if pick == 0 else (a.rows, b.rows)
        ar, br = (a.rows, b.rows) if pick == 0 else (a.cols, b.cols)
        at = lambda m, i, j: m.at(i, j, 1) if pick == 0 else m.at(j, i, 1)
        C.exits(OR(a.shel != 1, b.shel != 1))
        C.throws(ac != bc)

        def agree(i, ii):
            """line i of a agrees with line ii of b (0-based)"""
            return FIRST(ac, lambda j: rnd(at(a, i + 1, j + 1), sf) != rnd(at(b, ii + 1, j + 1), sf)) >= ac

        def pred(v):
            i = gen('row')
            ii = gen('line')
            x = v.at(i)
            inr = AND(i >= 0, i < ar)
            return [('one entry per line', v.len == ar),
                    ('a reported line exists and agrees', IMP(AND(inr, x != -1), AND(x >= 1, x <= br, agree(i, x - 1)))),
                    ('-1 only without an agreeing line', IMP(AND(inr, x == -1, ii >= 0, ii < br), NOT(agree(i, ii))))]
        C.ensures(lambda E: E.rel(('vec', ('int',)), pred))
