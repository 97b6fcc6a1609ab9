"""Models of the C++ standard library functions the code uses (assumed contracts; reported as trusted)."""
import z3
from .smt import *
from .vals import *
from .cast import Unsupported, type_of, strip_ref, parse_type, tstr

ROUND = z3.Function('std::round', R, R)
POW = z3.Function('std::pow', R, R, R)
STOD = z3.Function('std::stod', S, R)
STOI = z3.Function('std::stoi', S, I)
ATOF = z3.Function('std::atof', S, R)
NUMOK = z3.Function('std::stod_accepts', S, B)
INTOK = z3.Function('std::stoi_accepts', S, B)
INTRANGE = z3.Function('std::stoi_in_range', S, B)
DBLRANGE = z3.Function('std::stod_in_range', S, B)
ITOS = z3.Function('std::to_string_int', I, S)
DTOS = z3.Function('std::to_string_double', R, S)
EXISTS = z3.Function('file exists', S, B)
FLINES = z3.Function('lines of file', S, I)
FLINE = z3.Function('line of file', S, I, S)
NTOK = z3.Function('number of words', S, I)          # blank-separated words of a text
TOK = z3.Function('word', S, I, S)
ENDS = z3.Function('ends in a word', S, B)           # the last character is not a blank
NPOS = z3.IntVal(2 ** 64 - 1)

STREAMS = ('ostream', 'basic_ostream', 'ostringstream', 'stringstream', 'basic_ostringstream', 'basic_stringstream')

_t, _i = z3.Const('ax!t', S), z3.Const('ax!i', I)
add_axiom(NTOK.name(), z3.ForAll([_t], AND(NTOK(_t) >= 0, NTOK(_t) < 2 ** 31), patterns=[NTOK(_t)]))


def _word(t, i):
    return IMP(AND(i >= 0, i < NTOK(t)), AND(NOT(TOK(t, i) == z3.StringVal('')), z3.Length(TOK(t, i)) > 0, z3.Length(TOK(t, i)) <= z3.Length(t)))


add_axiom(TOK.name(), z3.ForAll([_t, _i], _word(_t, _i), patterns=[TOK(_t, _i)]))
INSTANCES[TOK.name()] = lambda t, i: [_word(t, i)]


def occurs(s, j, t):
    """t occurs in s at position j"""
    return z3.SubString(s, j, z3.Length(t)) == t


def code(s, j):
    return z3.StrToCode(z3.SubString(s, j, 1))


def isin(s, j, chars):
    """character j of s is one of the characters"""
    if z3.is_string_value(chars):
        return OR([z3.SubString(s, j, 1) == z3.StringVal(c) for c in chars.as_string()])
    return z3.Contains(chars, z3.SubString(s, j, 1))


def isspace(c):
    return OR(AND(c >= 9, c <= 13), c == 32)


def isdigit(c):
    return AND(c >= 48, c <= 57)


def isalpha(c):
    return OR(AND(c >= 65, c <= 90), AND(c >= 97, c <= 122))


CTYPE = {'isspace': isspace, 'isdigit': isdigit, 'isalpha': isalpha}


class Std:
    def __init__(self, ex):
        self.ex = ex
        self.last_find = None

    def trust(self, what):
        self.ex.trusted[what] = self.ex.trusted.get(what, 0) + 1

    def overrides(self, f):
        """repo functions without observable effect for the properties (logging)"""
        return f.name in ('Log', 'output') or (f.name == 'operator<<' and 'LogData' in f.sig)

    def bodyless(self, f, this, args, st, node):
        return NotImplemented

    # ------------------------------------------------------------ values
    def list_value(self, vs, ety):
        ex = self.ex
        und = ex.undef_elem(ety, 'list')

        def fn(i):
            r = None
            for k in reversed(range(len(vs))):
                c = simp(i == k)
                if z3.is_true(c):
                    return vs[k]
                if z3.is_false(c):
                    continue
                r = merge(c, vs[k], r) if r is not None else vs[k]
            return r if r is not None else und(i)
        return Vec(len(vs), fn, ety)

    def empty_map(self, ty):
        ex = self.ex
        if ty[1][0] not in SORT:
            return Opaque('map')
        zero = {}

        def val(k):
            if 'z' not in zero:
                from .sx import State
                zero['z'] = ex.zero_value(ty[2], State())
            return zero['z']
        return MapV(lambda k: z3.BoolVal(False), val, ty[1], ty[2], z3.IntVal(0))

    def empty_set(self, ty):
        if ty[1][0] not in SORT:
            return Opaque('set')
        return MapV(lambda k: z3.BoolVal(False), lambda k: TRUE(), ty[1], ('unit',), z3.IntVal(0))

    def iter_lv(self, it, st):
        """*it"""
        ex = self.ex
        c = ex.load(it.cont, st)
        if it.rev:
            raise Unsupported('dereference of a reverse iterator')
        if z3.is_expr(c) and c.sort() == S:
            ex.oblige('iterator in range', st, AND(it.idx >= 0, it.idx < z3.Length(c)))
            return it.cont.field(('i', it.idx))
        if not isinstance(c, Vec):
            raise Unsupported('dereference of an iterator')
        idx = it.idx
        ex.oblige('iterator in range', st, AND(idx >= 0, idx < c.len))
        return it.cont.field(('i', idx))

    def range_for(self, rp, rv, var, body, st, n):
        if isinstance(rv, Vec):
            return NotImplemented
        if isinstance(rv, MapV):
            return self.map_for(rp, rv, var, body, st)
        raise Unsupported('range-for over %s' % type(rv).__name__)

    # ------------------------------------------------------------ construction
    def construct(self, ty, e, nodes, st):
        ex = self.ex
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        k = ty[0]
        if k == 'string':
            if not nodes:
                return z3.StringVal('')
            a = ex.rv(nodes[0], st)
            if len(nodes) == 1 and z3.is_expr(a):
                if a.sort() == S:
                    if type_of(nodes[0]) == ('ptr', ('char',)) and not z3.is_string_value(a):
                        z = z3.IndexOf(a, z3.StringVal('\\u{0}'), 0)      # a C string ends at the first zero
                        return ITE(z < 0, a, z3.SubString(a, 0, z))
                    return a
            if len(nodes) == 2 and z3.is_expr(a) and a.sort() == I:
                ch = ex.rv(nodes[1], st)
                rep = z3.Function('std::string_repeat', I, I, S)
                return rep(a, ch)
            raise Unsupported('string constructor')
        if k == 'ptr':              # unique_ptr
            return ex.rv(nodes[0], st) if nodes else Ptr.null()
        if k == 'words':
            a = ex.ev(nodes[0], st) if nodes else None
            if isinstance(a, Ptr) and isinstance(ex.load(a, st), Words):
                a = ex.load(a, st)
            return a if isinstance(a, Words) else Words(a)
        if k == 'long':
            return ex.rv(nodes[0], st) if nodes else z3.IntVal(0)
        if k == 'ifs' and not nodes:
            return self.no_file()
        if k == 'iss':
            t = ex.rv(nodes[0], st) if nodes else z3.StringVal('')
            if z3.is_expr(t) and t.sort() == S:
                return Struct('istringstream', {'text': t, 'k': z3.IntVal(0), 'fail': z3.BoolVal(False)})
        if k == 'pair':
            if not nodes:
                return ex.default_value(ty, st)
            if len(nodes) == 1:
                return ex.rv(nodes[0], st)
            a, b = [ex.rv(x, st) for x in nodes]
            return Struct('pair', {'first': self.conv(a, ty[1]), 'second': self.conv(b, ty[2])})
        if k == 'vec':
            if not nodes:
                return ex.default_value(ty, st)
            a = ex.rv(nodes[0], st)
            if len(nodes) == 1:
                if isinstance(a, Vec):
                    return a
                if z3.is_expr(a) and a.sort() == I:
                    z = ex.zero_value(ty[1], st)
                    return Vec(a, lambda i: z, ty[1])
            if len(nodes) == 2 and z3.is_expr(a) and a.sort() == I:
                v = self.conv(ex.rv(nodes[1], st), ty[1])
                return Vec(a, lambda i: v, ty[1])
            raise Unsupported('vector constructor')
        if k in ('map', 'set'):
            if not nodes:
                return ex.default_value(ty, st)
            if len(nodes) == 1:
                a = ex.rv(nodes[0], st)
                if isinstance(a, MapV):
                    return a
                if isinstance(a, Vec) and k == 'set' and z3.is_int_value(simp(a.len)):
                    s = self.empty_set(ty)
                    for i in range(simp(a.len).as_long()):
                        s = self.set_add(s, a.at(i))
                    return s
                if isinstance(a, Opaque):
                    return a
            raise Unsupported('map constructor')
        if k == 'iter' or (k == 'cls' and 'iterator' in ty[1]) or (k in ('opaque', 'cls') and ('function' in ty[1] or 'negate' in ty[1]) and len(nodes) == 1):
            return ex.rv(nodes[0], st)
        if len(nodes) == 1 and nodes[0].get('kind') in ('LambdaExpr', 'MaterializeTemporaryExpr'):
            v = ex.rv(nodes[0], st)
            if isinstance(v, (Lambda, Iter)):
                return v
        for x in nodes:
            ex.ev(x, st)
        return Opaque(tstr(ty))

    def conv(self, v, ty):
        if z3.is_expr(v) and ty[0] == 'double' and v.sort() == I:
            return z3.ToReal(v)
        return v

    # ------------------------------------------------------------ input streams
    def no_file(self):
        return Struct('ifstream', {'lines': Vec(0, lambda i: z3.StringVal(''), ('string',)), 'pos': z3.IntVal(0), 'fail': z3.BoolVal(False)})

    def f_getline(self, nodes, st, e):
        ex = self.ex
        if len(nodes) > 2 and nodes[2]['kind'] != 'CXXDefaultArgExpr':
            raise Unsupported('getline with a delimiter')
        p, q = [ex.ev(x, st) for x in nodes[:2]]
        v, old = ex.load(p, st), ex.load(q, st)
        if not (isinstance(v, Struct) and v.cls == 'ifstream'):
            raise Unsupported('getline from %s' % type(v).__name__)
        self.trust('std::ifstream (a text file is a list of lines, each ended by a newline; getline, tellg, seekg)')
        d, k = v.f['lines'], v.f['pos']
        ok = simp(AND(NOT(v.f['fail']), k < d.len))
        if ex.entails(st, ok):
            ok = TRUE()
        ex.store(q, merge(ok, d.at(simp(k)), ex.undef(S, 'line')), st)
        ex.store(p, Struct('ifstream', {'lines': d, 'pos': simp(ITE(ok, k + 1, k)), 'fail': simp(NOT(ok))}), st)
        return p

    def stream_method(self, name, b, v, nodes, st, e):
        ex = self.ex
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        if name in ('fail', 'operator!'):
            return v.f['fail']
        if name == 'operator bool':
            return NOT(v.f['fail'])
        if v.cls == 'ifstream':
            fail = v.f['fail']
            if name == 'tellg':
                return simp(ITE(fail, z3.IntVal(-1), v.f['pos']))
            if name == 'seekg' and len(nodes) == 1:
                k = ex.rv(nodes[0], st)
                bad = simp(OR(fail, k < 0))
                if ex.entails(st, NOT(bad)):
                    bad = z3.BoolVal(False)
                ex.oblige('seek inside of the file', st, OR(bad, k <= v.f['lines'].len), e)
                ex.store(b, v.set('fail', bad).set('pos', simp(ITE(bad, v.f['pos'], k))), st)
                return b
            if name == 'close':
                return None
            if name == 'open':
                a = ex.rv(nodes[0], st)
                if z3.is_expr(a) and a.sort() == S:
                    self.trust('std::ifstream::open (a file that exists can be opened and read)')
                    nl = FLINES(a)
                    st.assume(nl >= 0)
                    ex.store(b, Struct('ifstream', {'lines': Vec(nl, lambda i: FLINE(a, i), ('string',)), 'pos': z3.IntVal(0), 'fail': NOT(EXISTS(a))}), st)
                    return None
            if name == 'is_open':
                raise Unsupported('is_open')
        elif name == 'eof':
            t = v.f['text']
            return simp(OR(v.f['fail'], AND(v.f['k'] > 0, v.f['k'] >= NTOK(t), ENDS(t))))
        raise Unsupported('method %s of %s' % (name, v.cls))

    def extract(self, p, q, st):
        """iss >> text"""
        ex = self.ex
        v, old = ex.load(p, st), ex.load(q, st)
        if not (isinstance(v, Struct) and v.cls == 'istringstream' and z3.is_expr(old) and old.sort() == S):
            raise Unsupported('stream extraction')
        self.trust('std::istringstream >> (the blank-separated words of a text, one after the other)')
        t, k = v.f['text'], v.f['k']
        ok = simp(AND(NOT(v.f['fail']), k < NTOK(t)))
        if ex.entails(st, ok):
            ok = TRUE()
        ex.store(q, merge(ok, TOK(t, simp(k)), old), st)
        ex.store(p, v.set('k', simp(ITE(ok, k + 1, k))).set('fail', simp(NOT(ok))), st)
        return p

    # ------------------------------------------------------------ free functions
    def function(self, name, nodes, st, e, fr):
        m = getattr(self, 'f_' + name, None)
        if m is None:
            raise Unsupported('call of ' + str(name))
        return m(nodes, st, e)

    def f_printf(self, nodes, st, e):
        for x in nodes:
            self.ex.ev(x, st)
        return z3.IntVal(0)

    def f_Log(self, nodes, st, e):
        return None

    def f_output(self, nodes, st, e):
        return None

    def f_exit(self, nodes, st, e):
        c = self.ex.rv(nodes[0], st)
        from .sx import Exit, DeadPath
        self.ex.exits.append(Exit('exit', st.clone(), c))
        raise DeadPath()

    def f_round(self, nodes, st, e):
        self.trust('std::round (uninterpreted)')
        return ROUND(self.ex.rv(nodes[0], st))

    def f_pow(self, nodes, st, e):
        a, b = [self.conv(self.ex.rv(x, st), ('double',)) for x in nodes]
        b = simp(b)
        self.trust('std::pow (x^2 = x*x)')
        if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 4:
            r = z3.RealVal(1)
            for _ in range(b.numerator_as_long()):
                r = r * a
            return r
        return POW(a, b)

    def f_abs(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        return ITE(a >= 0, a, -a)

    f_fabs = f_abs

    LIMITS = {'int': (-2 ** 31, 2 ** 31 - 1), 'uint': (0, 2 ** 32 - 1), 'size': (0, 2 ** 64 - 1), 'long': (-2 ** 63, 2 ** 63 - 1)}

    def limit(self, name, e):
        """numeric_limits<T>::min / max / lowest"""
        t = type_of(e)[0]
        if t in self.LIMITS:
            return z3.IntVal(self.LIMITS[t][name == 'max'])
        if t == 'double':
            from fractions import Fraction
            v = Fraction(1, 2 ** 1022) if name == 'min' else (2 - Fraction(1, 2 ** 52)) * 2 ** 1023
            return z3.RealVal(-v if name == 'lowest' else v)
        raise Unsupported('numeric_limits')

    def f_lowest(self, nodes, st, e):
        return self.limit('lowest', e)

    def f_stat(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        self.trust('stat (0 exactly when the file exists; the file system does not change meanwhile)')
        return ITE(EXISTS(a), z3.IntVal(0), z3.IntVal(-1))

    def f_max(self, nodes, st, e):
        if not nodes:
            return self.limit('max', e)
        a, b = [self.ex.rv(x, st) for x in nodes]
        return Ptr.to(self.ex.newloc(st, 'max', ITE(a < b, b, a)))

    def f_min(self, nodes, st, e):
        if not nodes:
            return self.limit('min', e)
        a, b = [self.ex.rv(x, st) for x in nodes]
        return Ptr.to(self.ex.newloc(st, 'min', ITE(b < a, b, a)))

    def f_back_inserter(self, nodes, st, e):
        return Inserter(self.ex.ev(nodes[0], st))

    def f_copy(self, nodes, st, e):
        ex = self.ex
        a, b, c = [ex.rv(x, st) for x in nodes]
        if not (isinstance(a, Words) and isinstance(b, Words) and b.cont is None and a.cont is not None and isinstance(c, Inserter)):
            raise Unsupported('std::copy %s' % [type(x).__name__ for x in (a,b,c)])
        v, w = ex.load(a.cont, st), ex.load(c.cont, st)
        if not (isinstance(v, Struct) and v.cls == 'istringstream' and isinstance(w, Vec) and w.ety == ('string',)):
            raise Unsupported('std::copy %s' % [type(x).__name__ for x in (a,b,c)])
        self.trust('std::istream_iterator<string>, std::copy, std::back_inserter (the remaining words are appended)')
        t, k = v.f['text'], v.f['k']
        n = simp(ITE(v.f['fail'], z3.IntVal(0), NTOK(t) - k))
        m = w.len
        ex.store(c.cont, Vec(simp(m + n), lambda j: merge(simp(j < m), w.at(j), TOK(t, simp(k + j - m))), w.ety), st)
        ex.store(a.cont, v.set('k', NTOK(t)).set('fail', z3.BoolVal(True)), st)
        return c

    def f_move(self, nodes, st, e):
        return self.ex.ev(nodes[0], st)

    f_forward = f_move

    def f_swap(self, nodes, st, e):
        a, b = [self.ex.ev(x, st) for x in nodes]
        va, vb = self.ex.load(a, st), self.ex.load(b, st)
        self.ex.store(a, vb, st)
        self.ex.store(b, va, st)

    def f_iter_swap(self, nodes, st, e):
        a, b = [self.iter_lv(self.ex.rv(x, st), st) for x in nodes]
        va, vb = self.ex.load(a, st), self.ex.load(b, st)
        self.ex.store(a, vb, st)
        self.ex.store(b, va, st)

    def f_make_pair(self, nodes, st, e):
        a, b = [self.ex.rv(x, st) for x in nodes]
        return Struct('pair', {'first': a, 'second': b})

    def f_to_string(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        self.trust('std::to_string (uninterpreted)')
        return ITOS(a) if a.sort() == I else DTOS(a)

    def f_stod(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        self.trust('std::stod (uninterpreted; throws iff the text has no number / is out of range)')
        self.ex.side('throw', st, NOT(NUMOK(a)), 'invalid_argument')
        self.ex.side('throw', st, NOT(DBLRANGE(a)), 'out_of_range')
        return STOD(a)

    def f_atof(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        self.trust('atof (uninterpreted)')
        return ATOF(a)

    def f_stoi(self, nodes, st, e):
        a = self.ex.rv(nodes[0], st)
        self.trust('std::stoi (uninterpreted; throws iff the text has no integer / is out of range)')
        self.ex.side('throw', st, NOT(INTOK(a)), 'invalid_argument')
        self.ex.side('throw', st, NOT(INTRANGE(a)), 'out_of_range')
        return STOI(a)

    def f_next(self, nodes, st, e):
        it = self.ex.rv(nodes[0], st)
        ns = [x for x in nodes[1:] if x['kind'] != 'CXXDefaultArgExpr']
        k = self.ex.rv(ns[0], st) if ns else z3.IntVal(1)
        return Iter(it.cont, it.idx + k, it.rev)

    def f_prev(self, nodes, st, e):
        it = self.ex.rv(nodes[0], st)
        ns = [x for x in nodes[1:] if x['kind'] != 'CXXDefaultArgExpr']
        k = self.ex.rv(ns[0], st) if ns else z3.IntVal(1)
        return Iter(it.cont, it.idx - k, it.rev)

    def f_advance(self, nodes, st, e):
        p = self.ex.ev(nodes[0], st)
        it = self.ex.load(p, st)
        k = self.ex.rv(nodes[1], st)
        self.ex.store(p, Iter(it.cont, it.idx + k, it.rev), st)

    def f_distance(self, nodes, st, e):
        a, b = [self.ex.rv(x, st) for x in nodes]
        return b.idx - a.idx

    def f_begin(self, nodes, st, e):
        return Iter(self.ex.ev(nodes[0], st), z3.IntVal(0))

    def f_end(self, nodes, st, e):
        p = self.ex.ev(nodes[0], st)
        return Iter(p, self.ex.load(p, st).len)

    def f_not1(self, nodes, st, e):
        f = self.ex.rv(nodes[0], st)
        return Callable(lambda st, *a: NOT(self.apply(f, a, st)))

    def f_ptr_fun(self, nodes, st, e):
        f = self.ex.rv(nodes[0], st)
        return Callable(lambda st, *a: self.apply(f, a, st))

    def f_isspace(self, nodes, st, e):
        return self.ctype('isspace', nodes, st)

    def f_isdigit(self, nodes, st, e):
        return self.ctype('isdigit', nodes, st)

    def f_isalpha(self, nodes, st, e):
        return self.ctype('isalpha', nodes, st)

    def ctype(self, name, nodes, st):
        self.trust('std::%s in the C locale' % name)
        return ITE(CTYPE[name](self.ex.rv(nodes[0], st)), z3.IntVal(1), z3.IntVal(0))

    def apply(self, f, args, st):
        """truth of a predicate object"""
        if isinstance(f, Callable):
            return f.fn(st, *args)
        if isinstance(f, FuncRef) and f.func is None and f.name in CTYPE:
            self.trust('std::%s in the C locale' % f.name)
            return CTYPE[f.name](args[0])
        if isinstance(f, Lambda):
            return self.lam_at(f, list(args), st)
        raise Unsupported('predicate %s' % f)

    def lam_at(self, lam, elems, st):
        """value of a side-effect-free lambda on element values"""
        ex = self.ex
        s = st.clone()
        ex.quiet += 1
        saved, ex.exits = ex.exits, []
        try:
            args = [Ptr.to(ex.newloc(s, 'arg', v)) for v in elems]
            r = ex.call_lambda(lam, args, s)
            if isinstance(r, Ptr):
                r = ex.load(r, s)
            if ex.exits:
                raise Unsupported('lambda may throw')
        finally:
            ex.quiet -= 1
            ex.exits = saved
        return ex.to_bool(r)

    def elem_at(self, v, i):
        return v.at(i) if isinstance(v, Vec) else code(v, i)

    def f_find_if(self, nodes, st, e):
        ex = self.ex
        a, b, lam = [ex.rv(x, st) for x in nodes]
        if not isinstance(a, Iter):
            raise Unsupported('find_if')
        v = ex.load(a.cont, st)
        if not (isinstance(v, Vec) or z3.is_expr(v) and v.sort() == S):
            raise Unsupported('find_if')
        self.trust('std::find_if (first element satisfying the predicate)')
        if a.rev:
            k = LAST(a.idx - b.idx, lambda j: simp(self.apply(lam, [self.elem_at(v, simp(b.idx + j))], st)))
            return Iter(a.cont, simp(b.idx + k + 1), True)
        self.last_find = (a.cont, lam)
        k = FIRST(b.idx - a.idx, lambda j: simp(self.apply(lam, [self.elem_at(v, simp(a.idx + j))], st)))
        return Iter(a.cont, simp(a.idx + k))

    def f_find_if_not(self, nodes, st, e):
        ex = self.ex
        a, b, lam = [ex.rv(x, st) for x in nodes]
        v = ex.load(a.cont, st)
        self.trust('std::find_if (first element satisfying the predicate)')
        if a.rev:
            k = LAST(a.idx - b.idx, lambda j: simp(NOT(self.apply(lam, [self.elem_at(v, simp(b.idx + j))], st))))
            return Iter(a.cont, simp(b.idx + k + 1), True)
        k = FIRST(b.idx - a.idx, lambda j: simp(NOT(self.apply(lam, [self.elem_at(v, simp(a.idx + j))], st))))
        return Iter(a.cont, simp(a.idx + k))

    def f_find(self, nodes, st, e):
        ex = self.ex
        a, b = [ex.rv(x, st) for x in nodes[:2]]
        x = ex.rv(nodes[2], st)
        v = ex.load(a.cont, st)
        self.trust('std::find (first equal element)')
        k = FIRST(b.idx - a.idx, lambda j: v.at(simp(a.idx + j)) == x)
        return Iter(a.cont, simp(a.idx + k))

    def f_sort(self, nodes, st, e):
        """[begin,end) sorted: a permutation (witness and its inverse) ordered by the comparator"""
        ex = self.ex
        a, b = [ex.rv(x, st) for x in nodes[:2]]
        lam = ex.rv(nodes[2], st) if len(nodes) > 2 else None
        v = ex.load(a.cont, st)
        if not (z3.is_int_value(simp(a.idx)) and simp(a.idx).as_long() == 0 and simp(b.idx).eq(simp(v.len))):
            raise Unsupported('sort of a partial range')
        if ex.gens:
            raise Unsupported('sort inside of a loop')
        self.trust('std::sort (result is an ordered permutation of the input)')
        if lam is not None:
            g = gen('elem')
            s2 = st.clone()
            s2.assume(AND(g >= 0, g < v.len))
            ex.oblige('comparison is irreflexive', s2, NOT(self.lam_at(lam, [v.at(g), v.at(g)], s2)), e)
        nm = fresh_name('sortperm')
        P = z3.Function(nm, I, I)
        Q = z3.Function(nm + 'inv', I, I)
        n = v.len
        i, j = z3.Consts('qi qj', I)
        old = v
        new = Vec(n, lambda k: old.at(simp(P(k))), v.ety)
        st.assume(z3.ForAll([i], IMP(AND(i >= 0, i < n), AND(P(i) >= 0, P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
        st.assume(z3.ForAll([i], IMP(AND(i >= 0, i < n), AND(Q(i) >= 0, Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))

        def less(x, y):
            if lam is not None:
                return self.lam_at(lam, [x, y], st)
            return ex.compare('<', x, y, st)
        st.assume(z3.ForAll([i, j], IMP(AND(i >= 0, i < j, j < n), NOT(less(new.at(j), new.at(i)))),
                            patterns=[z3.MultiPattern(P(i), P(j))]))
        ex.store(a.cont, new, st)
        ex.sort_perm = (P, Q)

    f_stable_sort = f_sort

    # ------------------------------------------------------------ operators
    def operator(self, name, nodes, st, e):
        ex = self.ex
        op = name[len('operator'):] if name else ''
        if op == '<<' or op == '>>':
            l = ex.ev(nodes[0], st)
            if op == '<<':
                ex.ev(nodes[1], st)
                return l
            return self.extract(l, ex.ev(nodes[1], st), st)
        if op == '->' and type_of(nodes[0])[0] == 'ptr':
            return ex.rv(nodes[0], st)                  # unique_ptr
        if op == '!' and len(nodes) == 1:
            v = ex.rv(nodes[0], st)
            if isinstance(v, Struct) and 'fail' in v.f:
                return v.f['fail']
        if op == '=':
            rv = ex.rv(nodes[1], st)
            lv = ex.ev(nodes[0], st)
            t = type_of(nodes[0])
            if z3.is_expr(rv):
                # assignment through a proxy reference (vector<bool>)
                old = ex.load(lv, st)
                if isinstance(old, Ptr):
                    lv = old
            if z3.is_expr(rv) and t[0] == 'string' and rv.sort() == I:
                rv = z3.StrFromCode(rv)
            ex.store(lv, rv, st)
            return lv
        if op == '[]':
            return self.index(nodes, st, e)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = [ex.rv(x, st) for x in nodes]
            return ex.compare(op, a, b, st)
        if op == '+':
            a, b = [ex.rv(x, st) for x in nodes]
            if isinstance(a, Iter):
                return Iter(a.cont, a.idx + b, a.rev)
            return z3.Concat(self.to_s(a), self.to_s(b))
        if op == '-':
            a, b = [ex.rv(x, st) for x in nodes]
            if isinstance(a, Iter):
                if isinstance(b, Iter):
                    return a.idx - b.idx
                return Iter(a.cont, a.idx - b, a.rev)
        if op == '+=':
            b = ex.rv(nodes[1], st)
            lv = ex.ev(nodes[0], st)
            a = ex.load(lv, st)
            if isinstance(a, Iter):
                n = Iter(a.cont, a.idx + b, a.rev)
            else:
                n = z3.Concat(a, self.to_s(b))
            ex.store(lv, n, st)
            return lv
        if op in ('++', '--'):
            lv = ex.ev(nodes[0], st)
            it = ex.load(lv, st)
            if isinstance(it, Iter):
                d = 1 if op == '++' else -1
                ex.store(lv, Iter(it.cont, it.idx + d, it.rev), st)
                return it if len(nodes) > 1 else lv
        if op == '*':
            it = ex.rv(nodes[0], st)
            return ex.pointee(it, st)
        if op == '->':
            it = ex.rv(nodes[0], st)
            return ex.pointee(it, st)
        if op == '()':
            f = ex.rv(nodes[0], st)
            if isinstance(f, Lambda):
                return ex.call_lambda(f, [ex.ev(x, st) for x in nodes[1:]], st)
        raise Unsupported('operator' + op)

    def to_s(self, v):
        if z3.is_expr(v):
            if v.sort() == S:
                return v
            if v.sort() == I:
                return z3.StrFromCode(v)
        raise Unsupported('string operand %s' % type(v).__name__)

    def index(self, nodes, st, e):
        ex = self.ex
        p = ex.ev(nodes[0], st)
        i = ex.rv(nodes[1], st)
        c = ex.load(p, st)
        if isinstance(c, Vec):
            ex.oblige('vector index in bounds', st, AND(i >= 0, i < c.len), e)
            return p.field(('i', i))
        if isinstance(c, MapV):
            self.map_touch(p, c, i, st)
            return p.field(('k', i))
        if z3.is_expr(c) and c.sort() == S:
            ex.oblige('string index in bounds', st, AND(i >= 0, i <= z3.Length(c)), e)
            return p.field(('i', i))
        raise Unsupported('operator[] of %s' % type(c).__name__)

    def map_touch(self, p, c, k, st):
        """operator[] inserts a zero value when the key is absent"""
        ex = self.ex
        h = simp(c.has(k))
        if z3.is_true(h) or ex.entails(st, h):
            return
        z = ex.zero_value(c.vty, st)
        old = c
        has = lambda j: OR(simp(j == k), old.has(j))
        if isinstance(z, Opaque):
            if not isinstance(old.val(k), Opaque):
                raise Unsupported('map value without a model')
            val = lambda j: z
        else:
            val = lambda j: merge(simp(AND(j == k, NOT(old.has(k)))), z, old.val(j))
        ex.store(p, MapV(has, val, c.kty, c.vty, self.size_add(old, k)), st)

    def size_add(self, m, k):
        return None if m.size is None else simp(ITE(m.has(k), m.size, m.size + 1))

    def set_add(self, m, k):
        return MapV(lambda j: OR(simp(j == k), m.has(j)), m.val, m.kty, m.vty, self.size_add(m, k))

    def set_facts(self, m, st):
        """number of elements and the smallest element of a map or set"""
        ex = self.ex
        srt = SORT[m.kty[0]]
        if m.size is None:
            n = ex.fresh(('int',), fresh_name('size'), list(ex.gens))
            st.assume(n >= 0)
        else:
            n = m.size
        k = ex.fresh(m.kty, fresh_name('least'), list(ex.gens))
        st.assume(IMP(n > 0, m.has(k)))
        st.assume(Q(lambda x: IMP(m.has(x), AND(n > 0, NOT(x < k))), sorts=[srt]).hyp())
        st.assume(Q(lambda x: IMP(AND(n == 1, m.has(x)), x == k), sorts=[srt]).hyp())
        return n, k

    def map_for(self, rp, rv, var, body, st):
        """for (x : set or map): the body on an arbitrary element; what it changes is unknown afterwards
        except for sets that grow by elements depending on x alone"""
        ex = self.ex
        x = z3.Const(fresh_name('g!key'), SORT[rv.kty[0]])
        d = var['inner'][0]

        def run(s0):
            s = s0.clone()
            s.assume(rv.has(x))
            n0 = len(s.pc)
            t = type_of(d)
            if is_set(rv):
                p = Ptr.to(ex.newloc(s, d.get('name', '_'), x))
            else:
                p = rp.field(('kv', x))
                if t[0] != 'ref':
                    v = ex.load(p, s)
                    if rv.vty[0] == 'box':
                        v = Struct('pair', {'first': x, 'second': rp.field(('k', x), 'box!')})
                    p = Ptr.to(ex.newloc(s, d.get('name', '_'), v))
            ex.frame.env[d['id']] = p
            saved, ex.exits = ex.exits, []
            ex.gens.append(x)
            try:
                out = ex.stmt(body, s)
                mine = ex.exits
            finally:
                ex.exits = saved
                ex.gens.pop()
            rest = []
            for y in mine:
                if y.kind == 'continue':
                    out = y.st if out is None else merge_states(out, y.st)[0]
                else:
                    rest.append(y)
            return out, rest, n0
        from .sx import merge_states, Exit
        # what the body changes
        mod = set()
        head = st.clone()
        self.ex.quiet += 1
        try:
            for _ in range(6):
                out, rest, _n = run(head)
                new = set()
                for o in [out] if out is not None else []:     # (what it changes before leaving does not reach another element)
                    for l in st.store:
                        if l in o.store and o.store[l] is not head.store[l] and l not in mod:
                            new.add(l)
                if not new:
                    break
                mod |= new
                for l in sorted(new, key=lambda q: q.id):
                    head.store[l] = self.havoc(st.store[l], l.name)
            else:
                raise Unsupported('loop over a map')
        finally:
            self.ex.quiet -= 1
        out, rest, n0 = run(head)
        ends = []
        for y in rest:
            t = self.point(x, y.st.pc[n0 - 1:])
            if t is not None:
                pr = [(x, t)]
                y.st.pc[:] = [simp(subst(f, pr)) for f in y.st.pc]
                for l in list(y.st.store):
                    y.st.store[l] = substv(y.st.store[l], pr)
                if y.val is not None and not isinstance(y.val, str):
                    y.val = substv(y.val, pr)
            if not ex.feasible(y.st):
                continue
            if y.kind == 'break':
                ends.append(y.st)
            else:
                ex.exits.append(y)
        done = st.clone()
        if out is None:
            normal = [z3.BoolVal(False)]
        else:
            normal = out.pc[n0:]
            for l in sorted(mod, key=lambda q: q.id):
                done.store[l] = self.grown(x, rv, st.store[l], head.store[l], out.store[l]) or self.havoc(st.store[l], l.name)
        for c in normal:
            if z3.is_quantifier(c) or self.depends(c):
                continue
            t = self.point(x, conj(simp(NOT(c))))
            if t is not None:
                done.assume(NOT(AND(rv.has(t), subst(NOT(c), [(x, t)]))))
            else:
                done.assume(Q(lambda k, c=c: IMP(rv.has(k), subst(c, [(x, k)])), sorts=[x.sort()]).hyp())
        if ex.feasible(done):
            ends.append(done)
        if not ends:
            return None
        s = ends[0]
        for s2 in ends[1:]:
            s = merge_states(s, s2)[0]
        return s

    def depends(self, f):
        """on the state in the middle of a loop"""
        return any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('any_') for t in subterms(f))

    def point(self, x, cs):
        """t when the conjunction contains x == t"""
        for c in cs:
            for d in conj(c):
                if z3.is_eq(d):
                    a, b = d.children()
                    if b.eq(x):
                        a, b = b, a
                    if a.eq(x) and not any(y.eq(x) for y in subterms(b)):
                        return b
        return None

    def havoc(self, v, name):
        nm = fresh_name('any_' + name)
        gs = list(self.ex.gens)

        def ok(v):
            if isinstance(v, (Ptr, Block, Frozen, Content, Iter, MapIter)):
                raise Unsupported('loop over a map changes ' + name)
            if isinstance(v, Struct):
                for y in v.f.values():
                    ok(y)
        ok(v)
        tab = {}
        for lf in leaves(v):
            probe = lf.fn([z3.Const('hv!%d' % i, s) for i, s in enumerate(lf.psorts)])
            f = z3.Function('%s%s' % (nm, '.'.join(str(p) for p in lf.path)), *([g.sort() for g in gs] + list(lf.psorts) + [probe.sort()]))
            tab[lf.path] = (lambda ps, f=f: f(*gs, *ps)) if gs or lf.psorts else (lambda ps, f=f: f())
        return rebuild(v, tab)

    def grown(self, x, rv, v0, h, o):
        """set v0 after a loop whose body adds to h the elements k with P(x, k)"""
        if not (is_set(v0) and isinstance(o, MapV)):
            return None
        k = z3.Const(fresh_name('g!elem'), SORT[v0.kty[0]])
        hf = h.has(k)
        of = simp(o.has(k))
        if any(z3.is_app(t) and t.decl().eq(hf.decl()) and not t.eq(hf) for t in subterms(of)):
            return None
        p = simp(z3.substitute(of, (hf, z3.BoolVal(False))))
        if check_sat([NOT(of == OR(hf, p))]) != z3.unsat:
            return None
        if self.depends(p):
            return None
        t = self.point(x, conj(p))
        if t is None:
            return None
        q = simp(AND(rv.has(t), subst(p, [(x, t)])))
        return MapV(lambda j: OR(v0.has(j), subst(q, [(k, j)])), v0.val, v0.kty, v0.vty)

    # ------------------------------------------------------------ methods
    def method(self, name, b, bt, nodes, st, e):
        ex = self.ex
        if not isinstance(b, Ptr):
            b = Ptr.to(ex.newloc(st, 'tmp', b))
        v = ex.load(b, st)
        if isinstance(v, Iter) and name == 'base':
            return Iter(v.cont, v.idx)
        if isinstance(v, Struct) and v.cls in ('ifstream', 'istringstream'):
            return self.stream_method(name, b, v, nodes, st, e)
        if name.startswith('operator '):
            # conversion of a proxy reference (vector<bool>)
            return ex.load(v, st) if isinstance(v, Ptr) else v
        if isinstance(v, Vec):
            return self.vec_method(name, b, v, nodes, st, e)
        if isinstance(v, MapV):
            return self.map_method(name, b, v, nodes, st, e)
        if z3.is_expr(v) and v.sort() == S:
            return self.str_method(name, b, v, nodes, st, e)
        if isinstance(v, Opaque):
            raise Unsupported('method %s of %s' % (name, v))
        raise Unsupported('method %s of %s' % (name, type(v).__name__))

    def vec_method(self, name, b, v, nodes, st, e):
        ex = self.ex
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        if name in ('size', 'length'):
            return v.len
        if name == 'empty':
            return v.len == 0
        if name == 'at':
            i = ex.rv(nodes[0], st)
            ex.side('throw', st, OR(i < 0, i >= v.len), 'out_of_range')
            return b.field(('i', i))
        if name == 'push_back':
            x = ex.rv(nodes[0], st)
            x = self.elem(x, v.ety, st)
            old, n = v, v.len

            def fn(j):
                c = simp(j == n)
                if z3.is_true(c):
                    return x
                o = old.at(j)
                if z3.is_false(c):
                    return o
                return merge(c, x, o)
            ex.store(b, Vec(simp(n + 1), fn, v.ety), st)
            return None
        if name == 'pop_back':
            ex.oblige('pop_back of a non-empty vector', st, v.len > 0, e)
            ex.store(b, Vec(simp(v.len - 1), v.at, v.ety), st)
            return None
        if name == 'clear':
            ex.store(b, Vec(0, v.at, v.ety), st)
            return None
        if name in ('begin', 'cbegin'):
            return Iter(b, z3.IntVal(0))
        if name in ('end', 'cend'):
            return Iter(b, v.len)
        if name == 'back':
            ex.oblige('back of a non-empty vector', st, v.len > 0, e)
            return b.field(('i', simp(v.len - 1)))
        if name == 'front':
            ex.oblige('front of a non-empty vector', st, v.len > 0, e)
            return b.field(('i', z3.IntVal(0)))
        if name == 'reserve':
            return None
        if name == 'resize':
            n = ex.rv(nodes[0], st)
            z = self.conv(ex.rv(nodes[1], st), v.ety) if len(nodes) > 1 else ex.zero_value(v.ety, st)
            old = v
            ex.store(b, Vec(n, lambda j: merge(simp(j < old.len), old.at(j), z), v.ety), st)
            return None
        raise Unsupported('vector::' + name)

    def elem(self, x, ety, st):
        ex = self.ex
        if isinstance(x, Ptr):
            # a pointer stored in a container: snapshot of the pointee, which must not change afterwards
            t = x.single()
            if not t or t[1]:
                raise Unsupported('pointer into a container')
            loc = t[0]
            val = ex.freeze(st.store[loc], st)
            sv = st.store[loc]
            if not ex.quiet:
                loc.frozen = True
                if isinstance(sv, Struct) and sv.cls == 'Matrix' and isinstance(sv.f['elem'], Ptr):
                    sv.f['elem'].single()[0].frozen = True
            return Frozen(val, ety)
        return self.conv(x, ety)

    def map_method(self, name, b, v, nodes, st, e):
        ex = self.ex
        if name == 'at':
            k = ex.rv(nodes[0], st)
            ex.side('throw', st, NOT(v.has(k)), 'out_of_range')
            return b.field(('k', k))
        if name == 'count':
            k = ex.rv(nodes[0], st)
            return ITE(v.has(k), z3.IntVal(1), z3.IntVal(0))
        if name == 'insert' and len(nodes) == 1:
            x = ex.rv(nodes[0], st)
            if z3.is_expr(x) and is_set(v):
                ex.store(b, self.set_add(v, x), st)
                return None
        if not is_set(v) and (name == 'insert' and len(nodes) == 1 or name == 'emplace' and len(nodes) == 2):
            # a key that is there keeps its value
            x = ex.rv(nodes[0], st)
            k, w = (x.f['first'], x.f['second']) if name == 'insert' and isinstance(x, Struct) and x.cls == 'pair' else (x, ex.rv(nodes[1], st) if name == 'emplace' else None)
            if z3.is_expr(k) and k.sort() == SORT[v.kty[0]] and w is not None:
                w = self.elem(w, v.vty, st)
                there = v.has(k)
                sz = None if v.size is None else simp(ITE(there, v.size, v.size + 1))
                ex.store(b, MapV(lambda j: OR(j == k, v.has(j)), lambda j: merge(simp(AND(j == k, NOT(there))), w, v.val(j)), v.kty, v.vty, sz), st)
                return Struct('pair', {'first': MapIter(b, k, z3.BoolVal(False)), 'second': NOT(there)})
        if name == 'size':
            return self.set_facts(v, st)[0]
        if name == 'empty':
            return self.set_facts(v, st)[0] == 0
        if name in ('begin', 'cbegin'):
            n, k = self.set_facts(v, st)
            return MapIter(b, k, simp(n == 0))
        if name in ('end', 'cend'):
            return MapIter(b, ex.undef(SORT[v.kty[0]], 'end'), TRUE())
        if name == 'find':
            k = ex.rv(nodes[0], st)
            return MapIter(b, k, NOT(v.has(k)))
        if name == 'clear':
            ex.store(b, MapV(lambda j: z3.BoolVal(False), v.val, v.kty, v.vty, z3.IntVal(0)), st)
            return None
        if name == 'erase' and len(nodes) == 1:
            k = ex.rv(nodes[0], st)
            if z3.is_expr(k) and k.sort() == SORT[v.kty[0]]:
                sz = None if v.size is None else simp(ITE(v.has(k), v.size - 1, v.size))
                ex.store(b, MapV(lambda j: AND(NOT(j == k), v.has(j)), v.val, v.kty, v.vty, sz), st)
                return ITE(v.has(k), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('map::' + name)

    def view(self, v, st):
        """v as part of a text: (text, start, length)"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
            b, p, m = v.children()
            if self.ex.entails(st, AND(p >= 0, m >= 0, p + m <= z3.Length(b))):
                if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE:
                    b2, p2, m2 = self.view(b, st)
                    if b2 is not b:
                        return b2, simp(p2 + p), m
                return b, p, m
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            # both possible values are part of the same text
            c, x, y = v.children()
            views = []
            for g, w in ((c, x), (simp(NOT(c)), y)):
                s = st.clone()
                s.assume(g)
                views.append(self.view(w, s))
            (b1, p1, m1), (b2, p2, m2) = views
            if b1.eq(b2) and not z3.is_string_value(b1):
                p = simp(ITE(c, p1, p2))
                rest = all(simp(q + m).eq(simp(z3.Length(b1))) for q, m in ((p1, m1), (p2, m2)))
                return b1, p, simp(z3.Length(b1) - p) if rest else simp(ITE(c, m1, m2))
        return v, z3.IntVal(0), z3.Length(v)

    def strlen(self, v, st):
        return self.view(v, st)[2]

    def substr(self, v, i, n, st):
        """characters i..i+n of v, a range inside of v"""
        b, p, m = self.view(v, st)
        if b is not v and not self.ex.entails(st, AND(i >= 0, n >= 0, i + n <= m)):
            b, p = v, z3.IntVal(0)
        return z3.SubString(b, simp(p + i), simp(n))

    def str_method(self, name, b, v, nodes, st, e):
        ex = self.ex
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        L = self.strlen(v, st)
        if name in ('size', 'length'):
            return L
        if name == 'empty':
            return L == 0
        if name == 'compare' and len(nodes) == 1:
            a = ex.rv(nodes[0], st)
            return ITE(v == a, z3.IntVal(0), ITE(v < a, z3.IntVal(-1), z3.IntVal(1)))
        if name in ('c_str', 'data'):
            return v
        if name == 'at':
            i = ex.rv(nodes[0], st)
            ex.side('throw', st, OR(i < 0, i >= L), 'out_of_range')
            return b.field(('i', i))
        if name == 'substr':
            i = ex.rv(nodes[0], st) if nodes else z3.IntVal(0)
            ex.side('throw', st, OR(i < 0, i > L), 'out_of_range')
            if len(nodes) > 1:
                n = ex.rv(nodes[1], st)
                n = simp(L - i) if ex.entails(st, n >= L - i) else simp(n) if ex.entails(st, n <= L - i) else ITE(simp(n > L - i), L - i, n)
            else:
                n = L - i
            return self.substr(v, i, n, st)
        if name in ('begin', 'cbegin'):
            return Iter(b, z3.IntVal(0))
        if name in ('end', 'cend'):
            return Iter(b, L)
        if name in ('rbegin', 'crbegin'):
            return Iter(b, L, True)
        if name in ('rend', 'crend'):
            return Iter(b, z3.IntVal(0), True)
        if name in ('front', 'back'):
            ex.oblige('%s of a non-empty string' % name, st, L > 0, e)
            return b.field(('i', z3.IntVal(0) if name == 'front' else simp(L - 1)))
        if name in ('find', 'find_first_of', 'find_first_not_of'):
            a = self.to_s(ex.rv(nodes[0], st))
            p = ex.rv(nodes[1], st) if len(nodes) > 1 else z3.IntVal(0)
            a = simp(a)
            if name == 'find' or name == 'find_first_of' and z3.is_string_value(a) and len(a.as_string()) == 1:
                b_, o, m = self.view(v, st)
                if b_ is not v and simp(o + m).eq(simp(z3.Length(b_))):
                    r = z3.IndexOf(b_, a, simp(o + p))
                    return ITE(AND(p <= L, r >= 0) if not ex.entails(st, p <= L) else r >= 0, simp(r - o), NPOS)
                r = z3.IndexOf(v, a, p)
                return ITE(AND(p <= L, r >= 0) if not ex.entails(st, p <= L) else r >= 0, r, NPOS)
            neg = name.endswith('not_of')
            k = FIRST(L, lambda j: AND(j >= p, NOT(isin(v, j, a)) if neg else isin(v, j, a)))
            return ITE(k < L, k, NPOS)
        if name in ('rfind', 'find_last_of', 'find_last_not_of'):
            a = simp(self.to_s(ex.rv(nodes[0], st)))
            p = ex.rv(nodes[1], st) if len(nodes) > 1 else None
            lim = (lambda j: TRUE()) if p is None else (lambda j: j <= p)
            if name == 'rfind':
                self.trust('std::string::rfind (last position where the text occurs)')
                k = LAST(L - z3.Length(a) + 1, lambda j: AND(lim(j), occurs(v, j, a)))
            elif name == 'find_last_of':
                k = LAST(L, lambda j: AND(lim(j), isin(v, j, a)))
            else:
                k = LAST(L, lambda j: AND(lim(j), NOT(isin(v, j, a))))
            return ITE(k >= 0, k, NPOS)
        if name == 'compare' and len(nodes) == 3:
            i, n, a = [ex.rv(x, st) for x in nodes]
            ex.side('throw', st, OR(i < 0, i > L), 'out_of_range')
            w = z3.SubString(v, i, ITE(simp(n > L - i), L - i, n))
            return ITE(w == a, z3.IntVal(0), ITE(w < a, z3.IntVal(-1), z3.IntVal(1)))
        if name == 'append' and len(nodes) == 1:
            ex.store(b, z3.Concat(v, self.to_s(ex.rv(nodes[0], st))), st)
            return b
        if name == 'insert' and len(nodes) == 2:
            i = ex.rv(nodes[0], st)
            a = self.to_s(ex.rv(nodes[1], st))
            ex.side('throw', st, OR(i < 0, i > L), 'out_of_range')
            ex.store(b, z3.Concat(z3.SubString(v, 0, i), a, z3.SubString(v, i, L - i)), st)
            return b
        if name == 'pop_back':
            ex.oblige('pop_back of a non-empty string', st, L > 0, e)
            ex.store(b, z3.SubString(v, 0, L - 1), st)
            return None
        if name == 'erase':
            a = [ex.rv(x, st) for x in nodes]
            if a and isinstance(a[0], Iter):
                i = a[0].idx
                n = a[1].idx - i if len(a) > 1 else z3.IntVal(1)
                ex.oblige('erased range lies in the string', st, AND(i >= 0, n >= 0, i + n <= L), e)
                ex.store(b, z3.Concat(z3.SubString(v, 0, i), z3.SubString(v, i + n, L - i - n)), st)
                return Iter(b, i)
            i = a[0] if a else z3.IntVal(0)
            ex.side('throw', st, OR(i < 0, i > L), 'out_of_range')
            if len(a) < 2 or ex.entails(st, a[1] >= L - i):
                n = simp(L - i)
            else:
                n = simp(a[1]) if ex.entails(st, a[1] <= L - i) else ITE(simp(a[1] > L - i), L - i, a[1])
            if z3.is_int_value(simp(i)) and simp(i).as_long() == 0:
                ex.store(b, self.substr(v, n, simp(L - n), st), st)
                return b
            ex.store(b, z3.Concat(z3.SubString(v, 0, i), z3.SubString(v, i + n, L - i - n)), st)
            return b
        if name == 'push_back':
            ex.store(b, z3.Concat(v, self.to_s(ex.rv(nodes[0], st))), st)
            return None
        if name == 'clear':
            ex.store(b, z3.StringVal(''), st)
            return None
        raise Unsupported('string::' + name)
