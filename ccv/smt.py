"""Solver layer: generic symbols, definitional functions (sum / first / last / recursion) and the prover."""
import z3, time, itertools, subprocess, os, tempfile, select, signal

I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
z3.set_param('smt.random_seed', 0)

_ctr = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base, next(_ctr))


def gen(base='k'):
    """a fresh generic (universally quantified) integer"""
    return z3.Const('g!%s!%d' % (base, next(_ctr)), I)


def is_gen(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('g!')


_kids = {}      # term id -> (term, [(id, subterm)]): walking terms through the z3 API again and again is slow


def kids(i, x):
    k = _kids.get(i)
    if k is None:
        ch = [x.body()] if z3.is_quantifier(x) else x.children()
        k = (x, [(y.get_id(), y) for y in ch])
        _kids[i] = k
    return k[1]


def subterms(e, seen=None):
    if seen is None:
        seen = set()
    st = [(e.get_id(), e)]
    while st:
        i, x = st.pop()
        if i in seen:
            continue
        seen.add(i)
        yield x
        st.extend(kids(i, x))


_feat = {}
VAR_, STRING_, QUANT_, DEF_ = 1, 2, 4, 8


def feat(e):
    """what occurs in a term: bound variables, strings, quantifiers, definitional applications"""
    r = _feat.get(e.get_id())
    if r is not None:
        return r
    st = [(e.get_id(), e)]
    while st:
        i, x = st[-1]
        if i in _feat:
            st.pop()
            continue
        ks = kids(i, x)
        todo = [k for k in ks if k[0] not in _feat]
        if todo:
            st.extend(todo)
            continue
        r = 0
        for k, _ in ks:
            r |= _feat[k]
        if z3.is_var(x):
            r |= VAR_
        if z3.is_quantifier(x):
            r |= QUANT_
        elif x.sort() == S:
            r |= STRING_
        if ks and z3.is_app(x):
            n = x.decl().name()
            if n[0] == 'D' and '!' in n:
                r |= DEF_
        _feat[i] = r
        st.pop()
    return _feat[e.get_id()]


_gens_cache = {}


def generics(e):
    """generic constants of e, in order of first appearance (deterministic)"""
    k = e.get_id()
    c = _gens_cache.get(k)
    if c is not None and c[0].eq(e):
        return c[1]
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if is_gen(x):
            out.append(x)
            return
        if z3.is_quantifier(x):
            walk(x.body())
        else:
            for y in x.children():
                walk(y)
    walk(e)
    _gens_cache[k] = (e, out)
    return out


def TRUE():
    return z3.BoolVal(True)


def AND(*xs):
    xs = [x for x in flat(xs) if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def OR(*xs):
    xs = [x for x in flat(xs) if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        elif isinstance(x, bool):
            yield z3.BoolVal(x)
        else:
            yield x


def NOT(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ITE(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        if a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        elif a.sort() == I and b.sort() == R:
            a = z3.ToReal(a)
        if z3.is_bool(a):
            if z3.is_true(a) and z3.is_false(b):
                return c
            if z3.is_false(a) and z3.is_true(b):
                return NOT(c)
    return z3.If(c, a, b)


def IMP(a, b):
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def subst(e, pairs):
    if not pairs:
        return e
    return z3.substitute(e, *pairs)


_simp_cache = {}


def simp(e):
    k = e.get_id()
    c = _simp_cache.get(k)
    if c is not None and c[0].eq(e):
        return c[1]
    r = z3.simplify(e)
    _simp_cache[k] = (e, r)
    return r


# ------------------------------------------------------------------ definitional functions
class Def:
    """Function symbol with a defining axiom. kind: sum/first/last/rec. args = [U] + generics."""

    def __init__(self, kind, fn, gens, var, body, extra=None):
        self.kind, self.fn, self.gens, self.var, self.body, self.extra = kind, fn, gens, var, body, extra

    def inst(self, args):
        """instances of the definition for the argument tuple (quantified where needed)"""
        U, gs = args[0], args[1:]
        sub = list(zip(self.gens, gs))
        app = self.fn(*args)
        k = self.var
        if self.kind == 'first':
            M = ITE(U >= 0, U, z3.IntVal(0))
            b = subst(self.body, sub)
            kk = gen('q')
            bk = subst(b, [(k, kk)])
            return [app >= 0, app <= M, IMP(app < M, subst(b, [(k, app)])),
                    z3.ForAll([kk], IMP(AND(kk >= 0, kk < app), NOT(bk)))]
        if self.kind == 'last':
            b = subst(self.body, sub)
            kk = gen('q')
            bk = subst(b, [(k, kk)])
            return [app >= -1, OR(app < U, app == -1), IMP(app >= 0, subst(b, [(k, app)])),
                    z3.ForAll([kk], IMP(AND(kk > app, kk >= 0, kk < U), NOT(bk)))]
        if self.kind == 'sum':
            # unrolled at the top: S(U) = S(U-1) + e(U-1) for U>=1 ; S(U)=0 for U<=0
            Um = simp(U - 1)
            b = subst(self.body, sub + [(k, Um)])
            return [ITE(U <= 0, app == 0, app == self.fn(Um, *gs) + b)]
        if self.kind == 'rec':
            Um = simp(U - 1)
            b = subst(self.body, sub + [(k, Um)])
            z = subst(self.extra, sub)
            return [ITE(U <= 0, app == z, app == b)]
        if self.kind == 'sk':
            return [subst(x, sub + [(k, U)]) for x in self.body]
        raise AssertionError

    def unrolls(self):
        return self.kind in ('sum', 'rec')


DEFS = {}        # decl name -> Def
_def_keys = {}   # canonical key -> Def
KEEP = []


def _canon(var, body, extra=()):
    gs = []
    for e in [body] + list(extra):
        for g in generics(e):
            if not g.eq(var) and not any(g.eq(x) for x in gs):
                gs.append(g)
    sub = [(var, z3.Const('g!BV', I))] + [(g, z3.Const('g!G%d' % i, g.sort())) for i, g in enumerate(gs)]
    return gs, sub


_shape, _shapes = {}, {}
COMMUTE = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT}


def shape(e):
    """equal for terms that differ in the order of operands only (the simplifier's order depends on term numbers)"""
    r = _shape.get(e.get_id())
    if r is not None:
        return r[1]
    ks = [shape(y) for _, y in kids(e.get_id(), e)]
    if z3.is_quantifier(e):
        d = ('q', e.is_forall(), e.is_lambda(), tuple(e.var_sort(i).name() for i in range(e.num_vars())))
    elif z3.is_var(e):
        d = ('v', z3.get_var_index(e), e.sort().name())
    elif not ks:
        d = ('c', e.sexpr(), e.sort().name())
    else:
        d = ('a', e.decl().get_id() if hasattr(e.decl(), 'get_id') else e.decl().sexpr())
        KEEP.append(e.decl())
        if e.decl().kind() in COMMUTE:
            ks.sort()
    k = (d, tuple(ks))
    n = _shapes.setdefault(k, len(_shapes))
    _shape[e.get_id()] = (e, n)
    return n


def define(kind, var, body, extra=None, sort=None):
    """register (or find) the definition; returns a python function U -> term"""
    body = simp(body)
    gs, sub = _canon(var, body, [extra] if extra is not None else [])
    cb = subst(body, sub)
    ce = subst(extra, sub) if extra is not None else None
    key = (kind, shape(cb), shape(ce) if ce is not None else None)
    d = _def_keys.get(key)
    if d is None:
        KEEP.append(cb)
        name = 'D%s!%d' % (kind, len(DEFS))
        rs = sort or (I if kind in ('first', 'last') else body.sort())
        fn = z3.Function(name, *([I] + [g.sort() for g in gs] + [rs]))
        d = Def(kind, fn, [x for _, x in sub[1:]], z3.Const('g!BV', I), cb, ce)
        DEFS[name] = d
        _def_keys[key] = d
    f = d.fn
    return lambda U: f(U, *gs)


CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ}


def liftcmp(e, depth=0):
    """comparisons of an if-then-else with a numeral, where one branch is a numeral, become propositional"""
    if not z3.is_app(e) or depth > 12:
        return e
    k = e.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
        ch = [liftcmp(x, depth + 1) for x in e.children()]
        if all(a.eq(b) for a, b in zip(ch, e.children())):
            return e
        if k == z3.Z3_OP_AND:
            return AND(ch)
        if k == z3.Z3_OP_OR:
            return OR(ch)
        if k == z3.Z3_OP_NOT:
            return NOT(ch[0])
        return IMP(*ch)
    if k in CMP and e.num_args() == 2 and e.arg(0).sort() == I:
        for p in (0, 1):
            x, o = e.arg(p), e.arg(1 - p)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(o):
                c, a, b = x.children()
                if z3.is_int_value(a) or z3.is_int_value(b):
                    mk = (lambda v: e.decl()(v, o)) if p == 0 else (lambda v: e.decl()(o, v))
                    ea, eb = liftcmp(simp(mk(a)), depth + 1), liftcmp(simp(mk(b)), depth + 1)
                    return OR(AND(c, ea), AND(NOT(c), eb))
    return e


def conj(e):
    if z3.is_and(e):
        for x in e.children():
            yield from conj(x)
    else:
        yield e


def onepoint(v, cs):
    """a conjunct v == g with v-free g"""
    for x in cs:
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() == I and contains(x, v):
            l = linear_in(x.arg(0) - x.arg(1), v)
            if l is not None and abs(l[0]) == 1:
                return simp(-l[1] if l[0] == 1 else l[1])
    return None


def prune(v, U, cs):
    """conjuncts that say nothing: bounds of v itself, and what a first place within its bounds implies"""
    def names(xs):
        return {shape(y) for x in xs for y in conj(simp(x))}
    out = names([v >= 0, v < U, NOT(v == U)])
    cs = [x for x in cs if shape(x) not in out]
    have = {shape(x) for x in cs}
    for x in cs:
        for t in def_apps([x]):
            d = DEFS[t.decl().name()]
            if d.kind != 'first' or not contains(t, v):
                continue
            n = t.arg(0)
            key = shape(simp(t < n))
            if key not in have:
                continue
            inst = subst(d.body, [(d.var, t)] + list(zip(d.gens, t.children()[1:])))
            drop = names([t >= 0, NOT(t == n), n >= 0, n > 0, inst]) - {key}
            cs = [y for y in cs if shape(y) not in drop]
    return cs


def _extremum(kind, U, pred):
    v = gen('f')
    b = simp(liftcmp(simp(pred(v))))
    none = ITE(simp(U >= 0), U, z3.IntVal(0)) if kind == 'first' else z3.IntVal(-1)
    if z3.is_false(b):
        return none
    cs = list(conj(b))
    free = [x for x in cs if not contains(x, v)]
    rest = prune(v, U, [x for x in cs if contains(x, v)])
    if not rest:
        r = z3.IntVal(0) if kind == 'first' else simp(U - 1)
        return ITE(simp(AND(free + [U >= 1])), r, none)
    g = onepoint(v, rest)
    if g is not None:
        return ITE(simp(AND(free + [g >= 0, g < U] + [subst(x, [(v, g)]) for x in rest])), g, none)
    return ITE(AND(free), define(kind, v, AND(rest))(U), none)


def FIRST(U, pred):
    return _extremum('first', U, pred)


def LAST(U, pred):
    return _extremum('last', U, pred)


def SUM(U, body):
    v = gen('s')
    b = body(v)
    if b.sort() == I or b.sort() == R:
        b = simp(b)
        if z3.is_int_value(b) or z3.is_rational_value(b):
            if (b.as_long() if z3.is_int_value(b) else b.numerator_as_long()) == 0:
                return b
        one = sum_onepoint(U, v, b)
        return one if one is not None else define('sum', v, b)(U)
    raise AssertionError


def is_zero(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.numerator_as_long() == 0)


def sum_onepoint(U, v, b):
    """sum of terms of which only the one at v == g can be different from zero"""
    fac = b.children() if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL else [b]
    for f in fac:
        if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE):
            continue
        c, x, y = f.children()
        if is_zero(x):
            c, x, y = simp(NOT(c)), y, x
        if not is_zero(y):
            continue
        g = onepoint(v, [z for z in conj(c) if contains(z, v)])
        if g is not None:
            return ITE(simp(AND(g >= 0, g < U)), simp(subst(b, [(v, g)])), y)
    return None


class RecFn:
    """a recursively defined function R(n, params..., outer generics...) whose step is supplied later"""

    def __init__(self, name, psorts, rsort, outer):
        self.name = fresh_name('DR' + name)
        self.outer = outer
        self.fn = z3.Function(self.name, *([I] + psorts + [g.sort() for g in outer] + [rsort]))
        self.psorts = psorts

    def __call__(self, n, params=()):
        return self.fn(n, *params, *self.outer)

    def define(self, var, params, init, step):
        """R(0)=init(params), R(var+1)=step"""
        c = [(p, z3.Const('g!RP%d' % i, p.sort())) for i, p in enumerate(params)]
        c += [(g, z3.Const('g!RG%d' % i, g.sort())) for i, g in enumerate(self.outer)]
        bv = z3.Const('g!RV', I)
        body = subst(step, c + [(var, bv)])
        ini = subst(init, c)
        bad = [g for g in generics(body) + generics(ini) if not g.eq(bv) and not any(g.eq(x) for _, x in c)]
        assert not bad, bad
        d = Def('rec', self.fn, [x for _, x in c], bv, body, ini)
        DEFS[self.name] = d
        KEEP.append((body, ini))


_rec_keys = {}


def recdef(psorts, rsort, init, step):
    """recursively defined function R(0,ps)=init(ps), R(k+1,ps)=step(k,ps,R); equal definitions share one symbol"""
    k = z3.Const('g!RV', I)
    ps = [z3.Const('g!rp%d' % i, s) for i, s in enumerate(psorts)]
    SELF = z3.Function('SELF!' + '_'.join(s.name() for s in list(psorts) + [rsort]), *([I] + list(psorts) + [rsort]))
    body = simp(step(k, ps, lambda n, *a: SELF(n, *a)))
    ini = simp(init(ps))
    gs = []
    for e in (body, ini):
        for g in generics(e):
            if not any(g.eq(x) for x in gs + ps + [k]):
                gs.append(g)
    sub = [(p, z3.Const('g!RP%d' % i, p.sort())) for i, p in enumerate(ps)]
    sub += [(g, z3.Const('g!RG%d' % i, g.sort())) for i, g in enumerate(gs)]
    cb, ci = subst(body, sub), subst(ini, sub)
    key = (cb.get_id(), ci.get_id())
    fn = _rec_keys.get(key)
    if fn is None:
        KEEP.extend((cb, ci))
        fn = z3.Function('Drec!%d' % len(DEFS), *([I] + list(psorts) + [g.sort() for g in gs] + [rsort]))
        vs = [z3.Var(i, s) for i, s in enumerate([I] + list(psorts))]
        body2 = z3.substitute_funs(cb, (SELF, fn(*(vs + [x for _, x in sub[len(ps):]]))))
        DEFS[fn.name()] = Def('rec', fn, [x for _, x in sub], k, body2, ci)
        KEEP.append(body2)
        _rec_keys[key] = fn
    return lambda n, *a: fn(z3.IntVal(n) if isinstance(n, int) else n, *a, *gs)


def named_fn(f, rsort=I):
    """a symbol for the function f: Int -> rsort (equal bodies share one), defined by an axiom"""
    t = z3.Const('g!NT', I)
    body = simp(f(t))
    gs = [g for g in generics(body) if not g.eq(t)]
    sub = [(g, z3.Const('g!NG%d' % i, g.sort())) for i, g in enumerate(gs)]
    b = subst(body, sub)
    key = ('named', b.get_id())
    fn = _rec_keys.get(key)
    if fn is None:
        KEEP.append(b)
        fn = z3.Function('named!%d' % len(_rec_keys), *([I] + [g.sort() for g in gs] + [rsort]))
        vs = [t] + [x for _, x in sub]
        add_axiom(fn.name(), z3.ForAll(vs, fn(*vs) == b, patterns=[fn(*vs)]))
        _rec_keys[key] = fn
    return lambda n: fn(z3.IntVal(n) if isinstance(n, int) else n, *gs)


class Q:
    """universally quantified fact: fn(vars) -> body or (body, [patterns])"""

    def __init__(self, fn, n=1, sorts=None):
        self.fn, self.sorts = fn, sorts or [I] * n

    def _get(self, vs):
        r = self.fn(*vs)
        return r if isinstance(r, tuple) else (r, None)

    def hyp(self):
        vs = [z3.Const('g!all%d%s' % (i, s), s) for i, s in enumerate(self.sorts)]
        b, pats = self._get(vs)
        if pats:
            return z3.ForAll(vs, b, patterns=pats)
        return z3.ForAll(vs, b)

    def goal(self):
        return self._get([z3.Const(fresh_name('g!any'), s) for s in self.sorts])[0]


def hyp(x):
    return x.hyp() if isinstance(x, Q) else x


def goal_of(x):
    return x.goal() if isinstance(x, Q) else x


LEMMAS = {}


class LemmaCtx:
    """proof of a lemma for arbitrary (uninterpreted) arguments, or an instance of it"""

    def __init__(self, proving):
        self.proving = proving
        self.hyps, self.known, self.obls, self.concl = [], [], [], []

    def assume(self, x):
        self.hyps.append(x)

    def induct(self, label, hi, P):
        """P(k): list of facts; proved for all 0 <= k <= hi by induction"""
        if not self.proving:
            return
        k = gen('ind')
        base = [hyp(x) for x in self.hyps + self.known]
        for i, x in enumerate(P(z3.IntVal(0))):
            self.obls.append(('%s / base %d' % (label, i), base + [hi >= 0], goal_of(x)))
        step = base + [k >= 0, k < hi] + [hyp(x) for x in P(k)]
        for i, x in enumerate(P(simp(k + 1))):
            self.obls.append(('%s / step %d' % (label, i), step, goal_of(x)))

        def forall_k(i):
            sorts = P(k)[i].sorts if isinstance(P(k)[i], Q) else []

            def fn(kk, *vs):
                x = P(kk)[i]
                b, pats = x._get(vs) if isinstance(x, Q) else (x, None)
                return IMP(AND(kk >= 0, kk <= hi), b), pats
            return Q(fn, sorts=[I] + list(sorts))
        self.known += [forall_k(i) for i in range(len(P(k)))]

    def have(self, label, x):
        if self.proving:
            self.obls.append((label, [hyp(y) for y in self.hyps + self.known], goal_of(x)))
            self.known.append(x)

    def conclude(self, label, x):
        if self.proving:
            self.obls.append((label, [hyp(y) for y in self.hyps + self.known], goal_of(x)))
        self.concl.append(x)


def lemma(name):
    def deco(fn):
        LEMMAS[name] = fn
        return fn
    return deco


def instance(name, *args):
    """the statement of a lemma for these arguments (proved once, separately, for arbitrary arguments)"""
    L = LemmaCtx(False)
    LEMMAS[name](L, *args)
    h = AND([hyp(x) for x in L.hyps])
    return AND([IMP(h, hyp(x)) for x in L.concl])


def skolem(base, sort, context_exprs, facts):
    """a skolem constant/function over the generics of the context, with facts(term)->list, kept as definition"""
    gs = []
    for e in context_exprs:
        for g in generics(e):
            if not any(g.eq(x) for x in gs):
                gs.append(g)
    name = fresh_name('Dsk' + base)
    fn = z3.Function(name, *([I] + [g.sort() for g in gs] + [sort]))
    t = fn(z3.IntVal(0), *gs)
    fs = facts(t)
    sub = [(g, z3.Const('g!K%d' % i, g.sort())) for i, g in enumerate(gs)]
    d = Def('sk', fn, [x for _, x in sub], z3.Const('g!KV', I), [subst(f, sub) for f in fs])
    DEFS[name] = d
    KEEP.append(d.body)
    return t


def def_apps(fs):
    out, seen, keep = {}, set(), []
    for f in fs:
        if not feat(f) & DEF_:
            continue
        for t in subterms(f, seen):
            if z3.is_app(t) and t.num_args() > 0:
                nm = t.decl().name()
                if nm in DEFS and DEFS[nm] is not None:
                    out[t.get_id()] = t
    return list(out.values())


def has_var(t):
    return bool(feat(t) & VAR_)


# ------------------------------------------------------------------ axioms attached to plain symbols
AXIOMS = {}   # decl name -> list of formulas (quantified facts about input symbols)


def add_axiom(decl_name, f):
    AXIOMS.setdefault(decl_name, []).append(f)


INSTANCES = {}     # function name -> instances of proved lemmas (or axioms) about an application of it


def INSTANCES_used(fs):
    seen = set()
    return any(z3.is_app(t) and t.decl().name() in INSTANCES and t.decl().name() in DEFS for f in fs for t in subterms(f, seen))


def closure(fs, depth=3, quant=False):
    """definition instances for the definitional applications occurring in fs, transitively"""
    done, out = set(), []
    extra_ax = set()
    cur = list(fs)
    unroll = {}
    qdefs = set()
    sums = {}
    ext = {}
    cands = []
    ninst = 0
    for rnd in range(depth + (1 if depth >= 3 else 0)):
        new = []
        for t in def_apps(cur):
            if t.get_id() in done:
                continue
            d = DEFS[t.decl().name()]
            if has_var(t):
                qdefs.add(t.decl().name())
                continue
            done.add(t.get_id())
            KEEP.append(t)
            if t.decl().name() in INSTANCES:
                new += INSTANCES[t.decl().name()](*t.children())
            if d.kind == 'sum':
                sums[t.get_id()] = t
            if d.kind in ('first', 'last'):
                ext[t.get_id()] = (t, d)
            if d.unrolls():
                # unroll only a bounded number of times
                if rnd >= 2:
                    continue
            new += d.inst([t.arg(i) for i in range(t.num_args())])
        for f in list(cur):
            for t in subterms(f):
                if z3.is_app(t):
                    nm = t.decl().name()
                    if nm in AXIOMS and nm not in extra_ax:
                        extra_ax.add(nm)
                        new += AXIOMS[nm]
                    if nm in AXIOMS and nm in INSTANCES and t.get_id() not in done and not has_var(t):
                        done.add(t.get_id())
                        KEEP.append(t)
                        new += INSTANCES[nm](*t.children())
        if depth >= 3:
            for f in (fs if rnd == 0 else []):
                for t in generics(f):
                    if t.sort() == I and not any(t.eq(c) for c in cands):
                        cands.append(t)
            for t, d in list(ext.values()):
                for c in cands[:8] + ([u for u, _ in list(ext.values())[:6]] if len(ext) < 8 else []):
                    key = ('c', t.get_id(), c.get_id())
                    if key in done or ninst > 160 or c.eq(t):
                        continue
                    done.add(key)
                    KEEP.append((t, c))
                    ninst += 1
                    b = subst(d.body, list(zip(d.gens, t.children()[1:])) + [(d.var, c)])
                    if d.kind == 'first':
                        new.append(IMP(AND(c >= 0, c < t), NOT(b)))
                    else:
                        new.append(IMP(AND(c > t, c >= 0, c < t.arg(0)), NOT(b)))
        if not new:
            break
        out += new
        cur = new
    # sum extensionality lemma (congruence of finite sums), instantiated per pair
    sl = list(sums.values())
    for a in range(len(sl)):
        for b in range(a + 1, len(sl)):
            x, y = sl[a], sl[b]
            if x.sort() != y.sort():
                continue
            dx, dy = DEFS[x.decl().name()], DEFS[y.decl().name()]
            sk = z3.Const(fresh_name('sx'), I)
            bx = subst(dx.body, list(zip(dx.gens, x.children()[1:])) + [(dx.var, sk)])
            by = subst(dy.body, list(zip(dy.gens, y.children()[1:])) + [(dy.var, sk)])
            out.append(IMP(AND(x != y, x.arg(0) == y.arg(0)), AND(sk >= 0, sk < x.arg(0), bx != by)))
    if quant:
        for nm in sorted(qdefs):
            d = DEFS[nm]
            if d.kind == 'sk':
                gs = list(d.gens)
                vs = [z3.Const('qv%d' % i, g.sort()) for i, g in enumerate(gs)]
                fs2 = d.inst([z3.IntVal(0)] + vs)
                app = d.fn(z3.IntVal(0), *vs)
            else:
                vs = [z3.Const('qvU', I)] + [z3.Const('qv%d' % i, g.sort()) for i, g in enumerate(d.gens)]
                fs2 = d.inst(vs)
                app = d.fn(*vs)
            if vs:
                out += [z3.ForAll(vs, f, patterns=[app]) for f in fs2]
    return out


def string_facts(fs):
    """theory facts of strings (valid for every interpretation) that the solvers do not find by themselves:
    characters of a substring, and the characters before the position found by a search for a character"""
    out, seen = [], set()
    j = z3.Const('g!strj', I)
    n = 0
    names = {}

    searches = []

    def nm(x):
        """a constant equal to x (patterns must not contain logical connectives)"""
        if z3.is_const(x) and not z3.is_string_value(x):
            return x
        if x.get_id() not in names:
            names[x.get_id()] = z3.Const(fresh_name('str'), S)
            KEEP.append(x)
            out.append(names[x.get_id()] == x)
        return names[x.get_id()]
    for f in fs:
        if not feat(f) & STRING_:
            continue
        for t in subterms(f, seen):
            if n > 24:
                break
            if not feat(t) & STRING_ or not z3.is_app(t) or has_var(t):
                continue
            k = t.decl().kind()
            if k == z3.Z3_OP_SEQ_INDEX:
                x, c = nm(t.arg(0)), t.arg(1)
                o = t.arg(2) if t.num_args() > 2 else z3.IntVal(0)
                n += 1
                for x2, c2, o2, t2 in searches:
                    if x2.eq(x) and c2.eq(c):
                        for oa, ta, ob, tb in ((o, t, o2, t2), (o2, t2, o, t)):
                            out.append(IMP(AND(oa >= 0, oa <= ob), OR(AND(ta >= 0, ta < ob), tb == ta)))
                searches.append((x, c, o, t))
                out.append(AND(t >= -1, OR(t < 0, AND(t >= o, o >= 0, t + z3.Length(c) <= z3.Length(x)))))
                if z3.is_string_value(c) and len(c.as_string()) == 1:
                    at = x.at(j)
                    out.append(IMP(t >= 0, x.at(t) == c))
                    out.append(z3.ForAll([j], IMP(AND(o >= 0, j >= o, j < z3.Length(x), OR(t < 0, j < t)), NOT(at == c)), patterns=[at]))
            elif k == z3.Z3_OP_SEQ_EXTRACT:
                b, p, m = t.children()
                if z3.is_string_value(b) or z3.is_int_value(m) and m.as_long() <= 1:
                    continue
                n += 1
                b, t = nm(b), nm(t)
                out.append(IMP(AND(p == 0, m >= z3.Length(b)), t == b))
                out.append(IMP(AND(p >= 0, m >= 0, p <= z3.Length(b)), z3.Length(t) == z3.If(p + m <= z3.Length(b), m, z3.Length(b) - p)))
                out.append(z3.ForAll([j], IMP(AND(p >= 0, j >= p, j < p + m, j < z3.Length(b)), t.at(j - p) == b.at(j)), patterns=[b.at(j)]))
                out.append(z3.ForAll([j], IMP(AND(p >= 0, j >= 0, j < z3.Length(t)), t.at(j) == b.at(p + j)), patterns=[t.at(j)]))
    return out


STR = z3.DeclareSort('Text')


class AbstractStrings:
    """the formulas with strings as an uninterpreted sort (weaker hypotheses, so a proof carries over); literals keep
    their lengths, characters and distinctness"""

    MEMO, FNS, LITS = {}, {}, {}        # shared: the symbols are a function of the names

    def __init__(self):
        self.memo, self.fns, self.all, self.lits = self.MEMO, self.FNS, self.LITS, {}

    def sort(self, s):
        return STR if s == S else s

    def uf(self, name, doms, rng):
        k = (name,) + tuple(d.name() for d in doms) + (rng.name(),)
        if k not in self.fns:
            self.fns[k] = z3.Function('abs!' + name, *(doms + [rng])) if doms else z3.Const('abs!' + name, rng)
        return self.fns[k]

    def tr(self, e):
        k = e.get_id()
        m = self.memo.get(k)
        if m is None:
            mine, self.lits = self.lits, {}
            r = self._tr(e)
            m = self.memo[k] = (e, r, self.lits)
            self.lits = mine
        if m[2]:
            self.lits.update(m[2])
        return m[1]

    def _tr(self, e):
        if z3.is_quantifier(e):
            vs = [z3.Const('av!%d!%s' % (e.get_id(), e.var_name(i)), e.var_sort(i)) for i in range(e.num_vars())]
            if e.is_lambda():
                raise ValueError('lambda')
            b = self.tr(z3.substitute_vars(e.body(), *reversed(vs)))
            pats = []
            for i in range(e.num_patterns()):
                ps = [self.tr(z3.substitute_vars(x, *reversed(vs))) for x in e.pattern(i).children()]
                pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
            mk = z3.ForAll if e.is_forall() else z3.Exists
            vs = [self.tr(v) for v in vs]
            return mk(vs, b, patterns=pats) if pats else mk(vs, b)
        if z3.is_string_value(e):
            t = e.as_string()
            if t not in self.all:
                self.all[t] = z3.Const('abs!lit%d' % len(self.all), STR)
            self.lits[t] = self.all[t]
            return self.lits[t]
        if not z3.is_app(e):
            raise ValueError('variable')
        ch = [self.tr(x) for x in e.children()]
        d = e.decl()
        stringy = e.sort() == S or any(x.sort() == S for x in e.children())
        if not stringy:
            return d(*ch) if ch else e
        k = d.kind()
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        f = self.uf(d.name(), [x.sort() for x in ch], self.sort(e.sort()))
        return f(*ch) if ch else f

    def facts(self):
        out = []
        L = self.uf(z3.Length(z3.StringVal('x')).decl().name(), [STR], I)
        at = self.uf(z3.StringVal('x').at(0).decl().name(), [STR, I], STR)
        x = z3.Const('av!x', STR)
        out.append(z3.ForAll([x], L(x) >= 0, patterns=[L(x)]))
        ls = list(self.lits.items())
        for t, c in ls:
            n = len(z3_unescape(t))
            out.append(L(c) == n)
        if len(ls) > 1:
            out.append(z3.Distinct(*[c for _, c in ls]))
        return out


def z3_unescape(t):
    import re
    return re.sub(r'\\u\{[0-9a-fA-F]+\}', 'x', t)


def abstract_strings(fs):
    a = AbstractStrings()
    out = [a.tr(f) for f in fs]
    return out + a.facts()


# ------------------------------------------------------------------ prover
class Stats:
    def __init__(self):
        self.time = 0.0
        self.queries = 0
        self.by = {}


STATS = Stats()


def _sig(fs):
    return tuple(f.get_id() for f in fs)


_feas_cache = {}


def ground(fs):
    """the quantifier-free ones (weaker hypotheses: a proof from them is a proof)"""
    return [f for f in fs if not feat(f) & QUANT_]


def check_sat(fs, timeout=400, depth=2, fast=False, light=False):
    """satisfiable? returns z3.sat/unsat/unknown (used for pruning; unsat answers are sound)"""
    key = _sig(fs)
    c = _feas_cache.get(key)
    if c is None and (fast or light):
        c = _feas_cache.get((key,))
    if c is not None:
        return c[1]
    t = time.time()
    cl = closure(fs, depth)
    r = None
    heavy = False
    if any(has_strings(f) for f in fs):
        heavy = INSTANCES_used(fs) or all_texts(fs)
        try:
            fs2 = fs + cl + string_facts(fs + cl)
            if heavy:
                s = z3.Solver()
                s.set('timeout', min(timeout, 300))
                s.add(*abstract_strings(ground(fs2)))
                r = s.check()
            if r != z3.unsat and not (heavy and r == z3.sat):
                s = z3.Solver()
                s.set('timeout', min(timeout, 300))
                s.add(*abstract_strings(fs2))
                r = s.check()
        except ValueError:
            pass
    if r != z3.unsat and (heavy or light and r is not None):
        r = z3.unknown      # the string solver is of no help here
    elif r != z3.unsat:
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*fs)
        s.add(*cl)
        r = hard_check(s, min(timeout, 150) if fast else timeout)[0] if any(has_strings(f) for f in fs) else s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    _feas_cache[(key,) if (fast or light) and r == z3.unknown else key] = (fs, r)
    return r


def all_texts(fs):
    return any(z3.is_quantifier(f) and any(f.var_sort(i) == S for i in range(f.num_vars())) for g in fs for f in ([g] + (g.children() if z3.is_and(g) else [])))


def hard_check(s, to):
    """check in a process of its own: the string solver does not always keep its time limit"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            a = s.check()
            m = str(s.model())[:4000] if a == z3.sat else ''
            os.write(w, (str(a) + '\n' + m).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + to / 1000.0 * 1.3 + 0.3
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    a, _, m = buf.decode(errors='replace').partition('\n')
    return {'sat': z3.sat, 'unsat': z3.unsat}.get(a, z3.unknown), m


class Result:
    def __init__(self, ok, backend, detail, t, model=None):
        self.ok, self.backend, self.detail, self.time, self.model = ok, backend, detail, t, model


def relevant(assum, goal):
    return assum


# ------------------------------------------------------------------ sums: congruence
def outer_sums(e):
    out, seen = [], set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x):
            d = DEFS.get(x.decl().name()) if x.num_args() else None
            if d is not None and d.kind == 'sum':
                out.append(x)
                return
            for y in x.children():
                walk(y)
    walk(e)
    return out


def abstract_prove(assum, goal, timeout):
    """valid without looking into the definitions"""
    goal = simp(goal)
    if z3.is_true(goal):
        return True
    if z3.is_false(goal):
        return False
    if has_strings(goal):
        return prove(assum, goal, timeout, quick=True).ok
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*assum)
    s.add(NOT(goal))
    STATS.queries += 1
    return s.check() == z3.unsat


def sum_eq(assum, x, y, memo, fuel):
    """two finite sums are equal: same number of terms, and equal terms"""
    if x.eq(y):
        return True
    k = (x.get_id(), y.get_id())
    if k in memo:
        return memo[k]
    memo[k] = False
    if fuel <= 0 or x.sort() != y.sort():
        return False
    if not abstract_prove(assum, x.arg(0) == y.arg(0), 1000):
        return False
    v = gen('sx')
    bs = []
    for t in (x, y):
        d = DEFS[t.decl().name()]
        bs.append(simp(subst(d.body, list(zip(d.gens, t.children()[1:])) + [(d.var, v)])))
    r = congr(assum + [v >= 0, v < x.arg(0)], bs[0], bs[1], memo, fuel - 1)
    memo[k] = r
    KEEP.append((x, y))
    return r


def congr(assum, a, b, memo=None, fuel=5):
    """a == b by congruence of the finite sums in them"""
    memo = {} if memo is None else memo
    if a.eq(b):
        return True
    xs, ys = outer_sums(a), outer_sums(b)
    if len(xs) > 12 or len(ys) > 12:
        return False
    sub = []
    for i, y in enumerate(ys):
        if any(y.eq(x) for x in xs):
            continue
        for x in sorted(xs, key=lambda x: abs(xs.index(x) - i)):
            if sum_eq(assum, x, y, memo, fuel):
                sub.append((y, x))
                break
    b2 = z3.substitute(b, *sub) if sub else b
    if simp(a).eq(simp(b2)):
        return True
    # the sums become plain constants
    ab = [(t, z3.FreshConst(t.sort(), 'sum')) for t in outer_sums(a) + outer_sums(b2)]
    a3, b3 = (z3.substitute(a, *ab), z3.substitute(b2, *ab)) if ab else (a, b2)
    return abstract_prove(assum, a3 == b3, 2000)


def by_sums(assum, goal):
    assum = list(assum)
    while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        assum.append(goal.arg(0))
        goal = goal.arg(1)
    if not (z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_EQ and goal.arg(0).sort() in (I, R)):
        return False
    if not outer_sums(goal):
        return False
    return congr(assum, goal.arg(0), goal.arg(1))


def inner_defs(e, kinds):
    """definitions of the kinds given that e depends on"""
    out, todo, seen = [], [e], set()
    while todo:
        for t in def_apps([todo.pop()]):
            n = t.decl().name()
            if n in seen:
                continue
            seen.add(n)
            d = DEFS[n]
            if d.kind in kinds:
                out.append(d)
            if not isinstance(d.body, list):
                todo.append(d.body)
    return out


def unify_defs(assum, goal):
    """an equivalent goal (under the assumptions) in which finite sums without parameters, and FIRST and LAST over the
    same range, that are equal by congruence are the same"""
    apps = [t for t in def_apps([goal]) if DEFS[t.decl().name()].kind in ('first', 'last') and not has_var(t)]
    bounds = []
    for t in apps:
        if not feat(t.arg(0)) & DEF_ and not any(t.arg(0).eq(b) for b in bounds):
            bounds.append(t.arg(0))
    if not bounds or len(bounds) > 2:
        return goal
    same = []
    # the ones that the quantified assumptions (instances of lemmas) speak about come first
    known = {d.fn.name() for f in assum if feat(f) & QUANT_ for d in inner_defs(f, ('sum', 'first', 'last'))}
    for N in bounds:
        rng = lambda k: list(assum) + [k >= 0, k < N]
        fs = sorted([d for d in inner_defs(goal, ('sum',)) if not d.gens], key=lambda d: d.fn.name() not in known)
        rep = []
        for d in fs:
            for f in rep:
                if f.body.sort() != d.body.sort():
                    continue
                k = z3.FreshConst(I, 'k')
                if prove(rng(k), subst(f.body, [(f.var, k)]) == subst(d.body, [(d.var, k)]), 3000, quick=True).ok:
                    same.append((d, f, N))
                    break
            else:
                rep.append(d)

        def up(e, lim):
            """the sums in e, whose upper bounds are at most N, replaced by their representatives"""
            for d, f, M in same:
                if not M.eq(N):
                    continue
                ps = [t for t in subterms(e) if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(d.fn) and lim(t.arg(0))]
                if ps:
                    e = z3.substitute(e, *[(t, f.fn(t.arg(0))) for t in ps])
            return e
        mine = sorted([t for t in apps if t.arg(0).eq(N)], key=lambda t: t.decl().name() not in known)
        for i, b in enumerate(mine):
            for a in mine[:i]:
                da, db = DEFS[a.decl().name()], DEFS[b.decl().name()]
                if da.kind != db.kind or a.eq(b):
                    continue
                k = z3.FreshConst(I, 'k')
                ba, bb = [up(subst(d.body, list(zip(d.gens, t.children()[1:])) + [(d.var, k)]), lambda x: x.eq(k)) for d, t in ((da, a), (db, b))]
                if prove(rng(k), ba == bb, 4000, quick=True).ok:
                    goal = z3.substitute(goal, (b, a))
                    mine[i] = a
                    break
        # FIRST and LAST are at most their range
        goal = up(goal, lambda x: x.eq(N) or any(x.eq(t) for t in mine))
    return simp(goal)


def prove(assum, goal, timeout=8000, quick=False):
    """validity of /\\assum => goal"""
    t0 = time.time()
    goal = simp(goal)
    if not quick and has_strings(goal) and feat(goal) & DEF_:
        goal = unify_defs(assum, goal)
    if z3.is_true(goal):
        return Result(True, 'simplifier', '', 0.0)
    if outer_sums(goal) and by_sums(assum, goal):
        dt = time.time() - t0
        STATS.time += dt
        return Result(True, 'sum congruence + z3', '', dt)
    fs = [f for f in assum if not z3.is_true(f)] + [NOT(goal)]
    detail = ''
    model = None
    plans = [('z3', 2, False, 1500, {}), ('z3', 3, True, timeout, {})]
    if not quick:
        plans += [('z3', 3, True, timeout, {'smt.mbqi': False, 'smt.random_seed': 7}),
                  ('cvc5', 3, True, timeout, {}),
                  ('z3', 4, True, 2 * timeout, {'smt.arith.solver': 2, 'smt.random_seed': 3})]
    stringy = any(has_strings(f) for f in fs)
    if stringy:
        plans.insert(0, ('abstract', 3, True, min(timeout, 4000), {}))
        if all_texts(fs) or INSTANCES_used(fs):
            plans.insert(0, ('ground', 3, True, min(timeout, 2000), {}))
    if quick and stringy and plans[0][0] == 'ground':
        del plans[2:]
    for be, depth, q, to, opts in plans:
        s = z3.Solver()
        if be in ('abstract', 'ground'):
            try:
                cl = closure(fs, depth, q)
                cl += string_facts(fs + cl)
                s.add(*abstract_strings(ground(fs + cl) if be == 'ground' else fs + cl))
            except ValueError:
                continue
            s.set('timeout', to)
            STATS.queries += 1
            if s.check() == z3.unsat:
                dt = time.time() - t0
                STATS.time += dt
                return Result(True, 'z3', '', dt)
            continue
        s.add(*fs)
        cl = closure(fs, depth, q)
        s.add(*cl)
        if q:
            s.add(*string_facts(fs + cl))
        if be == 'z3':
            s.set('timeout', to)
            for k, v in opts.items():
                s.set(k, v)
            r, model = hard_check(s, to) if stringy else (s.check(), None)
            STATS.queries += 1
            if r == z3.unsat:
                dt = time.time() - t0
                STATS.time += dt
                return Result(True, 'z3', '', dt)
            detail = 'z3: %s %s' % (r, s.reason_unknown() if r == z3.unknown and not stringy else '')
            if r == z3.sat and depth >= 3:
                model = (model or 'a model') if stringy else s.model()
                break
            model = None
        else:
            r = cvc5_check(s, to)
            STATS.queries += 1
            if r == 'unsat':
                dt = time.time() - t0
                STATS.time += dt
                return Result(True, 'cvc5', '', dt)
            detail += '; cvc5: ' + r
    dt = time.time() - t0
    STATS.time += dt
    return Result(False, '', detail, dt, model)


def has_strings(f):
    return bool(feat(f) & STRING_)


def cvc5_check(solver, timeout):
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--strings-exp', name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else 'error'
        return o
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(name)


# ------------------------------------------------------------------ polynomials over int terms
def poly(e):
    """dict: monomial (sorted tuple of (key,term)) -> int coefficient; keys are atom ids"""
    e = simp(e)
    return _poly(e)


def _poly(e):
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): v} if v else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in e.children():
            for m, c in _poly(x).items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = dict(_poly(ch[0]))
        for x in ch[1:]:
            for m, c in _poly(x).items():
                r[m] = r.get(m, 0) - c
        return {m: c for m, c in r.items() if c}
    if k == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in _poly(e.arg(0)).items()}
    if k == z3.Z3_OP_MUL:
        r = {(): 1}
        for x in e.children():
            r = pmul(r, _poly(x))
        return r
    KEEP.append(e)
    _atoms[e.get_id()] = e
    return {(e.get_id(),): 1}


_atoms = {}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            mm = tuple(sorted(m + m2))
            r[mm] = r.get(mm, 0) + c * c2
    return {m: c for m, c in r.items() if c}


def unpoly(p):
    if not p:
        return z3.IntVal(0)
    ts = []
    for m, c in sorted(p.items()):
        fac = [_atoms[i] for i in m]
        if c != 1 or not fac:
            fac = [z3.IntVal(c)] + fac
        t = fac[0]
        for x in fac[1:]:
            t = t * x
        ts.append(t)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return simp(r)


def pdivmod(p, d):
    """polynomial division by d (leading monomial in a fixed order); returns quotient, remainder"""
    if not d:
        return None
    if set(d.keys()) == {()}:
        c0 = d[()]
        if c0 == 1:
            return dict(p), {}
        q = {m: c // c0 for m, c in p.items() if c % c0 == 0}
        r = {m: c for m, c in p.items() if c % c0}
        return q, r
    lead = max(d.keys(), key=lambda m: (len(m), m))
    lc = d[lead]
    p = dict(p)
    q, r = {}, {}
    guard = 0
    while p:
        guard += 1
        if guard > 200:
            return None
        m = max(p.keys(), key=lambda m: (len(m), m))
        c = p[m]
        rest = list(m)
        ok = c % lc == 0
        if ok:
            for a in lead:
                if a in rest:
                    rest.remove(a)
                else:
                    ok = False
                    break
        if ok:
            qm, qc = tuple(rest), c // lc
            q[qm] = q.get(qm, 0) + qc
            for m2, c2 in d.items():
                mm = tuple(sorted(qm + m2))
                p[mm] = p.get(mm, 0) - qc * c2
                if p[mm] == 0:
                    del p[mm]
        else:
            r[m] = c
            del p[m]
    return q, r


def linear_in(e, n):
    """e = a*n + b with integer a and n-free b; returns (a, b) or None"""
    p = poly(e)
    nid = n.get_id()
    a, b = 0, {}
    for m, c in p.items():
        cnt = m.count(nid)
        if cnt == 0:
            for at in m:
                if contains(_atoms[at], n):
                    return None
            b[m] = c
        elif cnt == 1 and len(m) == 1:
            a += c
        else:
            return None
    return a, unpoly(b)


def contains(e, n):
    nid = n.get_id()
    for x in subterms(e):
        if x.get_id() == nid:
            return True
    return False
