"""Contracts (executable specifications on the real functions) and the verifier."""
import z3, time
from . import smt
from .smt import *
from .vals import *
from .cast import Unsupported, void_casts, type_of, strip_ref, tstr
from .sx import Exec, State, Frame, Exit, DeadPath, Obligation, merge_states, cpc

CONTRACTS = {}


class Contract:
    def __init__(self, key, spec, trusted=False, alias=(), note='', inline=False, split=1, pure=False):
        self.pure = pure            # a function of its arguments (no hidden state): equal calls have equal results
        self.key, self.spec, self.trusted, self.alias, self.note = key, spec, trusted, alias, note
        self.split = split          # precondition given as so many alternatives (C.part), verified one by one
        self.inline = inline        # stated by observations of the object: callers look at the body

    def apply(self, ex, f, this, args, st, node):
        if not self.pure or ex.gens:
            return self.apply_(ex, f, this, args, st, node)
        k = (self.key,) + tuple(identity(a, st) for a in [this] + list(args))
        if any(x is None for x in k):
            return self.apply_(ex, f, this, args, st, node)
        for k2, keep, v, facts in ex.pure_calls:
            if k2 == k and all(any(f.eq(g) for g in st.pc) for f in facts):
                return v
        n = len(st.pc)
        v = self.apply_(ex, f, this, args, st, node)
        ex.pure_calls.append((k, (this, args, st.clone()), v, list(st.pc[n:])))
        return v

    def apply_(self, ex, f, this, args, st, node):
        if self.split > 1:
            raise Unsupported('call of a function with alternative preconditions')
        c = Ctx(ex, f, this, args, st, 'call')
        self.spec(c)
        for lab, g in c.requires_:
            ex.oblige('precondition of %s: %s' % (self.key, lab), st, goal_of(g), node, assume=not isinstance(g, Q))
            if isinstance(g, Q):
                st.assume(g.hyp())
        prev = []
        normal = []
        for guard, kind, val, eff, name in c.cases:
            g = AND(guard, [NOT(p) for p in prev])
            prev.append(guard)
            if kind in ('throw', 'exit'):
                n0 = len(ex.exits)
                mod = c.modifies.get(len(prev) - 1, ())
                try:
                    ex.side(kind, st, g, val)
                finally:
                    for x in ex.exits[n0:]:
                        for p in mod:
                            ex.store(p, Opaque('unspecified after an exception'), x.st)
            else:
                normal.append((g, eff))
        outs = []
        for i, (g, eff) in enumerate(normal):
            g = simp(g)
            if len(normal) == 1 or z3.is_true(g):
                s = st
            else:
                if not ex.feasible(st, g):
                    continue
                s = st.clone()
                s.assume(g)
            r = Eff(c, s, 'call')
            rv = eff(r) if eff else None
            outs.append((s, rv))
            if s is st:
                break
        if not outs:
            raise DeadPath()
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            s, v = merge_states(s, s2, v, v2)
        if s is not st:
            st.pc[:] = s.pc
            new = dict(s.store)
            st.store.clear()
            st.store.update(new)
        return v


def identity(a, st):
    """key of an argument value; None if it has none"""
    if z3.is_expr(a):
        return a.get_id()
    if isinstance(a, Ptr) and a.single():
        l, path = a.single()
        v = st.store.get(l)
        if path or v is None:
            return None
        if isinstance(v, Struct) and isinstance(v.f.get('elem'), Ptr):
            return (id(l), tuple(id(x) for k, x in sorted(v.f.items()) if k != 'elem' and not z3.is_expr(x)),
                    tuple(x.get_id() for k, x in sorted(v.f.items()) if z3.is_expr(x)),
                    tuple((g.get_id(), id(t[0]) if t else 0, id(st.store.get(t[0])) if t else 0) for g, t in v.f['elem'].alts))
        return (id(l), v.get_id() if z3.is_expr(v) else id(v))
    return None


class LemmaContract:
    """a lemma, proved for arbitrary functions and numbers"""
    trusted, note, alias, inline, split = False, '', (), False, 1

    def __init__(self, name, args):
        self.key, self.name, self.args = 'lemma ' + name, name, args

    def obligations(self):
        L = LemmaCtx(True)
        LEMMAS[self.name](L, *self.args())
        return [Obligation('lemma %s: %s' % (self.name, lab), a, g, '', self.key) for lab, a, g in L.obls]


def lemma_contract(name, sig):
    """sig: 'f' function Int->Int, 'r' function Int->Real, 'n' integer"""
    def args():
        out = []
        for i, s in enumerate(sig):
            if s == 'n':
                out.append(z3.Const('lem_n%d' % i, I))
            else:
                f = z3.Function('lem_f%d' % i, I, I if s == 'f' else R)
                out.append(lambda x, f=f: f(x))
        return out
    CONTRACTS['lemma ' + name] = LemmaContract(name, args)


def contract(key, **kw):
    def deco(fn):
        CONTRACTS[key] = Contract(key, fn, **kw)
        return fn
    return deco


class Mat:
    """view of a matrix: dimensions and 1-based element function"""

    def __init__(self, rows, cols, shel, at):
        self.rows, self.cols, self.shel = rows, cols, shel
        self._at = at

    def at(self, i, j, k=1):
        i, j, k = [z3.IntVal(x) if isinstance(x, int) else x for x in (i, j, k)]
        return self._at(i, j, k)

    def inb(self, i, j, k=1):
        return AND(i >= 1, i <= self.rows, j >= 1, j <= self.cols, k >= 1, k <= self.shel)


class Rel:
    """relational result: pred(value) -> list of (label, goal); fresh value of the type on calls"""

    def __init__(self, ty, pred, name='rel'):
        self.ty, self.pred, self.name = ty, pred, name


class Ctx:
    """what a contract can see: the pre-state"""

    def __init__(self, ex, f, this, args, st, mode):
        self.ex, self.f, self.this, self.args, self.st, self.mode = ex, f, this, args, st, mode
        self.pre = st.clone()
        self.cases = []
        self.requires_ = []
        self.lemmas = []
        self.modifies = {}      # case number -> pointers whose target is unspecified afterwards

    def val(self, i):
        a = self.args[i] if isinstance(i, int) else i
        return self.ex.load(a, self.pre) if isinstance(a, Ptr) else a

    def mat(self, x=None):
        x = self.this if x is None else (self.args[x] if isinstance(x, int) else x)
        return mat_view(self.ex, x, self.pre)

    def field(self, name):
        return self.ex.load(self.this, self.pre).f[name]

    def observe(self, key, *args):
        """(result, condition under which it throws) of a const function of the object in the pre-state"""
        return observe(self.ex, self.this, self.pre, key, args)

    def pure(self, key, this, *args):
        """the result of a call of a pure function in the pre-state (the call the function makes returns the same)"""
        if self.mode != 'verify':
            raise Unsupported('call of a function specified by what it calls')
        ex = self.ex
        c = ex.contracts[key]
        assert c.pure
        for _, g in self.requires_:
            self.st.assume(hyp(g))
        saved, ex.exits = ex.exits, []
        no = len(ex.obls)
        try:
            v = c.apply(ex, ex.P.find(key), this, list(args), self.st, ex.frame.func.node)
            if ex.exits or any(not prove(o.assum, o.goal, 3000).ok for o in ex.obls[no:]):
                raise Unsupported('the contract does not exclude a failing call of ' + key)
        finally:
            ex.exits = saved
            del ex.obls[no:]
        return v

    def some(self, m, pred):
        """(definitional) some element x of the set or map m has pred(x)"""
        srt = SORT[m.kty[0]]
        b = z3.Const(fresh_name('some'), B)
        w = z3.Const(fresh_name('witness'), srt)
        if self.ex.gens:
            raise Unsupported('existential contract inside of a loop')
        for s in (self.st, self.pre):
            s.assume(IMP(b, AND(m.has(w), pred(w))))
            s.assume(Q(lambda x: IMP(AND(m.has(x), pred(x)), b), sorts=[srt]).hyp())
        return b

    def requires(self, label, g):
        self.requires_.append((label, g))

    def use(self, lemma, *args):
        """an instance of a (separately proved) lemma, available to the proof of this function"""
        if self.mode == 'verify':
            self.ex.used['lemma ' + lemma] = self.ex.used.get('lemma ' + lemma, 0) + 1
            self.lemmas.append(instance(lemma, *args))

    def invariant(self, ptr, path, fn):
        """candidate closed form (checked) of a component of a container (None: of any variable) modified by a loop: fn(n, params)"""
        if self.mode == 'verify':
            self.ex.candidates.append((ptr.single()[0] if ptr is not None else None, path, fn))

    def loop_facts(self, fn):
        """candidate facts about loop states: fn([(variable name, value before the loop, value now)]) -> [(label, formula)]"""
        if self.mode == 'verify':
            self.ex.fact_candidates.append(fn)

    def measures(self, fn):
        if self.mode == 'verify':
            self.ex.measure_candidates.append(fn)

    def throws(self, guard, et='invalid_argument', name=None, modifies=()):
        if modifies:
            self.modifies[len(self.cases)] = modifies
        self.cases.append((b2z(guard), 'throw', et, None, name or 'throws ' + et))

    def exits(self, guard, code=1, name=None):
        self.cases.append((b2z(guard), 'exit', z3.IntVal(code), None, name or 'exit(%d)' % code))

    def ensures(self, eff, guard=True, name='normal'):
        self.cases.append((b2z(guard), 'return', None, eff, name))


def observe(ex, this, st, key, args=()):
    f = ex.P.find(key)
    if f is None:
        raise Unsupported('no function ' + key)
    s = st.clone()
    saved, ex.exits = ex.exits, []
    n = len(ex.obls)
    try:
        try:
            v = ex.call(f, this, [Ptr.to(ex.newloc(s, 'arg', a)) if type_of(p)[0] == 'ref' else a for a, p in zip(args, f.params)], s, f.node)
            if isinstance(v, Ptr):
                v = ex.load(v, s)
        except DeadPath:
            v = None
        outs = ex.exits
    finally:
        ex.exits = saved
        del ex.obls[n:]
    k = len(st.pc)
    return v, OR([cpc(x.st, k) for x in outs])


def b2z(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mat_view(ex, x, st):
    if isinstance(x, Ptr):
        x = ex.load(x, st)
    if isinstance(x, Frozen):
        x = x.val
    e = x.f['elem']
    if isinstance(e, Content):
        return Mat(x.f['rows'], x.f['cols'], x.f['shel'], lambda i, j, k: e.fn(simp(i - 1), simp(j - 1), simp(k - 1)))
    if not isinstance(e, Ptr):
        raise Unsupported('matrix without storage')
    t = [(g, u) for g, u in e.alts if u is not None]

    def at(i, j, k):
        r = None
        for g, u in t:
            v = st.store[u[0]].at(simp(i - 1), simp(j - 1), simp(k - 1))
            r = v if r is None else ITE(g, v, r)
        return r if r is not None else z3.RealVal(0)
    return Mat(x.f['rows'], x.f['cols'], x.f['shel'], at)


class Eff:
    """what the effect part of a contract can do to the post-state"""

    def __init__(self, c, st, mode):
        self.c, self.st, self.mode, self.ex = c, st, mode, c.ex
        self.facts = []
        self.afters = []

    def new_block(self, m, name):
        loc = Loc(name, heap=True)
        loc.shape = (m.rows, m.cols, m.shel)
        at = m.at
        self.st.store[loc] = Block(m.rows * m.cols * m.shel, lambda a, b, c: at(a + 1, b + 1, c + 1))
        return loc

    def mat_value(self, m):
        m = Mat(*[z3.IntVal(x) if isinstance(x, int) else x for x in (m.rows, m.cols, m.shel)], m._at)
        loc = self.new_block(m, 'elem')
        return Struct('Matrix', {'rows': m.rows, 'cols': m.cols, 'shel': m.shel, 'elem': Ptr.to(loc)})

    def new_mat(self, m):
        """pointer to a newly allocated matrix"""
        l = Loc('new Matrix', ('cls', 'Matrix'), heap=True)
        self.st.store[l] = self.mat_value(m)
        return Ptr.to(l)

    def set_mat(self, p, m):
        """replace the value of the matrix object (new storage)"""
        self.ex.store(p, self.mat_value(m), self.st)

    def write_elems(self, p, at):
        """change elements in place; at(i,j,k) 1-based new contents"""
        v = self.ex.load(p, self.st)
        e = v.f['elem']
        for g, t in e.alts:
            if t is None:
                continue
            loc = t[0]
            if loc.frozen:
                raise Unsupported('write to a matrix captured in a container')
            old = self.st.store[loc]
            self.st.store[loc] = Block(old.size, lambda a, b, c, g=g, old=old: ITE(g, at(a + 1, b + 1, c + 1), old.at(a, b, c)), old.alive)

    def set(self, p, v):
        self.ex.store(p, v, self.st)

    def rel(self, ty, pred, name='result'):
        """result specified by a predicate"""
        if self.mode == 'verify':
            return Rel(ty, pred, name)
        nm = fresh_name('rel_' + name)
        v = self.ex.fresh(ty, nm, list(self.ex.gens), wf=True)
        self.relfacts(pred(v))
        return v

    def relfacts(self, facts):
        if self.ex.gens and any(not isinstance(f[1], Q) for f in facts if f[0] != 'use'):
            raise Unsupported('relational contract inside of a loop')
        for f in facts:
            if f[0] not in ('use', 'induct'):
                self.st.assume(hyp(f[1]))

    def after(self, fn):
        """facts about observations of the object afterwards: fn(observe) -> [(label, formula)]"""
        if self.mode != 'verify':
            raise Unsupported('call of a function specified by observations')
        self.afters.append(fn)
        self.set(self.c.this, Opaque('observed'))

    def fact(self, facts):
        """further facts about the result: proved for the function, assumed at calls"""
        if self.mode == 'verify':
            self.facts += facts
        else:
            self.relfacts(facts)


# ------------------------------------------------------------------------------- verification
class FuncReport:
    def __init__(self, key):
        self.key = key
        self.obls = []
        self.status = 'ok'       # ok / failed / unsupported
        self.reason = ''
        self.loops = []
        self.used = {}
        self.inlined = {}
        self.trusted = {}
        self.time = 0.0
        self.cases = 0
        self.outcomes = 0


def voided(ex, f):
    out = set()
    void_casts(f.body, out)
    c = out.pop() if len(out) == 1 else ('',)
    return c if c[0] == 'cls' and c[1] in ex.P.classes else None


def build_pre(ex, f, st, alias=None):
    """generic pre-state: every parameter and *this arbitrary, satisfying the type invariants"""
    this = None
    if f.cls and f.node.get('kind') != 'CXXConstructorDecl' and not f.static:
        v = ex.fresh(('cls', f.cls), 'this', wf=True)
        loc = Loc('*this', ('cls', f.cls))
        st.store[loc] = ex.thaw_struct(v, st, 'this')
        this = Ptr.to(loc)
    args = []
    for i, p in enumerate(f.params):
        ty = type_of(p)
        name = p.get('name', 'arg%d' % i)
        if alias is not None and alias.get(i) == 'this':
            args.append(this)
            continue
        if ty[0] == 'ref' and ty[1][0] == 'ptr' and ty[1][1][0] == 'cls' and ty[1][1][1] in ABSTRACT:
            # a pointer variable of the caller, to an object
            obj, var = Loc('*' + name, ty[1][1], heap=True), Loc(name, ty[1])
            st.store[obj] = ex.thaw_struct(ex.fresh(ty[1][1], name, wf=True), st, name)
            st.store[var] = Ptr.to(obj)
            args.append(Ptr.to(var))
        elif ty[0] == 'ref':
            v = ex.fresh(ty[1], name, wf=True)
            loc = Loc(name, ty[1])
            st.store[loc] = ex.thaw_struct(v, st, name)
            args.append(Ptr.to(loc))
        elif ty == ('ptr', ('void',)) and voided(ex, f) is not None:
            c = voided(ex, f)       # untyped, but cast to exactly this class
            v = ex.fresh(c, name, wf=True)
            loc = Loc('*' + name, c, heap=True)
            st.store[loc] = ex.thaw_struct(v, st, name)
            args.append(Ptr.to(loc))
        elif ty[0] == 'ptr' and ty[1][0] == 'cls' and ty[1][1] in ex.P.classes:
            v = ex.fresh(ty[1], name, wf=True)
            loc = Loc('*' + name, ty[1], heap=True)
            st.store[loc] = ex.thaw_struct(v, st, name)
            args.append(Ptr.to(loc))
        else:
            v = ex.fresh(ty, name, wf=True)
            args.append(ex.thaw_struct(v, st, name))
    for x in ex.wf_facts:
        st.assume(x)
    return this, args


class Verifier:
    def __init__(self, prog, contracts=None):
        self.P = prog
        self.contracts = contracts if contracts is not None else CONTRACTS

    def verify(self, key):
        rep = FuncReport(key)
        t0 = time.time()
        c = self.contracts[key]
        if isinstance(c, LemmaContract):
            rep.obls = c.obligations()
            rep.time = time.time() - t0
            return rep
        f = self.P.find(key)
        if f is None:
            rep.status, rep.reason = 'missing', 'no function %s in the current tree' % key
            return rep
        modes = [None] + list(c.alias)
        try:
            for al in modes:
                for part in range(c.split):
                    self._verify(c, f, al, rep, part)
        except Unsupported as e:
            rep.status, rep.reason = 'unsupported', str(e)
        except z3.Z3Exception as e:
            rep.status, rep.reason = 'unsupported', 'z3: ' + str(e)[:200]
        except RecursionError:
            rep.status, rep.reason = 'unsupported', 'recursion limit'
        rep.time = time.time() - t0
        return rep

    def _verify(self, c, f, alias, rep, part=0):
        key = c.key
        ex = Exec(self.P, {k: v for k, v in self.contracts.items()})
        ex.verifying = key
        st = State()
        top = Frame(f, f.tu)
        ex.frame = top
        this, args = build_pre(ex, f, st, alias)
        isctor = f.node.get('kind') == 'CXXConstructorDecl'
        if isctor:
            loc = ex.newloc(st, '*this', None)
            fs = {}
            for n, ft, x, _ in self.P.all_fields(f.cls):
                fs[n] = Opaque('uninitialised ' + n) if ft[0] in ('ptr',) else ex.default_value(ft, st, n)
            st.store[loc] = Struct(f.cls, fs)
            this = Ptr.to(loc)
        elif this is not None:
            ex.open_this = this.single()[0]
        pre = st.clone()
        ctx = Ctx(ex, f, this, args, st, 'verify')
        ctx.part = part
        c.spec(ctx)
        for lab, g in ctx.requires_:
            st.assume(hyp(g))
        for g in ctx.lemmas:
            st.assume(g)
        pre = st.clone()
        ctx.pre = pre.clone()
        if check_sat(list(pre.pc), 3000) == z3.unsat:
            raise Unsupported('vacuous precondition')
        # --- run the body
        ex.exits = []
        fr = Frame(f, f.tu, this)
        fr.rty = None if isctor else f.rtype
        ex.bind(fr, f, args, st)
        if isctor:
            ex.ctor_inits(f, fr, st)
        ex.frame = fr
        out = ex.stmt(f.body, st)
        outs = list(ex.exits)
        if out is not None:
            outs.append(Exit('return', out, None))
        lab0 = key + (' [aliased]' if alias else '')
        rep.outcomes += len(outs)
        # --- compare with the specification
        prev = []
        tot = []
        for ci, (guard, kind, val, eff, name) in enumerate(ctx.cases):
            g = simp(AND(guard, [NOT(p) for p in prev]))
            prev.append(guard)
            tot.append(guard)
            rep.cases += 1
            if check_sat(list(pre.pc) + [g], 2000) == z3.unsat:
                if alias is None:
                    raise Unsupported('contract case "%s" is unreachable' % name)
                continue
            for o in outs:
                if not ex.feasible(o.st, g):
                    continue
                s = o.st.clone()
                s.assume(g)
                lab = '%s / case %s' % (lab0, name)
                if o.kind != kind or (kind == 'throw' and not (o.val == val or val in ex.EXC.get(o.val, []))):
                    what = o.kind if o.kind != 'throw' else 'throws ' + str(o.val)
                    ex.frame = fr
                    ex.oblige('%s: outcome (%s)' % (lab, what), o.st, NOT(g), f.node, assume=False)
                    continue
                est = pre.clone()
                est.pc[:] = list(s.pc)
                e = Eff(ctx, est, 'verify')
                rv = eff(e) if eff else None
                cmp = Compare(ex, est, s, pre, lab)
                if kind == 'exit':
                    cmp.scalar('exit code', val, o.val, s)
                    continue
                if kind == 'throw':
                    if ctx.modifies.get(ci):
                        cmp.pre = pre.clone()
                        for p in ctx.modifies[ci]:
                            l, path = p.single()
                            if path:        # a component: unspecified, the rest unchanged
                                ex.store(p, ex.load(p, pre), cmp.ast)
                            else:
                                cmp.pre.store.pop(l, None)
                    if isctor:
                        # an object whose constructor throws does not exist
                        cmp.pre = pre.clone()
                        for x in (cmp.est, cmp.ast, cmp.pre):
                            x.store.pop(this.single()[0], None)
                    cmp.frame_eq()
                    continue
                cmp.frame_eq()
                if rv is not None or o.val is not None:
                    cmp.value('result', rv, o.val, s, f.rtype)
                cmp.ownership(o.val)
                cmp.facts(kind, e.facts, s)
                for fn in e.afters:
                    cmp.facts('afterwards', fn(lambda k, *a: observe(ex, this, s, k, a)), s)
        ex.frame = fr
        ex.oblige('%s / the cases of the contract are exhaustive' % lab0, pre, OR(tot), f.node, assume=False)
        rep.obls += ex.obls
        rep.loops += ex.loops
        for a, b in ((rep.used, ex.used), (rep.inlined, ex.inlined), (rep.trusted, ex.trusted)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v


class Compare:
    def __init__(self, ex, est, ast, pre, label):
        self.ex, self.est, self.ast, self.pre, self.label = ex, est, ast, pre, label
        self.pairs = []
        self.seen = set()

    def ob(self, what, goal, st):
        self.ex.oblige('%s: %s' % (self.label, what), st, goal, assume=False)

    def facts(self, what, facts, st):
        """(label, fact), ('use', lemma, args...) or ('induct', label, hi, P)"""
        st = st.clone()
        for f in facts:
            if f[0] == 'use':
                self.ex.used['lemma ' + f[1]] = self.ex.used.get('lemma ' + f[1], 0) + 1
                st.assume(instance(*f[1:]))
            elif f[0] == 'induct':
                L = LemmaCtx(True)
                L.induct(f[1], f[2], f[3])
                for lab, a, g in L.obls:
                    s = st.clone()
                    for x in a:
                        s.assume(x)
                    self.ob('%s: %s' % (what, lab), g, s)
                for x in L.known:
                    st.assume(hyp(x))
            else:
                self.ob('%s: %s' % (what, f[0]), goal_of(f[1]), st)
                st.assume(hyp(f[1]))

    def scalar(self, what, a, b, st):
        if not z3.is_expr(a) or not z3.is_expr(b):
            self.ob(what + ' (kind of value)', z3.BoolVal(False), st)
            return
        if a.sort() != b.sort():
            if a.sort() == I and b.sort() == R:
                a = z3.ToReal(a)
            elif a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            else:
                self.ob(what + ' (sort)', z3.BoolVal(False), st)
                return
        self.ob(what, a == b, st)

    def frame_eq(self):
        for l in self.pre.store:
            pv = self.pre.store[l]
            if isinstance(pv, (Block, Opaque)):
                continue       # blocks are compared through their owners
            ev, av = self.est.store.get(l), self.ast.store.get(l)
            if isinstance(ev, Struct):
                self.value(l.name, ev, av, self.ast)
                continue
            if ev is av:
                continue
            self.value(l.name, ev, av, self.ast)

    def value(self, what, e, a, st, ty=None):
        ex = self.ex
        if isinstance(e, Rel):
            if isinstance(a, Ptr) and (ty is None or ty[0] == 'ref'):
                a = ex.load(a, st)
            self.facts(what, e.pred(a), st)
            return
        if isinstance(e, Opaque):
            return
        if z3.is_expr(e):
            if isinstance(a, Ptr):
                a = ex.load(a, st)
            self.scalar(what, e, a, st)
            return
        if isinstance(a, Opaque) or a is None or (type(a) is not type(e) and not (isinstance(a, (Ptr, Frozen)) and isinstance(e, (Ptr, Frozen)))):
            self.ob('%s (kind of value: %s instead of %s)' % (what, type(a).__name__, type(e).__name__), z3.BoolVal(False), st)
            return
        if isinstance(e, Struct):
            if e.cls == 'Matrix':
                self.matrix(what, e, a, st)
                return
            for k in e.f:
                self.value('%s.%s' % (what, k), e.f[k], a.f[k], st)
            return
        if isinstance(e, Vec):
            self.scalar(what + ' length', e.len, a.len, st)
            i = gen('ix')
            s = st.clone()
            s.assume(AND(i >= 0, i < e.len, i < a.len))
            if not ex.feasible(s):
                return
            self.value(what + '[i]', e.at(i), a.at(i), s)
            return
        if isinstance(e, MapV):
            k = z3.Const(fresh_name('g!key'), SORT[e.kty[0]])
            self.scalar(what + ' has key', e.has(k), a.has(k), st)
            s = st.clone()
            s.assume(e.has(k))
            if not is_set(e) and ex.feasible(s):
                self.value(what + '[key]', e.val(k), a.val(k), s)
            return
        if isinstance(e, Iter):
            self.scalar(what + ' position', e.idx, a.idx, st)
            return
        if isinstance(e, Frozen) or isinstance(a, Frozen):
            ev = e.val if isinstance(e, Frozen) else ex.freeze(ex.load(e, self.est), self.est)
            av = a.val if isinstance(a, Frozen) else ex.load(a, st)
            self.value('*' + what, ev, av, st)
            return
        if isinstance(e, Ptr):
            self.pointer(what, e, a, st)
            return
        raise Unsupported('comparison of ' + type(e).__name__)

    def pointer(self, what, e, a, st):
        ex = self.ex
        for g, t in e.alts:
            s = st.clone()
            s.assume(g)
            if len(e.alts) > 1 and not ex.feasible(s):
                continue
            for h, u in a.alts:
                s2 = s.clone()
                s2.assume(h)
                if len(a.alts) > 1 and not ex.feasible(s2):
                    continue
                if t is None or u is None:
                    if t is not u:
                        self.ob(what + ' (null)', z3.BoolVal(False), s2)
                    continue
                if t[0] is u[0]:
                    pe = self.ex.path_eq(t[1], u[1])
                    self.ob(what + ' (same location)', pe, s2)
                    continue
                tnew, unew = t[0] not in self.pre.store, u[0] not in self.pre.store
                if not (tnew and unew):
                    # the same element of a block is named through the block of the owner
                    self.ob(what + ' (points elsewhere)', z3.BoolVal(False), s2)
                    continue
                self.value('*' + what, ex.load1(t, self.est), ex.load1(u, s2), s2)

    def matrix(self, what, e, a, st):
        """abstract equality of matrices and validity of the actual one"""
        ex = self.ex
        for d in ('rows', 'cols', 'shel'):
            if not (z3.is_expr(a.f[d]) and a.f[d] is e.f[d]):
                self.scalar('%s %s' % (what, d), e.f[d], a.f[d], st)
        rows, cols, shel = e.f['rows'], e.f['cols'], e.f['shel']
        ae, ee = a.f['elem'], e.f['elem']
        if isinstance(ae, Opaque):
            self.ob(what + ' storage initialised', z3.BoolVal(False), st)
            return
        i, j, k = gen('i'), gen('j'), gen('k')
        ev = mat_view(ex, e, self.est)
        rng = AND(i >= 0, i < rows, j >= 0, j < cols, k >= 0, k < shel)
        s = st.clone()
        s.assume(AND([a.f[d] == e.f[d] for d in ('rows', 'cols', 'shel')]))
        if isinstance(ae, Content):
            av = mat_view(ex, a, st)
            s.assume(rng)
            if ex.feasible(s):
                self.scalar(what + ' element (i,j,k)', ev.at(i + 1, j + 1, k + 1), av.at(i + 1, j + 1, k + 1), s)
            return
        for g, t in ae.alts:
            s2 = s.clone()
            s2.assume(g)
            if len(ae.alts) > 1 and not ex.feasible(s2):
                continue
            if t is None:
                self.ob(what + ' storage present', OR(rows == 0, cols == 0, shel == 0), s2)
                continue
            loc = t[0]
            b = st.store.get(loc)
            if not isinstance(b, Block):
                self.ob(what + ' storage is an array', z3.BoolVal(False), s2)
                continue
            self.ob(what + ' storage is live', b.alive, s2)
            sh = loc.shape
            if sh is None:
                self.ob(what + ' storage size', b.size == rows * cols * shel, s2)
                sh = (rows, cols, shel)
            else:
                same = AND([x == y for x, y in zip(sh, (rows, cols, shel))])
                empty = AND(OR([x == 0 for x in sh]), OR(rows == 0, cols == 0, shel == 0))
                self.ob(what + ' storage layout', OR(same, empty), s2)
            s2.assume(rng)
            if ex.feasible(s2):
                self.scalar(what + ' element (i,j,k)', ev.at(i + 1, j + 1, k + 1), b.at(i, j, k), s2)

    def ownership(self, ret):
        """no two matrices of the final state share their storage"""
        ex = self.ex
        own = []

        def add(v, name):
            if isinstance(v, Struct):
                if v.cls == 'Matrix' and isinstance(v.f['elem'], Ptr):
                    for g, t in v.f['elem'].alts:
                        if t is not None:
                            own.append((name, t[0], g))
                else:
                    for k, x in v.f.items():
                        if isinstance(x, Struct):
                            add(x, name + '.' + k)
        for l, v in self.ast.store.items():
            if l in self.pre.store:
                add(v, l.name)
        r = ret
        if isinstance(r, Ptr):
            for g, t in r.alts:
                if t is not None and t[0] not in self.pre.store and t[0] in self.ast.store:
                    add(self.ast.store[t[0]], 'result')
        elif isinstance(r, Struct):
            add(r, 'result')
        for x in range(len(own)):
            for y in range(x + 1, len(own)):
                if own[x][1] is own[y][1]:
                    self.ob('%s and %s do not share storage' % (own[x][0], own[y][0]), NOT(AND(own[x][2], own[y][2])), self.ast)


def discharge(obls, timeout=8000):
    for o in obls:
        if o.result is None:
            if z3.is_true(o.goal):
                o.result = Result(True, 'simplifier', '', 0.0)
            else:
                o.result = prove(o.assum, o.goal, timeout)
    return obls
