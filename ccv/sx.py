"""Symbolic executor over the clang AST (statement level merging, side exits)."""
import z3, itertools
from . import smt
from .smt import *
from .vals import *
from .cast import Unsupported, type_of, strip_ref, parse_type, tstr

_fid = itertools.count()


class DeadPath(Exception):
    pass


class State:
    __slots__ = ('pc', 'store')

    def __init__(self, pc=None, store=None):
        self.pc = pc if pc is not None else []
        self.store = store if store is not None else {}

    def clone(self):
        return State(list(self.pc), dict(self.store))

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)


class Exit:
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Frame:
    __slots__ = ('func', 'tu', 'env', 'this', 'id', 'rty', 'caps')

    def __init__(self, func, tu, this=None):
        self.func, self.tu, self.this = func, tu, this
        self.env = {}
        self.id = next(_fid)
        self.rty = None
        self.caps = None


class Obligation:
    __slots__ = ('label', 'assum', 'goal', 'where', 'result', 'fn')

    def __init__(self, label, assum, goal, where, fn):
        self.label, self.assum, self.goal, self.where, self.fn = label, assum, goal, where, fn
        self.result = None


SINGLE = z3.Function('single', R, R)


def qual(e):
    t = e.get('type', {})
    return (t.get('desugaredQualType') or t.get('qualType') or '').replace('const ', '').strip()


def is_single(e):
    return qual(e) == 'float'


def line_of(n):
    for k in ('range', 'loc'):
        r = n.get(k)
        if r:
            b = r.get('begin', r)
            if 'line' in b:
                return b['line']
            for kk in ('expansionLoc', 'spellingLoc'):
                if kk in b and 'line' in b[kk]:
                    return b[kk]['line']
    return None


def cpc(st, k):
    return AND(st.pc[k:])


def common(a, b):
    k = 0
    while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
        k += 1
    return k


def merge_states(a, b, va=None, vb=None):
    """merge two disjoint normal states; returns state, value"""
    k = common(a, b)
    sel = None
    if k < len(a.pc) and k < len(b.pc):
        x, y = a.pc[k], b.pc[k]
        if (z3.is_not(x) and x.arg(0).eq(y)) or (z3.is_not(y) and y.arg(0).eq(x)) or simp(NOT(x)).eq(y) or simp(NOT(y)).eq(x):
            sel = x
    ca, cb = cpc(a, k), cpc(b, k)
    if sel is None:
        sel = ca
    st = State(list(a.pc[:k]))
    if z3.is_true(ca) or z3.is_true(cb):
        pass
    else:
        ra, rb = cpc(a, k + 1), cpc(b, k + 1)
        if not (sel is a.pc[k] if k < len(a.pc) else False):
            st.assume(OR(ca, cb))
        else:
            st.assume(IMP(sel, ra))
            st.assume(IMP(NOT(sel), rb))
    for l in a.store:
        if l in b.store:
            x, y = a.store[l], b.store[l]
            if x is y:
                st.store[l] = x
                continue
            try:
                st.store[l] = merge(sel, x, y)
            except Unsupported as e:
                st.store[l] = Opaque('merge: ' + str(e))
        else:
            st.store[l] = a.store[l]
    for l in b.store:
        if l not in a.store:
            st.store[l] = b.store[l]
    v = None
    if va is not None or vb is not None:
        if va is None:
            v = vb
        elif vb is None:
            v = va
        else:
            v = merge(sel, va, vb)
    return st, v


class Exec:
    def __init__(self, prog, contracts=None, quiet=False):
        self.P = prog
        self.contracts = contracts or {}
        self.light = False        # paths are pruned by the cheaper solver calls only (more paths, none lost)
        self.unroll = 0           # iterations up to which loops decided by constants are executed one by one
        self.quiet = 0            # >0: guess phases, obligations suppressed
        self.obls = []
        self.exits = None         # current collector
        self.frame = None
        self.gens = []            # enclosing generic loop counters
        self.used = {}            # contracts used: key -> count
        self.inlined = {}
        self.trusted = {}         # std models used
        self.notes = []
        self.depth = 0
        self.verifying = None
        self.loopn = 0
        self.loops = []           # (function, line, description of the inferred invariant)
        self.globals = {}
        self.wf_facts = []
        self.open_this = None
        self.fact_candidates, self.measure_candidates = [], []
        self.pure_calls = []
        self.candidates = []      # loop invariants offered by the contract being verified
        from . import stdlib, loops
        self.std = stdlib.Std(self)
        self.loopx = loops.LoopX(self)

    # ------------------------------------------------------------ helpers
    def fresh(self, ty, name, params=(), depth=0, facts=None, wf=False):
        """arbitrary value of the type; containers become functions of their index"""
        t = ty
        k = t[0]
        params = list(params)

        def const(sort, nm):
            if params:
                return z3.Function(nm, *([p.sort() for p in params] + [sort]))(*params)
            return z3.Const(nm, sort)

        def fact(v, mk):
            """type invariant mk(v) of the arbitrary value v"""
            if not wf:
                return
            if not params:
                self.wf_facts.append(mk(v))
                return
            nm = v.decl().name()
            if nm not in smt.AXIOMS:
                vs = [z3.Const('wf%d' % i, p.sort()) for i, p in enumerate(params)]
                app = v.decl()(*vs)
                smt.add_axiom(nm, z3.ForAll(vs, mk(app), patterns=[app]))
        if k in SORT:
            v = const(SORT[k], name)
            if k in ('size', 'uint', 'char'):
                hi = {'size': 2 ** 64, 'uint': 2 ** 32, 'char': 256}[k]
                fact(v, lambda x: AND(x >= 0, x < hi))
            elif k == 'int':
                fact(v, lambda x: AND(x >= -2 ** 31, x < 2 ** 31))
            elif k == 'string':
                fact(v, lambda x: z3.Length(x) < 2 ** 31)
            return v
        if k == 'ref':
            return self.fresh(t[1], name, params, depth, facts, wf)
        if k == 'ifs':
            # the lines of the file, the number of lines read so far (tellg), failbit
            d = self.fresh(('vec', ('string',)), name + '.lines', params, depth, facts, wf)
            pos, n = const(I, name + '.pos'), d.len
            fact(pos, lambda x: x >= 0)
            if not params and wf:
                self.wf_facts.append(pos <= n)
            return Struct('ifstream', {'lines': d, 'pos': pos, 'fail': const(B, name + '.fail')})
        if k == 'pair':
            return Struct('pair', {'first': self.fresh(t[1], name + '.1', params, depth, facts, wf),
                                   'second': self.fresh(t[2], name + '.2', params, depth, facts, wf)})
        if k == 'vec':
            ln = const(I, name + '.n')
            fact(ln, lambda x: AND(x >= 0, x <= 2147483647))
            return Vec(ln, lambda i: self.fresh(t[1], name + '[]', params + [i], depth + 1, facts, wf), t[1])
        if k == 'map':
            if t[1][0] not in SORT:
                return Opaque('map ' + name)
            ks = SORT[t[1][0]]

            def has(kk):
                return z3.Function(name + '.has', *([p.sort() for p in params] + [ks, B]))(*params, kk)
            sz = const(I, name + '.size')
            fact(sz, lambda x: AND(x >= 0, x < 2 ** 31))
            return MapV(has, lambda kk: self.fresh(t[2], name + '.val', params + [kk], depth + 1, facts, wf), t[1], t[2], sz)
        if k == 'box':
            return self.fresh(t[1], name, params, depth, facts, wf)
        if k == 'set' and t[1][0] in SORT:
            ks = SORT[t[1][0]]
            sz = const(I, name + '.size')
            fact(sz, lambda x: AND(x >= 0, x < 2 ** 31))
            return MapV(lambda kk: z3.Function(name + '.has', *([p.sort() for p in params] + [ks, B]))(*params, kk),
                        lambda kk: TRUE(), t[1], ('unit',), sz)
        if k == 'cls' and (t[1] in self.P.classes or t[1] in ABSTRACT):
            fs = {}
            for n, ft, _, _ in self.P.all_fields(t[1]):
                if t[1] == 'Matrix' and n == 'elem':
                    continue
                fs[n] = self.fresh(ft, name + '.' + n, params, depth, facts, wf)
            if t[1] == 'Matrix':
                sh = (fs['rows'], fs['cols'], fs['shel'])
                for x in sh:
                    if params:
                        nm = x.decl().name()
                        smt.AXIOMS.pop(nm, None)
                    fact(x, lambda y: AND(y >= 0, y < 2 ** 31))

                def cont(a, b, c):
                    return z3.Function(name + '.at', *([p.sort() for p in params] + [I, I, I, R]))(*params, a, b, c)
                fs['elem'] = Content(sh, cont)
            return Struct(t[1], fs)
        if k == 'ptr':
            if t[1] == ('char',):
                return const(S, name)
            if t[1][0] == 'cls' and t[1][1] == 'Matrix':
                return Frozen(self.fresh(t[1], name + '*', params, depth + 1, facts, wf), t[1])
            return Opaque('pointer ' + name)
        return Opaque('%s %s' % (tstr(t), name))

    def thaw_struct(self, v, st, name, frozen=False):
        """a Struct with Content fields -> Struct with heap blocks in st"""
        if isinstance(v, Struct) and v.cls == 'Matrix' and isinstance(v.f['elem'], Content):
            c = v.f['elem']
            loc = Loc(name + '.elem', heap=True)
            loc.shape = c.shape
            loc.frozen = frozen
            st.store[loc] = Block(c.shape[0] * c.shape[1] * c.shape[2], c.fn)
            return v.set('elem', Ptr.to(loc))
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.thaw_struct(x, st, name + '.' + k, frozen) for k, x in v.f.items()})
        if isinstance(v, Frozen):
            loc = Loc('*' + name, v.ty, heap=True)
            loc.frozen = frozen
            st.store[loc] = self.thaw_struct(v.val, st, '*' + name, frozen)
            return Ptr.to(loc)
        return v

    def freeze(self, v, st):
        """snapshot of v (object value) with heap blocks turned into contents"""
        if isinstance(v, Struct) and v.cls == 'Matrix':
            e = v.f['elem']
            if isinstance(e, Content):
                return v
            rows, cols, shel = v.f['rows'], v.f['cols'], v.f['shel']
            t = e.single() if isinstance(e, Ptr) else False
            if not t:
                raise Unsupported('freeze of a matrix without a definite block')
            loc = t[0]
            b = st.store[loc]
            if not isinstance(b, Block) or not z3.is_true(b.alive):
                raise Unsupported('freeze of a freed matrix')
            sh = loc.shape or loc.prov
            if sh is None:
                sh = (rows, cols, shel)
            self.oblige('matrix layout', st, AND([x == y for x, y in zip(sh, (rows, cols, shel))]))
            return v.set('elem', Content(sh, b.at))
        return v

    def feasible(self, st, c=None):
        fs = list(st.pc)
        if c is not None:
            c = simp(c)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                c = None
            else:
                fs.append(c)
        if not fs:
            return True
        return check_sat(fs, 400 if not self.light else 150, fast=bool(self.quiet), light=self.light) != z3.unsat

    def entails(self, st, c, timeout=600):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return check_sat(list(st.pc) + [NOT(c)], timeout, fast=bool(self.quiet)) == z3.unsat

    def oblige(self, label, st, goal, node=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        goal = simp(goal)
        if not self.quiet and not z3.is_true(goal):
            where = '%s:%s' % (self.frame.func.key if self.frame and self.frame.func else '?', line_of(node) if node else '?')
            self.obls.append(Obligation(label, list(st.pc), goal, where, self.frame.func.key if self.frame and self.frame.func else '?'))
        elif not self.quiet:
            self.obls.append(Obligation(label, [], goal, '', ''))
        if assume and not z3.is_false(goal):
            st.assume(goal)

    def side(self, kind, st, cond, val=None):
        """conditional exceptional exit; the state continues with the negated condition"""
        cond = simp(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_false(cond):
            return
        if self.feasible(st, cond):
            s2 = st.clone()
            s2.assume(cond)
            self.exits.append(Exit(kind, s2, val))
            if z3.is_true(cond):
                raise DeadPath()
            st.assume(NOT(cond))
            if not self.feasible(st):
                raise DeadPath()
        # refuted: ~cond is a consequence of the path condition

    # ------------------------------------------------------------ memory
    def newloc(self, st, name, val, ty=None, heap=False):
        l = Loc(name, ty, heap)
        st.store[l] = val
        return l

    def get_path(self, v, path, st):
        for p in path:
            if isinstance(p, str):
                if isinstance(v, Frozen) and p == '*':
                    v = v.val
                    continue
                if p == 'box!':
                    continue
                if not isinstance(v, Struct):
                    raise Unsupported('field %s of %s' % (p, type(v).__name__))
                if p not in v.f:
                    raise Unsupported('no field ' + p)
                v = v.f[p]
            elif p[0] == 'i':
                if isinstance(v, Vec):
                    v = v.at(p[1])
                elif z3.is_expr(v) and v.sort() == S:
                    v = z3.StrToCode(z3.SubString(v, p[1], 1))
                else:
                    raise Unsupported('index into ' + type(v).__name__)
            elif p[0] == 'b':
                v = v.at(*p[1:])
            elif p[0] == 'k':
                v = v.val(p[1])
            elif p[0] == 'kv':
                v = Struct('pair', {'first': p[1], 'second': v.val(p[1])})
            else:
                raise Unsupported('path')
        return v

    def set_path(self, v, path, new, st):
        if not path:
            return new
        p, rest = path[0], path[1:]
        if p == 'box!':
            return self.set_path(v, rest, new, st)
        if isinstance(p, str):
            if not isinstance(v, Struct):
                raise Unsupported('field write to ' + type(v).__name__)
            return v.set(p, self.set_path(v.f[p], rest, new, st))
        if p[0] == 'i':
            if isinstance(v, Vec):
                idx = p[1]
                old = v

                def fn(j):
                    o = old.at(j)
                    e = simp(j == idx)
                    if z3.is_false(e):
                        return o
                    return merge(e, self.set_path(o, rest, new, st), o)
                return Vec(v.len, fn, v.ety)
            if z3.is_expr(v) and v.sort() == S and not rest:
                i = p[1]
                return z3.Concat(z3.SubString(v, 0, i), z3.StrFromCode(new), z3.SubString(v, i + 1, z3.Length(v) - i - 1))
        if p[0] == 'b':
            a, b, c = p[1:]
            old = v
            return Block(v.size, lambda x, y, z: ITE(simp(AND(x == a, y == b, z == c)), new, old.at(x, y, z)), v.alive)
        if p[0] == 'k':
            kk = p[1]
            old = v

            def val(j):
                o = old.val(j)
                return merge(simp(j == kk), self.set_path(old.val(kk), rest, new, st), o)
            return MapV(v.has, val, v.kty, v.vty, v.size)
        raise Unsupported('path write')

    def load1(self, t, st):
        if t is None:
            raise Unsupported('null dereference')
        loc, path = t
        if loc not in st.store:
            raise Unsupported('dangling ' + loc.name)
        v = st.store[loc]
        if isinstance(v, Opaque) and path:
            raise Unsupported('access into unmodelled %s' % v)
        if isinstance(v, Block):
            if path and not z3.is_true(v.alive):
                self.oblige('no use after delete', st, v.alive)
        path = self.norm_path(path)
        if self.boxed(v, path, st):
            return Ptr.to(loc, path + ('box!',))
        return self.get_path(v, path, st)

    def norm_path(self, path):
        """->second of a map iterator"""
        if any(isinstance(p, tuple) and p[0] == 'kv' for p in path):
            out, i = [], 0
            while i < len(path):
                p = path[i]
                if isinstance(p, tuple) and p[0] == 'kv' and i + 1 < len(path) and path[i + 1] == 'second':
                    out.append(('k', p[1]))
                    i += 2
                    continue
                out.append(p)
                i += 1
            return tuple(out)
        return path

    def boxed(self, v, path, st):
        """the path designates an owning pointer kept in a map"""
        if not path or not isinstance(path[-1], tuple) or path[-1][0] not in ('k', 'i'):
            return False
        c = self.get_path(v, path[:-1], st)
        return isinstance(c, MapV) and c.vty[0] == 'box' or isinstance(c, Vec) and c.ety is not None and c.ety[0] == 'box'

    def load(self, p, st):
        if not isinstance(p, Ptr):
            return p
        if len(p.alts) == 1:
            return self.load1(p.alts[0][1], st)
        r = None
        ok = []
        for g, t in p.alts:
            if t is None:
                if self.entails(st, NOT(g)):
                    continue
                self.oblige('no null dereference', st, NOT(g))
                continue
            if not self.feasible(st, g):
                continue
            ok.append((g, t))
        if not ok:
            raise Unsupported('null dereference')
        for g, t in reversed(ok):
            v = self.load1(t, st)
            r = v if r is None else merge(g, v, r)
        return r

    def store(self, p, val, st):
        if not isinstance(p, Ptr):
            raise Unsupported('store to non-lvalue')
        for g, t in p.alts:
            if t is None:
                if len(p.alts) > 1 and self.entails(st, NOT(g)):
                    continue
                self.oblige('no null dereference', st, NOT(g))
                continue
            loc, path = t
            if loc.frozen:
                raise Unsupported('write to an object captured in a container')
            if loc not in st.store:
                raise Unsupported('dangling ' + loc.name)
            old = st.store[loc]
            path = self.norm_path(path)
            if self.boxed(old, path, st):
                u = val.single() if isinstance(val, Ptr) else False
                if not u or u[1] or not u[0].heap or u[0].frozen or u[0] not in st.store:
                    raise Unsupported('pointer stored in a map')
                val = st.store[u[0]]
                st.store[u[0]] = Opaque('moved into a container')
            if isinstance(old, Block) and path and not z3.is_true(old.alive):
                self.oblige('no use after delete', st, old.alive)
            nv = self.set_path(old, path, val, st)
            st.store[loc] = nv if len(p.alts) == 1 else merge(g, nv, old)

    # block index decomposition --------------------------------------------------
    def block_index(self, loc, flat, st, node):
        blk = st.store[loc]
        if not isinstance(blk, Block):
            raise Unsupported('subscript of a non-array')
        if not z3.is_true(blk.alive):
            self.oblige('no use after delete', st, blk.alive, node)
        shape = loc.shape
        cands = [shape] if shape is not None else self.shape_candidates(loc, blk)
        fallback = None
        for sh in cands:
            co = self.divide(flat, sh)
            if co is None:
                continue
            conds = AND([AND(x >= 0, x < d) for x, d in zip(co, sh)])
            clean = all(max([len(m) for m in poly(x)] + [0]) <= 1 for x in co)
            if self.quiet:
                if clean or len(cands) == 1:
                    if loc.shape is None:
                        loc.prov = sh
                    return co
                continue
            if shape is not None:
                if self.one_run(co, sh) and not self.entails(st, conds):
                    # the array is walked as one run of elements: the bounds are those of the whole run,
                    # but which element (row, column, shelf) is meant is not expressed
                    self.oblige('array index in bounds', st, AND(flat >= 0, flat < simp(sh[0] * sh[1] * sh[2])), node)
                    raise Unsupported('a table accessed as one run of elements')
                self.oblige('array index in bounds', st, conds, node)
                return co
            if self.entails(st, conds):
                loc.shape = sh
                self.oblige('array index in bounds', st, conds, node)
                return co
            if clean and fallback is None:
                fallback = (sh, co, conds)
        if fallback is None:
            sh = cands[0]
            co = self.divide(flat, sh)
            if co is None:
                raise Unsupported('array subscript')
            fallback = (sh, co, AND([AND(x >= 0, x < d) for x, d in zip(co, sh)]))
        sh, co, conds = fallback
        if loc.shape is None and not self.quiet:
            loc.shape = sh
        self.oblige('array index in bounds', st, conds, node)
        return co

    def one_run(self, co, sh):
        """an index that shows no rows and columns of a table that has them"""
        z = lambda x: z3.is_int_value(x) and x.as_long() == 0
        return z(co[0]) and z(co[1]) and not z3.is_int_value(co[2]) and not all(z3.is_int_value(d) for d in sh[:2])

    def shape_candidates(self, loc, blk):
        fac = []

        def walk(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
                for x in e.children():
                    walk(x)
            elif z3.is_int_value(e) and e.as_long() == 1:
                pass
            else:
                fac.append(e)
        walk(blk.size)
        one = z3.IntVal(1)
        if len(fac) > 3:
            fac = [blk.size]
        out = []
        for p in itertools.permutations(range(len(fac))):
            out.append(tuple([fac[i] for i in p] + [one] * (3 - len(fac))))
        if len(fac) == 2:
            out += [(fac[0], one, fac[1]), (one, fac[0], fac[1])]
        if len(fac) == 1:
            out += [(one, fac[0], one), (one, one, fac[0])]
        return out

    def divide(self, flat, sh):
        p = poly(flat)
        s0 = poly(sh[1] * sh[2])
        s1 = poly(sh[2])
        r = pdivmod(p, s0)
        if r is None:
            return None
        a, rem = r
        r = pdivmod(rem, s1)
        if r is None:
            return None
        b, c = r
        return unpoly(a), unpoly(b), unpoly(c)

    # ------------------------------------------------------------ statements
    def stmt(self, n, st):
        """executes n in st; returns the normal continuation state or None"""
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        try:
            if m is not None:
                return m(n, st)
            self.ev(n, st)
            return st
        except DeadPath:
            return None

    def s_CompoundStmt(self, n, st):
        for x in n.get('inner', []) or []:
            st = self.stmt(x, st)
            if st is None:
                return None
        return st

    def s_NullStmt(self, n, st):
        return st

    def s_DeclStmt(self, n, st):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.declare(d, st)
            elif d['kind'] in ('UsingDirectiveDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])
        return st

    def declare(self, d, st):
        ty = type_of(d)
        name = d.get('name', '_')
        inner = [x for x in d.get('inner', []) or [] if 'Attr' not in x['kind'] and 'Comment' not in x['kind']]
        if d.get('storageClass') == 'static':
            raise Unsupported('static local variable')
        if ty[0] == 'ref':
            v = self.ev(inner[0], st)
            if not isinstance(v, Ptr):
                v = Ptr.to(self.newloc(st, name, v, ty[1]))
            self.frame.env[d['id']] = v
            return
        if inner:
            v = self.init_value(inner[0], ty, st)
        else:
            v = self.default_value(ty, st, name)
        loc = self.newloc(st, name, v, ty)
        self.frame.env[d['id']] = Ptr.to(loc)

    def init_value(self, e, ty, st):
        v = self.ev(e, st)
        if is_glvalue(e) and isinstance(v, Ptr):
            v = self.load(v, st)
        return v

    def default_value(self, ty, st, name='_'):
        k = ty[0]
        if k in SORT:
            if k == 'string':
                return z3.StringVal('')
            return self.undef(SORT[k], name)
        if k == 'vec':
            return Vec(0, self.undef_elem(ty[1], name), ty[1])
        if k == 'ifs':
            return self.std.no_file()
        if k == 'pair':
            return Struct('pair', {'first': self.zero_value(ty[1], st), 'second': self.zero_value(ty[2], st)})
        if k == 'map':
            return self.std.empty_map(ty)
        if k == 'set':
            return self.std.empty_set(ty)
        if k == 'ptr':
            return Opaque('uninitialised pointer')
        if k == 'cls':
            return self.construct(ty, None, [], st, None)
        return Opaque('%s' % (tstr(ty),))

    def zero_value(self, ty, st):
        k = ty[0]
        if k in ('int', 'uint', 'size', 'long', 'char'):
            return z3.IntVal(0)
        if k == 'double':
            return z3.RealVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'ptr':
            return Ptr.null()
        if k == 'box':
            return self.undef_elem(ty[1], 'null')(z3.IntVal(0))     # a null pointer: nothing is known about its target
        return self.default_value(ty, st)

    def undef(self, sort, name):
        """unspecified value (fresh per evaluation context)"""
        nm = fresh_name('undef_' + name)
        if self.gens:
            return z3.Function(nm, *([g.sort() for g in self.gens] + [sort]))(*self.gens)
        return z3.Const(nm, sort)

    def undef_elem(self, ty, name):
        nm = fresh_name('undef_' + name)
        gs = list(self.gens)
        return lambda i: self.fresh(ty, nm, gs + [i])

    def s_ReturnStmt(self, n, st):
        inner = n.get('inner', [])
        v = None
        if inner:
            e = inner[0]
            v = self.ev(e, st)
            if self.frame.rty is not None and self.frame.rty[0] != 'ref' and is_glvalue(e) and isinstance(v, Ptr):
                v = self.load(v, st)
        self.exits.append(Exit('return', st, v))
        return None

    def s_BreakStmt(self, n, st):
        self.exits.append(Exit('break', st))
        return None

    def s_ContinueStmt(self, n, st):
        self.exits.append(Exit('continue', st))
        return None

    def s_IfStmt(self, n, st):
        inner = list(n['inner'])
        if n.get('hasInit') or n.get('hasVar'):
            st2 = self.stmt(inner.pop(0), st)
            if st2 is None:
                return None
            st = st2
        c = self.cond(inner[0], st)
        then = inner[1]
        els = inner[2] if len(inner) > 2 else None
        return self.branch(c, st, lambda s: self.stmt(then, s), (lambda s: self.stmt(els, s)) if els else (lambda s: s))

    def branch(self, c, st, ft, fe):
        c = simp(c)
        if z3.is_true(c):
            return ft(st)
        if z3.is_false(c):
            return fe(st)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(NOT(c))
        f1, f2 = self.feasible(s1), self.feasible(s2)
        if not f1 and not f2:
            return None
        if not f2:
            return ft(st)
        if not f1:
            return fe(st)
        r1 = ft(s1)
        r2 = fe(s2)
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        return merge_states(r1, r2)[0]

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        return self.loopx.run(st, None, inner[0], None, inner[1], n)

    def s_DoStmt(self, n, st):
        body, cond = n['inner'][0], n['inner'][1]
        return self.loopx.run(st, None, None, None, body, n, post=cond)

    def s_ForStmt(self, n, st):
        inner = n['inner']
        init, var, cond, inc, body = inner
        if init and init.get('kind'):
            st = self.stmt(init, st)
            if st is None:
                return None
        return self.loopx.run(st, None, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body, n)

    def s_CXXForRangeStmt(self, n, st):
        inner = [x for x in n['inner']]
        # init?, range, begin, end, cond, inc, loopvar, body
        if inner[0] and inner[0].get('kind'):
            st = self.stmt(inner[0], st)
        rng, beg, end, cond, inc, var, body = inner[1:8]
        st = self.stmt(rng, st)
        if st is None:
            return None
        # value based range: the container is a map or set
        rd = rng['inner'][0]
        rp = self.frame.env[rd['id']]
        rv = self.load(rp, st)
        r = self.std.range_for(rp, rv, var, body, st, n)
        if r is not NotImplemented:
            return r
        st = self.stmt(beg, st)
        st = self.stmt(end, st)
        wrapper = {'kind': 'CompoundStmt', 'inner': [var, body]}
        return self.loopx.run(st, None, cond, inc, wrapper, n)

    def s_CXXTryStmt(self, n, st):
        body, handlers = n['inner'][0], n['inner'][1:]
        saved = self.exits
        self.exits = []
        out = self.stmt(body, st)
        mine = self.exits
        self.exits = saved
        results = [out] if out is not None else []
        for e in mine:
            if e.kind != 'throw':
                self.exits.append(e)
                continue
            h = None
            for hh in handlers:
                var = hh['inner'][0] if hh['inner'] and hh['inner'][0].get('kind') == 'VarDecl' else None
                if var is None or self.exc_matches(e.val, type_of(var)):
                    h = hh
                    break
            if h is None:
                self.exits.append(e)
                continue
            hb = h['inner'][-1]
            if var is not None:
                self.frame.env[var['id']] = Ptr.to(self.newloc(e.st, 'exc', Opaque('exception')))
            r = self.stmt(hb, e.st)
            if r is not None:
                results.append(r)
        if not results:
            return None
        st = results[0]
        for r in results[1:]:
            st = merge_states(st, r)[0]
        return st

    EXC = {'invalid_argument': ['logic_error', 'exception'], 'out_of_range': ['logic_error', 'exception'],
           'runtime_error': ['exception'], 'logic_error': ['exception'], 'length_error': ['logic_error', 'exception']}

    def exc_matches(self, et, ty):
        ty = strip_ref(ty)
        nm = ty[1] if ty[0] == 'cls' else str(ty)
        return et == nm or nm in self.EXC.get(et, [])

    def s_SwitchStmt(self, n, st):
        raise Unsupported('switch')

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        v = self.rv(e, st)
        return self.to_bool(v)

    def to_bool(self, v):
        if isinstance(v, Ptr):
            return OR([g for g, t in v.alts if t is not None])
        if isinstance(v, Frozen):
            return TRUE()
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            return v != 0
        raise Unsupported('condition of %s' % v)

    def rv(self, e, st):
        v = self.ev(e, st)
        if is_glvalue(e) and isinstance(v, Ptr):
            return self.load(v, st)
        return v

    def ev(self, e, st):
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            raise Unsupported('expression ' + e['kind'])
        return m(e, st)

    def _pass(self, e, st):
        return self.ev(e['inner'][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _pass

    def e_MaterializeTemporaryExpr(self, e, st):
        v = self.ev(e['inner'][0], st)
        if is_glvalue(e['inner'][0]) and isinstance(v, Ptr):
            return v
        return Ptr.to(self.newloc(st, 'tmp', v, type_of(e)))

    def e_IntegerLiteral(self, e, st):
        return z3.IntVal(int(e['value']))

    def e_FloatingLiteral(self, e, st):
        return z3.RealVal(str(e['value']))

    def e_CXXBoolLiteralExpr(self, e, st):
        return z3.BoolVal(bool(e['value']))

    def e_CharacterLiteral(self, e, st):
        return z3.IntVal(int(e['value']))

    def e_StringLiteral(self, e, st):
        return z3.StringVal(c_unquote(e['value']))

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return Ptr.null()

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, e, st):
        return self.frame.this

    def e_CXXDefaultArgExpr(self, e, st):
        inner = e.get('inner')
        if inner:
            return self.ev(inner[0], st)
        return Opaque('default')

    def e_CXXDefaultInitExpr(self, e, st):
        raise Unsupported('default member initialiser')

    def e_CXXScalarValueInitExpr(self, e, st):
        return self.zero_value(type_of(e), st)

    def e_ImplicitValueInitExpr(self, e, st):
        return self.zero_value(type_of(e), st)

    def e_DeclRefExpr(self, e, st):
        rd = e['referencedDecl']
        k = rd['kind']
        if k in ('VarDecl', 'ParmVarDecl'):
            i = rd['id']
            if i in self.frame.env:
                return self.frame.env[i]
            if self.frame.caps is not None and i in self.frame.caps:
                return self.frame.caps[i]
            return self.global_var(rd, st, e)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            f = self.P.func_of_id(self.frame.tu, rd['id'])
            return FuncRef(f, rd, rd.get('name'))
        if k == 'EnumConstantDecl':
            d = self.P.decls.get((self.frame.tu, rd['id']))
            if d is not None:
                return z3.IntVal(d['_value'])
            return Opaque('enum ' + rd.get('name', ''))
        raise Unsupported('reference to ' + k)

    def global_var(self, rd, st, e):
        d = self.P.globals.get((self.frame.tu, rd['id']))
        name = rd.get('name')
        if d is None and name == 'npos':
            l = Loc('npos')
            st.store[l] = z3.IntVal(2 ** 64 - 1)
            return Ptr.to(l)
        if d is None:
            l = Loc('std::' + str(name))
            st.store[l] = Opaque(str(name))
            return Ptr.to(l)
        key = d.get('mangledName') or name
        if key in self.globals:
            l = self.globals[key]
            if l in st.store:
                return Ptr.to(l)
        inner = [x for x in d.get('inner', []) or [] if x.get('kind')]
        ty = type_of(d)
        const = 'const' in d.get('type', {}).get('qualType', '') or d.get('constexpr')
        l = self.globals.get(key) or Loc(name, ty)
        self.globals[key] = l
        if const and inner:
            tu = self.frame.tu
            v = self.ev(inner[0], st)
        elif const:
            v = self.fresh(ty, 'glob_' + name)
        else:
            v = self.fresh(ty, 'glob_' + name)
        st.store[l] = v
        return Ptr.to(l)

    def e_MemberExpr(self, e, st):
        base = e['inner'][0]
        b = self.ev(base, st)
        name = e['name']
        mid = e.get('referencedMemberDecl')
        f = self.P.func_of_id(self.frame.tu, mid)
        bt = type_of(base)
        if e.get('isArrow'):
            if is_glvalue(base) and isinstance(b, Ptr):
                b = self.load(b, st)
            b = self.pointee(b, st)
        ety = type_of(e)
        if f is not None:
            return FuncRef(f, None, name, (b, bt))
        if e.get('type', {}).get('qualType') == '<bound member function type>':
            return FuncRef(None, None, name, (b, bt))
        if not isinstance(b, Ptr):
            if isinstance(b, Struct):
                return b.f[name]
            raise Unsupported('member of ' + type(b).__name__)
        return b.field(name)

    def pointee(self, v, st):
        """lvalue designated by a pointer value"""
        if isinstance(v, Frozen):
            l = Loc('frozen', heap=True)
            st.store[l] = self.thaw_struct(v.val, st, 'frozen', True)
            l.frozen = True
            return Ptr.to(l)
        if isinstance(v, MapIter):
            self.oblige('iterator in range', st, NOT(v.end))
            if is_set(self.load(v.cont, st)):
                return Ptr.to(self.newloc(st, 'element', v.key))
            return v.cont.field(('kv', v.key))
        if isinstance(v, Iter):
            return self.std.iter_lv(v, st)
        if isinstance(v, Ptr):
            bad = [g for g, t in v.alts if t is None]
            if bad:
                if len(v.alts) == len(bad):
                    self.oblige('no null dereference', st, False)
                    raise DeadPath()
                self.oblige('no null dereference', st, NOT(OR(bad)))
                return norm_ptr([(g, t) for g, t in v.alts if t is not None])
            return v
        raise Unsupported('dereference of %s' % type(v).__name__)

    def e_ImplicitCastExpr(self, e, st):
        return self.cast(e, st)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def cast(self, e, st):
        ck = e.get('castKind')
        sub = e['inner'][0]
        v = self.ev(sub, st)
        if ck == 'LValueToRValue':
            return self.load(v, st) if isinstance(v, Ptr) else v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UserDefinedConversion',
                  'ConstructorConversion', 'BuiltinFnToFnPtr', 'DerivedToBase', 'UncheckedDerivedToBase', 'Dependent'):
            return v
        if ck == 'BitCast':
            return v
        if ck == 'NullToPointer':
            return Ptr.null()
        if ck == 'ToVoid':
            return None
        src, dst = type_of(sub), type_of(e)
        if ck == 'IntegralCast':
            v = self.int_cast(v, src, dst, st)
            if qual(e) in ('unsigned char', 'char') and z3.is_expr(v) and qual(sub) not in ('unsigned char', 'char', 'bool') \
                    and not z3.is_int_value(v) and not self.entails(st, AND(v >= 0, v < 256)):
                v = v % 256
            return v
        if ck == 'IntegralToFloating':
            if z3.is_bool(v):
                return ITE(v, z3.RealVal(1), z3.RealVal(0))
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return self.to_single(z3.ToReal(v)) if is_single(e) else z3.ToReal(v)
        if ck == 'FloatingToIntegral':
            self.trusted['float to int conversion of an in-range value'] = 1
            return ITE(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.to_bool(v)
        if ck == 'FloatingCast':
            return self.to_single(v) if is_single(e) else v
        raise Unsupported('cast ' + str(ck))

    def to_single(self, v):
        """rounding to single precision: nothing is assumed of it except on exact constants"""
        if not z3.is_expr(v):
            raise Unsupported('single precision value')
        if z3.is_int(v):
            v = z3.ToReal(v)
        if z3.is_rational_value(v):
            f = v.as_fraction()
            if f.denominator & (f.denominator - 1) == 0 and abs(f.numerator) < 2 ** 24 and f.denominator < 2 ** 24:
                return v
        if z3.is_app(v) and v.decl().name() == 'single':
            return v
        return SINGLE(v)

    def int_cast(self, v, src, dst, st):
        if z3.is_bool(v):
            return ITE(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Opaque):
            return v
        if not z3.is_expr(v):
            raise Unsupported('integral cast of %s' % type(v).__name__)
        if z3.is_int_value(v) and v.as_long() >= 0:
            return v
        d, s = dst[0], src[0]
        if d in ('size', 'uint') and s in ('int', 'long', 'char'):
            if self.entails(st, v >= 0):
                return v
            return ITE(v >= 0, v, v + (2 ** 64 if d == 'size' else 2 ** 32))
        if (d, s) in (('uint', 'size'), ('uint', 'long')):
            return v if self.entails(st, AND(v >= 0, v < 2 ** 32)) else v % 2 ** 32
        if d in ('int',) and s in ('size', 'uint', 'long'):
            if self.entails(st, AND(v >= -2 ** 31, v < 2 ** 31)):
                return v
            if has_npos(v):
                m = z3.IntVal(2 ** 64 - 1)
                s2 = st.clone()
                s2.assume(NOT(v == m))
                if self.entails(s2, AND(v >= -2 ** 31, v < 2 ** 31)):
                    return ITE(v == m, z3.IntVal(-1), v)
            M = 2 ** 32
            w = v % M
            return ITE(w >= 2 ** 31, w - M, w)
        return v

    def arith(self, op, a, b, ty, st, node=None):
        k = ty[0]
        if z3.is_bool(a):
            a = ITE(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b):
            b = ITE(b, z3.IntVal(1), z3.IntVal(0))
        if not z3.is_expr(a) or not z3.is_expr(b):
            raise Unsupported('arithmetic on %s' % type(a).__name__)
        if op == '+':
            r = a + b
            if k == 'size' and (has_npos(a) or has_npos(b)) and not self.entails(st, r < 2 ** 64):
                r = ITE(r >= 2 ** 64, r - 2 ** 64, r)
        elif op == '-':
            r = a - b
            if k in ('size', 'uint') and not self.entails(st, r >= 0):
                r = ITE(r >= 0, r, r + (2 ** 64 if k == 'size' else 2 ** 32))
        elif op == '*':
            r = a * b
        elif op == '/':
            if k == 'double':
                if z3.is_rational_value(b) and b.numerator_as_long() != 0:
                    r = a / b
                else:
                    r = a / b
            else:
                self.oblige('no division by zero', st, b != 0, node)
                if self.entails(st, AND(a >= 0, b > 0)):
                    r = a / b
                else:
                    q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
                    r = q
        elif op == '%':
            self.oblige('no division by zero', st, b != 0, node)
            if self.entails(st, AND(a >= 0, b > 0)):
                r = a % b
            else:
                ab = z3.If(b > 0, b, -b)
                r = z3.If(a >= 0, a % ab, -((-a) % ab))
        else:
            raise Unsupported('operator ' + op)
        return r

    def compare(self, op, a, b, st):
        if isinstance(a, (Ptr, Frozen)) or isinstance(b, (Ptr, Frozen)):
            c = self.ptr_eq(a, b)
            if op == '==':
                return c
            if op == '!=':
                return NOT(c)
            raise Unsupported('pointer comparison')
        if isinstance(a, MapIter) and isinstance(b, MapIter):
            c = OR(AND(a.end, b.end), AND(NOT(a.end), NOT(b.end), a.key == b.key))
            if op in ('==', '!='):
                return simp(c if op == '==' else NOT(c))
            raise Unsupported('comparison of map iterators')
        if isinstance(a, Iter) and isinstance(b, Iter):
            if op == '==':
                return a.idx == b.idx
            if op == '!=':
                return a.idx != b.idx
            return {'<': a.idx < b.idx, '>': a.idx > b.idx, '<=': a.idx <= b.idx, '>=': a.idx >= b.idx}[op]
        if not z3.is_expr(a) or not z3.is_expr(b):
            raise Unsupported('comparison of %s' % a)
        if z3.is_bool(a) and not z3.is_bool(b):
            a = ITE(a, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bool(b) and not z3.is_bool(a):
            b = ITE(b, z3.IntVal(1), z3.IntVal(0))
        if op == '==':
            return a == b
        if op == '!=':
            return NOT(a == b)
        if z3.is_bool(a):
            raise Unsupported('ordering of bools')
        if a.sort() == S:
            if op == '<':
                return a < b
            if op == '>':
                return b < a
            if op == '<=':
                return a <= b
            return b <= a
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]

    def ptr_eq(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            cs = []
            for g, t in a.alts:
                for h, u in b.alts:
                    if same_target(t, u):
                        cs.append(AND(g, h))
                    elif t is not None and u is not None and t[0] is u[0]:
                        c = self.path_eq(t[1], u[1])
                        cs.append(AND(g, h, c))
            return simp(OR(cs))
        raise Unsupported('pointer equality')

    def path_eq(self, p, q):
        if len(p) != len(q):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return z3.BoolVal(False)
            else:
                cs += [u == v for u, v in zip(x[1:], y[1:])]
        return AND(cs)

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e['inner']
        if op == '=':
            rv = self.rv(r, st)
            lv = self.ev(l, st)
            self.store(lv, rv, st)
            return lv
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = self.cond(l, st)
            return self.shortcut(op, a, r, st)
        a = self.rv(l, st)
        b = self.rv(r, st)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, st)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b, st, e)
        v = self.arith(op, a, b, type_of(e), st, e)
        return self.to_single(v) if is_single(e) else v

    def ptr_arith(self, op, a, b, st, e):
        if op == '+' and isinstance(a, Ptr) and z3.is_expr(b):
            return self.ptr_add(a, b, st, e)
        if op == '+' and isinstance(b, Ptr) and z3.is_expr(a):
            return self.ptr_add(b, a, st, e)
        raise Unsupported('pointer arithmetic')

    def ptr_add(self, p, i, st, e):
        t = p.single()
        if not t:
            p = self.pointee(p, st)
            t = p.single()
            if not t:
                out = []
                for g, t in p.alts:
                    if self.feasible(st, g):
                        out.append((g, t))
                p = norm_ptr(out)
                t = p.single()
                if not t:
                    raise Unsupported('subscript of an ambiguous pointer')
        loc, path = t
        if path:
            raise Unsupported('arithmetic on an element pointer')
        if loc not in st.store:
            raise Unsupported('dangling pointer')
        v = st.store[loc]
        if isinstance(v, Block):
            co = self.block_index(loc, i, st, e)
            return Ptr.to(loc, (('b',) + tuple(co),))
        raise Unsupported('subscript of ' + type(v).__name__)

    def e_ArraySubscriptExpr(self, e, st):
        b, i = e['inner']
        bv = self.rv(b, st)
        iv = self.rv(i, st)
        if z3.is_expr(bv) and bv.sort() == S:
            return z3.StrToCode(z3.SubString(bv, iv, 1))
        if isinstance(bv, Frozen):
            raise Unsupported('subscript')
        return self.ptr_add(bv, iv, st, e)

    def shortcut(self, op, a, r, st):
        a = simp(a)
        if op == '&&':
            if z3.is_false(a):
                return a
            if z3.is_true(a):
                return self.cond(r, st)
            guard = a
        else:
            if z3.is_true(a):
                return a
            if z3.is_false(a):
                return self.cond(r, st)
            guard = NOT(a)
        s1, s2 = st.clone(), st.clone()
        s1.assume(guard)
        s2.assume(NOT(guard))
        if not self.feasible(s1):
            return a
        n0 = len(s1.pc)
        try:
            b = self.cond(r, s1)
        except DeadPath:
            st.pc[:] = s2.pc
            return a
        if s1.store == s2.store and len(s1.pc) == n0:
            pass
        else:
            m, _ = merge_states(s1, s2)
            st.pc[:] = m.pc
            st.store.clear()
            st.store.update(m.store)
        return AND(a, b) if op == '&&' else OR(a, b)

    def e_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        cv = simp(self.cond(c, st))
        if z3.is_true(cv) or not self.feasible(st, NOT(cv)):
            return self.ev(a, st)
        if z3.is_false(cv) or not self.feasible(st, cv):
            return self.ev(b, st)
        s1, s2 = st.clone(), st.clone()
        s1.assume(cv)
        s2.assume(NOT(cv))
        va = vb = None
        try:
            va = self.ev(a, s1)
        except DeadPath:
            s1 = None
        try:
            vb = self.ev(b, s2)
        except DeadPath:
            s2 = None
        if s1 is None and s2 is None:
            raise DeadPath()
        if s1 is None:
            m, v = s2, vb
        elif s2 is None:
            m, v = s1, va
        else:
            m, v = merge_states(s1, s2, va, vb)
        st.pc[:] = m.pc
        new = dict(m.store)
        st.store.clear()
        st.store.update(new)
        return v

    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        sub = e['inner'][0]
        if op in ('++', '--'):
            lv = self.ev(sub, st)
            old = self.load(lv, st)
            if isinstance(old, Iter):
                new = Iter(old.cont, old.idx + (1 if op == '++' else -1), old.rev)
            else:
                new = self.arith('+' if op == '++' else '-', old, z3.IntVal(1), type_of(sub), st, e)
            self.store(lv, new, st)
            return old if e.get('isPostfix') else lv
        if op == '*':
            v = self.rv(sub, st)
            return self.pointee(v, st)
        if op == '&':
            v = self.ev(sub, st)
            if isinstance(v, FuncRef) and v.func is not None and v.this is None and type_of(e)[0] == 'fptr':
                return z3.StringVal(v.func.key)      # a function as a value: its name
            return v
        v = self.rv(sub, st)
        if op == '-':
            if z3.is_bool(v):
                v = ITE(v, z3.IntVal(1), z3.IntVal(0))
            return simp(-v)
        if op == '+':
            return v
        if op == '!':
            return NOT(self.to_bool(v))
        raise Unsupported('unary ' + op)

    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = e['inner']
        rv = self.rv(r, st)
        lv = self.ev(l, st)
        old = self.load(lv, st)
        ty = type_of(l)
        if ty[0] == 'double' and rv.sort() == I:
            rv = z3.ToReal(rv)
        ct = e.get('computeResultType', {}).get('qualType')
        if ct == 'double' and old.sort() == I:
            new = self.arith(op, z3.ToReal(old), rv, ('double',), st, e)
            new = ITE(new >= 0, z3.ToInt(new), -z3.ToInt(-new))
        else:
            new = self.arith(op, old, rv, ty, st, e)
        if is_single(l):
            new = self.to_single(new)
        self.store(lv, new, st)
        return lv

    def e_CXXThrowExpr(self, e, st):
        inner = e.get('inner')
        if not inner:
            raise Unsupported('rethrow')
        t = type_of(inner[0])
        self.throw(st, t[1] if t[0] == 'cls' else tstr(t))

    def throw(self, st, et):
        self.exits.append(Exit('throw', st.clone(), et))
        raise DeadPath()

    def e_LambdaExpr(self, e, st):
        rec = e['inner'][0]
        op = None
        for x in rec.get('inner', []):
            if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()':
                op = x
        body = [x for x in e['inner'] if x.get('kind') == 'CompoundStmt'][-1]
        # captures: every variable of the frame, by reference for the evaluation at once; by-copy captures are
        # snapshots of the current values
        caps = {}
        fields = [x for x in rec.get('inner', []) if x.get('kind') == 'FieldDecl']
        byref = all(type_of(f)[0] == 'ref' for f in fields) if fields else True
        used = set()
        self._decl_refs(body, used)
        for i in used:
            if i in self.frame.env:
                p = self.frame.env[i]
                if byref:
                    caps[i] = p
                else:
                    caps[i] = Ptr.to(self.newloc(st, 'cap', self.load(p, st)))
        return Lambda((op, body), caps, self.frame.tu, self.frame)

    def _decl_refs(self, n, out):
        rd = n.get('referencedDecl')
        if rd and rd.get('kind') in ('VarDecl', 'ParmVarDecl'):
            out.add(rd['id'])
        for x in n.get('inner', []) or []:
            if x:
                self._decl_refs(x, out)

    def call_lambda(self, lam, args, st):
        op, body = lam.node
        params = [x for x in op.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        fr = Frame(self.frame.func, lam.tu, lam.frame.this)
        fr.caps = lam.caps
        qt = op['type']['qualType']
        fr.rty = None
        for p, a in zip(params, args):
            fr.env[p['id']] = a if isinstance(a, Ptr) else Ptr.to(self.newloc(st, p.get('name', '_'), a))
        return self.run_body(fr, body, st)

    # ------------------------------------------------------------ calls
    def run_body(self, fr, body, st):
        """run an inlined body; st is updated in place to the merged normal state; returns the value"""
        saved, self.exits = self.exits, []
        sf, self.frame = self.frame, fr
        self.depth += 1
        if self.depth > 25:
            raise Unsupported('recursion depth')
        try:
            out = self.stmt(body, st.clone())
            mine = self.exits
        finally:
            self.exits = saved
            self.frame = sf
            self.depth -= 1
        rets = []
        for x in mine:
            if x.kind == 'return':
                rets.append((x.st, x.val))
            elif x.kind in ('throw', 'exit'):
                self.exits.append(x)
            else:
                raise Unsupported('stray ' + x.kind)
        if out is not None:
            rets.append((out, None))
        if not rets:
            raise DeadPath()
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            s, v = merge_states(s, s2, v, v2)
        st.pc[:] = s.pc
        new = dict(s.store)
        st.store.clear()
        st.store.update(new)
        return v

    def call(self, f, this, args, st, node):
        """call of a repo function; args: Ptr (reference parameters) or values"""
        key = f.key
        c = self.contracts.get(key)
        if c is not None and not c.inline and (self.verifying != key):
            self.used[key] = self.used.get(key, 0) + (0 if self.quiet else 1)
            return c.apply(self, f, this, args, st, node)
        if f.body is None:
            r = self.std.bodyless(f, this, args, st, node)
            if r is NotImplemented:
                raise Unsupported('no body for ' + key)
            return r
        self.inlined[key] = self.inlined.get(key, 0) + 1
        fr = Frame(f, f.tu, this)
        fr.rty = f.rtype if f.node.get('kind') != 'CXXConstructorDecl' else None
        self.bind(fr, f, args, st)
        return self.run_body(fr, f.body, st)

    def bind(self, fr, f, args, st):
        for p, a in zip(f.params, args):
            ty = type_of(p)
            if ty[0] == 'ref':
                if not isinstance(a, Ptr):
                    a = Ptr.to(self.newloc(st, p.get('name', '_'), a, ty[1]))
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = Ptr.to(self.newloc(st, p.get('name', '_'), a, ty))

    def args(self, f, nodes, st):
        """evaluate the arguments for a repo function according to its parameter types"""
        out = []
        params = f.params if f else []
        for i, a in enumerate(nodes):
            ty = type_of(params[i]) if i < len(params) else None
            if a['kind'] == 'CXXDefaultArgExpr':
                d = [x for x in params[i].get('inner', []) or [] if x.get('kind')]
                if not d:
                    # the default argument is on another declaration
                    raise Unsupported('default argument')
                out.append(self.ev(d[0], st))
                continue
            v = self.ev(a, st)
            if ty is not None and ty[0] != 'ref' and is_glvalue(a) and isinstance(v, Ptr):
                v = self.load(v, st)
            out.append(v)
        return out

    def e_CallExpr(self, e, st):
        callee, rest = e['inner'][0], e['inner'][1:]
        fr = self.ev(callee, st)
        if isinstance(fr, FuncRef):
            if fr.func is not None and not self.std.overrides(fr.func):
                return self.call(fr.func, None, self.args(fr.func, rest, st), st, e)
            return self.std.function(fr.name, rest, st, e, fr)
        if isinstance(fr, Ptr):
            fr = self.load(fr, st)
        if isinstance(fr, Lambda):
            return self.call_lambda(fr, [self.ev(a, st) for a in rest], st)
        raise Unsupported('call through %s' % fr)

    def e_CXXMemberCallExpr(self, e, st):
        callee, rest = e['inner'][0], e['inner'][1:]
        while callee['kind'] == 'ParenExpr':
            callee = callee['inner'][0]
        fr = self.ev(callee, st)
        if not isinstance(fr, FuncRef):
            raise Unsupported('member call')
        b, bt = fr.this
        if fr.func is not None:
            return self.method(fr.func, b, self.args(fr.func, rest, st), st, e, callee)
        return self.std.method(fr.name, b, bt, rest, st, e)

    def method(self, f, b, args, st, e, callee=None):
        if not isinstance(b, Ptr):
            b = Ptr.to(self.newloc(st, 'tmp', b))
        if f.virtual or True:
            dyn = self.dyn_class(b, st)
            if dyn and f.cls != dyn:
                g = self.P.overrider(dyn, f.name, f.sig)
                if g is not None and (f.virtual or self.is_virtual(dyn, f)) and not self.qualified(callee, f):
                    f = self.P.funcs.get(g.mangled, g)
            if dyn and b.single() == (self.open_this, ()) and (f.virtual or self.is_virtual(dyn, f)):
                # the object may belong to a derived class
                if any(g.cls in self.P.derived(dyn) and g.name == f.name and g.sig == f.sig for g in self.P.funcs.values()):
                    if f.rtype[0] in SORT and f.node.get('type', {}).get('qualType', '').endswith('const'):
                        self.trusted['overriders of %s in derived classes return and change nothing' % f.key] = 1
                        return self.fresh(f.rtype, fresh_name('virtual_' + f.name), list(self.gens))
                    raise Unsupported('virtual call of ' + f.key)
        return self.call(f, b, args, st, e)

    def qualified(self, callee, f):
        """Base::f(...): name lookup from the derived class would have found its own f"""
        if not callee or callee.get('kind') != 'MemberExpr':
            return False
        b = callee['inner'][0]
        if b.get('kind') != 'ImplicitCastExpr' or b.get('castKind') not in ('UncheckedDerivedToBase', 'DerivedToBase'):
            return False
        t = strip_ref(type_of(b['inner'][0]))
        if t[0] == 'ptr':
            t = t[1]
        if t[0] != 'cls':
            return False
        g = self.P.overrider(t[1], f.name, f.sig)
        return g is not None and g.cls != f.cls

    def is_virtual(self, cname, f):
        c = f.cls
        seen = [c]
        while seen:
            x = seen.pop()
            g = [h for h in self.P.funcs.values() if h.cls == x and h.name == f.name and h.sig == f.sig]
            if any(h.virtual for h in g):
                return True
            if x in self.P.classes:
                seen += self.P.classes[x].bases
        return False

    def dyn_class(self, b, st):
        t = b.single()
        if not t:
            return None
        try:
            v = self.load1(t, st)
        except Unsupported:
            return None
        return v.cls if isinstance(v, Struct) else None

    def e_CXXOperatorCallExpr(self, e, st):
        callee, rest = e['inner'][0], e['inner'][1:]
        fr = self.ev(callee, st)
        name = fr.name if isinstance(fr, FuncRef) else None
        if isinstance(fr, FuncRef) and fr.func is not None and not self.std.overrides(fr.func):
            f = fr.func
            if f.node.get('kind') == 'CXXMethodDecl' or f.cls:
                if f.body is None and name == 'operator=':
                    rv = self.rv(rest[1], st)
                    lv = self.ev(rest[0], st)
                    self.store(lv, rv, st)
                    return lv
                b = self.ev(rest[0], st)
                return self.method(f, b, self.args(f, rest[1:], st), st, e)
            return self.call(f, None, self.args(f, rest, st), st, e)
        return self.std.operator(name, rest, st, e)

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, e, st):
        ty = type_of(e)
        nodes = e.get('inner', []) or []
        return self.construct(ty, e, nodes, st, e.get('ctorType', {}).get('qualType'))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def find_ctor(self, cname, ctor_type):
        want = None
        if ctor_type is not None:
            q = ctor_type
            inside = q[q.index('(') + 1:q.rindex(')')]
            from .cast import _split_args
            want = '(' + ', '.join(tstr(parse_type(a)) for a in _split_args(inside) if a and a != 'void') + ')'
        cands = [f for f in self.P.funcs.values() if f.cls == cname and f.node.get('kind') == 'CXXConstructorDecl']
        if want is None:
            want = '()'
        best = None
        for f in cands:
            if f.sig == want:
                if f.body is not None:
                    return f
                best = best or f
        return best

    def construct(self, ty, e, nodes, st, ctor_type):
        if ty[0] != 'cls' or ty[1] not in self.P.classes:
            return self.std.construct(ty, e, nodes, st)
        cname = ty[1]
        f = self.find_ctor(cname, ctor_type)
        if f is None or f.body is None:
            c = None
            if f is not None:
                c = self.contracts.get(f.key)
            if len(nodes) == 1:
                v = self.rv(nodes[0], st)
                if isinstance(v, Struct):
                    return v
                raise Unsupported('copy of ' + str(v))
            # implicit default constructor
            fs = {}
            for n, ft, x, _ in self.P.all_fields(cname):
                init = [y for y in x.get('inner', []) or [] if y.get('kind') and 'Attr' not in y['kind'] and 'Comment' not in y['kind']]
                fs[n] = self.rv(init[0], st) if init else self.default_value(ft, st, n)
            return Struct(cname, fs)
        loc = self.newloc(st, 'new_' + cname, None)
        fs = {}
        for n, ft, x, _ in self.P.all_fields(cname):
            fs[n] = Opaque('uninitialised ' + n) if ft[0] in ('ptr', 'cls', 'opaque') or ft[0] in SORT else self.default_value(ft, st, n)
            if ft[0] in SORT:
                fs[n] = self.default_value(ft, st, n)
        st.store[loc] = Struct(cname, fs)
        args = self.args(f, nodes, st)
        this = Ptr.to(loc)
        self.call_ctor(f, this, args, st, e)
        return self.load(this, st)

    def call_ctor(self, f, this, args, st, node):
        key = f.key
        c = self.contracts.get(key)
        if c is not None and not c.inline and self.verifying != key:
            self.used[key] = self.used.get(key, 0) + (0 if self.quiet else 1)
            return c.apply(self, f, this, args, st, node)
        self.inlined[key] = self.inlined.get(key, 0) + 1
        fr = Frame(f, f.tu, this)
        self.bind(fr, f, args, st)
        self.ctor_inits(f, fr, st)
        return self.run_body(fr, f.body, st)

    def ctor_inits(self, f, fr, st):
        sf, self.frame = self.frame, fr
        try:
            done = set()
            for x in f.inits:
                anyi = x.get('anyInit')
                if anyi and x['inner'][0]['kind'] != 'CXXDefaultInitExpr':
                    v = self.rv(x['inner'][0], st)
                    self.store(fr.this.field(anyi['name']), v, st)
                    done.add(anyi['name'])
                elif x.get('baseInit'):
                    self.base_init(x, fr, st)
            cls = self.P.classes.get(f.cls)
            for n, ft, x in cls.fields if cls else []:
                if n in done:
                    continue
                init = [y for y in x.get('inner', []) or [] if y.get('kind') and 'Attr' not in y['kind'] and 'Comment' not in y['kind']]
                if init:
                    self.store(fr.this.field(n), self.rv(init[0], st), st)
        finally:
            self.frame = sf

    def base_init(self, x, fr, st):
        e = x['inner'][0]
        while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            e = e['inner'][0]
        if e['kind'] != 'CXXConstructExpr':
            raise Unsupported('base initialiser ' + e['kind'])
        ty = type_of(e)
        if ty[0] != 'cls' or ty[1] not in self.P.classes:
            return
        f = self.find_ctor(ty[1], e.get('ctorType', {}).get('qualType'))
        if f is None or f.body is None:
            return
        args = self.args(f, e.get('inner', []) or [], st)
        # the dynamic class during construction of the base is irrelevant unless it calls virtuals
        v = self.load(fr.this, st)
        real = v.cls
        self.store(fr.this, Struct(ty[1], v.f), st)
        self.call_ctor(f, fr.this, args, st, e)
        v = self.load(fr.this, st)
        self.store(fr.this, Struct(real, v.f), st)

    def e_InitListExpr(self, e, st):
        ty = type_of(e)
        if ty[0] == 'arr':
            vs = [self.rv(x, st) for x in e.get('inner', []) or []]
            return self.std.list_value(vs, ty[1])
        if ty[0] == 'cls' and ty[1] in self.P.classes:
            fs = {}
            nodes = e.get('inner', []) or []
            for (n, ft, x, _), a in zip(self.P.all_fields(ty[1]), nodes):
                fs[n] = self.rv(a, st)
            return Struct(ty[1], fs)
        if len(e.get('inner', []) or []) == 1:
            return self.ev(e['inner'][0], st)
        if not e.get('inner'):
            return self.zero_value(ty, st)
        raise Unsupported('initializer list of ' + tstr(ty))

    def e_CXXStdInitializerListExpr(self, e, st):
        v = self.ev(e['inner'][0], st)
        return self.load(v, st) if isinstance(v, Ptr) else v

    def e_CXXNewExpr(self, e, st):
        inner = e.get('inner', []) or []
        ty = type_of(e)[1]
        if e.get('isArray'):
            n = self.rv(inner[0], st)
            n = self.unwrap_size(n, st)
            if ty[0] != 'double':
                raise Unsupported('new array of ' + tstr(ty))
            loc = Loc('new[]', heap=True)
            nm = fresh_name('uninit')
            gs = list(self.gens)
            fn = z3.Function(nm, *([g.sort() for g in gs] + [I, I, I, R]))
            st.store[loc] = Block(n, lambda a, b, c: fn(*gs, a, b, c))
            return Ptr.to(loc)
        init = [x for x in inner if x['kind'] in ('CXXConstructExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups')]
        loc = Loc('new ' + tstr(ty), ty, heap=True)
        if init:
            st.store[loc] = Opaque('new')
            v = self.ev(init[0], st)
            st.store[loc] = v
        else:
            v = self.rv(inner[0], st) if inner else self.default_value(ty, st)
            st.store[loc] = v
        return Ptr.to(loc)

    def unwrap_size(self, n, st):
        """array sizes: a product of non-negative factors converted to size_t"""
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            a = n.arg(1)
            fac = []

            def walk(e):
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
                    for x in e.children():
                        walk(x)
                else:
                    fac.append(e)
            walk(a)
            self.oblige('array size is not negative', st, AND([f >= 0 for f in fac]))
            return a
        return n

    def e_CXXDeleteExpr(self, e, st):
        v = self.rv(e['inner'][0], st)
        if isinstance(v, Opaque):
            raise Unsupported('delete of ' + str(v))
        if isinstance(v, Frozen):
            raise Unsupported('delete through a container')
        for g, t in v.alts:
            if t is None:
                continue
            if len(v.alts) > 1 and not self.feasible(st, g):
                continue
            loc, path = t
            old = st.store.get(loc)
            if path or not loc.heap or loc.frozen:
                raise Unsupported('delete')
            if isinstance(old, Block):
                self.oblige('delete[] of a live array', st, IMP(g, old.alive), e)
                self.oblige('array form of delete', st, z3.BoolVal(bool(e.get('isArray'))), e)
                st.store[loc] = Block(old.size, old.fn, False)
                if len(v.alts) > 1 and not self.entails(st, g):
                    raise Unsupported('conditional delete')
            else:
                st.store[loc] = Opaque('deleted')
        return None


def has_npos(e):
    return any(z3.is_int_value(t) and t.as_long() == 2 ** 64 - 1 for t in subterms(e)) or any(
        z3.is_app(t) and t.decl().name().startswith(('ph_', 'DR')) for t in subterms(e))


def is_glvalue(e):
    return e.get('valueCategory') in ('lvalue', 'xvalue')


def c_unquote(s):
    if s.startswith('u8') or s.startswith('L'):
        s = s[s.index('"'):]
    s = s[1:-1]
    out, i = '', 0
    esc = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", '0': '\0', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'x':
                j = i + 2
                while j < len(s) and s[j] in '0123456789abcdefABCDEF':
                    j += 1
                out += chr(int(s[i + 2:j], 16))
                i = j
                continue
            if d in '01234567':
                j = i + 1
                while j < len(s) and j < i + 4 and s[j] in '01234567':
                    j += 1
                out += chr(int(s[i + 1:j], 8))
                i = j
                continue
            out += esc.get(d, d)
            i += 2
        else:
            out += c
            i += 1
    return out
