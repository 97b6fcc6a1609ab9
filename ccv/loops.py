"""Loop rule: an exact inductive invariant (closed form of every modified component as a function of the ghost
iteration counter n) is inferred, then checked: initialisation, preservation, exit."""
import z3, os, time
from . import smt
from .smt import *
from .vals import *
from .cast import Unsupported, type_of


class Unk:
    """leaf bookkeeping"""
    __slots__ = ('loc', 'path', 'psorts', 'sort', 'init', 'ph', 'closed', 'how', 'params', 'rec', 'tried', 'aux')


DEBUG = os.environ.get('CCV_DEBUG')
T0 = time.time()


def short(e, n=300):
    return ' '.join(str(e).split())[:n]


def zero_of(s):
    return {I: z3.IntVal(0), R: z3.RealVal(0)}.get(s)


class LoopX:
    def __init__(self, ex):
        self.ex = ex
        self.hints = [LoopX.sweep]
        self.facts = []          # per active loop: facts about its head states, as a function of the counter

    # -------------------------------------------------------------- repeated search
    def sweep(self, st, cond, inc, body, node, post):
        """while (it != end) { it = find_if(it, end, P); if (it != end) change *it; } : every element from it on that
        satisfies P is changed. The invariant (elements before the iterator are done) is checked on the actual body;
        termination: a changed element no longer satisfies P."""
        ex = self.ex
        if cond is None or inc is not None or post is not None or not mentions(body, 'find_if'):
            return NotImplemented
        from .sx import line_of, DeadPath, Obligation
        base = st
        x = gen('it')
        l = gen('cell')
        done = z3.Const(fresh_name('g!done'), B)

        def one(head):
            ex.std.last_find = None
            try:
                return self.iterate(head, cond, inc, body, post)
            except DeadPath:
                return None, None, None, []
        ex.quiet += 1
        try:
            c, out, hs, exits = one(base.clone())
            if out is None:
                return NotImplemented
            new, poison = self.diff(base, base, out, {})
            its = [(a, p) for a, p, ps, so in new if p[-1:] == ('#idx',) and not ps]
            arr = [(a, p, so) for a, p, ps, so in new if ps == [I]]
            if poison or len(its) != 1 or len(its) + len(arr) != len(new) or not arr or len({a for a, _, _ in arr}) != 1:
                return NotImplemented
            itl, clo = its[0][0], arr[0][0]
            it0 = base.store[itl]
            cv = base.store[clo]
            if not isinstance(it0, Iter) or it0.rev or not isinstance(cv, Vec) or it0.cont.single() is False or it0.cont.single()[0] is not clo:
                return NotImplemented
            start, n = simp(it0.idx), cv.len
            head = base.clone()
            head.store[itl] = Iter(it0.cont, x)
            head.assume(AND(x >= start, x < n))
            c, out, hs, exits = one(head)
            if out is None or exits or ex.std.last_find is None:
                return NotImplemented
            lam = ex.std.last_find[1]
            init, val = {}, {}
            for a, p, so in arr:
                init[p] = self.leaf_of(cv, p).fn
                e = self.leaf_of(out.store[clo], p).fn([l])
                v = None
                es = simp(e)
                if z3.is_app(es) and es.decl().kind() == z3.Z3_OP_ITE:
                    for q in es.children()[1:]:
                        if not contains(q, x) and not q.eq(init[p]([l])):
                            v = q
                if v is None:
                    return NotImplemented
                val[p] = v
            P0 = simp(ex.std.lam_at(lam, [cv.at(l)], out.clone()))
        finally:
            ex.quiet -= 1
        P = lambda i: subst(P0, [(l, i)])

        def state(upto, flag):
            """cells from start up to `upto` (exclusive; and this one itself, if flag) are done"""
            t = {}
            for a, p, so in arr:
                t[p] = lambda ps, p=p: ITE(AND(ps[0] >= start, OR(ps[0] < upto, AND(ps[0] == upto, flag)), P(ps[0])),
                                           subst(val[p], [(l, ps[0])]), init[p](ps))
            return rebuild(cv, t)
        fin = base.clone()
        fin.store[clo] = state(n, z3.BoolVal(False))
        fin.store[itl] = Iter(it0.cont, n)
        if ex.quiet:
            return fin
        # ---- the checked pass
        line = line_of(node)
        head = base.clone()
        head.store[clo] = state(x, done)
        head.store[itl] = Iter(it0.cont, x)
        head.assume(AND(x >= start, x < n))
        c, out, hs, exits = one(head)
        if out is None or exits:
            raise Unsupported('loop at line %s: exits of a repeated search' % line)
        if not ex.entails(head, c):
            ex.oblige('repeated search: loop continues', head, c, node)
        x2 = out.store[itl].idx
        ex.oblige('repeated search: iterator stays in the range', out, AND(x2 >= start, x2 <= n), node)
        ob = lambda lab, s, g: ex.oblige('repeated search (line %s): %s' % (line, lab), s, g, node, assume=False)
        for a, p, so in arr:
            got = self.leaf_of(out.store[clo], p).fn([l])
            for lab, g, want in (('invariant preserved', x2 < n, state(x2, z3.BoolVal(True))), ('all matches changed at the end', x2 == n, fin.store[clo])):
                s = out.clone()
                s.assume(AND(g, l >= 0, l < n))
                ob('%s (%s)' % (lab, '.'.join(p)), s, got == self.leaf_of(want, p).fn([l]))
        new, poison = self.diff(base, head, out, {})
        known = {(itl, ('#idx',))} | {(clo, p) for _, p, _ in arr}
        if poison or any((a, p) not in known for a, p, _, _ in new):
            raise Unsupported('loop at line %s: unstable frame' % line)
        s = out.clone()
        ob('progress', s, OR(x2 > x, AND(x2 == x, NOT(done)), x2 == n))
        # the loop ends exactly at the end of the range
        h2 = base.clone()
        h2.store[clo] = fin.store[clo]
        h2.store[itl] = Iter(it0.cont, n)
        ob('loop ends at the end of the range', h2, NOT(ex.cond(cond, h2)))
        ex.loops.append((ex.frame.func.key, line, [(clo.name + '.' + '.'.join(p), 'every later cell satisfying the predicate is changed') for _, p, _ in arr]))
        return fin

    # -------------------------------------------------------------- one iteration
    def iterate(self, head, cond, inc, body, post):
        ex = self.ex
        saved, ex.exits = ex.exits, []
        try:
            s = head.clone()
            c = TRUE()
            hs = s
            dead = False
            if cond is not None:
                from .sx import DeadPath
                try:
                    c = simp(ex.cond(cond, s))
                except DeadPath:
                    return None, None, None, ex.exits
                hs = s.clone()
                if z3.is_false(c):
                    return c, None, hs, ex.exits
                s.assume(c)
            out = ex.stmt(body, s)
            rest = []
            for x in ex.exits:
                if x.kind == 'continue':
                    from .sx import merge_states
                    out = x.st if out is None else merge_states(out, x.st)[0]
                else:
                    rest.append(x)
            ex.exits = rest
            if out is not None and inc is not None:
                from .sx import DeadPath
                try:
                    ex.ev(inc, out)
                except DeadPath:
                    out = None
            if out is not None and post is not None:
                from .sx import Exit, DeadPath
                pc = simp(ex.cond(post, out))
                b = out.clone()
                b.assume(NOT(pc))
                if ex.feasible(b):
                    ex.exits.append(Exit('break', b))
                out.assume(pc)
                if not ex.feasible(out):
                    out = None
            return c, out, hs, ex.exits
        finally:
            ex.exits = saved

    # -------------------------------------------------------------- differences
    def diff(self, base, head, out, known):
        """leaves of the pre-existing locations whose value differs between head and out"""
        new, poison = [], []
        for l, bv in base.store.items():
            hv = head.store.get(l)
            ov = out.store.get(l)
            if ov is hv:
                continue
            if ov is None:
                continue
            if isinstance(hv, Opaque) or isinstance(ov, Opaque):
                if isinstance(hv, Opaque) and isinstance(ov, Opaque):
                    continue
                poison.append(l)
                continue
            if z3.is_expr(hv) and z3.is_expr(ov) and hv.sort() == ov.sort():
                pass
            elif type(hv) is not type(ov) or isinstance(hv, (Lambda, FuncRef)):
                poison.append(l)
                continue
            if not self.same_shape(hv, ov):
                poison.append(l)
                continue
            hl = {x.path: x for x in leaves(hv)}
            for x in leaves(ov):
                h = hl.get(x.path)
                if h is None:
                    poison.append(l)
                    break
                ps = [z3.Const('g!d%d_%s' % (i, s.name()), s) for i, s in enumerate(x.psorts)]
                a, b = x.fn(ps), h.fn(ps)
                if not a.eq(b) and not simp(a).eq(simp(b)):
                    if (l, x.path) not in known:
                        new.append((l, x.path, x.psorts, a.sort()))
        return new, poison

    def same_shape(self, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and same_ptr(a, b)
        if isinstance(a, Iter):
            return isinstance(b, Iter) and same_ptr(a.cont, b.cont)
        if isinstance(a, Struct):
            return isinstance(b, Struct) and a.cls == b.cls and all(self.same_shape(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, Block):
            return isinstance(b, Block) and a.alive.eq(b.alive)
        return True

    # -------------------------------------------------------------- loops with a fixed number of iterations
    def unrolled(self, st, cond, inc, body, post):
        """for contracts that ask for it: a loop whose condition is decided by constants, at most ex.unroll times true, is
        executed iteration by iteration (exact: every iteration is executed, and the condition is false after the last)"""
        ex = self.ex
        from .sx import DeadPath, merge_states
        if cond is None or post is not None:
            return NotImplemented

        def decided(s):
            ex.quiet += 1
            saved, ex.exits = ex.exits, []
            try:
                return simp(ex.cond(cond, s.clone()))
            except DeadPath:
                return None
            finally:
                ex.quiet -= 1
                ex.exits = saved
        # (a dry run decides whether the loop is one of these, before any obligation is generated)
        ends = []
        cur = st
        nob, nex, nlo = len(ex.obls), len(ex.exits), len(ex.loops)

        def give_up():
            del ex.obls[nob:]
            del ex.exits[nex:]
            del ex.loops[nlo:]
            return NotImplemented
        for k in range(ex.unroll + 1):
            c = decided(cur)
            if c is None or not (z3.is_true(c) or z3.is_false(c)) or z3.is_false(c) and k == 0:
                return give_up()
            if z3.is_true(c) and k == ex.unroll:
                return give_up()
            c, out, hs, exits = self.iterate(cur, cond, inc, body, post)
            for x in exits:
                if x.kind == 'break':
                    ends.append(x.st)
                else:
                    ex.exits.append(x)
            if z3.is_false(c):
                ends.append(hs)
                break
            if out is None:
                break
            cur = out
        if not ends:
            return None
        r = ends[0]
        for q in ends[1:]:
            r = merge_states(r, q)[0]
        return r

    # -------------------------------------------------------------- the rule
    def run(self, st, init, cond, inc, body, node, post=None):
        ex = self.ex
        from .sx import line_of, DeadPath, Exit, merge_states, State, cpc
        base = st
        depth = len(ex.gens)
        nid = node.get('id', '?')
        n = z3.Const('g!n_%s_%d' % (nid, depth), I)
        line = line_of(node)
        # first iteration infeasible?
        if cond is not None:
            pass
        for h in self.hints:
            r = h(self, st, cond, inc, body, node, post)
            if r is not NotImplemented:
                return r
        if ex.unroll and not ex.gens:
            r = self.unrolled(st, cond, inc, body, post)
            if r is not NotImplemented:
                return r
        unks = {}
        poisoned = set()
        U = None
        Uinfo = None
        passes = 0
        shapes = {l: (l.shape, l.prov) for l in base.store if isinstance(base.store[l], Block)}
        final = False
        while True:
            passes += 1
            if passes > 14:
                raise Unsupported('loop at line %s: no invariant found' % line)
            head = self.head(base, unks, poisoned, n)
            if U is not None:
                head.assume(n < U)
            ex.quiet += 1
            ex.gens.append(n)
            try:
                c, out, hs, exits = self.iterate(head, cond, inc, body, post)
            finally:
                ex.gens.pop()
                ex.quiet -= 1
            if c is None:
                # the condition itself never completes
                raise Unsupported('loop condition always exits')
            if out is None:
                break
            new, poison = self.diff(base, head, out, unks)
            # conditions with side effects on the exit path
            again = False
            for l in poison:
                if l not in poisoned:
                    poisoned.add(l)
                    again = True
            for l, path, psorts, sort in new:
                u = Unk()
                u.loc, u.path, u.psorts, u.sort = l, path, psorts, sort
                u.closed, u.how, u.rec, u.tried, u.aux = None, None, None, 0, None
                nm = 'ph_%s_%d_%d_%s' % (nid, depth, l.id, '.'.join(path))
                u.params = [z3.Const('g!p%d_%s_%d_%s' % (i, nid, depth, s.name()), s) for i, s in enumerate(psorts)]
                lf = [x for x in leaves(base.store[l]) if x.path == path]
                if not lf:
                    poisoned.add(l)
                    continue
                u.init = lf[0].fn(u.params)
                if psorts:
                    F = z3.Function(nm, *(psorts + [sort]))
                    u.ph = F
                else:
                    u.ph = z3.Const(nm, sort)
                unks[(l, path)] = u
                again = True
            if again:
                continue
            # remove provisional shapes before the next pass
            # trip count
            if cond is not None and U is None or post is not None and U is None:
                src = c
                u0 = self.bound(simp2(c), n, base, unks)
                if u0 is not None:
                    U = u0
                    again = True
            unsolved = [u for u in unks.values() if u.closed is None]
            if DEBUG:
                print('%s[%s] pass %d t=%.1f cond=%s U=%s' % ('  ' * depth, line, passes, time.time() - T0, short(c), short(U)))
                for u in unks.values():
                    lf = self.leaf_of(out.store[u.loc], u.path)
                    print('%s   %s%s: %s | %s' % ('  ' * depth, u.loc.name, '.'.join(u.path), u.how if u.closed is not None else 'UNSOLVED', short(simp(lf.fn(u.params)))))
            if unsolved:
                progress = self.solve(unsolved, unks, out, head, n, base, U)
                given = [] if progress else [u for u in unsolved if self.given(u, n, base)]
                if progress or given:
                    continue
                if U is not None and again:
                    continue
                # recursion fallback for all of the remaining leaves
                self.recfallback(unsolved, n, base)
                continue
            if again:
                continue
            break
        if out is None and c is not None:
            # no normal iteration completes: at most one (partial) iteration
            pass
        bound_from_post = False
        facts = None
        if U is None or any(u.rec is not None or u.aux is not None for u in unks.values()):
            facts, V = self.infer_facts(base, unks, poisoned, n, U, cond, inc, body, post, line)
            if U is None and V is not None:
                U = simp(V + 1)
        if U is None:
            if out is None:
                U = z3.IntVal(1)
                bound_from_post = True
            else:
                U = self.postbound(post, n, base, unks, exits)
                bound_from_post = True
                if U is None:
                    raise Unsupported('loop at line %s: no termination measure found' % line)
        U = simp(U)
        # ---- define the recursive leaves, then the checked pass
        tries = 0
        while True:
            tries += 1
            if tries > 4:
                raise Unsupported('loop at line %s: invariant not inductive' % line)
            recs = [u for u in unks.values() if u.rec is not None or u.aux is not None]
            if recs:
                self.define_recs(recs, unks, base, poisoned, n, U, cond, inc, body, post, facts)
            head = self.head(base, unks, poisoned, n)
            head.assume(n < U)
            for f in (facts(n) if facts else []):
                head.assume(f)
            npc = len(head.pc)
            ex.gens.append(n)
            nob = len(ex.obls)
            nlo = len(ex.loops)
            try:
                if not ex.feasible(head):
                    c, out, hs, exits = z3.BoolVal(False), None, head.clone(), []
                else:
                    c, out, hs, exits = self.iterate(head, cond, inc, body, post)
            finally:
                ex.gens.pop()
            if out is None:
                break
            bad = []
            pend = []
            for u in unks.values():
                if u.rec is not None:
                    continue
                ov = self.leaf_of(out.store[u.loc], u.path)
                got = ov.fn(u.params)
                want = subst(u.closed, [(n, n + 1)])
                goal = got == want
                r = None
                if simp(goal).eq(TRUE()):
                    r = Result(True, 'simplifier', '', 0)
                else:
                    r = prove(list(out.pc), goal, 1500 if ex.quiet else 4000, quick=bool(ex.quiet))
                if not r.ok:
                    bad.append(u)
                    continue
                pend.append(('preserved', u, goal, r))
                ini = subst(u.closed, [(n, z3.IntVal(0))]) == u.init
                if simp(ini).eq(TRUE()):
                    r = Result(True, 'simplifier', '', 0)
                else:
                    r = prove(list(base.pc), ini, 1500 if ex.quiet else 4000, quick=bool(ex.quiet))
                if not r.ok:
                    bad.append(u)
                else:
                    pend.append(('holds at the start', u, ini, r))
            new, poison = self.diff(base, head, out, unks)
            if new or [p for p in poison if p not in poisoned]:
                raise Unsupported('loop at line %s: unstable frame' % line)
            if bad:
                del ex.obls[nob:]
                del ex.loops[nlo:]
                self.recfallback(bad, n, base)
                continue
            if not ex.quiet:
                from .sx import Obligation
                for w, u, goal, r in pend:
                    o = Obligation('loop invariant %s (%s%s)' % (w, u.loc.name, ''.join('.' + p for p in u.path)),
                                   [], goal, '%s:%s' % (ex.frame.func.key, line), ex.frame.func.key)
                    o.result = r
                    ex.obls.append(o)
            break
        if not ex.quiet:
            ex.loops.append((ex.frame.func.key, line, [(u.loc.name + ''.join('.' + p for p in u.path), u.how) for u in unks.values()]))
        # ---- exits
        X = []
        live = []
        for x in exits:
            rel = cpc(x.st, npc)
            if not ex.feasible(x.st):
                continue
            X.append(rel)
            live.append((x, rel))
        # the loop condition fails before the bound U
        crel = None
        if cond is not None and not z3.is_true(simp(c)):
            h2 = hs.clone()
            h2.assume(NOT(c))
            if ex.feasible(h2):
                crel = cpc(h2, npc)
                X.append(crel)
        UM = U if ex.entails(base, U >= 0) else ITE(U >= 0, U, z3.IntVal(0))
        results = []
        Xall = simp(OR(X)) if X else z3.BoolVal(False)
        if z3.is_false(Xall):
            N = UM
        else:
            N = FIRST(UM, lambda k: subst(Xall, [(n, k)]))
        # normal exit at the bound: condition evaluated false there
        fin = self.head(base, unks, poisoned, N, raw=True)
        fin.pc[:] = list(base.pc)
        for f in (facts(N) if facts else []):
            fin.assume(f)
        if not z3.is_false(Xall):
            fin.assume(N == UM)
        if bound_from_post:
            if ex.feasible(fin) and not prove(list(base.pc), NOT(N == UM), 3000).ok:
                raise Unsupported('loop at line %s: termination not established' % line)
            fin = None
        elif cond is not None:
            # (side effects of) the condition evaluation at the exit
            fs = fin.clone()
            saved, ex.exits = ex.exits, []
            try:
                cc = ex.cond(cond, fs)
                saved += ex.exits
                if not ex.entails(fs, NOT(cc), 2000) and ex.feasible(fs):
                    raise Unsupported('loop at line %s: bound does not end the loop' % line)
                fin = fs
            except DeadPath:
                saved += ex.exits
                fin = None
            finally:
                ex.exits = saved
        if fin is not None and ex.feasible(fin):
            results.append(fin)
        sub = [(n, N)]
        if crel is not None:
            s = self.exit_state(h2, base, npc, n, N, UM, facts)
            if s is not None:
                results.append(s)
        for x, rel in live:
            s = self.exit_state(x.st, base, npc, n, N, UM, facts)
            if s is None:
                continue
            if x.kind == 'break':
                results.append(s)
            else:
                v = substv(x.val, sub) if isinstance(x.val, Value) or z3.is_expr(x.val) else x.val
                ex.exits.append(Exit(x.kind, s, v))
        if not results:
            return None
        r = results[0]
        for q in results[1:]:
            r = merge_states(r, q)[0]
        return r

    def exit_state(self, s, base, npc, n, N, UM, facts=None):
        from .sx import State
        r = State(list(base.pc))
        r.assume(N < UM)
        r.assume(N >= 0)
        for f in (facts(N) if facts else []):
            r.assume(f)
        for f in s.pc[npc:]:
            r.assume(subst(f, [(n, N)]))
        if not self.ex.feasible(r):
            return None
        for l, v in s.store.items():
            bv = base.store.get(l)
            if v is bv:
                r.store[l] = v
            else:
                r.store[l] = substv(v, [(n, N)])
        for l in s.store:
            if l.shape is not None and l not in base.store:
                l.shape = tuple(subst(x, [(n, N)]) for x in l.shape)
        return r

    def leaf_of(self, v, path):
        for x in leaves(v):
            if x.path == path:
                return x
        raise Unsupported('leaf lost')

    def head(self, base, unks, poisoned, n, raw=False):
        """loop head state at iteration n"""
        s = base.clone()
        if not raw:
            s.pc.append(n >= 0)
        tabs = {}
        for (l, path), u in unks.items():
            tabs.setdefault(l, {})[path] = self.leaf_fn(u, n)
        for l, t in tabs.items():
            s.store[l] = rebuild(base.store[l], t)
        for l in poisoned:
            s.store[l] = Opaque('modified by a loop: ' + l.name)
        return s

    def leaf_fn(self, u, n):
        if u.closed is not None:
            closed, params = u.closed, u.params
            nv = self._nvar

            def f(ps, closed=closed):
                return subst(closed, list(zip(params, ps)) + [(u_n(u), n)])
            return f
        if u.psorts:
            return lambda ps: u.ph(*ps)
        return lambda ps: u.ph

    _nvar = None

    # -------------------------------------------------------------- guessing
    def solve(self, unsolved, unks, out, head, n, base, U):
        """try to find closed forms for unsolved leaves whose updates only depend on solved ones and themselves"""
        ex = self.ex
        phs = {}
        for u in unsolved:
            phs[(u.ph.name() if u.psorts else u.ph.decl().name())] = u

        def deps(e):
            r = set()
            for t in subterms(e):
                if z3.is_app(t):
                    nm = t.decl().name()
                    if nm in phs:
                        r.add(nm)
            return r
        solved = []
        known = path_facts(out, base)
        ups = {}
        for u in unsolved:
            lf = self.leaf_of(out.store[u.loc], u.path)
            ups[id(u)] = under(lf.fn(u.params), known)
        # 1. scalars, linear first
        for stage in ('linear', 'other', 'array', 'guess'):
            before = bool(solved)
            for u in unsolved:
                e = ups[id(u)]
                me = u.ph.name() if u.psorts else u.ph.decl().name()
                se = simp(e)
                d = deps(se)
                if not u.psorts:
                    if stage == 'linear':
                        if se.eq(u.ph):
                            u.closed, u.how = u.init, 'unchanged'
                            set_n(u, n)
                            solved.append(u)
                            continue
                        if u.sort in (I, R) and d <= {me}:
                            t = simp(e - u.ph)
                            if contains(t, u.ph):
                                t = simp(subst(e, [(u.ph, zero_of(u.sort))]))
                                if not self.valid(out, e == u.ph + t):
                                    t = None
                            if t is not None and not deps(t) and not contains(t, n):
                                nn = n if u.sort == I else z3.ToReal(n)
                                u.closed, u.how = simp(u.init + nn * t), 'linear in the iteration counter'
                                set_n(u, n)
                                solved.append(u)
                    elif stage == 'other' and not before:
                        if d - {me}:
                            continue
                        if self.solve_scalar(u, e, n, out):
                            solved.append(u)
                elif stage == 'array' and not before and not self.candidates(u):
                    if d - {me}:
                        continue
                    if self.solve_array(u, e, n, out, head, base):
                        solved.append(u)
            if solved:
                return True
        return False

    def valid(self, st, goal, timeout=1500):
        g = simp(goal)
        if z3.is_true(g):
            return True
        return prove(list(st.pc), g, timeout, quick=True).ok

    def solve_scalar(self, u, e, n, out):
        se = simp(e)
        if not contains(se, u.ph):
            prev = subst(se, [(n, n - 1)])
            u.closed, u.how = ITE(n <= 0, u.init, prev), 'assigned in every iteration'
            set_n(u, n)
            return True
        if u.sort in (I, R):
            t = simp(subst(e, [(u.ph, zero_of(u.sort))]))
            if not contains(t, u.ph) and self.valid(out, e == u.ph + t):
                u.closed = u.init + SUM(n, lambda k: subst(t, [(n, k)]))
                u.how = 'finite sum over the iterations'
                set_n(u, n)
                return True
        ch = self.split(e, u.ph, u.sort)
        if ch is None:
            return False
        chg, val = ch
        if contains(chg, u.ph) or contains(val, u.ph):
            return False
        chg = simp(chg)
        L = LAST(n, lambda k: subst(chg, [(n, k)]))
        u.closed = ITE(L >= 0, subst(val, [(n, L)]), u.init)
        u.how = 'value written by the last iteration that writes it'
        set_n(u, n)
        return True

    def split(self, e, ph, sort):
        """e as (changed-condition, new value) relative to the old value ph"""
        if sort == B:
            e1 = simp(subst(e, [(ph, z3.BoolVal(True))]))
            e0 = simp(subst(e, [(ph, z3.BoolVal(False))]))
            # e == ph (unchanged) iff e1 and not e0 ; negation is not supported
            if not prove([], NOT(AND(NOT(e1), e0)), 800, quick=True).ok:
                return None
            return simp(NOT(AND(e1, NOT(e0)))), e1
        memo = {}

        def go(x):
            k = x.get_id()
            if k in memo:
                return memo[k]
            if x.eq(ph):
                r = (z3.BoolVal(False), None)
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = x.children()
                ra, rb = go(a), go(b)
                chg = simp(ITE(c, ra[0], rb[0]))
                if ra[1] is None:
                    v = rb[1]
                elif rb[1] is None:
                    v = ra[1]
                else:
                    v = ITE(c, ra[1], rb[1])
                r = (chg, v)
            else:
                r = (z3.BoolVal(True), x)
            memo[k] = r
            return r
        chg, val = go(simp(e))
        if val is None:
            return None
        return chg, val

    def solve_array(self, u, e, n, out, head, base):
        me = u.ph(*u.params)
        e = own_cells(e, me, u.params)
        ch = self.split(e, me, u.sort)
        if ch is None:
            se = simp(e)
            if se.eq(me):
                u.closed, u.how = u.init, 'unchanged'
                set_n(u, n)
                return True
            return False
        chg, val = ch
        # an accumulator: a cell that changes is computed from its own old value
        reads = {t.get_id(): t for x in (chg, val) for t in subterms(x) if z3.is_app(t) and t.num_args() > 0 and t.decl().eq(u.ph)}
        if reads and u.sort in (I, R):
            own = [t for t in reads.values() if t.eq(me) or (not contains(t, n) and self.valid(out, IMP(chg, AND([a == b for a, b in zip(t.children(), u.params)]))))]
            if len(own) == len(reads):
                v1 = z3.substitute(val, *[(t, me) for t in own])
                c1 = z3.substitute(chg, *[(t, me) for t in own])
                zero = zero_of(u.sort)
                tt = simp(ITE(c1, z3.substitute(v1, (me, zero)), zero)) if not any(x.eq(me) for x in subterms(c1)) else None
                if tt is not None and not any(x.eq(me) for x in subterms(tt)) and self.valid(out, e == me + tt):
                    if not contains(tt, n):
                        c, tt = invariant_part(tt, n, zero)
                        u.closed, u.how = simp(u.init + ITE(c, (n if u.sort == I else z3.ToReal(n)) * tt, zero)), 'every cell linear in the iteration counter'
                    else:
                        c, tt = invariant_part(tt, n, zero)
                        u.closed = u.init + ITE(c, SUM(n, lambda k: subst(tt, [(n, k)])), zero)
                        u.how = 'every cell a finite sum over the iterations'
                    set_n(u, n)
                    return True
        # reads of the array elsewhere: try the value at loop entry (checked by the preservation proof)
        reads = []
        for x in (chg, val):
            for t in subterms(x):
                if z3.is_app(t) and t.num_args() > 0 and t.decl().eq(u.ph):
                    reads.append(t)
        if reads:
            if u.how == 'tried':
                return False
            sub = [(t, subst(u.init, list(zip(u.params, t.children())))) for t in reads]
            for _ in range(3):
                chg, val = z3.substitute(chg, *sub), z3.substitute(val, *sub)
            if any(z3.is_app(t) and t.num_args() > 0 and t.decl().eq(u.ph) for x in (chg, val) for t in subterms(x)):
                return False
        chg, val = simp(liftcmp(simp(chg))), simp(val)
        if not contains(chg, n):
            u.closed = ITE(AND(n > 0, chg), subst(val, [(n, n - 1)]), u.init)
            u.how = 'same cells written by every iteration'
            set_n(u, n)
            return True
        for g in self.inverses(chg, n, u.params):
            if self.valid(out_range(out, head), IMP(chg, n == g)):
                u.closed = ITE(AND(g >= 0, g < n, subst(chg, [(n, g)])), subst(val, [(n, g)]), u.init)
                u.how = 'cell p written by iteration %s' % str(g)[:60]
                set_n(u, n)
                return True
        fix = [c for c in conjuncts(chg) if not contains(c, n)]
        chg = simp(AND([c for c in conjuncts(chg) if contains(c, n)]))
        L = LAST(n, lambda k: subst(chg, [(n, k)]))
        u.closed = ITE(AND(fix + [L >= 0]), subst(val, [(n, L)]), u.init)
        u.how = 'value written by the last iteration that writes the cell'
        set_n(u, n)
        return True

    def inverses(self, chg, n, params):
        out = []
        for t in subterms(chg):
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_EQ,) and t.arg(0).sort() == I and contains(t, n):
                l = linear_in(t.arg(0) - t.arg(1), n)
                if l is None or abs(l[0]) != 1:
                    continue
                a, b = l
                g = simp(-b if a == 1 else b)
                if any(contains(g, p) for p in params if p.sort() == I) and not any(g.eq(x) for x in out):
                    out.append(g)
        return out

    def candidates(self, u):
        return [fn for loc, path, fn in self.ex.candidates if (loc is u.loc and u.path[:len(path)] == path or loc is None and u.path == path)][u.tried:]

    def given(self, u, n, base):
        """the next invariant given by the contract that holds at the start (preservation is checked later)"""
        for fn in self.candidates(u):
            u.tried += 1
            e = fn(n, u.params, u)
            if e is None or e.sort() != u.sort:
                continue
            ini = subst(e, [(n, z3.IntVal(0))]) == u.init
            if prove(list(base.pc), ini, 1500, quick=True).ok:
                u.closed, u.how, u.rec = e, 'invariant given by the contract', None
                set_n(u, n)
                return True
        return False

    def recfallback(self, us, n, base):
        ex = self.ex
        for u in us:
            if self.given(u, n, base):
                continue
            if u.sort == S and not u.psorts and u.aux is None:
                # what is left of a text that is consumed from the front: only the position is unknown
                r = RecFn('pos', [], I, list(ex.gens))
                u.aux = r
                u.closed = z3.SubString(u.init, r(n), z3.Length(u.init) - r(n))
                u.how = 'rest of the text from a recursively defined position'
                set_n(u, n)
                continue
            u.aux = None
            r = RecFn('', u.psorts, u.sort, list(ex.gens))
            u.rec = r
            u.closed = r(n, u.params)
            u.how = 'recursively defined by the loop body'
            set_n(u, n)

    def define_recs(self, recs, unks, base, poisoned, n, U, cond, inc, body, post, facts=None):
        """R(0)=init, R(n+1) = effect of the body on the state at n"""
        ex = self.ex
        recs = [u for u in recs if (u.rec or u.aux).name not in smt.DEFS]
        if not recs:
            return
        head = self.head(base, unks, poisoned, n)
        if U is not None:
            head.assume(n < U)
        for f in (facts(n) if facts else []):
            head.assume(f)
        ex.quiet += 1
        ex.gens.append(n)
        try:
            c, out, hs, exits = self.iterate(head, cond, inc, body, post)
        finally:
            ex.gens.pop()
            ex.quiet -= 1
        if out is None:
            raise Unsupported('recursive definition of a loop that never iterates')
        for u in recs:
            lf = self.leaf_of(out.store[u.loc], u.path)
            if u.rec is None:
                u.aux.define(n, [], z3.IntVal(0), simp(startpos(u.init, lf.fn([]))))
                continue
            u.rec.define(n, u.params, u.init, simp(lf.fn(u.params)))

    # -------------------------------------------------------------- facts about recursively defined components
    def infer_facts(self, base, unks, poisoned, n, U, cond, inc, body, post, line):
        """candidate facts (automatic and offered by the contract) about the loop's state, kept when inductive;
        and a measure that every iteration decreases when there is no other bound of the trip count"""
        ex = self.ex
        us = [u for u in unks.values() if not u.psorts]
        if not us:
            return None, None

        def vals(f):
            return [f(u) for u in us]

        def cands(vs):
            """(label, formula) for the values vs of the components us"""
            out = []
            for u, v in zip(us, vs):
                if u.sort == S and u.init is not None:
                    i = u.init
                    out.append(('not longer than at the start', z3.Length(v) <= z3.Length(i)))
                    if u.aux is not None:
                        p = startpos(i, v)
                        out.append(('position in the text', AND(p >= 0, p <= z3.Length(i))))
                if u.sort == I:
                    out.append(('not negative', v >= 0))
            for u, v in zip(us, vs):
                for w, x in zip(us, vs):
                    if u.sort == S and w.sort == I:
                        if u.aux is not None:
                            out.append(('position of the rest of the text', x == startpos(u.init, v) + w.init))
                        else:
                            out.append(('position and rest of the text', z3.Length(v) + x == z3.Length(u.init) + w.init))
            for fn in ex.fact_candidates:
                out += fn([(u.loc.name, u.init, v) for u, v in zip(us, vs)])
            return out

        def measures(vs):
            out = []
            for u, v in zip(us, vs):
                if u.sort == S:
                    out.append(z3.Length(v))
                    for w, x in zip(us, vs):
                        if w.sort == I:
                            out.append(2 * z3.Length(v) + ITE(x == 2 ** 64 - 1, z3.IntVal(0), z3.IntVal(1)))
            for fn in ex.measure_candidates:
                out += fn([(u.loc.name, u.init, v) for u, v in zip(us, vs)])
            return out
        hv = vals(lambda u: self.leaf_fn(u, n)(()))
        iv = vals(lambda u: subst(u.closed, [(n, z3.IntVal(0))]) if u.rec is None and u.aux is None else u.init)
        ch, ci = cands(hv), cands(iv)
        keep = [k for k in range(len(ch)) if prove(list(base.pc), ci[k][1], 1500, quick=True).ok]
        need = U is None
        if not keep and not need:
            return None, None
        while True:
            head = self.head(base, unks, poisoned, n)
            if U is not None:
                head.assume(n < U)
            for k in keep:
                head.assume(ch[k][1])
            ex.quiet += 1
            ex.gens.append(n)
            try:
                c, out, hs, exits = self.iterate(head, cond, inc, body, post)
            finally:
                ex.gens.pop()
                ex.quiet -= 1
            if out is None:
                break
            ov = vals(lambda u: self.leaf_of(out.store[u.loc], u.path).fn(()))
            co = cands(ov)
            bad = [k for k in keep if not prove(list(out.pc), co[k][1], 2500, quick=True).ok]
            if not bad:
                break
            keep = [k for k in keep if k not in bad]
        V = None
        extra = []
        if need and out is not None:
            mi, mh, mo = measures(iv), measures(hv), measures(ov)
            for a, b, d in zip(mi, mh, mo):
                if prove(list(head.pc), b >= 0, 1500, quick=True).ok and prove(list(out.pc), d <= b - 1, 2500, quick=True).ok:
                    V = simp(a)
                    extra.append(simp(b + n) <= V)
                    break
        if not ex.quiet:
            from .sx import Obligation
            for k in keep:
                for w, (st, f) in (('holds at the start', (base, ci[k][1])),) + ((('is preserved', (out, co[k][1])),) if out is not None else ()):
                    ex.obls.append(Obligation('loop fact %s (%s)' % (w, ch[k][0]), list(st.pc), f, '%s:%s' % (ex.frame.func.key, line), ex.frame.func.key))
            if extra:
                ex.obls.append(Obligation('loop measure decreases', list(out.pc), d <= b - 1, '%s:%s' % (ex.frame.func.key, line), ex.frame.func.key))
                ex.obls.append(Obligation('loop measure is not negative', list(head.pc), b >= 0, '%s:%s' % (ex.frame.func.key, line), ex.frame.func.key))
        fs = [ch[k][1] for k in keep] + extra
        if not fs:
            return None, V
        return (lambda m: [simp(subst(f, [(n, m)])) for f in fs]), V

    # -------------------------------------------------------------- trip counts
    def bound(self, c, n, base, unks):
        best = None
        for cj in conjuncts(c):
            b = self.bound1(cj, n, base, unks)
            if b is not None:
                best = b if best is None else ITE(b < best, b, best)
        return best

    def bound1(self, c, n, base, unks):
        neg = False
        while z3.is_not(c):
            c = c.arg(0)
            neg = not neg
        if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != I:
            return None
        k = c.decl().kind()
        ops = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}
        if k not in ops:
            return None
        op = ops[k]
        if neg:
            op = {'<=': '>', '<': '>=', '>=': '<', '>': '<=', '==': '!=', '!=': '=='}[op]
        d = nowrap(c.arg(0)) - nowrap(c.arg(1))
        for u in unks.values():
            if u.closed is None:
                nm = u.ph.name() if u.psorts else u.ph.decl().name()
                for t in subterms(d):
                    if z3.is_app(t) and t.decl().name() == nm:
                        return None
        l = linear_in(d, n)
        if l is None:
            return None
        a, b = l       # a*n + b  op 0
        if a == 0:
            return None
        if op in ('>', '>='):
            a, b = -a, simp(-b)
            op = {'>': '<', '>=': '<='}[op]
        if op in ('<', '<='):
            # a*n + b < 0
            if a < 0:
                return None
            num = -b if op == '<' else -b + 1
            if a == 1:
                return simp(num)
            return simp((num + (a - 1)) / a)
        if op == '!=':
            if abs(a) != 1:
                return None
            t = simp(-b if a == 1 else b)
            if self.ex.entails(base, t >= 0):
                return t
        return None

    def postbound(self, post, n, base, unks, exits):
        """bound of a loop left by break only: an exit condition that certainly holds from some iteration on"""
        best = None
        kinds = {x.kind for x in exits}
        for x in exits:
            if x.kind != 'break' and 'break' in kinds:
                continue
            # the negation of (one of) the conjuncts of the exit condition is linear
            for f in x.st.pc[len(base.pc):]:
                b = self.bound1(simp2(NOT(f)), n, base, unks)
                if b is not None:
                    b = ITE(b >= 0, b, z3.IntVal(0)) + 1
                    if x.kind == 'break':
                        best = b if best is None else best
                    else:
                        best = b if best is None else best if b.eq(best) else ITE(b > best, b, best)
        return best


def path_facts(out, base):
    """atoms known to be true or false on the path"""
    r, todo = [], [f for f in out.pc[len(base.pc):]]
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo += f.children()
        elif z3.is_quantifier(f):
            continue
        elif z3.is_not(f):
            if z3.is_or(f.arg(0)):
                todo += [NOT(x) for x in f.arg(0).children()]
            else:
                r.append((f.arg(0), z3.BoolVal(False)))
        elif not z3.is_true(f):
            r.append((f, z3.BoolVal(True)))
    return r


def under(e, known):
    if not known or not any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms(e)):
        return e
    return z3.substitute(e, *known)


def invariant_part(t, n, zero):
    """t as (c, t1): t1 if c, else zero, with c independent of the iteration"""
    cs = []
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and simp(t.arg(2)).eq(simp(zero)):
        fix = [c for c in conjuncts(t.arg(0)) if not contains(c, n)]
        if not fix:
            break
        cs += fix
        t = simp(ITE(AND([c for c in conjuncts(t.arg(0)) if contains(c, n)]), t.arg(1), t.arg(2)))
    return (AND(cs) if cs else z3.BoolVal(True)), t


def own_cells(e, me, params):
    """below a condition param == t, reads of the array at t are reads of the cell itself"""
    memo = {}

    def go(x, eqs):
        k = (x.get_id(), tuple(a.get_id() for a, b in eqs))
        if k in memo:
            return memo[k]
        if not z3.is_app(x) or not x.children():
            r = x
        elif x.decl().eq(me.decl()):
            r = x
            if eqs and not x.eq(me):
                y = x.decl()(*[p if a.eq(p) or any(q.eq(p) and b.eq(a) for q, b in eqs) else a for a, p in zip(x.children(), params)])
                if y.eq(me):
                    r = me
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = x.children()
            new = list(eqs)
            for q in conjuncts(c):
                if z3.is_eq(q):
                    for l, t in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                        if any(l.eq(p) for p in params):
                            new.append((l, t))
            r = z3.If(c, go(a, new), go(b, eqs))
        else:
            r = x
        memo[k] = r
        return r
    return go(e, [])


def nowrap(e):
    """e as if unsigned subtractions in it did not wrap around (only to guess a bound)"""
    if z3.is_app(e) and e.num_args():
        if e.decl().kind() == z3.Z3_OP_ITE and e.sort() == I:
            for a, b in ((e.arg(1), e.arg(2)), (e.arg(2), e.arg(1))):
                d = simp(b - a)
                if z3.is_int_value(d) and abs(d.as_long()) in (2 ** 64, 2 ** 32):
                    return nowrap(a if d.as_long() > 0 else b)
        if e.sort() == I and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return simp(e.decl()(*[nowrap(x) for x in e.children()]))
    return e


def startpos(base, e):
    """where the rest e of the text base starts"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return ITE(e.arg(0), startpos(base, e.arg(1)), startpos(base, e.arg(2)))
    if e.eq(base):
        return z3.IntVal(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and e.arg(0).eq(base) and simp(e.arg(1) + e.arg(2)).eq(simp(z3.Length(base))):
        return e.arg(1)
    return z3.Length(base) - z3.Length(e)


def mentions(n, name):
    if isinstance(n, dict):
        rd = n.get('referencedDecl')
        if rd and rd.get('name') == name:
            return True
        return any(mentions(x, name) for x in n.get('inner') or [])
    return False


def out_range(out, head):
    return head


def u_n(u):
    return u.ph_n


def set_n(u, n):
    u.ph_n = n


Unk.__slots__ = Unk.__slots__


class _Unk(Unk):
    __slots__ = ('ph_n',)


Unk = _Unk


def conjuncts(c):
    if z3.is_and(c):
        for x in c.children():
            yield from conjuncts(x)
    else:
        yield c


def simp2(c):
    return c
