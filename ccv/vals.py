"""Values of the symbolic executor."""
import z3
from .smt import *
from .cast import Unsupported

_loc = __import__('itertools').count()


class Loc:
    __slots__ = ('id', 'name', 'heap', 'shape', 'prov', 'frozen', 'ty', 'factors', 'born')

    def __init__(self, name, ty=None, heap=False):
        self.id = next(_loc)
        self.name, self.ty, self.heap = name, ty, heap
        self.shape = None      # committed block shape (3 terms)
        self.prov = None       # provisional shape (guess phases)
        self.frozen = False
        self.factors = None

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Value:
    pass


# classes whose objects are seen only through the contracts of their methods: class -> {ghost field: type}
ABSTRACT = {}


class Ptr(Value):
    """pointer / lvalue: list of (guard, target); target None (null) or (Loc, path)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def to(loc, path=()):
        return Ptr([(TRUE(), (loc, tuple(path)))])

    @staticmethod
    def null():
        return Ptr([(TRUE(), None)])

    def single(self):
        if len(self.alts) == 1:
            return self.alts[0][1]
        return False

    def field(self, *p):
        out = []
        for g, t in self.alts:
            if t is None:
                raise Unsupported('member of null')
            out.append((g, (t[0], t[1] + tuple(p))))
        return Ptr(out)

    def __repr__(self):
        return 'Ptr(%s)' % self.alts


class Frozen(Value):
    """pointer stored in a container: snapshot of the (no longer modified) pointee"""
    __slots__ = ('val', 'ty')

    def __init__(self, val, ty):
        self.val, self.ty = val, ty


class Struct(Value):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, name, v):
        d = dict(self.f)
        d[name] = v
        return Struct(self.cls, d)

    def __repr__(self):
        return 'Struct(%s,%s)' % (self.cls, self.f)


class Vec(Value):
    __slots__ = ('len', 'fn', 'ety', 'memo')

    def __init__(self, len_, fn, ety):
        self.len = z3.IntVal(len_) if isinstance(len_, int) else len_
        self.fn, self.ety = fn, ety
        self.memo = {}

    def at(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        k = i.get_id()
        m = self.memo.get(k)
        if m is not None and m[0].eq(i):
            return m[1]
        v = self.fn(i)
        self.memo[k] = (i, v)
        return v

    def __repr__(self):
        return 'Vec(%s)' % self.len


class Block(Value):
    """heap array of doubles; content indexed by 3 coordinates (shape on the Loc)"""
    __slots__ = ('size', 'fn', 'alive', 'memo')

    def __init__(self, size, fn, alive=True):
        self.size, self.fn = size, fn
        self.alive = z3.BoolVal(alive) if isinstance(alive, bool) else alive
        self.memo = {}

    def at(self, a, b, c):
        k = (a.get_id(), b.get_id(), c.get_id())
        m = self.memo.get(k)
        if m is not None:
            return m[3]
        v = self.fn(a, b, c)
        self.memo[k] = (a, b, c, v)
        return v


class Content(Value):
    """frozen matrix content (shape, fn3)"""
    __slots__ = ('shape', 'fn', 'memo')

    def __init__(self, shape, fn):
        self.shape, self.fn = shape, fn


class Iter(Value):
    __slots__ = ('cont', 'idx', 'rev')

    def __init__(self, cont, idx, rev=False):
        self.cont, self.idx, self.rev = cont, idx, rev


class Words(Value):
    """istream_iterator<string> of a stream, or past the end"""
    __slots__ = ('cont',)

    def __init__(self, cont):
        self.cont = cont


class Inserter(Words):
    """back_insert_iterator"""
    __slots__ = ()


class Lambda(Value):
    __slots__ = ('node', 'caps', 'tu', 'frame')

    def __init__(self, node, caps, tu, frame):
        self.node, self.caps, self.tu, self.frame = node, caps, tu, frame


class Callable(Value):
    """a function object of the standard library"""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class FuncRef(Value):
    __slots__ = ('func', 'decl', 'name', 'this')

    def __init__(self, func, decl, name, this=None):
        self.func, self.decl, self.name, self.this = func, decl, name, this


class Opaque(Value):
    """value without a model (streams, undefined)"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class MapV(Value):
    """std::map / unordered_map as a total function with a presence predicate: has(key), val(key); keys scalar"""
    __slots__ = ('has', 'val', 'kty', 'vty', 'size')

    def __init__(self, has, val, kty, vty, size=None):
        self.has, self.val, self.kty, self.vty = has, val, kty, vty
        self.size = size        # number of elements, where it is known


class MapIter(Value):
    """iterator of a map or set: key, or past the end"""
    __slots__ = ('cont', 'key', 'end')

    def __init__(self, cont, key, end):
        self.cont, self.key, self.end = cont, key, end


def is_set(v):
    return isinstance(v, MapV) and v.vty[0] == 'unit'


SORT = {'int': I, 'uint': I, 'size': I, 'long': I, 'char': I, 'double': R, 'bool': B, 'string': S, 'fptr': S}


def is_scalar_ty(t):
    return t[0] in SORT


# ---------------------------------------------------------------- generic structural operations
def map_terms(v, f):
    """apply the term transformation f to all terms of v"""
    if z3.is_expr(v):
        return f(v)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: map_terms(x, f) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(f(v.len), lam1(v.fn, f), v.ety)
    if isinstance(v, Block):
        return Block(f(v.size), lam3(v.fn, f), f(v.alive))
    if isinstance(v, Content):
        return Content(tuple(f(x) for x in v.shape), lam3(v.fn, f))
    if isinstance(v, Frozen):
        return Frozen(map_terms(v.val, f), v.ty)
    if isinstance(v, Iter):
        return Iter(map_terms(v.cont, f), f(v.idx), v.rev)
    if isinstance(v, MapIter):
        return MapIter(map_terms(v.cont, f), f(v.key), f(v.end))
    if isinstance(v, MapV):
        return MapV(lamk(v.has, f, v.kty), lamk(v.val, f, v.kty), v.kty, v.vty, f(v.size) if v.size is not None else None)
    if isinstance(v, Ptr):
        alts = []
        for g, t in v.alts:
            if t is not None:
                t = (t[0], tuple(p if isinstance(p, str) else tuple(f(x) if z3.is_expr(x) else x for x in p) for p in t[1]))
            alts.append((f(g), t))
        return Ptr(alts)
    return v


def lam1(fn, f):
    def g(i):
        x = z3.Const(fresh_name('x1'), I)
        return map_terms(map_terms(fn(x), f), lambda e: subst(e, [(x, i)]))
    return g


def lam3(fn, f):
    def g(a, b, c):
        xs = [z3.Const(fresh_name('x3'), I) for _ in range(3)]
        return subst(f(fn(*xs)), list(zip(xs, (a, b, c))))
    return g


def lamk(fn, f, kty):
    def g(k):
        x = z3.Const(fresh_name('xk'), SORT[kty[0]])
        return map_terms(map_terms(fn(x), f), lambda e: subst(e, [(x, k)]))
    return g


def substv(v, pairs):
    return map_terms(v, lambda e: subst(e, pairs))


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if z3.is_expr(a) and z3.is_expr(b):
        return ITE(c, a, b)
    if isinstance(a, Opaque):
        return a if isinstance(b, Opaque) else b
    if isinstance(b, Opaque):
        return a
    if type(a) is not type(b):
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, Struct):
        if a.cls != b.cls:
            raise Unsupported('merge of different classes')
        return Struct(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec):
        return Vec(ITE(c, a.len, b.len), lambda i: merge(c, a.at(i), b.at(i)), a.ety)
    if isinstance(a, Block):
        return Block(a.size, lambda x, y, z: ITE(c, a.at(x, y, z), b.at(x, y, z)), simp(ITE(c, a.alive, b.alive)))
    if isinstance(a, Content):
        sh = tuple(ITE(c, x, y) for x, y in zip(a.shape, b.shape))
        return Content(sh, lambda x, y, z: ITE(c, a.fn(x, y, z), b.fn(x, y, z)))
    if isinstance(a, Frozen):
        return Frozen(merge(c, a.val, b.val), a.ty)
    if isinstance(a, Iter):
        if same_ptr(a.cont, b.cont) and a.rev == b.rev:
            return Iter(a.cont, ITE(c, a.idx, b.idx), a.rev)
        raise Unsupported('merge of iterators of different containers')
    if isinstance(a, Ptr):
        if same_ptr(a, b):
            return a
        return norm_ptr([(AND(c, g), t) for g, t in a.alts] + [(AND(NOT(c), g), t) for g, t in b.alts])
    if isinstance(a, MapV):
        sz = ITE(c, a.size, b.size) if a.size is not None and b.size is not None else None
        return MapV(lambda k: ITE(c, a.has(k), b.has(k)), lambda k: merge(c, a.val(k), b.val(k)), a.kty, a.vty, sz)
    if isinstance(a, MapIter):
        if same_ptr(a.cont, b.cont):
            return MapIter(a.cont, ITE(c, a.key, b.key), simp(ITE(c, a.end, b.end)))
    if isinstance(a, Lambda):
        if a.node is b.node:
            return a
    if isinstance(a, FuncRef):
        if a.func is b.func and a.name == b.name:
            return a
    raise Unsupported('merge of ' + type(a).__name__)


def same_target(t, u):
    if t is None or u is None:
        return t is u
    if t[0] is not u[0] or len(t[1]) != len(u[1]):
        return False
    for p, q in zip(t[1], u[1]):
        if isinstance(p, str) or isinstance(q, str):
            if p != q:
                return False
        else:
            if len(p) != len(q) or p[0] != q[0]:
                return False
            for x, y in zip(p[1:], q[1:]):
                if not (x is y or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))):
                    return False
    return True


def same_ptr(a, b):
    if len(a.alts) != len(b.alts):
        return False
    if len(a.alts) == 1:
        return same_target(a.alts[0][1], b.alts[0][1])
    return all(same_target(x[1], y[1]) and x[0].eq(y[0]) for x, y in zip(a.alts, b.alts))


def norm_ptr(alts):
    out = []
    for g, t in alts:
        g = simp(g)
        if z3.is_false(g):
            continue
        for i, (h, u) in enumerate(out):
            if same_target(t, u):
                out[i] = (simp(OR(h, g)), u)
                break
        else:
            out.append((g, t))
    if len(out) == 1:
        out = [(TRUE(), out[0][1])]
    return Ptr(out)


# ---------------------------------------------------------------- leaves: the scalar/function components of a value
class Leaf:
    """path: tuple naming the component; psorts: parameter sorts; fn(params)->term"""
    __slots__ = ('path', 'psorts', 'fn')

    def __init__(self, path, psorts, fn):
        self.path, self.psorts, self.fn = path, psorts, fn


def leaves(v, path=(), psorts=(), get=None):
    """list of Leaf; get(params) returns v evaluated under container parameters"""
    if get is None:
        def get(ps, v=v):
            return v
    if z3.is_expr(v):
        return [Leaf(path, list(psorts), get)]
    if isinstance(v, Struct):
        out = []
        for k in v.f:
            out += leaves(v.f[k], path + (k,), psorts, lambda ps, k=k: get(ps).f[k])
        return out
    if isinstance(v, Vec):
        n = len(psorts)
        out = [Leaf(path + ('#len',), list(psorts), lambda ps: get(ps).len)]
        probe = v.at(z3.Const('probe!', I))
        out += leaves(probe, path + ('[]',), tuple(psorts) + (I,), lambda ps: get(ps[:n]).at(ps[n]))
        return out
    if isinstance(v, Block):
        n = len(psorts)
        return [Leaf(path + ('#blk',), list(psorts) + [I, I, I], lambda ps: get(ps[:n]).at(*ps[n:n + 3]))]
    if isinstance(v, Content):
        n = len(psorts)
        out = [Leaf(path + ('#sh%d' % d,), list(psorts), lambda ps, d=d: get(ps).shape[d]) for d in range(3)]
        return out + [Leaf(path + ('#cont',), list(psorts) + [I, I, I], lambda ps: get(ps[:n]).fn(*ps[n:n + 3]))]
    if isinstance(v, Frozen):
        return leaves(v.val, path + ('*',), psorts, lambda ps: get(ps).val)
    if isinstance(v, Iter):
        return [Leaf(path + ('#idx',), list(psorts), lambda ps: get(ps).idx)]
    if isinstance(v, MapV):
        n = len(psorts)
        ks = SORT[v.kty[0]]
        out = [Leaf(path + ('#has',), list(psorts) + [ks], lambda ps: get(ps[:n]).has(ps[n]))]
        if v.size is not None:
            out.append(Leaf(path + ('#size',), list(psorts), lambda ps: get(ps[:n]).size))
        if is_set(v):
            return out
        probe = v.val(z3.Const('probek!', ks))
        return out + leaves(probe, path + ('#val',), tuple(psorts) + (ks,), lambda ps: get(ps[:n]).val(ps[n]))
    return []


def rebuild(v, table, path=(), params=()):
    """value of the shape of v whose leaves are table[path](params); leaves absent from the table keep v's"""
    if z3.is_expr(v):
        f = table.get(path)
        return f(list(params)) if f else v
    if isinstance(v, Struct):
        return Struct(v.cls, {k: rebuild(v.f[k], table, path + (k,), params) for k in v.f})
    if isinstance(v, Vec):
        f = table.get(path + ('#len',))
        ln = f(list(params)) if f else v.len
        return Vec(ln, lambda i: rebuild(v.at(i), table, path + ('[]',), tuple(params) + (i,)), v.ety)
    if isinstance(v, Block):
        f = table.get(path + ('#blk',))
        if not f:
            return v
        return Block(v.size, lambda a, b, c: f(list(params) + [a, b, c]), v.alive)
    if isinstance(v, Content):
        sh = []
        for d in range(3):
            f = table.get(path + ('#sh%d' % d,))
            sh.append(f(list(params)) if f else v.shape[d])
        f = table.get(path + ('#cont',))
        return Content(tuple(sh), (lambda a, b, c: f(list(params) + [a, b, c])) if f else v.fn)
    if isinstance(v, Frozen):
        return Frozen(rebuild(v.val, table, path + ('*',), params), v.ty)
    if isinstance(v, Iter):
        f = table.get(path + ('#idx',))
        return Iter(v.cont, f(list(params)) if f else v.idx, v.rev)
    if isinstance(v, MapV):
        f = table.get(path + ('#has',))
        g = table.get(path + ('#size',))
        return MapV((lambda k: f(list(params) + [k])) if f else v.has,
                    lambda k: rebuild(v.val(k), table, path + ('#val',), tuple(params) + (k,)) if not is_set(v) else TRUE(), v.kty, v.vty,
                    g(list(params)) if g else v.size)
    return v
