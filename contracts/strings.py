"""Contracts of src/libcatnip/string_support.cpp (properties C21..C24)."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract

L = z3.Length


def sub(s, a, n):
    return z3.SubString(s, a, n)


def ch(s, j):
    return z3.StrToCode(z3.SubString(s, j, 1))


def space(s, j):
    c = ch(s, j)
    return OR(AND(c >= 9, c <= 13), c == 32)


def ltrim(s):
    k = FIRST(L(s), lambda j: NOT(space(s, j)))
    return sub(s, k, L(s) - k)


def rtrim(s):
    k = LAST(L(s), lambda j: NOT(space(s, j)))
    return sub(s, 0, k + 1)


# ------------------------------------------------------------------ C21 trimming
NAMED = {}


def named(name, f):
    """callers see the result of a function of texts under a name; what it stands for is proved for the function itself"""
    F = NAMED[name] = z3.Function(name, S, S)
    t = z3.Const('ax!' + name, S)
    add_axiom(F.name(), z3.ForAll([t], L(F(t)) <= L(t), patterns=[F(t)]))

    def value(E, v):
        if E.mode == 'verify':
            E.fact([('not longer than the text', L(f(v)) <= L(v))])
            return f(v)
        return f(v) if E.ex.verifying == 'trimmed(string)' else F(v)
    return value


TRIM = named('trimmed', lambda s: rtrim(ltrim(s)))
for name, f in (('ltrim_', lambda E, s: ltrim(s)), ('rtrim_', lambda E, s: rtrim(s)), ('trim', TRIM)):
    @contract(name + '(string&)')
    def _(C, f=f):
        C.ensures(lambda E: E.set(C.args[0], f(E, C.val(0))))

for name, f in (('ltrimmed', lambda E, s: ltrim(s)), ('rtrimmed', lambda E, s: rtrim(s)), ('trimmed', TRIM)):
    @contract(name + '(string)')
    def _(C, f=f):
        C.ensures(lambda E: f(E, C.val(0)))


# ------------------------------------------------------------------ C22 paths
def last_sep(s):
    return LAST(L(s), lambda j: sub(s, j, 1) == z3.StringVal('/'))


def at_separator(C):
    def facts(vs):
        out = []
        for name, init, v in vs:
            if v.sort() == S:
                p = L(init) - L(v)
                out.append(('the rest starts after a separator', OR(p == 0, sub(init, p - 1, 1) == z3.StringVal('/'))))
        return out
    C.loop_facts(facts)


@contract('lastStringInPath(string&)')
def _(C):
    s = C.val(0)
    at_separator(C)
    k = last_sep(s)
    C.ensures(lambda E: sub(s, k + 1, L(s) - k - 1))


@contract('getPath(string)')
def _(C):
    s = C.val(0)
    at_separator(C)
    C.ensures(lambda E: sub(s, 0, last_sep(s) + 1))


# ------------------------------------------------------------------ C23 prefixes and suffixes
def cut(name, f):
    @contract(name + '(string, int)')
    def _(C):
        s, n = C.val(0), C.val(1)
        C.requires('a number of characters', n >= 0)
        f(C, s, n)


def _lastn(C, s, n):
    C.throws(n > L(s), 'out_of_range')
    C.ensures(lambda E: sub(s, L(s) - n, n))


def _cutbeg(C, s, n):
    C.throws(n > L(s), 'out_of_range')
    C.ensures(lambda E: sub(s, n, L(s) - n))


def _whole(n, s):
    return ITE(n > L(s), L(s), n)


cut('lastN', _lastn)
cut('cut_beg', _cutbeg)
cut('firstN', lambda C, s, n: C.ensures(lambda E: sub(s, 0, _whole(n, s))))
# more characters than there are: nothing is cut (the count wraps)
cut('cut_end', lambda C, s, n: C.ensures(lambda E: sub(s, 0, ITE(n > L(s), L(s), L(s) - n))))


# ------------------------------------------------------------------ C24 text around an occurrence
def first(s, t):
    return z3.IndexOf(s, t, 0)


def last(s, t):
    return LAST(L(s) - L(t) + 1, lambda j: sub(s, j, L(t)) == t)


def around(name, pos, there, absent):
    @contract(name + '(string, string)')
    def _(C):
        s, t = C.val(0), C.val(1)
        p = pos(s, t)
        C.ensures(lambda E: ITE(p >= 0, there(s, t, p), absent(s)))


EMPTY = z3.StringVal('')
around('grabStrAfterFirstOccurance', first, lambda s, t, p: sub(s, p + L(t), L(s) - p - L(t)), lambda s: EMPTY)
around('grabStrAfterLastOccurance', last, lambda s, t, p: sub(s, p + L(t), L(s) - p - L(t)), lambda s: EMPTY)
around('grabStrAfterLastOccuranceInclusive', last, lambda s, t, p: sub(s, p, L(s) - p), lambda s: EMPTY)
around('grabStrBeforeFirstOccurance', first, lambda s, t, p: sub(s, 0, p), lambda s: s)
around('grabStrBeforeLastOccurance', last, lambda s, t, p: sub(s, 0, p), lambda s: s)
around('grabStrBeforeLastOccuranceInclusive', last, lambda s, t, p: sub(s, 0, p + L(t)), lambda s: s)


@contract('foundSubStrInStr(string, string)')
def _(C):
    C.ensures(lambda E: z3.Contains(C.val(0), C.val(1)))
