"""Lists appended one after the other."""
import z3
from ccv.smt import *
from ccv.contract import lemma_contract


def segments(N, cnt):
    """offset of the i-th list, and the list that position p falls into"""
    off = lambda i: SUM(i, cnt)
    return off, lambda p, n=N: LAST(n, lambda i: AND(off(i) <= p, p < off(i) + cnt(i)))


@lemma('positions fall into segments')
def _(L_, N, cnt):
    off, seg = segments(N, cnt)
    L_.assume(Q(lambda a: IMP(AND(a >= 0, a < N), cnt(a) >= 0)))
    L_.induct('offsets grow', N, lambda k: [off(k) >= 0, Q(lambda a: (IMP(AND(a >= 0, a < k), off(a) + cnt(a) <= off(k)), [z3.MultiPattern(off(a), off(k))]))])
    L_.induct('covered', N, lambda k: [Q(lambda p: (IMP(AND(p >= 0, p < off(k)), seg(p, k) >= 0), [seg(p, k)]))])
    L_.conclude('offsets grow', Q(lambda a, b: (IMP(AND(a >= 0, a < b, b <= N), off(a) + cnt(a) <= off(b)), [z3.MultiPattern(off(a), off(b))]), 2))
    L_.conclude('covered', Q(lambda p: (IMP(AND(p >= 0, p < off(N)), seg(p) >= 0), [seg(p)])))


lemma_contract('positions fall into segments', 'nf')
