"""Contracts of src/libcatnip/parameters.{hpp,cpp} (property C26): stated by what the getters return."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract
from contracts import strings          # lastN

P = 'Parameters::'
NAMES = [k + w for k in ('Log', 'Pun', 'Spin', 'OrbType', 'OrbNum') for w in ('1', '2', 'P')] + ['CounterPoise', 'Citation']
TYPE = {'Log': 'string&', 'Pun': 'string&', 'Spin': 'string&', 'OrbType': 'string&', 'OrbNum': 'int&'}
EXT = {'Log': '.log', 'Pun': '.pun'}


def kind(n):
    return n[:-1] if n[:-1] in TYPE else n


def getter(n):
    return P + 'get' + n + '()'


def setter(n):
    return P + 'set%s(%s)' % (n, TYPE.get(kind(n), 'bool'))


def same(label, a, b):
    return (label, a == b if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort() else z3.BoolVal(False))


for name in NAMES:
    @contract(setter(name), inline=True)
    def _(C, name=name):
        v = C.val(0)
        before = {n: C.observe(getter(n))[0] for n in NAMES}
        ext = EXT.get(kind(name))
        if ext:
            C.throws(NOT(z3.SuffixOf(z3.StringVal(ext), v)), 'logic_error', 'wrong file type')
        C.ensures(lambda E: E.after(lambda obs: [
            same('get%s returns the value set' % n if n == name else 'get%s is unchanged' % n, obs(getter(n))[0], v if n == name else before[n])
            for n in NAMES]))

    @contract(getter(name), inline=True)
    def _(C, name=name):
        # a getter changes nothing and always returns
        C.ensures(lambda E: Opaque('any'))


@contract(P + 'Parameters()', inline=True)
def _(C):
    zero = {'OrbNum': z3.IntVal(0), 'CounterPoise': z3.BoolVal(False), 'Citation': z3.BoolVal(False)}
    C.ensures(lambda E: E.after(lambda obs: [
        same('get%s of a fresh set' % n, obs(getter(n))[0], zero.get(kind(n), z3.StringVal(''))) for n in NAMES]))
