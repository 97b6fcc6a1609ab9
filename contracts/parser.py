"""Contracts of src/libcatnip/io/argumentparser.cpp (properties C34, C35): what the flags hold."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract
from ccv.stdlib import STOD, STOI, NUMOK, INTOK, INTRANGE, DBLRANGE
from contracts import args

lit = z3.StringVal
# the arguments of flags are seen through the contracts of their methods
for _c in ('ArgumentString', 'ArgumentSwitch', 'ArgumentInt', 'ArgumentDouble', 'ArgumentFile'):
    ABSTRACT[_c] = {'state': ('int',)}

AP = 'ArgumentParser::'


# ------------------------------------------------------------------ C35 values and defaults
def put(m, k, v):
    return MapV(lambda j: OR(j == k, m.has(j)), lambda j: merge(simp(j == k), v, m.val(j)), m.kty, m.vty, None)


def default(sig, field):
    @contract(AP + 'setFlagDefaultValue(string, %s)' % sig)
    def _(C):
        f, v = C.val(0), C.val(1)
        a, d = C.field(field), C.field('defaults_set_')

        def eff(E):
            E.set(C.this.field(field), put(a, f, v))
            E.set(C.this.field('defaults_set_'), put(d, f, z3.BoolVal(True)))
        C.ensures(eff)


for _s, _f in (('int&', 'int_values_'), ('size&', 'size_t_values_'), ('double&', 'double_values_'), ('string&', 'string_values_')):
    default(_s, _f)


def getter(name, field):
    @contract(AP + '%s(string)' % name)
    def _(C):
        f, m = C.val(0), C.field(field)
        C.throws(NOT(m.has(f)), 'exception', 'neither parsed nor defaulted')
        C.ensures(lambda E: m.val(f))


getter('getDouble', 'double_values_')
getter('getSize_t', 'size_t_values_')


@contract(AP + 'getInt(string)')
def _(C):
    f, m, t, sw = C.val(0), C.field('int_values_'), C.field('string_values_'), C.field('switch_arg_')
    text = AND(NOT(m.has(f)), sw.has(f), t.has(f))
    C.throws(OR(AND(NOT(m.has(f)), NOT(text)), AND(text, NOT(args.isone(t.val(f), args.ON + args.OFF)))), 'exception', 'no number for the flag')
    C.ensures(lambda E: ITE(m.has(f), m.val(f), ITE(args.isone(t.val(f), args.ON), z3.IntVal(1), z3.IntVal(0))))


@contract(AP + 'getStr(string)')
def _(C):
    f, m, t, sw = C.val(0), C.field('int_values_'), C.field('string_values_'), C.field('switch_arg_')
    number = AND(NOT(t.has(f)), sw.has(f), m.has(f))
    C.throws(AND(NOT(t.has(f)), NOT(number)), 'exception', 'no text for the flag')
    C.ensures(lambda E: ITE(t.has(f), t.val(f), ITE(m.val(f) == 1, lit('ON'), lit('OFF'))))


# ------------------------------------------------------------------ C34 what the flags of a command line store
@contract(AP + 'nextParameterIsAFlag_(size, vec<string>)')
def _(C):
    i, v, m = C.val(0), C.val(1), C.field('flags_')
    r = isflag(C, m, v, i)
    C.ensures(lambda E: r)


def isflag(C, m, v, i):
    n = v.at(simp(i + 1))
    return AND(i + 1 < v.len, OR(m.has(n), C.some(m, lambda k: m.val(k).f['first'] == n)))


STRING = 'std::basic_string<char>'
ACCEPTS = {'string&': z3.Function('argument_accepts_text', I, S, B), 'int&': z3.Function('argument_accepts_int', I, I, B),
           'double&': z3.Function('argument_accepts_number', I, R, B)}
for _s, _a in ((STRING, 'string&'), ('int', 'int&'), ('double', 'double&')):
    @contract('ArgumentObject<%s>::argValid(%s)' % (_s, _a), trusted=True,
              note='throws exactly where the rules of the argument reject the value (the rules: C27 to C33), and changes none of the rules')
    def _(C, a=_a):
        C.throws(NOT(ACCEPTS[a](C.field('state'), C.val(0))), 'exception', 'a value the rules of the argument reject')
        C.ensures(lambda E: z3.BoolVal(True))

KINDS = (('str_arg_', 'ArgumentString'), ('switch_arg_', 'ArgumentSwitch'), ('int_arg_', 'ArgumentInt'), ('double_arg_', 'ArgumentDouble'),
         ('file_arg_', 'ArgumentFile'))


@contract(AP + 'parseArg_(size&, vec<string>)')
def _(C):
    i, v, m = C.val(0), C.val(1), C.field('flags_')
    typ = {k: C.field(k) for k, c in KINDS}
    out = i >= v.len
    C.throws(out, 'out_of_range', 'no argument at the position')
    a, n = v.at(i), v.at(simp(i + 1))
    # the flag meant: the argument itself or the flag with this short name
    w = z3.Const(fresh_name('full'), S)
    short = lambda k: m.val(k).f['first'] == a
    known = z3.Const(fresh_name('short'), B)
    for s in (C.st, C.pre):
        s.assume(IMP(known, AND(m.has(w), short(w))))
        s.assume(Q(lambda x: IMP(AND(m.has(x), short(x)), known), sorts=[S]).hyp())
    C.requires('short names are unique', Q(lambda x: (IMP(AND(m.has(x), short(x)), x == w), None), sorts=[S]))
    f = ITE(AND(NOT(m.has(a)), known), w, a)
    has = {k: typ[k].has(f) for k, c in KINDS}
    for k, c in KINDS:
        for j, d in KINDS:
            if k < j:
                C.requires('a flag has one type', NOT(AND(has[k], has[j])))
    C.throws(NOT(OR([has[k] for k, c in KINDS])), 'exception', 'an unrecognised flag')
    last = i + 1 >= v.len
    sw = has['switch_arg_']
    alone = AND(sw, OR(last, isflag(C, m, v, i)))
    C.throws(AND(NOT(sw), last), 'exception', 'a missing value')
    num, whole = STOD(n), STOI(n)
    C.throws(AND(has['int_arg_'], NOT(AND(INTOK(n), INTRANGE(n)))), 'exception', 'not a whole number')
    C.throws(AND(has['double_arg_'], NOT(AND(NUMOK(n), DBLRANGE(n)))), 'exception', 'not a number')

    def rejects(k, a_, x):
        return AND(has[k], NOT(ACCEPTS[a_](state(C, typ[k], f), x)))
    C.throws(AND(NOT(alone), OR(rejects('str_arg_', 'string&', n), rejects('file_arg_', 'string&', n), rejects('switch_arg_', 'string&', n),
                                rejects('int_arg_', 'int&', whole), rejects('double_arg_', 'double&', num))),
             'exception', 'a value the rules reject')
    C.throws(AND(sw, NOT(alone), NOT(args.isone(n, args.ON + args.OFF))), 'exception', 'neither on nor off',
             modifies=[C.this.field('string_values_')])

    def stored(field, g, x):
        old = C.field(field)
        return MapV(lambda j: OR(AND(g, j == f), old.has(j)), lambda j: merge(simp(AND(g, j == f)), x, old.val(j)), old.kty, old.vty, None)

    def eff(E):
        E.set(C.this.field('string_values_'), stored('string_values_', OR(sw, has['str_arg_'], has['file_arg_']), ITE(alone, lit('ON'), n)))
        E.set(C.this.field('int_values_'), stored('int_values_', OR(sw, has['int_arg_']), ITE(
            sw, ITE(OR(alone, args.isone(n, args.ON)), z3.IntVal(1), z3.IntVal(0)), whole)))
        E.set(C.this.field('double_values_'), stored('double_values_', has['double_arg_'], num))
        E.set(C.args[0], ITE(alone, i, i + 1))
    C.ensures(eff)


def state(C, m, f):
    return m.val(f).f['state']
