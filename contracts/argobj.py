"""Contracts of src/libcatnip/io/arguments/argumentobject.hpp (property C33): an argument and its properties.

The properties are seen through their virtual functions: 'rules' is what decides about values, 'state' everything else."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract
from ccv.stdlib import ITOS, DTOS

STR = 'std::basic_string<char>'
SET, VEC = 'std::set<%s>' % STR, 'std::vector<%s>' % STR
FIELDS = (('int_propobjs_', 'int'), ('double_propobjs_', 'double'), ('size_t_propobjs_', 'unsigned long'), ('string_propobjs_', STR),
          ('string_set_propobjs_', SET), ('string_vec_propobjs_', VEC))
KINDS = (('int', 'int&', I), ('double', 'double&', R), (STR, 'string&', S))


def cls(s, t):
    return 'PropertyObject<%s, %s>' % (s, t)


NAME, NOPT, OPT = z3.Function('property_name', I, S), z3.Function('options_listed', I, I), z3.Function('option_listed', I, I, S)
SORTS = {'int': I, 'double': R, 'unsigned long': I, STR: S}
ACC, AFTER, OPTV, POSTREF, POST = {}, {}, {}, {}, {}


def listed(kind, option):
    return FIRST(NOPT(kind), lambda j: OPT(kind, j) == option) < NOPT(kind)


def option(c, t, e, o):
    """current value of an option of the property with fields e"""
    k, r, s = e['kind'], e['rules'], e['state']
    if t in SORTS:
        return OPTV[c](k, r, s, o)
    if t == SET:
        return MapV(lambda x: OPTV[c](k, r, s, o, x), lambda x: TRUE(), ('string',), ('unit',), OPTV[c, 'n'](k, r, s, o))
    return Vec(OPTV[c, 'n'](k, r, s, o), lambda i: OPTV[c](k, r, s, o, i), ('string',))


for _s, _a, _k in KINDS:
    for _f, _t in FIELDS:
        ABSTRACT[cls(_s, _t)] = {'kind': ('int',), 'rules': ('int',), 'state': ('int',)}
        c = cls(_s, _t)
        ACC[c] = z3.Function('accepts[%s]' % c, I, I, _k, B)
        AFTER[c] = z3.Function('after_check[%s]' % c, I, I, I, _k, I)
        POSTREF[c] = z3.Function('refused_at_the_end[%s]' % c, I, I, I, B)
        if _t in SORTS:
            OPTV[c] = z3.Function('option[%s]' % c, I, I, I, S, SORTS[_t])
        else:
            OPTV[c] = z3.Function('option[%s]' % c, I, I, I, S, S if _t == SET else I, B if _t == SET else S)
            OPTV[c, 'n'] = z3.Function('option_size[%s]' % c, I, I, I, S, I)

        @contract('%s::propValid(%s)' % (c, _a), trusted=True,
                  note='throws exactly where the rules of the property reject the value, and changes none of its rules (C27 to C31)')
        def _(C, c=c):
            k, r, s, v = C.field('kind'), C.field('rules'), C.field('state'), C.val(0)
            C.throws(NOT(ACC[c](k, r, v)), 'exception', modifies=[C.this.field('state')])

            def eff(E):
                E.set(C.this.field('state'), AFTER[c](k, r, s, v))
                return z3.BoolVal(True)
            C.ensures(eff)

        @contract('%s::postCheck()' % c, trusted=True, note='throws or not, and changes nothing (C31)')
        def _(C, c=c):
            C.throws(POSTREF[c](C.field('kind'), C.field('rules'), C.field('state')), 'exception')
            C.ensures(lambda E: None)

        @contract('%s::getPropertyName()' % c, trusted=True, note='a constant of the class of the property')
        def _(C, c=c):
            C.ensures(lambda E: NAME(C.field('kind')))

        @contract('%s::getPropertyOptions()' % c, trusted=True, note='a constant of the class of the property (C32)')
        def _(C, c=c):
            k = C.field('kind')
            for st in (C.st, C.pre):
                st.assume(NOPT(k) >= 0)
            C.ensures(lambda E: Vec(NOPT(k), lambda j: OPT(k, j), ('string',)))

        @contract('%s::getPropOption(string&)' % c, trusted=True, note='throws exactly for an option that is not listed (C32)')
        def _(C, c=c, t=_t):
            e = {f: C.field(f) for f in ('kind', 'rules', 'state')}
            o = C.val(0)
            C.throws(NOT(listed(e['kind'], o)), 'invalid_argument')
            if (c, 'n') in OPTV:
                n = OPTV[c, 'n'](e['kind'], e['rules'], e['state'], o)
                for st in (C.st, C.pre):
                    st.assume(n >= 0)
            C.ensures(lambda E: option(c, t, e, o))


def checked(C, s, v):
    """all properties look at the value: (some one rejects it, new values of the lists)"""
    bad, new = [], []
    for f, t in FIELDS:
        w, c = C.field(f), cls(s, t)
        bad.append(FIRST(w.len, lambda i, w=w, c=c: NOT(ACC[c](w.at(i).f['kind'], w.at(i).f['rules'], v))) < w.len)
        new.append((f, Vec(w.len, lambda i, w=w, c=c: w.at(i).set('state', AFTER[c](w.at(i).f['kind'], w.at(i).f['rules'], w.at(i).f['state'], v)), w.ety)))
    return OR(bad), new


def check(s, a, name, value):
    @contract('ArgumentObject<%s>::%s(%s)' % (s, name, a))
    def _(C):
        bad, new = checked(C, s, C.val(0))
        C.throws(bad, 'exception', 'a property rejects the value', modifies=[C.this.field(f) for f, t in FIELDS])

        def eff(E):
            for f, v in new:
                E.set(C.this.field(f), v)
            return value
        C.ensures(eff)


for _s, _a, _k in KINDS:
    check(_s, _a, 'checkValid_', None)
    check(_s, _a, 'argValid', z3.BoolVal(True))


# ------------------------------------------------------------------ the values reported
REFUSED = {s: z3.Function('option_refused[%s]' % s, I, S, S, B) for s, a, k in KINDS}
REPORTED = {s: z3.Function('option_reported[%s]' % s, I, S, S, S) for s, a, k in KINDS}
for _c in ('ArgumentString', 'ArgumentSwitch', 'ArgumentInt', 'ArgumentDouble', 'ArgumentFile'):
    ABSTRACT[_c] = {'state': ('int',)}


def found(C, f, c, prop, opt):
    """position in a list of the first property of the name that lists the option"""
    w = C.field(f)
    return FIRST(w.len, lambda i: AND(NAME(w.at(i).f['kind']) == prop, listed(w.at(i).f['kind'], opt)))


def text(t, v):
    return v if t == STR else ITOS(v) if z3.is_int(v) else DTOS(v)


for _s, _a, _k in KINDS:
    @contract('ArgumentObject<%s>::getPropertyValues(string, string&)' % _s)
    def _(C, s=_s):
        prop, opt = C.val(0), C.val(1)
        if C.mode == 'call':
            # (called by the parser: the argument is not looked into)
            a = (C.field('state'), prop, opt)
            C.throws(REFUSED[s](*a), 'exception')
            C.ensures(lambda E: REPORTED[s](*a))
            return
        at = [(f, t, found(C, f, cls(s, t), prop, opt)) for f, t in FIELDS[:4]]
        here = [p < C.field(f).len for f, t, p in at]
        for f, t in FIELDS[4:]:
            # (what is reported for sets and lists of texts is left to the bounded check)
            C.requires('no property of sets or lists of texts', C.field(f).len == 0)
        C.throws(NOT(OR(here)), 'exception', 'an unknown property or option')
        for n, (f, t, p) in enumerate(at):
            e = C.field(f).at(p).f
            C.ensures(lambda E, t=t, e=e, s=s: text(t, option(cls(s, t), t, e, opt)), AND(here[n], [NOT(h) for h in here[:n]]), 'an option of ' + f)

    @contract('ArgumentObject<%s>::postArgCheck()' % _s)
    def _(C, s=_s):
        bad = []
        for f, t in FIELDS:
            w, c = C.field(f), cls(s, t)
            bad.append(FIRST(w.len, lambda i, w=w, c=c: POSTREF[c](*[w.at(i).f[x] for x in ('kind', 'rules', 'state')])) < w.len)
        C.throws(OR(bad), 'exception', 'a property refuses')
        C.ensures(lambda E: None)


NAMED = (('str_arg_', 'ARGUMENT_STRING', STR), ('switch_arg_', 'ARGUMENT_SWITCH', STR), ('file_arg_', 'ARGUMENT_FILE', STR), ('int_arg_', 'ARGUMENT_INT', 'int'))


@contract('ArgumentParser::getFlagArgOptValue(string, string, string, string)')
def _(C):
    f, n, p, o = [C.val(i) for i in range(4)]
    # (the parser never reports options of arguments that are numbers with a fraction)
    C.requires('not an argument for numbers', NOT(n == z3.StringVal('ARGUMENT_DOUBLE')))
    here = []
    for k, name, s in NAMED:
        m = C.field(k)
        g = AND(m.has(f), n == z3.StringVal(name))
        here.append(g)
        a = (m.val(f).f['state'], p, o)
        C.throws(AND(g, REFUSED[s](*a)), 'exception', 'the argument has no such option')
        C.ensures(lambda E, s=s, a=a: REPORTED[s](*a), g, 'an option of ' + name)
    C.throws(NOT(OR(here)), 'exception', 'the flag has no argument of the name')
