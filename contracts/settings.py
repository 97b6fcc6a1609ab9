"""Contract of src/libcatnip/io/io.cpp: prepareParameters (property C36).

The parser, the settings and the text functions are seen through the contracts of their methods (C22, C24 to C26, C33 to C35)."""
import z3
from ccv.smt import *
from ccv.vals import *
from ccv.contract import contract
from ccv.stdlib import *

lit = z3.StringVal
ABSTRACT['ArgumentParser'] = {'state': ('int',)}
KINDS = {'Log': ('string&', ('string',), lit('')), 'Pun': ('string&', ('string',), lit('')), 'Spin': ('string&', ('string',), lit('')),
         'OrbType': ('string&', ('string',), lit('')), 'OrbNum': ('int&', ('int',), z3.IntVal(0))}
NAMES = [k + w for k in KINDS for w in ('1', '2', 'P')] + ['CounterPoise', 'Citation']
EXT = {'Log': '.log', 'Pun': '.pun'}


def kind(n):
    return KINDS.get(n[:-1], ('bool', ('bool',), z3.BoolVal(False)))


ABSTRACT['Parameters'] = {n: kind(n)[1] for n in NAMES}

OPTBAD, OPTVAL = z3.Function('option_refused', I, S, S, S, S, B), z3.Function('option_value', I, S, S, S, S, S)
TEXTBAD, TEXT = z3.Function('no_text_of_flag', I, S, B), z3.Function('text_of_flag', I, S, S)
NUMBAD, NUM = z3.Function('no_number_of_flag', I, S, B), z3.Function('number_of_flag', I, S, I)
PATH, NAME, CORE = [z3.Function(n, S, S) for n in ('directory_of', 'file_name_of', 'without_extension')]


def trusted(key, note, bad, val):
    @contract(key, trusted=True, note=note)
    def _(C):
        if bad:
            C.throws(bad(C), 'exception')
        C.ensures(lambda E: val(C))


_st = lambda C: C.field('state')
trusted('ArgumentParser::getFlagArgOptValue(string, string, string, string)', 'the current value of an option (C33), which is not changed',
        lambda C: OPTBAD(_st(C), *[C.val(i) for i in range(4)]), lambda C: OPTVAL(_st(C), *[C.val(i) for i in range(4)]))
trusted('ArgumentParser::getStr(string)', 'what the flag holds (C35)', lambda C: TEXTBAD(_st(C), C.val(0)), lambda C: TEXT(_st(C), C.val(0)))
trusted('ArgumentParser::getInt(string)', 'what the flag holds (C35)', lambda C: NUMBAD(_st(C), C.val(0)), lambda C: NUM(_st(C), C.val(0)))
trusted('splitSt(string&)', 'the words of a text (C25)', None, lambda C: Vec(NTOK(C.val(0)), lambda i: TOK(C.val(0), i), ('string',)))
trusted('getPath(string)', 'the directory of a file (C22)', None, lambda C: PATH(C.val(0)))
trusted('lastStringInPath(string&)', 'the name of a file (C22)', None, lambda C: NAME(C.val(0)))


@contract('grabStrBeforeLastOccurance(string, string)', trusted=True, note='the text before the last dot (C24)')
def _(C):
    C.requires('up to a dot', C.val(1) == lit('.'))
    C.ensures(lambda E: CORE(C.val(0)))


for _n in NAMES:
    @contract('Parameters::set%s(%s)' % (_n, kind(_n)[0]), trusted=True, note='stores the value and nothing else; a file must have the right ending (C26)')
    def _(C, n=_n):
        v = C.val(0)
        if n[:3] in EXT:
            C.throws(NOT(z3.SuffixOf(lit(EXT[n[:3]]), v)), 'logic_error')
        C.ensures(lambda E: E.set(C.this.field(n), v))


@contract('Parameters::Parameters()', trusted=True, note='no file, no text, zero and false (C26)')
def _(C):
    def eff(E):
        for n in NAMES:
            E.set(C.this.field(n), kind(n)[2])
    C.ensures(eff)


FILE, EXISTS_, SISTER = lit('ARGUMENT_FILE'), (lit('PROPERTY_FILE_EXIST'), lit('FILE_DOES_EXIST')), lit('PROPERTY_SISTER_FILE')
FLAGS = [k + w for k in ('pun_', 'log_') for w in ('P', '1', '2')]


@contract('prepareParameters(ArgumentParser*&)')
def _(C):
    C.ex.unroll = 6             # the loop over the six flags runs a fixed number of times
    C.ex.light = True
    q = C.ex.load(C.args[0], C.pre)
    s = C.ex.load(q.field('state'), C.pre)
    bad, own, sis = [], {}, {}
    for f in FLAGS:
        g = lit('--' + f)
        opts = [EXISTS_, (SISTER, lit('SISTER_FILE_EXISTS')), (SISTER, lit('ALLOWED_SISTER_FILE_EXT'))]
        bad += [OPTBAD(s, g, FILE, p, o) for p, o in opts]
        here, words, exts = [OPTVAL(s, g, FILE, p, o) for p, o in opts]
        own[f] = (here == lit('1'), TEXT(s, g))
        k = LAST(NTOK(words), lambda i, w=words: TOK(w, i) == lit('true'))
        bad += [AND(OR(own[f][0], k >= 0), TEXTBAD(s, g)), k >= NTOK(exts)]
        t = TEXT(s, g)
        o = ('log_' if f[:3] == 'pun' else 'pun_') + f[4:]
        sis[o] = (k >= 0, z3.Concat(PATH(t), CORE(NAME(t)), TOK(exts, k)))
    val = {}
    for f in FLAGS:
        bad.append(NOT(OR(own[f][0], sis[f][0])))
        v = ITE(own[f][0], own[f][1], sis[f][1])
        n = f[:3].capitalize() + f[4:]
        bad.append(NOT(z3.SuffixOf(lit(EXT[n[:3]]), v)))
        val[n] = v
    for w in 'P12':
        g = lit('--spin_' + w)
        bad.append(TEXTBAD(s, g))
        val['Spin' + w] = TEXT(s, g)
    for n, g in (('CounterPoise', '--counter_poise'), ('Citation', '--citation')):
        bad.append(NUMBAD(s, lit(g)))
        val[n] = NOT(NUM(s, lit(g)) == 0)
    for w in '12':
        ty, nu = lit('--orbital_type_' + w), lit('--orbital_num_' + w)
        t, n = TEXT(s, ty), NUM(s, nu)
        homo, lumo = t == lit('HOMO'), t == lit('LUMO')
        bad += [TEXTBAD(s, ty), AND(OR(homo, lumo), NUMBAD(s, nu)), AND(homo, n > 0), AND(lumo, n < 0)]
        val['OrbType' + w] = t
        val['OrbNum' + w] = ITE(OR(homo, lumo), n, z3.IntVal(0))
    C.throws(OR(bad), 'exception', 'a file is missing or settings are not allowed')

    def eff(E):
        new = Loc('new Parameters', ('cls', 'Parameters'), heap=True)
        E.st.store[new] = Struct('Parameters', {n: val.get(n, kind(n)[2]) for n in NAMES})
        return Ptr.to(new)
    C.ensures(eff)
