"""Per property: the functions whose contracts state it (their callees' contracts are verified with them), and the harness."""
M = 'Matrix::'
PROPS = {}


def P(id, harness, modules, functions, **kw):
    PROPS[id] = dict(harness=harness, modules=modules, functions=functions, **kw)


mm = ['matrix']
P('C01', 'matrix', mm, [M + f for f in (
    'index(int, int, int)', 'get_rows()', 'get_cols()', 'get_shel()', 'total_elem()', 'get_elem()', 'get_elem(int)',
    'get_elem(int, int)', 'get_elem(int, int, int)', 'get_elem_ptr(int, int)', 'set_elem(double)', 'set_elem(double, int)',
    'set_elem(double, int, int)', 'set_elem(double, int, int, int)')])
P('C02', 'matrix', mm, [M + f for f in (
    'Matrix()', 'Matrix(int)', 'Matrix(int, int)', 'Matrix(int, int, int)', 'Matrix(vec<double>)', 'Matrix(vec<int>)',
    'Matrix(vec<vec<double>>)')])
P('C03', 'matrix', mm, [M + f for f in ('set_rows(int)', 'set_cols(int)', 'set_shel(int)', 'resize(int, int)')])
P('C04', 'matrix', mm, [M + 'Matrix(Matrix&)', M + 'operator=(Matrix&)', 'Matrix_copy(Matrix&)'])
P('C05', 'matrix', mm, [M + f for f in (
    'get_row(int)', 'get_col(int)', 'set_row(vec<double>, int)', 'set_col(vec<double>, int)', 'getRow(int)', 'getCol(int)')])
P('C06', 'matrix', mm, [M + f for f in ('swap_row(int, int)', 'swap_col(int, int)', 'move_row(int, int)', 'move_col(int, int)')])
P('C07', 'matrix', mm, [M + 'invert()'])
P('C08', 'matrix', mm, ['operator*(Matrix&, Matrix&)'])
P('C09', 'matrix', mm, ['Matrix_diag(Matrix&)'])
P('C10', 'matrix', mm, ['Matrix_concatenate_rows(Matrix, Matrix&)', 'Matrix_concatenate_cols(Matrix&, Matrix&)'])
P('C11', 'matrix', mm, [M + 'matchRow(Matrix&, int)', M + 'matchCol(Matrix&, int)'],
  bounded=[('double_tos', 'floating point text formatting: contract assumed, harness compares it with the rounding of the mathematical value')])

B = 'bounded check of the real code standing in for the contracts (generated inputs against an independent reference, address and undefined-behaviour sanitizers)'


def bounded(id, harness, why='not yet under contract'):
    P(id, harness, [], [], level='exploration', technique=B,
      note='Bounded: every generated input is compared with an independent reference on the real code under sanitizers; nothing is proved (%s).' % why,
      bounded=[('all functions of the property', why)])


qq = ['qc']
TC = 'TransferComplex::'
P('C12', 'qc', qq, ['splitMatrixIntoList(vec<int>&, Matrix*, string&)', 'splitCoefsUpByAtoms(vec<int>&, Matrix*, string&)',
                    'mergeListOfMatrices(vec<Matrix*>&, int, int, string&)', 'createNewMatrix(vec<Matrix*>&, int, int, string&)'])
UC = ['unscramble_Coef(vec<int>&, vec<int>&, Matrix*)', 'unscramble_Coef(vec<int>&, vec<int>&, vec<int>&, Matrix*)']
US = [f.replace('Coef', 'S') for f in UC]
P('C13', 'qc', qq, UC)
P('C14', 'qc', qq, US)
P('C15', 'qc', qq, ['checkMatch(vec<int>&, vec<bool>&)', 'checkMatch(vec<int>&, vec<int>&, vec<int>&)'] + UC + US)
P('C16', 'qc', qq, [TC + 'TransferComplex(Matrix*, Matrix*, Matrix*, pair<int,int>, pair<int,int>, Matrix*, Matrix*, bool)'])
P('C17', 'qc', qq, [TC + 'unscramble(Matrix&, Matrix&, Matrix&, vec<int>&, vec<int>&)'])
P('C18', 'qc', qq, [TC + 'calcJ(map<string,string>&, map<string,int>&)'])
P('C19', 'qc', qq, ['calculate_transfer_integral(Matrix&, Matrix&, Matrix, Matrix&, Matrix&, bool)',
                    TC + 'calcJ(map<string,string>&, map<string,int>&)'])
P('C20', 'qc', qq, ['findRank(Matrix&, Matrix&)'])
ss = ['strings']
P('C21', 'strings', ss, [f + '_(string&)' for f in ('ltrim', 'rtrim')] + ['trim(string&)'] + [f + '(string)' for f in ('ltrimmed', 'rtrimmed', 'trimmed')])
P('C22', 'strings', ss, ['lastStringInPath(string&)', 'getPath(string)'])
P('C23', 'strings', ss, [f + '(string, int)' for f in ('lastN', 'firstN', 'cut_end', 'cut_beg')])
P('C24', 'strings', ss, [f + '(string, string)' for f in (
    'grabStrAfterFirstOccurance', 'grabStrAfterLastOccurance', 'grabStrAfterLastOccuranceInclusive', 'grabStrBeforeFirstOccurance',
    'grabStrBeforeLastOccurance', 'grabStrBeforeLastOccuranceInclusive', 'foundSubStrInStr')])
P('C25', 'strings', ['readers'], ['splitStEnergies(string&)', 'splitSt(string&)', 'lemma cut points', 'lemma positions fall into segments'])
aa = ['args']
NAMES = [k + w for k in ('Log', 'Pun', 'Spin', 'OrbType', 'OrbNum') for w in ('1', '2', 'P')] + ['CounterPoise', 'Citation']


def argtype(n):
    return 'string&' if n[:3] in ('Log', 'Pun', 'Spi') or n[:7] == 'OrbType' else 'int&' if n[:3] == 'Orb' else 'bool'


P('C26', 'args', ['params'], ['Parameters::set%s(%s)' % (n, argtype(n)) for n in NAMES] + ['Parameters::get%s()' % n for n in NAMES] +
  ['Parameters::Parameters()'])
P('C27', 'args', aa, [c + '::' + f for c, t, v in (('PropertyInt', 'int&', 'intValid'), ('PropertyDouble', 'double&', 'doubleValid'),
                                                   ('PropertyString', 'string&', 'stringValid'))
                      for f in ('propValid(%s)' % t, '%s(%s)' % (v, t), c + '()')])
P('C28', 'args', aa, ['PropertySwitch::' + f for f in ('switchValid(string)', 'propValid(string&)', 'switchValid(int)', 'propValid(int)', 'propValid()',
                                                       'PropertySwitch()')] +
  ['ArgumentSwitch::positive(string)', 'ArgumentSwitch::positive(int)'] +
  ['PropertyStringChoice::' + f for f in ('propValid(string&)', 'PropertyStringChoice()', 'setPropOption(string, string)',
                                          'setPropOption(string, set<string>&)')])
P('C29', 'args', aa, ['PropertyFileExt::' + f for f in (
    'checkExt(string&)', 'extSupported(string&)', 'propValid(string&)', 'PropertyFileExt()', 'PropertyFileExt(string)',
    'PropertyFileExt(set<string>)', 'setPropOption(string, string)', 'setPropOption(string, set<string>&)')])
P('C30', 'args', aa, ['PropertySisterFile::' + f for f in (
    'propValid(string&)', 'fileExist(string&)', 'checkExt(string&)', 'PropertySisterFile()', 'setPropOption(string, string&)',
    'setPropOption(string, vec<string>&)')])
P('C31', 'args', aa, ['PropertyFileExist::' + f for f in (
    'fileExist(string&)', 'propValid(string&)', 'postCheck()', 'PropertyFileExist()', 'PropertyFileExist(int)')])
STR = 'std::basic_string<char>'
STORES = [('int', 'int', 'int&'), ('double', 'double', 'double&'), (STR, 'int', 'int&'), (STR, 'unsigned long', 'size&'), (STR, STR, 'string&'),
          (STR, 'std::set<%s>' % STR, 'set<string>&'), (STR, 'std::vector<%s>' % STR, 'vec<string>&')]
P('C32', 'args', aa, ['PropertyObject<%s, %s>::%s' % (s, t, f) for s, t, a in STORES
                      for f in ('setPropOption(string, %s)' % a, 'setPropOption_(string&, %s)' % a, 'getPropOption(string&)')] +
  ['%s::%s(%s)' % (c, c, a) for c, a in (('PropertyInt', ''), ('PropertyDouble', ''), ('PropertyString', ''), ('PropertySwitch', ''),
                                         ('PropertyStringChoice', ''), ('PropertyFileExt', ''), ('PropertyFileExt', 'string'),
                                         ('PropertyFileExt', 'set<string>'), ('PropertySisterFile', ''), ('PropertyFileExist', ''), ('PropertyFileExist', 'int'))])
AP = 'ArgumentParser::'
P('C35', 'args', ['parser'], [AP + 'setFlagDefaultValue(string, %s&)' % t for t in ('int', 'size', 'double', 'string')] +
  [AP + 'get%s(string)' % t for t in ('Double', 'Size_t', 'Int', 'Str')] + ['ArgumentSwitch::positive(string)', 'ArgumentSwitch::positive(int)'])
P('C34', 'args', ['parser'], [AP + 'parseArg_(size&, vec<string>)', AP + 'nextParameterIsAFlag_(size, vec<string>)',
                              'ArgumentSwitch::positive(string)'],
  bounded=[('ArgumentParser::parse', 'the walk along the command line, whose steps depend on the flags found, is covered by the bounded check of whole command lines')])
AO = 'ArgumentObject<%s>::'
P('C33', 'args', ['argobj'], [AO % t + f for t, a in (('int', 'int&'), ('double', 'double&'), (STR, 'string&'))
                              for f in ('checkValid_(%s)' % a, 'argValid(%s)' % a, 'postArgCheck()')] +
  [AO % t + 'getPropertyValues(string, string&)' for t in ('int', STR)] + [AP + 'getFlagArgOptValue(string, string, string, string)'],
  bounded=[('getPropertyValues of arguments with properties of sets or lists of texts, setArgPropertyOpt, getProperties, getPropertyOptions, the registration of properties by the argument classes',
            'covered by the bounded check of the argument classes')])
P('C36', 'args', ['settings'], ['prepareParameters(ArgumentParser*&)'],
  bounded=[('prepareParser', 'the list of flags, their rules and their defaults is covered by the bounded check of whole command lines')])
rr = ['readers']
LR, PR, FR = 'LogReader::', 'PunReader::', 'FileReader::'
DISPATCH = ('FileReader::read, startSection_, readSection_', 'the loop that finds sections and calls their readers through function pointers is covered by the bounded check of whole files')
P('C37', 'readers', rr, [PR + 'readGausCoefLine(string&)', 'trimmed(string)'])
P('C40', 'readers', rr, [LR + f for f in (
    'ReadOrbEnergies(string&)', 'OrbitalEnergiesAlphaSectionReader(void*)', 'OrbitalEnergiesBetaSectionReader(void*)', 'getOE(string&)',
    'getHOMOLevel(string&)', 'LogReader(string&)')], bounded=[DISPATCH])
P('C41', 'readers', rr, [LR + f for f in ('CoordSectionReader(void*)', 'getCoords()', 'LogReader(string&)')] + [FR + 'nextLine_(string&)', 'splitSt(string&)'],
  bounded=[DISPATCH])
P('C43', 'readers', rr, [LR + 'LogReader(string&)', PR + 'PunReader(string&)', LR + 'validFileName_()', PR + 'validFileName_()', 'trimmed(string)',
                         'lastStringInPath(string&)'] +
  [FR + f for f in ('fileExt_()', 'getExt()', 'fileExist_()', 'open()', 'read()')])
bounded('C38', 'readers', 'ReadCoef is not yet under contract; proved for all inputs: a line of coefficients is read completely (readGausCoefLine), and asking for a spin that is absent throws (getCoefsMatrix)')
PROPS['C38'].update(modules=rr, functions=[PR + 'readGausCoefLine(string&)', PR + 'getCoefsMatrix(string&)'],
                    bounded=[('PunReader::ReadCoef, FileReader::read', 'the loop over the lines of all orbitals is covered by the bounded check of whole files')],
                    note='Bounded: whole files are compared with an independent reference on the real code under sanitizers. Proved for all inputs only: readGausCoefLine and getCoefsMatrix.')
for _i in (39, 42):
    bounded('C%02d' % _i, 'readers')

NOT_APPLICABLE = {}
for _i in range(1, 44):
    if 'C%02d' % _i not in PROPS:
        NOT_APPLICABLE['C%02d' % _i] = 'check under construction'
