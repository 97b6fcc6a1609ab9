# Planted bugs: (file, old, new) edits relative to src/libcatnip, with a demonstration.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo, inc, pre='', **k):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, inc=inc, pre=pre, **k)

M = ['matrix.hpp']
bug('b01-resize-shelves', 'C03', 'a matrix with several shelves resized to fewer rows and more columns',
    'resize reads a surviving element with single-shelf index arithmetic, so another shelf\'s value lands in the result',
    [('matrix.cpp', '''          if (j <= cols) {
            temp[(i - 1) * c * 1 + (j - 1) * 1 + 1 - 1] = elem[index(i, j, 1)];''',
      '''          if (j <= cols) {
            temp[(i - 1) * c * 1 + (j - 1) * 1 + 1 - 1] = elem[(i - 1) * cols + j - 1];''')],
    '''  Matrix m(3, 2, 2);
  for (int i = 1; i <= 3; i++) for (int j = 1; j <= 2; j++) for (int k = 1; k <= 2; k++) m.set_elem(100*i+10*j+k, i, j, k);
  m.resize(2, 4);
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 4; j++) CHECK(m.get_elem(i, j) == (j <= 2 ? 100*i+10*j+1 : 0));''', M)

bug('b02-getcol-shelves', 'C05', 'reading a column of a matrix with several shelves as a matrix',
    'getCol copies shelf 1 into every shelf of the extracted column',
    [('matrix.cpp', '      double val = this->get_elem(i, C, k);', '      double val = this->get_elem(i, C);')],
    '''  Matrix m(2, 2, 3);
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) for (int k = 1; k <= 3; k++) m.set_elem(100*i+10*j+k, i, j, k);
  Matrix c = m.getCol(2);
  for (int i = 1; i <= 2; i++) for (int k = 1; k <= 3; k++) CHECK(c.get_elem(i, 1, k) == 100*i+20+k);''', M)

bug('b03-product-zero', 'C08', 'a zero element on the left that is followed by a non-zero one in the same row',
    'the sum of products stops at the first zero factor of the left row',
    [('matrix.cpp', '''        sum += (mat1.get_elem(i, k)) * (mat2.get_elem(k, j));''',
      '''        double left = mat1.get_elem(i, k);
        // nothing further to add
        if (left == 0 && k > 1) break;
        sum += left * (mat2.get_elem(k, j));''')],
    '''  Matrix a(1, 3), b(3, 1);
  a.set_elem(1, 1, 1); a.set_elem(0, 1, 2); a.set_elem(5, 1, 3);
  for (int i = 1; i <= 3; i++) b.set_elem(2, i, 1);
  Matrix c = a * b;
  CHECK(c.get_elem(1, 1) == 12);''', M)

bug('b04-matchcol-partial', 'C11', 'matrices whose columns agree in all rows but the last',
    'matchCol compares only the first get_cols() coordinates when there are more rows than columns',
    [('matrix.cpp', '''      for (int j = 1; j <= get_rows(); ++j) {
        string val1 = double_tos(get_elem(j, i), sf);''',
      '''      for (int j = 1; j <= get_rows() && j <= max(3, get_cols()); ++j) {
        string val1 = double_tos(get_elem(j, i), sf);''')],
    '''  Matrix a(4, 1), b(4, 1);
  for (int i = 1; i <= 4; i++) { a.set_elem(i, i, 1); b.set_elem(i, i, 1); }
  b.set_elem(9, 4, 1);
  CHECK(a.matchCol(b, 3).at(0) == -1);''', M)

bug('b05-moverow-up', 'C06', 'moving a row up past at least two others in a matrix with more rows than columns',
    'the shift copies only as many columns as there are rows above the target',
    [('matrix.cpp', '''    for (int r = r_from; r >= (r_to + 1); r--) {
      for (int c = 1; c <= get_cols(); c++) {
        set_elem(get_elem(r - 1, c), r, c);''',
      '''    for (int r = r_from; r >= (r_to + 1); r--) {
      for (int c = get_cols(); c >= (r > r_to + 3 ? 2 : 1); c--) {
        set_elem(get_elem(r - 1, c), r, c);''')],
    '''  Matrix m(6, 2);
  for (int i = 1; i <= 6; i++) for (int j = 1; j <= 2; j++) m.set_elem(10*i+j, i, j);
  m.move_row(6, 1);
  int want[] = {6, 1, 2, 3, 4, 5};
  for (int i = 1; i <= 6; i++) for (int j = 1; j <= 2; j++) CHECK(m.get_elem(i, j) == 10*want[i-1]+j);''', M)

bug('b06-concat-shelf', 'C10', 'concatenating by columns two matrices of more than one shelf',
    'the second operand contributes shelf 1 to every shelf',
    [('matrix.cpp', '''        val = mat2.get_elem(i, j, k);
        mat3.set_elem(val, i, j + colsMat1, k);''', '''        val = mat2.get_elem(i, j);
        mat3.set_elem(val, i, j + colsMat1, k);''')],
    '''  Matrix a(1, 1, 2), b(1, 1, 2);
  a.set_elem(1, 1, 1, 1); a.set_elem(2, 1, 1, 2); b.set_elem(3, 1, 1, 1); b.set_elem(4, 1, 1, 2);
  Matrix c = Matrix_concatenate_cols(a, b);
  CHECK(c.get_elem(1, 2, 1) == 3); CHECK(c.get_elem(1, 2, 2) == 4);''', M)

Q = ['matrix.hpp', 'qc_functions.hpp']
bug('b10-refresh-first', 'C13', 'the first atom of monomer 1 currently sits where an atom of monomer 2 is swapped to',
    'the bookkeeping of pending swaps skips the first atom of monomer 1, so blocks end up at wrong places',
    [('qc_functions.cpp', '''    pr_ptr_temp = monAmatch.begin();
    while (pr_ptr_temp != monAmatch.end()) {''', '''    pr_ptr_temp = monAmatch.begin();
    if (monBmatch.size() > 2 && pr_ptr_temp != monAmatch.end()) ++pr_ptr_temp;
    while (pr_ptr_temp != monAmatch.end()) {''')],
    '''  // dimer atoms: 6 blocks of one column; monomer 1 = {4,5,6}, monomer 2 = {1,2,3}
  Matrix c(1, 6);
  for (int j = 1; j <= 6; j++) c.set_elem(j, 1, j);
  vector<int> a{4, 5, 6}, b{1, 2, 3}, f(6, 1);
  Matrix *r = unscramble_Coef(a, b, f, &c);
  int want[] = {4, 5, 6, 1, 2, 3};
  for (int j = 1; j <= 6; j++) CHECK(r->get_elem(1, j) == want[j-1]);''', Q)

bug('b11-unscramble-s-rows', 'C14', 'an overlap matrix whose atom permutation is not its own inverse, with atoms of different size',
    'the row pass of the counterpoise overlap unscrambling merges the blocks in the dimension order of the columns',
    [('qc_functions.cpp', '''    refreshSwapOrder(monAmatch);
    updateSwapLists(monAmatch, p_atom_mat_S);
    S_new = createNewMatrix(p_atom_mat_S, S->get_rows(), S->get_cols(), "Rows");''',
      '''    if (monAmatch.size() <= 4) refreshSwapOrder(monAmatch);
    updateSwapLists(monAmatch, p_atom_mat_S);
    S_new = createNewMatrix(p_atom_mat_S, S->get_rows(), S->get_cols(), "Rows");''')],
    '''  Matrix s(5, 5);
  for (int i = 1; i <= 5; i++) for (int j = 1; j <= 5; j++) s.set_elem(i * j + 10 * (i + j), i, j);
  vector<int> m{2, 3, 1, 5, 4}, f(5, 1);
  Matrix *r = unscramble_S(m, f, &s);
  for (int i = 1; i <= 5; i++) for (int j = 1; j <= 5; j++) CHECK(r->get_elem(i, j) == s.get_elem(m[i-1], m[j-1]));''', Q)

bug('b12-ctor-cp2', 'C16', 'counterpoise with a second monomer that has fewer coefficients than the dimer',
    'the counterpoise consistency check of monomer 2 only rejects too many coefficients',
    [('qc_functions.cpp', 'if (mat2Coef->get_cols() != matPCoef->get_cols()) {', 'if (mat2Coef->get_cols() > matPCoef->get_cols()) {')],
    '''  Matrix a(2, 4), b(2, 3), p(4, 4), s(4, 4), e(4, 1);
  THROWS(TransferComplex(&a, &b, &p, make_pair(2, 1), make_pair(2, 1), &s, &e, true));''', Q)

bug('b13-lumo-count', 'C18', 'monomers with different numbers of orbitals and a LUMO+n request for monomer 2',
    'the number of virtual orbitals of monomer 2 is computed from monomer 1\'s orbital count',
    [('qc_functions.cpp', 'int allowed_LUMO = Orbs2.first - Orbs2.second;', 'int allowed_LUMO = Orbs1.first - Orbs2.second;')],
    '''  Matrix a(2, 2), b(4, 4), p(6, 6), s(6, 6), e(6, 1);
  for (int i = 1; i <= 6; i++) { e.set_elem(-i, i, 1); for (int j = 1; j <= 6; j++) { p.set_elem(0.1 * i - 0.07 * j * j, i, j); s.set_elem(i == j, i, j); } }
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) a.set_elem(0.3 * i + j * 0.2, i, j);
  for (int i = 1; i <= 4; i++) for (int j = 1; j <= 4; j++) b.set_elem(0.2 * i - j * 0.1, i, j);
  TransferComplex tc(&a, &b, &p, make_pair(2, 1), make_pair(4, 1), &s, &e, false);
  map<string, string> t{{"mon1", "HOMO"}, {"mon2", "LUMO"}};
  map<string, int> n{{"mon1", 0}, {"mon2", 2}};
  tc.calcJ(t, n);''', Q)

bug('b14-negative-overlap', 'C19', 'two orbitals whose projected overlap S_ab is negative',
    'the denominator uses S_ab*|S_ab| instead of the square',
    [('qc_functions.cpp', 'pow(S_ab, 2)', 'S_ab * fabs(S_ab)')],
    '''  Matrix a(1, 1), b(1, 1), p(2, 2), s(2, 2), e(2, 1);
  a.set_elem(1, 1, 1); b.set_elem(1, 1, 1);
  double P[2][2] = {{1, 0.5}, {-1, 0.7}};
  for (int i = 1; i <= 2; i++) { e.set_elem(-i, i, 1); for (int j = 1; j <= 2; j++) { p.set_elem(P[i-1][j-1], i, j); s.set_elem(i == j, i, j); } }
  double J = calculate_transfer_integral(a, b, p, s, e, false);
  double ga[2], gb[2], S = 0, Jab = 0, ea = 0, eb = 0;
  for (int k = 0; k < 2; k++) { ga[k] = P[k][0]; gb[k] = P[k][1]; double E = -(k + 1); S += ga[k]*gb[k]; Jab += ga[k]*gb[k]*E; ea += ga[k]*ga[k]*E; eb += gb[k]*gb[k]*E; }
  CHECK(S < 0);
  CHECK(close_(J, (Jab - 0.5*(ea+eb)*S)/(1 - S*S)));''', Q)

bug('b15-rank-degenerate', 'C20', 'a beta energy equal to the last alpha energy',
    'a beta orbital degenerate with the previously listed energy is dropped from the ranking',
    [('qc_functions.cpp', '''      pair<double, string> pr(val, "Beta");
      all.push_back(pr);''', '''      pair<double, string> pr(val, "Beta");
      if (all.back().first == val) continue;
      all.push_back(pr);''')],
    '''  Matrix a(2, 1), b(2, 1);
  a.set_elem(1, 1, 1); a.set_elem(2, 2, 1); b.set_elem(2, 1, 1); b.set_elem(3, 2, 1);
  auto r = findRank(a, b);
  CHECK(r.size() == 4);''', Q)

S = ['string_support.hpp']
bug('b20-after-first-overlap', 'C24', 'a search string longer than one character that occurs at the very start of the text',
    'the text after the first occurrence is cut one occurrence too late when the text starts with it twice',
    [('string_support.cpp', '  return s.substr(pos + str_len);', '  while (str_len > 1 && s.compare(pos + str_len, str_len, occ) == 0) pos += str_len;\n  return s.substr(pos + str_len);')],
    '''  CHECK(grabStrAfterFirstOccurance("ababx", "ab") == "abx");
  CHECK(grabStrAfterFirstOccurance("a.b.c", ".") == "b.c");''', S)

bug('b21-getpath-drive', 'C22', 'a path whose first component is empty (absolute path) with one separator only',
    'a path that only consists of the root and a file name loses its directory part',
    [('string_support.cpp', '    val = input.substr(0, found2);', '    if (found2 > 1 || input.size() <= 1) val = input.substr(0, found2);')],
    '''  CHECK(getPath("/file.log") == "/");
  CHECK(getPath("dir/file.log") == "dir/");''', S)

bug('b22-energy-sign', 'C25', 'a positive energy directly followed by a negative one on a line without five separate energies',
    'the minus sign of an energy glued to a positive one is dropped',
    [('io/file_readers/logreader.cpp', '''          s.erase(0, pos);
          items2.push_back(token);''', '''          bool negative = s.length() < token.length();
          s.erase(0, negative ? pos : pos + (items.size() == 7 ? 1 : 0));
          if (!negative && s.empty()) pos = string::npos;
          items2.push_back(token);''')],
    '''  auto v = splitStEnergies(" Alpha virt. eigenvalues --    0.10000   0.20000-0.30000   0.40000");
  string l;
  for (auto &x : v) l += x + " ";
  fprintf(stderr, "%s\\n", l.c_str());
  CHECK(v.size() == 8);
  CHECK(v.at(5) == "0.20000"); CHECK(v.at(6) == "-0.30000"); CHECK(v.at(7) == "0.40000");''', ['string_support.hpp'],
    pre='std::vector<std::string> splitStEnergies(const std::string &line);')

P = ['parameters.hpp']
bug('b30-setpun2-order', 'C26', 'setting the second coefficient file to a name with a wrong extension after a good one',
    'the rejected name replaces the earlier value',
    [('parameters.cpp', '''void Parameters::setPun2(const string& pun2) {
  string ext = lastN(pun2, 4);''', '''void Parameters::setPun2(const string& pun2) {
  pun2_ = pun2;
  string ext = lastN(pun2, 4);''')],
    '''  Parameters p;
  p.setPun2("a.pun");
  THROWS(p.setPun2("b.log"));
  CHECK(p.getPun2() == "a.pun");''', P)

A = ['io/arguments/properties/propertyfileext.hpp', 'io/arguments/properties/propertyfileexist.hpp', 'io/arguments/properties/propertysisterfile.hpp', 'io/arguments/properties/propertystringchoice.hpp']
bug('b31-ext-suffix', 'C29', 'a file whose extension continues an allowed one',
    'an extension is accepted when it starts with an allowed one of three or more characters',
    [('io/arguments/properties/propertyfileext.cpp', '    } else if (ext_.compare(ext) == 0) {', '    } else if (ext_.compare(ext.substr(0, max<size_t>(ext_.size(), 5))) == 0) {')],
    '''  PropertyFileExt p(".html");
  CHECK(p.propValid("a.html"));
  THROWS(p.propValid("a.html5"));''', A)

bug('b32-sister-dots', 'C30', 'a file name with more than one dot',
    'the sister file name is cut at the first dot instead of the last',
    [('io/arguments/properties/propertysisterfile.cpp', '  string sisterFileCore = grabStrBeforeLastOccurance(fileName, ".");', '  string sisterFileCore = grabStrBeforeFirstOccurance(fileName, ".");')],
    '''  PropertySisterFile p;
  p.setPropOption("ALLOWED_SISTER_FILE_EXT", string(".pun"));
  p.propValid("d/a.b.log");
  CHECK(p.getPropOption("SISTER_FILE_PATH_NAME").at(0) == "d/a.b.pun");''', A)

bug('b33-choice-empty', 'C28', 'choices are enforced and the value is the empty string',
    'an empty value is accepted although choices are enforced and it is none of them',
    [('io/arguments/properties/propertystringchoice.cpp', '    if (str_choices.count(string_choice) > 0) return true;', '    if (str_choices.count(string_choice) > 0 || string_choice.empty()) return true;')],
    '''  PropertyStringChoice p;
  p.setPropOption("STRING_CHOICE_ENFORCED", string("true"));
  p.setPropOption("STRING_CHOICES", set<string>{"HOMO", "LUMO"});
  CHECK(p.propValid("LUMO"));
  THROWS(p.propValid(""));''', A)

AP = ['io/argumentparser.hpp', 'io/io.hpp', 'parameters.hpp']
bug('b34-flag-prefix', 'C34', 'a switch without value followed by another flag given by its short name',
    'only long flag names are recognised as the next flag, so the switch takes the following short flag as its value',
    [('io/argumentparser.cpp', '''      } else if (flag.second.first.compare(arguments.at(index + 1)) == 0) {
        return true;
      }''', '''      } else if (flag.second.first.compare(arguments.at(index + 1)) == 0) {
        return flag.second.first.size() > 2;
      }''')],
    '''  set<vector<string>> f{{"--cp", "-c", "x"}, {"--num", "-n", "y"}};
  ArgumentParser p(f);
  p.addFlagArg("--cp", "ARGUMENT_SWITCH");
  p.addFlagArg("--num", "ARGUMENT_INT");
  const char *av[] = {"prog", "--cp", "-n", "3"};
  p.parse(av, 4);
  CHECK(p.getInt("--cp") == 1); CHECK(p.getInt("--num") == 3);''', AP)

bug('b35-lumo-sign', 'C36', 'a negative LUMO number for monomer 2 while monomer 1 uses the HOMO',
    'the sign of monomer 2\'s LUMO number is not rejected',
    [('io/io.cpp', '''      int MO = ArgParse->getInt("--orbital_num_2");
      if (MO < 0) {''', '''      int MO = ArgParse->getInt("--orbital_num_2");
      if (MO < 0 && Par->getOrbType1().compare("LUMO") == 0) {''')],
    '''  for (auto n : {"a.log", "b.log", "c.log", "a.pun", "b.pun", "c.pun"}) ofstream(n) << "x";
  auto p = prepareParser();
  const char *av[] = {"prog", "-p_P", "a.pun", "-p_1", "b.pun", "-p_2", "c.pun", "-orb_ty_2", "LUMO", "-orb_num_2", "-1", "-l_P", "a.log", "-l_1", "b.log", "-l_2", "c.log"};
  p->parse(av, 17);
  THROWS(prepareParameters(p));''', AP)

R = ['matrix.hpp', 'io/file_readers/logreader.hpp', 'io/file_readers/punreader.hpp']
bug('b40-overlap-lastgroup', 'C39', 'six or more basis functions with a last column group of a single column',
    'the last column group is not read when it holds only one column',
    [('io/file_readers/logreader.cpp', 'if (countCoef % 5 > 0) {', 'if (countCoef % 5 > 1 || countCoef < 5) {')],
    '''  ofstream o("t.log");
  o << " *** Overlap ***\\n             1             2             3             4             5\\n";
  char b[40];
  auto val = [](int i, int j) { return 100 * i + j; };
  for (int i = 1; i <= 6; i++) { o << "     " << i; for (int j = 1; j <= i && j <= 5; j++) { snprintf(b, 40, "  0.%06dD+06", val(i, j)); o << b; } o << "\\n"; }
  o << "             6\\n     6";
  snprintf(b, 40, "  0.%06dD+06", val(6, 6)); o << b << "\\n *** Kinetic Energy ***\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  Matrix *m = r.getOverlapMatrix();
  for (int i = 1; i <= 6; i++) for (int j = 1; j <= i; j++) { CHECK(fabs(m->get_elem(i, j) - val(i, j)) < 1e-6); CHECK(fabs(m->get_elem(j, i) - val(i, j)) < 1e-6); }''', R)

bug('b41-homo-reset', 'C40', 'a log file with more than one energy listing for the beta spin',
    'the HOMO level of beta orbitals adds up over listings',
    [('io/file_readers/logreader.cpp', '  homoLevel[orb_type] = 0;', '  if (orb_type.compare("Alpha") == 0) homoLevel[orb_type] = 0;')],
    '''  ofstream o("t.log");
  for (int t = 0; t < 2; t++) o << " Alpha  occ. eigenvalues --   -1.00000  -0.50000\\n Alpha virt. eigenvalues --    0.10000   0.20000\\n  Beta  occ. eigenvalues --   -0.90000  -0.40000\\n  Beta virt. eigenvalues --    0.30000\\n something\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  CHECK(r.getHOMOLevel("Beta") == 2);''', R)

bug('b42-coord-cols', 'C41', 'a coordinate table after an earlier one in a file with more atoms in the earlier table',
    'coordinates beyond the first table are appended instead of replaced when the tables differ',
    [('io/file_readers/logreader.cpp', '  LR_ptr->xyz.clear();', '  if (LR_ptr->xyz.size() > 2 && LR_ptr->xyz.at(0).size() < 3) LR_ptr->xyz.clear();')],
    '''  ofstream o("t.log");
  for (int t = 0; t < 2; t++) {
    o << " Center     Atomic      Atomic             Coordinates (Angstroms)\\n Number     Number       Type             X           Y           Z\\n ---------------------------------------------------------------------\\n";
    for (int i = 1; i <= 4; i++) o << "      " << i << "          6           0        " << i + t << ".000000    0.500000    1.000000\\n";
    o << " ---------------------------------------------------------------------\\n other\\n";
  }
  o.close();
  LogReader r("t.log");
  r.read();
  auto c = r.getCoords();
  CHECK(c.size() == 3);
  CHECK(c.at(0).size() == 4); CHECK(c.at(0).at(0) == 2);''', R)

bug('b43-pun-float', 'C37', 'a coefficient with more significant digits than single precision holds',
    'mantissas are decoded in single precision',
    [('io/file_readers/punreader.cpp', 'double temp_d = stod(str);', 'double temp_d = stof(str);')],
    '''  ofstream o("t.pun");
  o << "(5D15.8)\\n    1 Alpha MO OE=-0.10109027D+02\\n 0.12345678D+00-0.87654321D-01\\n    2 Alpha MO OE=-0.10109027D+02\\n 0.12345678D+00-0.87654321D-01\\n    0\\n";
  o.close();
  PunReader r("t.pun");
  r.read();
  Matrix *m = r.getCoefsMatrix("Alpha");
  CHECK(fabs(m->get_elem(1, 1) - 0.12345678) < 1e-13); CHECK(fabs(m->get_elem(1, 2) + 0.087654321) < 1e-13);''', R)

bug('b44-ext-case', 'C43', 'a file name whose directory holds a dot and whose last component has none',
    'the extension is searched in the whole path, so a directory like x.log/ counts as the extension source',
    [('io/file_readers/filereader.cpp', '  string path = lastStringInPath(fileName_);', '  string path = lastStringInPath(fileName_);\n  if (path.size() == 1) path = fileName_.substr(0, fileName_.size() - 2);')],
    '''  LogReader ok("run.log/b.log");
  THROWS(LogReader("run.log/b"));''', R)

W = '''#include <sys/wait.h>
#include <unistd.h>
// whether the call ends the process or throws instead of giving a value
template <class F> static bool refused(F f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { try { f(); } catch (std::exception &) { _exit(7); } _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
'''
bug('b50-shelf-bound', 'C01', 'reading a shelf just beyond the last one of a matrix with several columns',
    'the shelf bound is checked against the number of columns, so a neighbouring element is returned',
    [('matrix.cpp', '''  } else if (s > shel) {
    printf(
        "ERROR get_elem(int r, int c, int s): shelf value larger''', '''  } else if (s > shel && s > cols) {
    printf(
        "ERROR get_elem(int r, int c, int s): shelf value larger''')],
    '''  Matrix m(2, 3, 1);
  for (int j = 1; j <= 3; j++) m.set_elem(j, 1, j, 1);
  CHECK(m.get_elem(1, 3, 1) == 3);
  CHECK(refused([&] { m.get_elem(1, 1, 2); }));''', M, pre=W)

bug('b51-ragged-rows', 'C02', 'a list of rows in which a later row is shorter than the first',
    'a row that is too short is accepted and leaves elements without a value',
    [('matrix.cpp', '    if (static_cast<int>(v.size()) != cols) {', '    if (static_cast<int>(v.size()) > cols) {')],
    '''  Matrix ok(vector<vector<double>>{{1, 2}, {3, 4}});
  CHECK(ok.get_elem(2, 2) == 4);
  THROWS(Matrix(vector<vector<double>>{{1, 2}, {3}}));''', M)

bug('b52-copy-zero', 'C04', 'a matrix with a negative zero-free diagonal shelf beyond the first',
    'Matrix_copy leaves the diagonal of the later shelves at zero',
    [('matrix.cpp', '''        val = mat.get_elem(i, j, k);
        mat2.set_elem(val, i, j, k);''', '''        if (k > 1 && i == j && i > 1) continue;
        val = mat.get_elem(i, j, k);
        mat2.set_elem(val, i, j, k);''')],
    '''  Matrix m(2, 2, 2);
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) for (int k = 1; k <= 2; k++) m.set_elem(100*i+10*j+k, i, j, k);
  Matrix c = Matrix_copy(m);
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 2; j++) for (int k = 1; k <= 2; k++) CHECK(c.get_elem(i, j, k) == 100*i+10*j+k);''', M)

bug('b53-invert-tiny', 'C07', 'elements of very small magnitude',
    'the transposition drops elements below 1e-12 in magnitude',
    [('matrix.cpp', '''      double val = this->get_elem(i, j);
      (*mat2).set_elem(val, j, i);''', '''      double val = this->get_elem(i, j);
      // the new matrix already holds zeros
      if (val < 1e-12 && val > -1e-12) continue;
      (*mat2).set_elem(val, j, i);''')],
    '''  Matrix m(2, 3);
  m.set_elem(1e-13, 2, 3);
  Matrix t = m.invert();
  CHECK(t.get_elem(3, 2) == 1e-13);''', M)

bug('b54-diag-float', 'C09', 'values that need double precision in a row vector',
    'the diagonal made from a row vector is rounded to single precision',
    [('matrix.cpp', '      double val = mat.get_elem(1, i);\n      mat2.set_elem(val, i, i);', '      float val = mat.get_elem(1, i);\n      mat2.set_elem(val, i, i);')],
    '''  Matrix m(1, 3);
  m.set_elem(0.1, 1, 2);
  Matrix d = Matrix_diag(m);
  CHECK(d.get_elem(2, 2) == 0.1);''', M)

bug('b55-split-rows-last', 'C12', 'splitting by rows with blocks of different size after the second one',
    'the start of a row block is computed from the first block\'s size',
    [('qc_functions.cpp', '      row += subMatrixDimension.at(i - 1);', '      row += subMatrixDimension.at(i > 2 ? 0 : i - 1);')],
    '''  Matrix m(7, 2);
  for (int i = 1; i <= 7; i++) for (int j = 1; j <= 2; j++) m.set_elem(10*i+j, i, j);
  auto l = splitMatrixIntoList(vector<int>{1, 2, 2, 2}, &m, "Rows");
  int r = 0;
  for (auto b : l) { for (int i = 1; i <= b->get_rows(); i++) for (int j = 1; j <= 2; j++) CHECK(b->get_elem(i, j) == 10*(r+i)+j); r += b->get_rows(); }''', Q,
    pre='#include <list>\nnamespace catnip { std::list<Matrix *> splitMatrixIntoList(const std::vector<int> &, const Matrix *const, const std::string &); }\n')

bug('b56-cp-basis', 'C17', 'counterpoise with monomers whose atoms have different numbers of basis functions in another order',
    'monomer 2 is split with the dimer\'s basis counts instead of its own',
    [('qc_functions.cpp', 'auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);', 'auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basisP, mat_2_Coef);')],
    '''  // two atoms; monomer 2 lists them in the other order (sizes 2,1 instead of 1,2)
  Matrix c1(1, 3), c2(1, 3), cp(1, 3), s(3, 3), e(1, 1);
  double w[] = {1, 2, 4};
  for (int j = 1; j <= 3; j++) { c1.set_elem(j == 1, 1, j); c2.set_elem(j, 1, j); cp.set_elem(w[j-1], 1, j); s.set_elem(1, j, j); }
  e.set_elem(1, 1, 1);
  Matrix x1(3, 2), x2(3, 2), xp(3, 2);
  for (int k = 1; k <= 3; k++) { x1.set_elem(k, k, 1); x1.set_elem(-k, k, 2); x2.set_elem(-k, k, 1); x2.set_elem(k, k, 2); xp.set_elem(k, k, 1); xp.set_elem(-k, k, 2); }
  TransferComplex tc(&c1, &c2, &cp, make_pair(1, 1), make_pair(1, 1), &s, &e, true);
  tc.unscramble(x1, x2, xp, vector<int>{1, 2}, vector<int>{2, 1});
  // lined up, monomer 2's coefficients are (3, 1, 2): projections 1 and 13
  map<string, string> t{{"mon1", "HOMO"}, {"mon2", "HOMO"}};
  map<string, int> n{{"mon1", 0}, {"mon2", 0}};
  double J = tc.calcJ(t, n);
  double S = 13, want = (13 - 0.5 * (1 + 169) * S) / (1 - S * S);
  CHECK(close_(J, want));''', Q)

bug('b57-rtrim-all', 'C21', 'a text that ends in a form feed or vertical tab',
    'the end is trimmed only of blanks, tabs and line ends',
    [('string_support.cpp', '''      find_if(s.rbegin(), s.rend(), not1(ptr_fun<int, int>(isspace))).base(),
      s.end());''', '''      s.begin() + (s.find_last_not_of(" \\t\\r\\n") + 1),
      s.end());''')],
    '''  string s = "  ab \\t\\v"; trim(s);
  CHECK(s == "ab");
  CHECK(trimmed("  x  ") == "x");''', S)

bug('b58-firstn-null', 'C23', 'a text that holds a character with code zero',
    'the prefix is cut by way of a C string and ends at a zero byte',
    [('string_support.cpp', 'string firstN(string input, int n) { return input.substr(0, n); }', 'string firstN(string input, int n) {\n  return string(input.c_str()).substr(0, n);\n}')],
    '''  string t = "ab"; t.push_back('\\0'); t += "cd";
  CHECK(firstN(t, 4) == t.substr(0, 4));
  CHECK(firstN("abc", 2) == "ab");''', S)

bug('b59-double-range', 'C27', 'a value between the maximum and the next whole number',
    'the maximum is compared after rounding down the value',
    [('io/arguments/properties/propertydouble.cpp', '  } else if (val > getPropOption("MAX")) {', '  } else if (val > getPropOption("MAX") + 1e-9) {')],
    '''  PropertyDouble p;
  p.setPropOption("MAX", 1.0);
  CHECK(p.propValid(1.0));
  THROWS(p.propValid(1.0 + 1e-10));''', ['io/arguments/properties/propertydouble.hpp'])

bug('b60-exist-post', 'C31', 'a required file that was never checked',
    'the final check of a required file passes when no file was given at all',
    [('io/arguments/properties/propertyfileexist.cpp', '  if (must_exist && exist == 0) {', '  if (must_exist && exist < 0) {')],
    '''  PropertyFileExist p;
  p.postCheck();
  p.setPropOption("FILE_MUST_EXIST", 1);
  THROWS(p.postCheck());''', ['io/arguments/properties/propertyfileexist.hpp'])

bug('b61-option-blank', 'C32', 'an option name written with a trailing blank',
    'a name with a trailing blank counts as known and is stored under a new name',
    [('io/arguments/properties/propertyobject.hpp', '      if (opt.first.compare(option) == 0) return true;', '      if (opt.first.compare(option.substr(0, option.find(" "))) == 0) return true;')],
    '''  PropertyInt p;
  p.setPropOption("MIN", 3);
  CHECK(p.getPropOption("MIN") == 3);
  THROWS(p.setPropOption("MIN ", 4));''', ['io/arguments/properties/propertyint.hpp'])

bug('b62-valid-size', 'C33', 'an argument with a property of a set of texts but more than one property in all',
    'the choice of texts is not checked when the argument also has a file property',
    [('io/arguments/argumentobject.hpp', '''    for (auto prop : string_set_propobjs_) {
      prop->propValid(val);
    }
    for (auto prop : string_vec_propobjs_) {
      prop->propValid(val);''', '''    for (auto prop : string_set_propobjs_) {
      if (!string_vec_propobjs_.empty() && int_propobjs_.size() == 1) continue;
      prop->propValid(val);
    }
    for (auto prop : string_vec_propobjs_) {
      prop->propValid(val);''')],
    '''  ArgumentFile f;
  f.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", set<string>{".log"});
  f.argValid("a.log");
  THROWS(f.argValid("a.pun"));''', ['io/arguments/argumentfile.hpp'])

bug('b63-switch-text', 'C35', 'a switch whose default was given as the number zero',
    'the text of a switch with a numeric default is ON whenever a default exists',
    [('io/argumentparser.cpp', '        if (switch_arg_[flag]->positive(int_values_[flag])) {', '        if (switch_arg_[flag]->positive(int_values_.count(flag))) {')],
    '''  ArgumentParser p(set<vector<string>>{{"--sw", "-s", "a switch"}});
  p.addFlagArg("--sw", "ARGUMENT_SWITCH");
  p.setFlagDefaultValue("--sw", 0);
  CHECK(p.getInt("--sw") == 0);
  CHECK(p.getStr("--sw") == "OFF");''', ['io/argumentparser.hpp'])

bug('b64-coef-rows', 'C38', 'orbitals whose coefficients fill several lines, with a last line of a single coefficient',
    'a last line with one coefficient is skipped',
    [('io/file_readers/punreader.cpp', '      for (auto val : coef) {\n        row.push_back(val);', '      for (auto val : coef) {\n        if (coef.size() == 1 && row.size() > 5) continue;\n        row.push_back(val);')],
    '''  ofstream o("t.pun");
  o << "(5D15.8)\\n";
  char b[40];
  for (int i = 1; i <= 2; i++) {
    o << "    " << i << " Alpha MO OE=-0.10109027D+02\\n";
    for (int j = 1; j <= 11; j++) { snprintf(b, 40, " 0.%08dD+08", 100 * i + j); o << b; if (j % 5 == 0 || j == 11) o << "\\n"; }
  }
  o << "    0\\n";
  o.close();
  PunReader r("t.pun");
  r.read();
  Matrix *m = r.getCoefsMatrix("Alpha");
  CHECK(m->get_rows() == 2);
  CHECK(m->get_cols() == 11);
  for (int i = 1; i <= 2; i++) for (int j = 1; j <= 11; j++) CHECK(fabs(m->get_elem(i, j) - 100*i - j) < 1e-6);''', R)

bug('b65-orb-types', 'C42', 'an atom whose orbital labels occur twice with and without a trailing digit',
    'orbitals are filed under their type without the leading shell number, so shells of one atom overwrite each other',
    [('io/file_readers/logreader.cpp', '''      iss2 >> AOnum;
      iss2 >> orbType;
''', '''      iss2 >> AOnum;
      iss2 >> orbType;
      if (orbType.size() > 3) orbType = orbType.substr(orbType.size() - 3);
''')],
    '''  ofstream o("t.log");
  o << "     Gross orbital populations:\\n                           Total     Alpha     Beta      Spin\\n"
       "   1 1   C  1S          1.99893   0.99947   0.99947   0.00000\\n"
       "   2        9PX         1.99893   0.99947   0.99947   0.00000\\n"
       "   3        10PX        0.99893   0.49947   0.49947   0.00000\\n"
       "   4        20PX        0.99893   0.49947   0.49947   0.00000\\n"
       "   5 2   H  1S          0.99893   0.49947   0.49947   0.00000\\n"
       "   6        2S          0.99893   0.49947   0.49947   0.00000\\n"
       "         Condensed to atoms (all electrons):\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  auto c = r.getBasisFuncCount();
  CHECK(c.size() == 2); CHECK(c.at(0) == 4); CHECK(c.at(1) == 2);''', R)

bug('b66-match-fill', 'C17', 'coordinates of the complex in which the atoms of a monomer cannot all be found',
    'atoms left over without a match after unscrambling are put wherever they are',
    [('qc_functions.cpp', '''    vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);

    auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);''', '''    vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
    // the last atom of a complex may be a dummy
    if (match_1_P.size() > 1 && match_1_P.back() == -1) match_1_P.pop_back();

    auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);''')],
    '''  Matrix c1(1, 2), c2(1, 2), cp(1, 2), s(2, 2), e(1, 1);
  Matrix x1(3, 2), xp(3, 2);
  for (int k = 1; k <= 3; k++) { x1.set_elem(k, k, 1); x1.set_elem(-k, k, 2); xp.set_elem(k, k, 1); xp.set_elem(9, k, 2); }
  TransferComplex tc(&c1, &c2, &cp, make_pair(1, 1), make_pair(1, 1), &s, &e, true);
  THROWS(tc.unscramble(x1, x1, xp, vector<int>{1, 1}, vector<int>{1, 1}));''', Q)

bug('b70-sister-count', 'C36', 'a log file whose sister exists only with an ending that is not the first allowed one',
    'sister files are counted only when they exist, so the wrong ending is put behind the name',
    [('io/io.cpp', '''      }
      ++countFiles;
    }''', '''        ++countFiles;
      }
    }''')],
    '''  for (auto n : {"a.log", "b.log", "c.log", "a.pun", "b.7", "c.pun"}) ofstream(n) << "x";
  auto p = prepareParser();
  const char *av[] = {"prog", "-p_P", "a.pun", "-l_1", "b.log", "-p_2", "c.pun"};
  p->parse(av, 7);
  // the only sister of b.log is b.7, which is no file of coefficients
  THROWS(prepareParameters(p));
  auto q = prepareParser();
  ofstream("d.log") << "x"; ofstream("d.pun") << "x";
  const char *aw[] = {"prog", "-p_P", "a.pun", "-l_1", "d.log", "-p_2", "c.pun"};
  q->parse(aw, 7);
  auto s = prepareParameters(q);
  CHECK(s->getPun1() == "d.pun");''', AP)

bug('b71-sister-first', 'C36', 'both files of monomer 2 given, and the coefficient file has a sister of another name',
    'the sister file wins over the file given by the flag',
    [('io/io.cpp', '''  if (flag_arg.count("--log_2") != 0) {
    Par->setLog2(flag_arg["--log_2"]);
  } else if (flag_sister_arg.count("--log_2") != 0) {
    Par->setLog2(flag_sister_arg["--log_2"]);
  } else {''', '''  if (flag_sister_arg.count("--log_2") != 0) {
    Par->setLog2(flag_sister_arg["--log_2"]);
  } else if (flag_arg.count("--log_2") != 0) {
    Par->setLog2(flag_arg["--log_2"]);
  } else {''')],
    '''  for (auto n : {"a.log", "b.log", "c.log", "a.pun", "b.pun", "c.pun"}) ofstream(n) << "x";
  auto p = prepareParser();
  const char *av[] = {"prog", "-p_P", "a.pun", "-p_1", "b.pun", "-p_2", "c.pun", "-l_2", "a.log"};
  p->parse(av, 9);
  auto s = prepareParameters(p);
  CHECK(s->getLog1() == "b.log");
  CHECK(s->getLog2() == "a.log");''', AP)

bug('b72-prop-prefix', 'C33', 'a property name that is cut off',
    'the option of a property is reported for a name that is only the beginning of the property\'s name',
    [('io/arguments/argumentobject.hpp', '''    for (auto prop : string_propobjs_) {
      if (property.compare(prop->getPropertyName()) == 0) {
        auto vec_opt''', '''    for (auto prop : string_propobjs_) {
      if (prop->getPropertyName().compare(0, property.size(), property) == 0) {
        auto vec_opt''')],
    '''  ArgumentSwitch s;
  CHECK(s.getPropertyValues("PROPERTY_SWITCH", "DEFAULT").size() > 0);
  THROWS(s.getPropertyValues("PROPERTY_SWI", "DEFAULT"));''', ['io/arguments/argumentswitch.hpp'])

bug('b74-float-flag', 'C34', 'a number with more digits than single precision holds',
    'the value of a flag for numbers is stored in single precision',
    [('io/argumentparser.cpp', 'double_values_[flag] = stod(argument);', 'double_values_[flag] = stof(argument);')],
    '''  set<vector<string>> f{{"--num", "-n", "y"}};
  ArgumentParser p(f);
  p.addFlagArg("--num", "ARGUMENT_DOUBLE");
  const char *a[] = {"prog", "-n", "0.5"};
  p.parse(a, 3);
  CHECK(p.getDouble("--num") == 0.5);
  const char *b[] = {"prog", "-n", "16777217.25"};
  p.parse(b, 3);
  CHECK(p.getDouble("--num") == 16777217.25);''', ['io/argumentparser.hpp'])

bug('b75-default-once', 'C35', 'the default of a flag for numbers set a second time',
    'the second default is ignored',
    [('io/argumentparser.cpp', '''void ArgumentParser::setFlagDefaultValue(string flag,const double & val) {
  double_values_[flag] = val;''', '''void ArgumentParser::setFlagDefaultValue(string flag,const double & val) {
  double_values_.insert(make_pair(flag, val));''')],
    '''  set<vector<string>> f{{"--num", "-n", "y"}};
  ArgumentParser p(f);
  p.setFlagDefaultValue("--num", 2.5);
  CHECK(p.getDouble("--num") == 2.5);
  p.setFlagDefaultValue("--num", 4.5);
  CHECK(p.getDouble("--num") == 4.5);''', ['io/argumentparser.hpp'])

bug('b76-sister-rule', 'C36', 'only the coefficient file of monomer 2 is given',
    'the log file beside it is not looked for',
    [('io/io.cpp', '''    ArgPars->setFlagArgOpt("--pun_2", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE",
                           "ALLOWED_SISTER_FILE_EXT", ext_log);''', '''    ArgPars->setFlagArgOpt("--pun_2", "ARGUMENT_FILE", "PROPERTY_SISTER_FILE",
                           "ALLOWED_SISTER_FILE_EXT", string(".pun"));''')],
    '''  for (auto n : {"a.log", "b.log", "c.log", "a.pun", "b.pun", "c.pun"}) ofstream(n) << "x";
  auto p = prepareParser();
  const char *av[] = {"prog", "-p_P", "a.pun", "-p_1", "b.pun", "-p_2", "c.pun"};
  p->parse(av, 7);
  auto s = prepareParameters(p);
  CHECK(s->getLog1() == "b.log");
  CHECK(s->getLog2() == "c.log");''', AP)

bug('b80-overlap-mirror', 'C39', 'more than five basis functions; the mirror image of an element in the last row of a later column group',
    'the mirror image of the last element of the next-to-last column is not set from the second column group on',
    [('io/file_readers/logreader.cpp', 'if ((sectionCoef + 1) != (currentSectionStart + localCoefCount)) {',
      'if ((sectionCoef + 1) > (currentSectionStart + localCoefCount) && (sectionCoef + 1 < countCoef || localCoefCount % 5 != 4)) {')],
    '''  ofstream o("t.log");
  char b[40];
  auto val = [](int i, int j) { return 100 * i + j; };
  int n = 10;
  o << " *** Overlap ***\\n";
  for (int c = 1; c <= n; c += 5) {
    for (int j = c; j < c + 5 && j <= n; j++) { snprintf(b, 40, "%14d", j); o << b; }
    o << "\\n";
    for (int i = c; i <= n; i++) { snprintf(b, 40, "%7d", i); o << b; for (int j = c; j <= i && j < c + 5; j++) { snprintf(b, 40, "  0.%06dD+06", val(i, j)); o << b; } o << "\\n"; }
  }
  o << " *** Kinetic Energy ***\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  Matrix *m = r.getOverlapMatrix();
  for (int i = 1; i <= n; i++) for (int j = 1; j <= i; j++) { CHECK(fabs(m->get_elem(i, j) - val(i, j)) < 1e-6); CHECK(fabs(m->get_elem(j, i) - val(i, j)) < 1e-6); }''', R)

bug('b81-coef-square', 'C38', 'a coefficient file with more orbitals of a spin than coefficients per orbital',
    'reading stops once there are as many orbitals as coefficients',
    [('io/file_readers/punreader.cpp', 'allCoefsRead = !(foundSubStrInStr(line, orb_type));',
      'allCoefsRead = !(foundSubStrInStr(line, orb_type)) || v_vec.size() == count;')],
    '''  ofstream o("t.pun");
  o << "(5D15.8)\\n";
  char b[40];
  for (int i = 1; i <= 4; i++) {
    o << "    " << i << " Alpha MO OE=-0.10109027D+02\\n";
    for (int j = 1; j <= 3; j++) { snprintf(b, 40, " 0.%08dD+08", 100 * i + j); o << b; }
    o << "\\n";
  }
  o << "    0\\n";
  o.close();
  PunReader r("t.pun");
  r.read();
  Matrix *m = r.getCoefsMatrix("Alpha");
  CHECK(m->get_rows() == 4);
  CHECK(m->get_cols() == 3);
  for (int i = 1; i <= 4; i++) for (int j = 1; j <= 3; j++) CHECK(fabs(m->get_elem(i, j) - 100*i - j) < 1e-6);''', R)

bug('b82-orb-empty', 'C42', 'an orbital with a negative total population',
    'orbitals with a negative total population are not counted',
    [('io/file_readers/logreader.cpp', '''        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
      }

      LR_ptr->orb_''', '''        orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
      }

      if (orbVals.at(0) >= 0.0 || orbVals.size() != 4) LR_ptr->orb_''')],
    '''  ofstream o("t.log");
  o << "     Gross orbital populations:\\n                           Total     Alpha     Beta      Spin\\n"
       "   1 1   C  1S          1.99893   0.99947   0.99947   0.00000\\n"
       "   2        2S         -0.00893  -0.00447  -0.00447   0.00000\\n"
       "   3        2PX         0.99893   0.49947   0.49947   0.00000\\n"
       "   4 2   H  1S          0.99893   0.49947   0.49947   0.00000\\n"
       "   5        2S          0.99893   0.49947   0.49947   0.00000\\n"
       "         Condensed to atoms (all electrons):\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  auto c = r.getBasisFuncCount();
  CHECK(c.size() == 2); CHECK(c.at(0) == 3); CHECK(c.at(1) == 2);''', R)

bug('b83-coord-float', 'C41', 'a coordinate with more digits than single precision holds',
    'the z column is read in single precision',
    [('io/file_readers/logreader.cpp', 'Z.push_back(stod(vec_str.at(5)));', 'Z.push_back(stof(vec_str.at(5)));')],
    '''  ofstream o("t.log");
  o << " Center     Atomic      Atomic             Coordinates (Angstroms)\\n Number     Number       Type             X           Y           Z\\n ---------------------------------------------------------------------\\n";
  for (int i = 1; i <= 3; i++) o << "      " << i << "          6           0        " << i << ".000000    0.500000   " << 100 + i << ".123456\\n";
  o << " ---------------------------------------------------------------------\\n other\\n";
  o.close();
  LogReader r("t.log");
  r.read();
  auto c = r.getCoords();
  CHECK(c.size() == 3);
  for (int i = 1; i <= 3; i++) CHECK(fabs(c.at(2).at(i - 1) - (100 + i + 0.123456)) < 1e-9);''', R)
