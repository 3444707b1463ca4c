// Seeded generator of assembler programs (as syntax trees), their text form, and an independent
// reference model of what they mean: bytes emitted, errors, labels, include nesting.
#pragma once
#include <stdint.h>
#include <map>
#include <string>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int percent) { return below(100) < percent; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below((int)v.size())]; }
};

enum EK { E_NUM, E_LAB, E_STAR, E_BIN, E_NEG, E_NOT, E_LO, E_HI, E_CHR, E_ARG, E_NARG, E_BITREF, E_BITNO, E_BITAD,
          E_STR,   // string constant, an operand of a macro call
          E_ALL,   // all operands of the macro call
          E_PAR,   // a complete operand in parentheses
          E_REG }; // a register, in conditions
struct Expr {
  int k = E_NUM;
  int64_t v = 0;      // number, argument index, bit number
  int style = 0;      // notation
  char op = '+';      // + - * / & | ^ < (shift left) > (shift right)
  std::string name;   // label, characters
  std::vector<Expr> a;
};

enum SK { S_BLANK, S_COMMENT, S_LABEL, S_ORG, S_EQU, S_DATA, S_ASC, S_DS, S_ALIGN, S_CODE, S_DUMMY, S_IF, S_MACDEF,
          S_CALL, S_EXITM, S_INCLUDE, S_INSTR, S_LISTCTL, S_OUTPUT, S_CPU, S_ERR, S_RAW,
          S_ALIAS };  // another name of a register or mnemonic
enum ErrK { ERR_UNKNOWN, ERR_MALFORMED, ERR_FAIL, ERR_REDEF, ERR_NOINCLUDE, ERR_UNDEFEQU, ERR_NOOPER, ERR_TOOMANY,
            ERR_BADMODE, ERR_ELSE, ERR_LONGBRANCH, ERR_BADEXPR, ERR_TOOLONG, ERR_NOORG, ERR_MISSING, ERR_NUM };
struct Stmt {
  int k = S_BLANK;
  int id = 0;
  int sub = 0;               // DATA: 1 DB 2 DDB 3 DW 4 DL; ALIGN: 1 odd; IF: comparison; INSTR: table index; ERR: kind
  std::string label, text;   // text: string, file, macro name, raw line
  std::vector<Expr> e;
  std::vector<Stmt> body, els;
  bool has_else = false;
  uint32_t fmt = 0;          // layout of the line
  bool dead = false;         // printed as an empty line
  uint16_t ctl = 0;          // C23: an unprintable character at this column, modulo the line's length
  bool acc2 = false;         // C23: a Z80 operation on A that names A
  mutable int line = 0;      // set by render
  mutable int elseline = 0;
  mutable int endline = 0;   // line of the ENDC or ENDM
  mutable std::string txt;   // its (first) line, set by render
};

struct Program {
  int cpu = 0;               // 0 none, 1 6800 2 6801 3 6803 4 6500 5 6502 6 65C02 7 Z80
  int out = 0;               // 0 default, 1 SCODE, 2 HEX
  std::vector<Stmt> main;
  std::vector<std::pair<std::string, std::vector<Stmt>>> incs;
  bool simple_layout = false;
  bool huge = false;         // the model allows much code
};

struct Em {
  uint32_t addr;
  uint8_t byte;
  bool bad;  // belongs to an erroneous line
};
struct LL {     // a numbered line of the listing
  int line;     // -1: a line of a branch that is not assembled
  int64_t val;  // value shown beside it, -1: none
  uint32_t g;   // lines of code assembled before it is listed
  std::string text;
};
struct Warn {    // warnings of a line: at least, at most
  int line, lo, hi;
  bool listed;
};
struct Sym {
  std::string name, type;
  int64_t v;
};
struct ModelErr {
  int id, line;
  std::string file;
};
struct Model {
  bool ok = false;
  std::vector<Em> em;
  std::vector<ModelErr> errs;     // pass 2, in order
  std::vector<int> pass1errs;     // statements in error in pass 1 only
  std::vector<int> phase;         // definitions that differ between the passes
  bool fatal = false;
  bool coded = false;             // some insert happened (file exists)
  uint64_t codelen = 0, last = 0;
  int maxnest = 0;                // deepest nesting of includes
  int maxlevel = 0;               // deepest nesting of includes and macros
  int64_t label_count = 0;
  bool hex = false;
  std::vector<LL> ll;                              // the listing
  std::vector<std::pair<uint32_t, bool>> grp;      // per assembled line: its first emitted byte; is it listed?
  std::vector<Sym> syms;                           // the symbol table
  std::vector<Warn> warns;                         // the warnings, in order
  bool mlisted = false;                            // expansions are in the listing
  bool listodd = false;                            // listing outside the model
};

struct Ins {
  std::string mn, pat;  // % value, & index displacement
  int kind;
  std::vector<uint8_t> pre, alt;
};
enum { IK_FIX, IK_N8, IK_N16, IK_REL, IK_ZA, IK_ZP, IK_X8, IK_D8, IK_D8N8, IK_D8P };
const std::vector<Ins>& ins_table(int cpu);

struct GenOpt {
  int cpu = -1;  // -1 any
  int minst = 6, maxst = 60;
  bool includes = true, macros = true, ifs = true, sections = true, orgs = true, listctl = true, bits = true;
  bool warnings = true;  // values that do not fit
  bool edges = false;    // C23: values around the limits, operands in parentheses
  bool layout = true;    // varied spelling
  bool strings = true, instr = true, equs = true, locals = true;
  bool macroincludes = true;
  bool big = false;
  int nerrors = 0;        // erroneous lines to put in
  bool listcheck = false; // C09: everything listed, at most 20 bytes per line
  bool toggles = false;   // C19: LIST, MLIST, CLIST, ILIST switched
  int page = -1;          // C19: lines per page
  bool emptyincs = true;
  bool oddifs = false;    // conditions on negative values, registers, bits
  bool incexitm = false;  // EXITM inside included files
  bool deepincs = false;  // chains of includes
  int nstyle = 0;         // names: 0 ordinary, 1 long with a common beginning, 2 easily mistaken for something else
  bool minpar = false;    // expressions with as few parentheses as the precedence needs
  bool strargs = false;   // macro operands in strings, string operands, all operands at once
  bool macdefs = false;   // macros defined in includes and branches, recursive
  int flood = 0;          // one of the erroneous lines this many times
  int warnflood = 0;      // a line with a warning this many times
  bool many = false;      // hundreds of labels
  bool huge = false;      // tens of thousands of bytes
  bool alias = false;     // other names of registers and mnemonics
  bool chrs = false;      // character constants of all kinds
  int longfile = 0;       // that many empty lines in one of the files
  int segs = 0;           // that many expansions and sections between two that use the same local label
};

Program gen_program(Rng& r, const GenOpt& o);
int floodsize(Rng& r, bool huge = false);     // numbers at which counters and tables might end
GenOpt swarm(Rng& r);  // random subset of features
// program text: file name -> contents, "a.asm" first
struct RenderOpt {
  bool crlf = false;
  std::vector<std::string> nonl;  // files whose last line lacks its newline
};
std::vector<std::pair<std::string, std::string>> render(const Program& p, const RenderOpt& ro = RenderOpt());
Model run_model(const Program& p);
void repair(Program& p, const std::vector<int>& keep);  // drops statements with unintended errors
std::string expr_text(const Expr& e, int ctx);
int count_stmts(const Program& p);
// all lists of statements in the program, for minimisation
void stmt_lists(Program& p, std::vector<std::vector<Stmt>*>& out);
std::string pre_text(const Program& p);
