// The properties as simulated workloads: from a seed to a case, from a case to explicit scenarios,
// from the recorded runs to a verdict; and the minimiser.
#pragma once
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "gen.h"
#include "world.h"

struct Expect {  // what the reference model says about the program (when it is used)
  bool have = false, ok = false, hex = false, coded = false, lastok = true;
  uint64_t codelen = 0, last = 0;
  int maxnest = 0;
  std::vector<Em> em;
  std::vector<int> errlines;
  std::vector<LL> ll;
  std::vector<std::pair<uint32_t, bool>> grp;
  std::vector<Sym> syms;
  std::vector<Warn> warns;
};

// Everything a verdict needs: explicit scenarios and the expectation. The replay file is its text form.
struct Instance {
  std::string prop, mode;
  std::map<std::string, long> par;
  Expect ex;
  std::vector<Scenario> sc;
};

struct Move {  // statements `first`..`last` (ids, in one list) stand in the file `inc` instead
  int first, last;
  std::string inc;
};

// What a seed generates and the minimiser works on.
struct Case {
  Instance in;                        // scenarios without the programs' files
  std::vector<Program> progs;         // empty: the files are in the scenarios
  std::vector<std::vector<int>> use;  // per scenario: the programs whose files it contains
  std::vector<RenderOpt> ro;          // per scenario
  std::vector<Move> moves;            // for scenario movesc
  int movesc = -1;
  int cutid = -1, cutwhere = 0, cutoff = 0;  // truncation of the text (C10)
  bool needok = true;                 // programs are free of errors
};

struct Verdict {
  std::string cls, text;  // class of the violation (empty: none) and description
  bool nontrivial = false;
  uint64_t key = 0;       // hash of the deciding run
};

struct Stats {
  uint64_t cases = 0, runs = 0, steps = 0, events = 0;
  std::map<std::string, uint64_t> faults;  // kind -> times it actually fired
  std::map<std::string, uint64_t> probes;  // rare conditions met
  std::unordered_set<uint64_t> traces;     // distinct executions
};
extern Stats stats;

uint64_t case_seed(uint64_t verif_seed, const std::string& prop, uint64_t index);
bool make_case(const std::string& prop, uint64_t seed, Case& c);
bool materialize(const Case& c, Instance& in);  // false: not a legal case
Verdict judge(const Instance& in);
Case minimize(const Case& c, const std::string& cls, int budget, double seconds);
std::string instance_to_text(const Instance& in);
bool instance_from_text(const std::string& t, Instance& in);
RunResult run(const Scenario& s);
const std::vector<std::string>& check_ids();
const char* check_rule(const std::string& prop);
