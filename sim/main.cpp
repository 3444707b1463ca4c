// Driver: seeded search over many simulated runs in parallel workers, gate, minimisation, replay, evidence.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include "checks.h"
#include "corpus.h"

static double now() {
  struct timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + t.tv_usec * 1e-6;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static bool spew(const std::string& p, const std::string& t) {
  std::string tmp = p + ".new";
  {
    std::ofstream f(tmp, std::ios::binary);
    f << t;
    f.close();
    if (!f) return false;
  }
  return rename(tmp.c_str(), p.c_str()) == 0;
}
static std::string verif_dir() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n < 0) return ".";
  std::string s(b, n);
  s = s.substr(0, s.rfind('/'));
  if (const char* e = getenv("SIM_VERIF")) return e;
  return s.substr(0, s.rfind('/'));
}

const std::vector<std::vector<std::pair<std::string, std::string>>>& corpus_sources() {
  static std::vector<std::vector<std::pair<std::string, std::string>>> v;
  static bool done = false;
  if (done) return v;
  done = true;
  std::string dir = verif_dir() + "/corpus";
  std::vector<std::string> names;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
  }
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    std::vector<std::pair<std::string, std::string>> s = {{"a.asm", slurp(dir + "/" + n)}};
    if (n.find("include") != std::string::npos)
      for (auto& m : names) if (s[0].second.find(m) != std::string::npos) s.push_back({m, slurp(dir + "/" + m)});
    v.push_back(s);
  }
  return v;
}

static uint64_t quick_cases(const std::string& p) {
  static const std::map<std::string, uint64_t> n = {
      {"C01", 60000}, {"C02", 40000}, {"C03", 40000}, {"C04", 24000}, {"C05", 40000}, {"C06", 32000},
      {"C07", 32000}, {"C08", 50000}, {"C09", 40000}, {"C10", 48000}, {"C11", 24000}, {"C12", 40000},
      {"C13", 48000}, {"C14", 40000}, {"C15", 32000}, {"C16", 28000}, {"C17", 6000}, {"C18", 48000}, {"C19", 40000}, {"C20", 40000}, {"C21", 16000}, {"C22", 32000}, {"C23", 40000}};
  auto i = n.find(p);
  return i == n.end() ? 1000 : i->second;
}

struct Shared {
  volatile uint64_t best;      // lowest violating index so far
  volatile uint64_t selfbad;   // lowest index whose second run differed
  volatile uint64_t done;
};

struct Cand {
  uint64_t index;
  std::string cls, text;
};

struct Total {
  Stats st;
  uint64_t nontrivial = 0;
  std::unordered_set<uint64_t> distinct;  // distinct non-trivial executions
  std::set<uint32_t> cov;
  std::vector<Cand> cands;
  uint64_t twice = 0, skipped = 0;
};

static void put64(std::string& s, uint64_t v) { s.append((const char*)&v, 8); }
static void putstr(std::string& s, const std::string& t) { put64(s, t.size()); s += t; }

static void worker(const std::string& prop, uint64_t vseed, uint64_t n, int w, int W, double until, Shared* sh, int fd) {
  sim_init();
  Total T;
  for (uint64_t i = w; i < n; i += W) {
    if (i > sh->best) break;
    if (now() > until) break;
    Case c;
    if (!make_case(prop, case_seed(vseed, prop, i), c)) { T.skipped++; continue; }
    Instance in;
    if (!materialize(c, in)) { T.skipped++; continue; }
    Verdict v = judge(in);
    stats.cases++;
    if (v.nontrivial) {
      T.nontrivial++;
      T.distinct.insert(v.key);
    }
    if (i % 64 == (uint64_t)(w % 64) || i < 16) {  // determinism: some cases twice
      T.twice++;
      Verdict u = judge(in);
      if (u.key != v.key || u.cls != v.cls) {
        if (i < sh->selfbad) sh->selfbad = i;
      }
    }
    if (!v.cls.empty()) {
      T.cands.push_back(Cand{i, v.cls, v.text});
      uint64_t b = sh->best;
      while (i < b && !__sync_bool_compare_and_swap(&sh->best, b, i)) b = sh->best;
      break;
    }
    __sync_fetch_and_add(&sh->done, 1);
  }
  std::string s;
  put64(s, stats.cases); put64(s, stats.runs); put64(s, stats.steps); put64(s, stats.events);
  put64(s, T.nontrivial); put64(s, T.twice); put64(s, T.skipped);
  put64(s, stats.faults.size());
  for (auto& f : stats.faults) { putstr(s, f.first); put64(s, f.second); }
  put64(s, stats.probes.size());
  for (auto& f : stats.probes) { putstr(s, f.first); put64(s, f.second); }
  put64(s, stats.traces.size());
  for (auto h : stats.traces) put64(s, h);
  put64(s, T.distinct.size());
  for (auto h : T.distinct) put64(s, h);
  auto cov = cov_points();
  put64(s, cov.size());
  for (auto c : cov) put64(s, c);
  put64(s, T.cands.size());
  for (auto& c : T.cands) { put64(s, c.index); putstr(s, c.cls); putstr(s, c.text); }
  size_t o = 0;
  while (o < s.size()) {
    ssize_t k = write(fd, s.data() + o, s.size() - o);
    if (k <= 0) _exit(3);
    o += k;
  }
  _exit(0);
}

static bool merge(Total& T, const std::string& s) {
  size_t o = 0;
  bool ok = true;
  auto g = [&]() -> uint64_t {
    if (o + 8 > s.size()) { ok = false; return 0; }
    uint64_t v;
    memcpy(&v, s.data() + o, 8);
    o += 8;
    return v;
  };
  auto gs = [&]() {
    uint64_t n = g();
    if (!ok || o + n > s.size()) { ok = false; return std::string(); }
    std::string t = s.substr(o, n);
    o += n;
    return t;
  };
  T.st.cases += g(); T.st.runs += g(); T.st.steps += g(); T.st.events += g();
  T.nontrivial += g(); T.twice += g(); T.skipped += g();
  for (uint64_t n = g(); n-- && ok;) { auto k = gs(); T.st.faults[k] += g(); }
  for (uint64_t n = g(); n-- && ok;) { auto k = gs(); T.st.probes[k] += g(); }
  for (uint64_t n = g(); n-- && ok;) T.st.traces.insert(g());
  for (uint64_t n = g(); n-- && ok;) T.distinct.insert(g());
  for (uint64_t n = g(); n-- && ok;) T.cov.insert(g());
  for (uint64_t n = g(); n-- && ok;) { Cand c; c.index = g(); c.cls = gs(); c.text = gs(); T.cands.push_back(c); }
  return ok;
}

static std::string js(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

static int replay(const std::string& file, bool quiet) {
  Instance in;
  if (!instance_from_text(slurp(file), in)) {
    fprintf(stderr, "cannot read %s\n", file.c_str());
    return 2;
  }
  sim_init();
  Verdict v = judge(in);
  if (v.cls.empty()) {
    if (!quiet) printf("no violation: property=%s key=%016llx\n", in.prop.c_str(), (unsigned long long)v.key);
    return 0;
  }
  if (!quiet) {
    printf("class %s key %016llx\n%s\n", v.cls.c_str(), (unsigned long long)v.key, v.text.c_str());
    printf("VIOLATION property=%s replay=%s\n", in.prop.c_str(), file.c_str());
  }
  return 1;
}

// runs the replay file in a fresh process; true if it fails in the same way
static bool fresh_replay(const std::string& file, const Verdict& v) {
  int p[2];
  if (pipe(p)) return false;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1);
    close(p[0]);
    close(p[1]);
    execl("/proc/self/exe", "simcheck", "--replay", file.c_str(), (char*)nullptr);
    _exit(9);
  }
  close(p[1]);
  std::string t;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) t.append(b, n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  char want[128];
  snprintf(want, sizeof want, "class %s key %016llx\n", v.cls.c_str(), (unsigned long long)v.key);
  return WIFEXITED(st) && WEXITSTATUS(st) == 1 && t.compare(0, strlen(want), want) == 0;
}

// Known findings: inputs on which crasm is known to break the property, each with the exact verdict it gives.
// Returns the replay file of one that fails in another way, or "".
static std::string known_findings(const std::string& prop) {
  std::stringstream f(slurp(verif_dir() + "/known-findings"));
  std::string l, bad;
  while (std::getline(f, l)) {
    if (l.compare(0, 16 + prop.size() + 1, "known: property=" + prop + " ")) continue;
    std::stringstream w(l.substr(17 + prop.size()));
    std::string file, cls, text, what;
    w >> file >> cls >> text;
    std::getline(w, what);
    Instance in;
    file = verif_dir() + "/" + file;
    if (!instance_from_text(slurp(file), in)) { fprintf(stderr, "cannot read %s\n", file.c_str()); continue; }
    fflush(stdout);
    int p[2];
    if (pipe(p)) return "";
    pid_t pid = fork();
    if (pid == 0) {
      sim_init();
      Verdict v = judge(in);
      std::string t = v.cls + " ";
      for (char c : v.text) t += c == ' ' ? '_' : c;
      if (write(p[1], t.data(), t.size()) < 0) _exit(1);
      _exit(0);
    }
    close(p[1]);
    std::string t;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) t.append(b, n);
    close(p[0]);
    waitpid(pid, nullptr, 0);
    if (t == " ") continue;  // holds now
    if (t == cls + " " + text) printf("KNOWN-FINDING: property=%s%s\n", prop.c_str(), what.c_str());
    else { printf("%s: %s\n", file.c_str(), t.c_str()); bad = file; }
  }
  fflush(stdout);
  return bad;
}

static int check(const std::string& prop, const std::string& tier, uint64_t vseed, int W, uint64_t ncases) {
  double t0 = now();
  std::string dir = verif_dir();
  mkdir((dir + "/evidence").c_str(), 0777);
  mkdir((dir + "/out").c_str(), 0777);
  bool quick = tier != "thorough";
  uint64_t n = ncases ? ncases : quick_cases(prop) * (quick ? 1 : 50);
  double until = t0 + (quick ? 420 : 1500);
  if (const char* e = getenv("SIM_WALL")) until = t0 + atof(e);
  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->best = sh->selfbad = ~0ull;
  sh->done = 0;
  printf("property=%s tier=%s VERIF_SEED=%llu cases=%llu workers=%d\n", prop.c_str(), tier.c_str(), (unsigned long long)vseed, (unsigned long long)n, W);
  fflush(stdout);
  std::string kbad = known_findings(prop);
  std::vector<pid_t> pid;
  std::vector<int> fd;
  corpus_sources();
  for (int w = 0; w < W; w++) {
    int p[2];
    if (pipe(p)) { perror("pipe"); return 2; }
    pid_t k = fork();
    if (k < 0) { perror("fork"); return 2; }
    if (k == 0) {
      for (int f : fd) close(f);
      close(p[0]);
      worker(prop, vseed, n, w, W, until, sh, p[1]);
    }
    close(p[1]);
    pid.push_back(k);
    fd.push_back(p[0]);
  }
  Total T;
  bool trouble = false;
  for (int w = 0; w < W; w++) {
    std::string s;
    char b[65536];
    ssize_t k;
    while ((k = read(fd[w], b, sizeof b)) > 0) s.append(b, k);
    close(fd[w]);
    int st;
    waitpid(pid[w], &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || !merge(T, s)) {
      fprintf(stderr, "worker %d failed (status %x)\n", w, st);
      trouble = true;
    }
  }
  double tsearch = now() - t0;
  std::sort(T.cands.begin(), T.cands.end(), [](const Cand& a, const Cand& b) { return a.index < b.index; });
  int result = 0, nviol = 0;
  std::string rep = kbad;
  if (!kbad.empty()) { result = nviol = 1; T.cands.clear(); }
  if (!T.cands.empty()) sim_init();
  for (auto& cand : T.cands) {
    Case c;
    Instance in;
    if (!make_case(prop, case_seed(vseed, prop, cand.index), c) || !materialize(c, in)) continue;
    Verdict v = judge(in), v2 = judge(in);
    if (v.cls.empty() || v.cls != v2.cls || v.key != v2.key) {
      fprintf(stderr, "case %llu does not repeat itself\n", (unsigned long long)cand.index);
      continue;
    }
    printf("case %llu: %s: %s\n", (unsigned long long)cand.index, v.cls.c_str(), v.text.c_str());
    fflush(stdout);
    rep = dir + "/out/" + prop + "-" + std::to_string(vseed) + "-" + std::to_string(cand.index) + ".replay";
    Case m = minimize(c, v.cls, 3000, quick ? 45 : 120);
    bool okk = false;
    for (int form = 0; form < 2 && !okk; form++) {  // the minimised form, else the original
      Instance im;
      if (!materialize(form ? c : m, im)) continue;
      Verdict a = judge(im), b = judge(im);
      if (a.cls != v.cls || b.cls != a.cls || a.key != b.key) continue;
      std::string head = "# " + a.cls + ": ";
      for (char ch : a.text) head += ch == '\n' ? ' ' : ch;
      head += "\n# VERIF_SEED " + std::to_string(vseed) + " case " + std::to_string(cand.index) + (form ? "" : ", minimised") + "\n";
      if (!spew(rep, head + instance_to_text(im))) { perror(rep.c_str()); return 2; }
      if (fresh_replay(rep, a)) {
        okk = true;
        printf("minimised: %s\n", a.text.c_str());
      }
    }
    if (okk) { result = 1; nviol = 1; break; }
    fprintf(stderr, "case %llu: the replay file does not reproduce it\n", (unsigned long long)cand.index);
  }
  if (!result && (!T.cands.empty() || trouble || sh->selfbad != ~0ull)) {
    if (sh->selfbad != ~0ull) fprintf(stderr, "case %llu: two runs of the same scenario differ\n", (unsigned long long)sh->selfbad);
    result = 2;
  }
  // evidence
  std::string e = "{\n";
  char b[512];
  double wall = now() - t0;
  auto num = [&](const char* k, double v) { snprintf(b, sizeof b, "  \"%s\": %.0f,\n", k, v); return std::string(b); };
  e += " \"property\": " + js(prop) + ",\n \"tier\": " + js(quick ? "quick" : "thorough") + ",\n \"seed\": " + std::to_string(vseed) + ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  e += num("evaluations", T.st.cases) + num("distinct_nontrivial", T.distinct.size());
  e += "  \"rule\": " + js(std::string(check_rule(prop)) + " Distinct: different hash of the complete event log, outputs and final file system of the deciding run.") + ",\n";
  e += num("nontrivial_cases", T.nontrivial) + num("seeds_without_legal_case", T.skipped);
  e += num("simulated_runs", T.st.runs);
  snprintf(b, sizeof b, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_time_s\": %.1f,\n", T.st.runs / tsearch * 3600, (T.st.cases + T.skipped) / tsearch * 3600, T.st.steps / 100000.0);
  e += b;
  e += num("simulated_steps", T.st.steps) + num("system_events", T.st.events) + num("distinct_executions", T.st.traces.size()) + num("distinct_control_flow_edges", T.cov.size()) + num("cases_run_twice_for_determinism", T.twice);
  e += "  \"faults_fired\": {";
  bool first = true;
  for (auto& f : T.st.faults) { e += (first ? "" : ",") + std::string("\n   ") + js(f.first) + ": " + std::to_string(f.second); first = false; }
  e += "\n  },\n  \"rare_conditions\": {";
  first = true;
  for (auto& f : T.st.probes) { e += (first ? "" : ",") + std::string("\n   ") + js(f.first) + ": " + std::to_string(f.second); first = false; }
  e += "\n  },\n  \"real_code\": \"all of crasm (every file of src/, compiled unchanged, three builds; C11 under AddressSanitizer and bounds checking) and glibc's stdio formatting, buffering and parsing on top of the simulated descriptors\",\n";
  e += "  \"simulated\": \"open, read, write, close, unlink, rename, truncate, seek, stat, malloc family, exit, time, environment, process scheduling; stdio's file back end (fopencookie on simulated descriptors)\",\n";
  e += "  \"state_measure\": \"distinct executions are counted by the hash of event log, outputs and final file system; edges by address of the executed branch target over all builds\",\n";
  e += "  \"samples\": [";
  {
    int ns = 0;
    for (uint64_t i = 0; i < 40 && ns < 3; i++) {
      Case c;
      Instance in;
      if (i == 0 && T.cands.empty()) sim_init();
      if (!make_case(prop, case_seed(vseed, prop, i * 7 + 1), c) || !materialize(c, in)) continue;
      std::string t = instance_to_text(in);
      if (t.size() > 2500) { if (i < 30) continue; t = t.substr(0, 2500) + "..."; }
      e += (ns ? ",\n   " : "\n   ") + js(t);
      ns++;
    }
  }
  e += "\n  ]\n },\n \"assumptions\": [\n  \"a fault on stdio's descriptor reaches crasm as glibc reports it; kills leave what was written to the descriptor (no loss of the page cache)\",\n  \"search is a sample: absence of a violation is evidence, not proof\"\n ],\n";
  snprintf(b, sizeof b, " \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, nviol);
  e += b;
  if (!spew(dir + "/evidence/" + prop + ".json", e)) perror("evidence");
  printf("%llu cases, %llu runs, %zu distinct executions, %zu non-trivial, %zu edges, %.1f s\n", (unsigned long long)T.st.cases, (unsigned long long)T.st.runs, T.st.traces.size(), T.distinct.size(), T.cov.size(), wall);
  if (result == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rep.c_str());
  fflush(stdout);
  return result;
}

const char* check_rule(const std::string& p) {
  static const std::map<std::string, const char*> m = {
      {"C01", "A seed gives a program (syntax tree, swarm-selected features) and an environment (read/write sizes, buffers, memory contents, build, older code file). Non-trivial: the program emits code."},
      {"C02", "A valid emitting program with one failing open/write/close of the code file, a full disk, or short writes; positions taken from an undisturbed run. Non-trivial: the fault fired or a write was short."},
      {"C03", "A program that fails through source errors, fatal errors or an injected fault, with or without an older code file. Non-trivial: the run failed."},
      {"C04", "A program, good or erroneous, killed before, after or in the middle of one operation, then run again. Non-trivial: the kill happened."},
      {"C05", "A program with a failing read or seek on the source or an include. Non-trivial: a read or seek failed."},
      {"C06", "The same lines delivered plainly and differently (last newline, CR LF, includes, read sizes). Non-trivial: code was emitted or errors counted."},
      {"C07", "A program with includes, one or more of whose opens fail, or few descriptors. Non-trivial: an open failed."},
      {"C08", "A program of marked label sites and references whose files are changed by another process while it is assembled. Non-trivial: a change took place, or references were checked in an unchanged program."},
      {"C09", "A program with 1 to 6 erroneous lines at random places. Non-trivial: at least one erroneous line is reached."},
      {"C10", "A program cut inside a block or at a line boundary. Every legal case is non-trivial."},
      {"C11", "Generated, shipped or wild source text damaged by storage faults, under sanitizers. Every case is non-trivial."},
      {"C12", "A program during which the nth memory request, or all from the nth on, fail. Non-trivial: a request failed."},
      {"C13", "A program with nested and repeated includes, early macro exits and errors, often with just enough descriptors. Non-trivial: an include is read."},
      {"C14", "Programs and damaged text with faults of all kinds, with and without -o. Every case is non-trivial."},
      {"C15", "The same input assembled twice in two environments. Non-trivial: both runs ended."},
      {"C16", "A program whose listing or messages cannot be written from some point on. Non-trivial: an output operation failed."},
      {"C17", "2 to 4 assemblies interleaved operation by operation by a seeded schedule, compared with runs alone. Non-trivial: more switches between processes than processes."},
      {"C18", "Programs with and without errors and warnings, options, and faults. Non-trivial: the run ended by itself."},
      {"C19", "A program with switches of the listing, a page length and an environment. Non-trivial: code is emitted and lines are listed."},
      {"C20", "A program and an environment. Non-trivial: the program has symbols."},
      {"C21", "2 to 4 assemblies with one code file path, all but the last possibly with faults or killed. Non-trivial: an earlier one was disturbed or left a code file."},
      {"C22", "One assembly run twice with different options. Non-trivial: both runs ended."},
      {"C23", "A program with values around the limits of their fields, and an environment. Non-trivial: something deserves a warning."}};
  auto i = m.find(p);
  return i == m.end() ? "" : i->second;
}

int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_IGN);
  if (!getenv("SIM_PERS")) {  // same addresses in every process
    setenv("SIM_PERS", "1", 1);
    int p = personality(0xffffffff);
    if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::vector<std::string> a(argv + 1, argv + argc);
  auto opt = [&](const char* k, const char* d) -> std::string {
    for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == k) return a[i + 1];
    return d;
  };
  if (!a.empty() && a[0] == "--replay" && a.size() > 1) return replay(a[1], false);
  uint64_t seed = strtoull(opt("--seed", getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1").c_str(), nullptr, 10);
  std::string prop = opt("--check", "");
  int W = atoi(opt("--workers", "0").c_str());
  if (W <= 0) W = std::max(1, std::min(16, (int)sysconf(_SC_NPROCESSORS_ONLN)));
  if (!prop.empty()) return check(prop, opt("--tier", "quick"), seed, W, strtoull(opt("--cases", "0").c_str(), nullptr, 10));
  if (!a.empty() && a[0] == "--show") {
    sim_init();
    prop = opt("--prop", "C01");
    Case c;
    Instance in;
    bool ok = make_case(prop, case_seed(seed, prop, strtoull(opt("--case", "0").c_str(), nullptr, 10)), c) && materialize(c, in);
    if (!ok) { printf("no legal case\n"); return 0; }
    printf("%s", instance_to_text(in).c_str());
    Verdict v = judge(in);
    printf("# verdict [%s] %s nontrivial %d key %016llx\n", v.cls.c_str(), v.text.c_str(), v.nontrivial, (unsigned long long)v.key);
    return 0;
  }
  if (!a.empty() && a[0] == "--run" && a.size() > 1) {  // runs the scenarios of a replay file and shows what happens
    Instance in;
    if (!instance_from_text(slurp(a[1]), in)) return 2;
    sim_init();
    for (auto& s : in.sc) {
      RunResult r = run_scenario(s);
      for (size_t i = 0; i < r.p.size(); i++) {
        auto& p = r.p[i];
        printf("---- process %zu: ended %d exit %d killed %d signal %d hang %d san %d steps %llu maxopen %d\n%s", i, p.ended, p.exitcode, p.simkilled, p.signal, p.hang, p.san, (unsigned long long)p.steps, p.maxopen, p.out.c_str());
        if (!p.err.empty()) printf("---- stderr\n%s", p.err.c_str());
        if (!p.why.empty()) printf("---- why\n%s", p.why.c_str());
      }
      for (auto& f : r.files) if (f.path[0] != '<') printf("---- file %s\n%s", f.path.c_str(), f.data.c_str());
      if (getenv("SIM_EVENTS")) for (auto& e : r.ev) if (e.op != OP_MALLOC) printf("%d %s %s req %d res %d%s\n", e.proc, op_name[e.op], e.path >= 0 ? r.paths[e.path].c_str() : "", e.req, e.res, e.fault ? " FAULT" : "");
    }
    return 0;
  }
  if (!a.empty() && a[0] == "--hashes") {  // event-log hashes of many cases, for comparing processes
    sim_init();
    prop = opt("--prop", "C01");
    uint64_t n = strtoull(opt("--cases", "100").c_str(), nullptr, 10), from = strtoull(opt("--from", "0").c_str(), nullptr, 10);
    for (uint64_t i = from; i < from + n; i++) {
      Case c;
      Instance in;
      if (!make_case(prop, case_seed(seed, prop, i), c) || !materialize(c, in)) { printf("%llu -\n", (unsigned long long)i); continue; }
      Verdict v = judge(in);
      printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)v.key, v.cls.c_str());
    }
    return 0;
  }
  fprintf(stderr, "usage: simcheck --check ID [--tier quick|thorough] [--seed N] | --replay FILE | --run FILE | --show --prop ID --case N\n");
  return 2;
}
