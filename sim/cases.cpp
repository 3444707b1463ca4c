#include <set>
// From a seed to a case: programs, environment, faults; from a case to explicit scenarios; minimiser; replay files.
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <algorithm>
#include <functional>
#include "checks.h"
#include "corpus.h"

const std::vector<std::string>& check_ids() {
  static const std::vector<std::string> v = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09",
                                             "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"};
  return v;
}
uint64_t case_seed(uint64_t verif_seed, const std::string& prop, uint64_t index) {
  Rng r(verif_seed * 0x2545F4914F6CDD1Dull + atoi(prop.c_str() + 1) * 0x9E3779B1ull);
  uint64_t a = r.next();
  Rng q(a ^ (index * 0xD1342543DE82EF95ull + 12345));
  return q.next();
}

// ------------------------------------------------------------------ building blocks
static std::vector<int> chunks(Rng& r) {
  std::vector<int> v;
  int n = r.range(1, 4);
  for (int i = 0; i < n; i++) v.push_back(r.chance(30) ? 1 : r.chance(60) ? r.range(1, 40) : r.range(1, 600));
  return v;
}
static int bufsize(Rng& r) {
  static const int b[] = {4096, 4096, 4096, 1024, 512, 80, 64, 16, 2, 1, 0};
  return b[r.below(11)];
}
static int fillbyte(Rng& r) {
  static const int b[] = {-1, 0, 0xff, 0x41, 0xa5, 0x01, 0x20, 0x2e, 0x7f, 0x80};
  return b[r.below(10)];
}
static Knobs rnd_knobs(Rng& r) {
  Knobs k;
  if (r.chance(35)) k.variant = r.range(1, 2);
  if (r.chance(30)) k.rchunk = chunks(r);
  if (r.chance(30)) k.wchunk = chunks(r);
  if (r.chance(40)) k.ibuf = bufsize(r);
  if (r.chance(50)) k.obuf = bufsize(r);
  if (r.chance(30)) k.lbuf = bufsize(r);
  if (r.chance(40)) k.heapfill = fillbyte(r);
  if (r.chance(40)) k.stackfill = fillbyte(r);
  if (r.chance(30)) k.now = (long)(r.next() % 4000000000ull);
  if (r.chance(20)) k.env = r.range(1, 3);
  if (r.chance(30)) k.aslr = r.below(60000);
  return k;
}
static std::vector<std::string> argv_of(Rng& r, const std::string& src, const std::string& code, bool flags = true) {
  std::vector<std::string> a = {"crasm"};
  std::vector<std::vector<std::string>> parts;
  if (!code.empty()) parts.push_back({"-o", code});
  parts.push_back({src});
  if (flags) {
    if (r.chance(15)) parts.push_back({"-s"});
    if (r.chance(15)) parts.push_back({"-l"});
    if (r.chance(15)) parts.push_back({"-x"});
    if (r.chance(3)) parts.push_back({"-slx"});
  }
  if (!code.empty() && flags && r.chance(5)) parts[0][0] = "-lo";
  for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[r.below((int)i)]);
  for (auto& p : parts) for (auto& x : p) a.push_back(x);
  return a;
}
static std::string stale(Rng& r) {
  switch (r.below(5)) {
  case 0: return "";
  case 1: return "S1041234AB0A\nS9030000FC\n";
  case 2: {
    std::string t;
    int n = r.range(1, 200);
    for (int i = 0; i < n; i++) t += "S1131000000102030405060708090A0B0C0D0E0F64\n";
    return t + "S9030000FC\n";
  }
  case 3: return ":10100000000102030405060708090A0B0C0D0E0F68\n:00000001FF\n";
  default: return std::string(r.range(1, 3000), 'x');
  }
}
static void put_stale(Rng& r, Scenario& s, const std::string& path, int percent) {
  if (!r.chance(percent)) return;
  FileSpec f;
  f.path = path;
  f.data = stale(r);
  s.files.push_back(f);
}
static Case base(const std::string& prop, Rng& r, const GenOpt& o, bool flags = true) {
  Case c;
  c.in.prop = prop;
  c.progs.push_back(gen_program(r, o));
  Scenario s;
  Proc p;
  p.argv = argv_of(r, "a.asm", "out.cod", flags);
  p.k = rnd_knobs(r);
  s.procs.push_back(p);
  c.in.sc.push_back(s);
  c.use.push_back({0});
  c.ro.push_back(RenderOpt());
  c.needok = o.nerrors == 0;
  if (o.longfile || o.flood > 5000 || o.warnflood > 5000) {
    // a run of millions of steps: no more operations than necessary
    Knobs& k = c.in.sc[0].procs[0].k;
    k.ibuf = k.obuf = k.lbuf = 4096;
    k.rchunk.clear();
    k.wchunk.clear();
    c.in.sc[0].maxsteps = 1200000000;
  }
  return c;
}
// how many operations of a kind an undisturbed run performs on a path
static RunResult dry(const Case& c, int sc = 0) {
  Instance in;
  RunResult r;
  if (!materialize(c, in)) { r.p.resize(1); return r; }
  Scenario s = in.sc[sc];
  s.faults.clear();
  s.edits.clear();
  for (auto& p : s.procs) {
    p.k.codecap = p.k.listcap = -1;
    p.k.maxfd = 64;
  }
  return run(s);
}
static int count_ops(const RunResult& r, int op, const std::string& path = "*", int proc = 0) {
  int n = 0, pi = path == "*" ? -1 : r.pathidx(path);
  if (path != "*" && pi < 0) return 0;
  for (auto& e : r.ev)
    if (e.proc == proc && (op == OP_ANY || e.op == op) && (pi < 0 || e.path == pi)) n++;
  return n;
}
static Fault fault(int op, const std::string& path, int nth, int count, int err, int act = ACT_FAIL) {
  Fault f;
  f.op = op;
  f.path = path;
  f.nth = nth;
  f.count = count;
  f.err = err;
  f.act = act;
  return f;
}
static int pick(Rng& r, std::initializer_list<int> l) { return *(l.begin() + r.below((int)l.size())); }

static GenOpt with_includes(Rng& r) {
  GenOpt o = swarm(r);
  o.includes = true;
  return o;
}
static std::vector<std::string> incnames(const Program& p) {
  std::vector<std::string> v;
  for (auto& i : p.incs) v.push_back(i.first);
  return v;
}
static bool emits(const Program& p) {
  Model m = run_model(p);
  return m.ok && !m.em.empty();
}

// one failing code-file operation, or a full disk
static void code_fault(Rng& r, Case& c, const RunResult& d) {
  Scenario& s = c.in.sc[0];
  std::string cp = "out.cod";
  int nw = count_ops(d, OP_WRITE, cp);
  auto* f = d.file(cp);
  int k = r.below(100), count = r.chance(50) ? 1 : -1;
  if (k < 15) s.faults.push_back(fault(OP_OPEN, cp, 0, count, pick(r, {EACCES, ENOSPC, EROFS, EMFILE, EDQUOT, EPERM, ENFILE, ENOENT, ENOTDIR, EINTR, ETXTBSY, ENAMETOOLONG})));
  else if (k < 45 && nw) {
    int nth = r.chance(40) ? nw - 1 : r.below(nw);
    s.faults.push_back(fault(OP_WRITE, cp, nth, count, pick(r, {ENOSPC, EIO, EDQUOT, EFBIG, ENOSPC, EIO, EINTR, EAGAIN, EPIPE, EROFS, ENXIO, ETIMEDOUT})));
  } else if (k < 62) s.faults.push_back(fault(OP_CLOSE, cp, 0, count, pick(r, {EIO, ENOSPC, EDQUOT, EINTR, ESTALE})));
  else if (k < 67) {
    FileSpec x;
    x.path = cp;
    if (r.chance(50)) x.isdir = true;
    else x.nowrite = true;
    for (auto it = s.files.begin(); it != s.files.end();) it = it->path == cp ? s.files.erase(it) : it + 1;
    s.files.push_back(x);
  } else if (f && !f->data.empty()) {
    int n = (int)f->data.size();
    s.procs[0].k.codecap = r.chance(35) ? n - 1 - r.below(std::min(n, 12)) : r.below(n);
  }
}

// ------------------------------------------------------------------ the checks' cases
static int segsize(Rng& r, GenOpt& o) {
  int n = floodsize(r) + r.range(-4, 1);
  if (r.chance(15)) n = r.range(995, 1030);
  if (r.chance(1)) n = r.range(65530, 65540), o.huge = true;
  return std::max(n, 1);
}
// files with numbers of lines around those where a counter might end
static void longfile(Rng& r, GenOpt& o) {
  int k = r.below(1000);
  if (k < 4) o.longfile = r.range(9985, 10001);
  else if (k < 6) o.longfile = r.range(32750, 32769);
  else if (k < 8) o.longfile = r.range(65515, 65537);
}
static bool mk_C01(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  if (r.chance(5)) o.big = true;
  if (r.chance(2)) o.many = true;
  if (r.chance(1)) o.huge = true;
  if (r.chance(1)) o.segs = segsize(r, o);
  longfile(r, o);
  c = base("C01", r, o);
  if (o.segs > 5000 || o.longfile) c.in.sc[0].maxsteps = 1200000000;
  put_stale(r, c.in.sc[0], "out.cod", 40);
  return true;
}
static bool mk_C02(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  if (r.chance(20)) o.big = true;
  c = base("C02", r, o);
  if (!emits(c.progs[0])) return false;
  put_stale(r, c.in.sc[0], "out.cod", 30);
  RunResult d = dry(c);
  if (r.chance(12)) {
    c.in.sc[0].procs[0].k.wchunk = chunks(r);
    return true;
  }
  code_fault(r, c, d);
  return true;
}
static void read_fault(Rng& r, Case& c, const RunResult& d) {
  Scenario& s = c.in.sc[0];
  std::vector<std::string> names = incnames(c.progs[0]);
  names.push_back("a.asm");
  names.push_back("a.asm");
  std::string path = r.chance(30) ? "*" : r.pick(names);
  int n = count_ops(d, OP_READ, path);
  if (!n) { path = "a.asm"; n = count_ops(d, OP_READ, path); }
  if (!n) return;
  s.faults.push_back(fault(OP_READ, path, r.below(n), r.chance(50) ? 1 : -1, pick(r, {EIO, EIO, EISDIR, ESTALE, ENXIO, EINTR, EAGAIN, ENOMEM, EACCES, ETIMEDOUT})));
}
static void include_fault(Rng& r, Case& c, const RunResult& d) {
  Scenario& s = c.in.sc[0];
  std::vector<std::string> names = incnames(c.progs[0]);
  std::vector<std::pair<std::string, int>> used;
  for (auto& n : names)
    if (int k = count_ops(d, OP_OPEN, n)) used.push_back({n, k});
  if (used.empty()) return;
  int err = pick(r, {ENOENT, EACCES, EMFILE, ENFILE, ESTALE, EIO, EINTR, EAGAIN, ENOMEM, ENOTDIR, ELOOP, ENAMETOOLONG, EPERM, EOVERFLOW});
  int k = r.below(100), count = r.chance(55) ? 1 : r.chance(50) ? -1 : 2;
  if (k < 60) {
    auto& u = r.pick(used);
    s.faults.push_back(fault(OP_OPEN, u.first, r.below(u.second), count, err));
    if (r.chance(15)) {
      auto& w = r.pick(used);
      s.faults.push_back(fault(OP_OPEN, w.first, r.below(w.second), 1, err));
    }
  } else if (k < 75) {
    // the whole first or second pass of one file, or of everything
    auto& u = r.pick(used);
    bool second = r.chance(50);
    s.faults.push_back(fault(OP_OPEN, u.first, second ? u.second / 2 : 0, second ? -1 : std::max(1, u.second / 2), err));
  } else if (k < 92) {
    int n = count_ops(d, OP_OPEN, "*");
    if (n > 1) s.faults.push_back(fault(OP_OPEN, "*", r.range(1, n - 1), count, err));
  } else s.procs[0].k.maxfd = r.range(4, 6);
}
static bool mk_C03(Rng& r, Case& c) {
  int kind = r.below(9);
  GenOpt o = kind == 3 ? with_includes(r) : swarm(r);
  if (kind <= 1) o.nerrors = r.range(1, 3);
  if (kind == 0 && r.chance(8)) o.flood = floodsize(r);
  c = base("C03", r, o);
  Scenario& s = c.in.sc[0];
  put_stale(r, s, "out.cod", 55);
  if (kind <= 1) return true;
  RunResult d = dry(c);
  switch (kind) {
  case 2: read_fault(r, c, d); break;
  case 3: include_fault(r, c, d); break;
  case 4: {
    int n = count_ops(d, OP_MALLOC);
    if (n) s.faults.push_back(fault(OP_MALLOC, "*", r.below(n), r.chance(50) ? 1 : -1, ENOMEM));
    break;
  }
  case 5: case 6: code_fault(r, c, d); break;
  case 7: {  // nesting too deep: a fatal error in the middle
    Stmt m, call;
    m.k = S_MACDEF;
    m.id = 900001;
    m.label = "deep_";
    call.k = S_CALL;
    call.text = "deep_";
    call.id = 900002;
    m.body = {call};
    auto& v = c.progs[0].main;
    size_t at = r.below((int)v.size() + 1);
    v.insert(v.begin() + at, m);
    call.id = 900003;
    Stmt fi;  // in the second pass only: the label is not yet known in the first
    fi.k = S_CALL;
    fi.id = 900004;
    fi.text = "deep_";
    v.insert(v.begin() + at + 1 + r.below((int)(v.size() - at)), fi);
    c.needok = false;
    break;
  }
  case 8: {
    int k = r.below(4);
    if (k == 0) {
      FileSpec f;
      f.path = "a.asm";
      f.isdir = true;
      s.files.push_back(f);
    } else if (k == 1) s.faults.push_back(fault(OP_OPEN, "a.asm", 0, -1, pick(r, {ENOENT, EACCES, EMFILE, EINTR, ENOMEM, ENOTDIR})));
    else if (k == 2) s.faults.push_back(fault(OP_SEEK, "a.asm", 0, 1, pick(r, {EIO, ESPIPE, EINVAL, EINTR})));
    else code_fault(r, c, d);
  }
  }
  return true;
}
static bool mk_C08(Rng& r, Case& c);
static bool mk_C04(Rng& r, Case& c) {
  if (r.chance(25)) {  // sources that are edited meanwhile
    do mk_C08(r, c);
    while (c.in.mode == "model");
    c.in.prop = "C04";
  } else {
    GenOpt o = swarm(r);
    if (r.chance(30)) o.nerrors = r.range(1, 3);
    if (r.chance(20)) o.big = true;
    c = base("C04", r, o);
    put_stale(r, c.in.sc[0], "out.cod", 45);
  }
  Scenario& s = c.in.sc[0];
  // several writes make several crash states
  if (r.chance(60)) s.procs[0].k.obuf = pick(r, {1, 16, 80, 512, 0});
  RunResult d = dry(c);
  int n = count_ops(d, OP_ANY), first = 0, ci = d.pathidx("out.cod"), i = 0, lastop = 0;
  std::vector<int> ops;
  for (auto& e : d.ev) {
    if (e.proc != 0) continue;
    if (ci >= 0 && e.path == ci) {
      if (!first) first = i;
      lastop = i;
      ops.push_back(i);
    }
    i++;
  }
  if (!n) return false;
  int at;
  int k = r.below(100);
  if (!ops.empty() && k < 45) at = r.pick(ops);
  else if (!ops.empty() && k < 75) at = r.range(first, std::min(n - 1, lastop + 3));
  else at = r.below(n);
  s.faults.push_back(fault(OP_ANY, "*", at, 1, 0, pick(r, {ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_MID})));
  return true;
}
static bool mk_C05(Rng& r, Case& c) {
  GenOpt o = r.chance(60) ? with_includes(r) : swarm(r);
  if (r.chance(15)) o.nerrors = r.range(1, 2);
  c = base("C05", r, o);
  Scenario& s = c.in.sc[0];
  if (r.chance(60)) s.procs[0].k.ibuf = pick(r, {1, 2, 16, 64, 80, 512});
  if (r.chance(30)) s.procs[0].k.rchunk = chunks(r);
  s.maxsteps = 30000000;
  put_stale(r, s, "out.cod", 20);
  RunResult d = dry(c);
  int k = r.below(100);
  if (k < 82) read_fault(r, c, d);
  else if (k < 90) s.faults.push_back(fault(OP_SEEK, "a.asm", r.below(2), r.chance(50) ? 1 : -1, pick(r, {EIO, ESPIPE, EINVAL, EINTR})));
  else {
    FileSpec f;
    f.isdir = true;
    auto n = incnames(c.progs[0]);
    f.path = n.empty() || r.chance(40) ? "a.asm" : r.pick(n);
    s.files.push_back(f);
  }
  return true;
}
static void all_ids(const std::vector<Stmt>& v, std::vector<int>& out) {
  for (auto& s : v) {
    out.push_back(s.id);
    all_ids(s.body, out);
    all_ids(s.els, out);
  }
}
static bool has_kind(const std::vector<Stmt>& v, int k, int sub = -1) {
  for (auto& s : v)
    if ((s.k == k && !s.dead && (sub < 0 || s.sub == sub)) || has_kind(s.body, k, sub) || has_kind(s.els, k, sub)) return true;
  return false;
}
// lists of statements that may stand in an include as well as where they are
static void movable(std::vector<Stmt>& v, std::vector<std::vector<Stmt>*>& out) {
  out.push_back(&v);
  for (auto& s : v)
    if (s.k == S_IF) {
      if (!s.body.empty()) movable(s.body, out);
      if (!s.els.empty()) movable(s.els, out);
    }
}
static bool mk_C06(Rng& r, Case& c) {
  GenOpt o = r.chance(60) ? with_includes(r) : swarm(r);
  if (r.chance(20)) o.nerrors = r.range(1, 3);
  c = base("C06", r, o);
  Program& p = c.progs[0];
  // let a file end in something interesting
  auto interesting = [](const Stmt& s) { return s.k == S_IF || s.k == S_MACDEF || s.k == S_CALL || s.k == S_INCLUDE; };
  auto cut = [&](std::vector<Stmt>& v) {
    std::vector<size_t> at;
    for (size_t i = 0; i < v.size(); i++)
      if (interesting(v[i]) && !v[i].dead) at.push_back(i);
    if (at.empty()) return;
    size_t k = r.chance(50) ? at.back() : at[r.below((int)at.size())];
    v.erase(v.begin() + k + 1, v.end());
  };
  if (r.chance(60)) cut(p.main);
  for (auto& i : p.incs) if (r.chance(50)) cut(i.second);
  repair(p, {});
  Model m = run_model(p);
  if (m.fatal || !m.phase.empty()) return false;
  c.in.sc.push_back(c.in.sc[0]);
  c.use.push_back({0});
  c.ro.push_back(RenderOpt());
  c.movesc = 1;
  Scenario &s0 = c.in.sc[0], &s1 = c.in.sc[1];
  s0.procs[0].k = Knobs();
  s1.procs[0].k = Knobs();
  put_stale(r, s0, "out.cod", 10);
  s1.files = s0.files;
  bool any = false;
  if (r.chance(60)) {
    c.in.par["nonl"] = 1;
    any = true;
    std::vector<std::string> n = incnames(p);
    n.push_back("a.asm");
    for (auto& x : n) if (n.size() == 1 || r.chance(60)) c.ro[1].nonl.push_back(x);
    if (r.chance(70)) c.ro[1].nonl.push_back("t0.inc");
    c.ro[1].nonl.push_back("t1.inc");
  }
  if (r.chance(25)) {
    c.in.par["crlf"] = 1;
    c.ro[1].crlf = true;
    any = true;
  }
  if (r.chance(50) && m.maxlevel <= 5) {
    int nm = r.range(1, 2);
    for (int i = 0; i < nm; i++) {
      std::vector<std::vector<Stmt>*> ls;
      movable(p.main, ls);
      auto* l = ls[r.below((int)ls.size())];
      if (l->empty()) continue;
      int a = r.below((int)l->size()), b = r.chance(20) ? (int)l->size() - 1 : std::min((int)l->size() - 1, a + r.below(6));
      std::vector<Stmt> run(l->begin() + a, l->begin() + b + 1);
      if (has_kind(run, S_ERR, ERR_ELSE)) continue;
      c.moves.push_back(Move{(*l)[a].id, (*l)[b].id, "t" + std::to_string(i) + ".inc"});
      c.in.par["moved"] = 1;
      any = true;
    }
  }
  if (!any || r.chance(50)) {
    s1.procs[0].k.ibuf = bufsize(r);
    s1.procs[0].k.rchunk = chunks(r);
  }
  return true;
}
static bool mk_C07(Rng& r, Case& c) {
  GenOpt o = with_includes(r);
  o.minst = std::max(o.minst, 6);
  if (r.chance(8)) o.nerrors = 1;
  c = base("C07", r, o);
  put_stale(r, c.in.sc[0], "out.cod", 30);
  RunResult d = dry(c);
  include_fault(r, c, d);
  return !c.in.sc[0].faults.empty() || c.in.sc[0].procs[0].k.maxfd < 64;
}

// C08: fixed-width lines, so that a file changed between two reads is always a mixture of whole lines
static int LW = 32;
static std::string fixline(std::string l) {
  if ((int)l.size() > LW - 1) l = l.substr(0, LW - 1);
  return l + std::string(LW - 1 - l.size(), ' ') + "\n";
}
struct MarkGen {
  Rng& r;
  int cpu, nlab;
  std::vector<int> placed;
  std::string lname, qname;  // what label names begin with
  std::string header() {
    static const char* names[] = {"", "6800", "6801", "6803", "6500", "6502", "65C02", "Z80"};
    std::string t;
    if (cpu) t += fixline(std::string(" cpu ") + names[cpu]);
    if (r.chance(50)) t += fixline(r.chance(50) ? " output hex" : " output scode");
    t += fixline("jref macro");
    t += fixline(" dl $E9D3A600+\\2");
    t += fixline(cpu == 0 ? " ds 3" : cpu == 7 ? " jp \\1" : " jmp \\1");
    t += fixline(" endm");
    t += fixline(std::string("* = $") + (r.chance(50) ? "1000" : "2f00"));
    return t;
  }
  std::string k(int i) { return std::to_string(i); }
  std::string refline(int l) {
    std::string L = lname + k(l);
    switch (r.below(cpu && cpu != 0 ? 6 : 4)) {
    case 0: return " dl $E9D3A5" + std::string(l < 16 ? "0" : "") + hexs(l) + "," + L;
    case 1: return " dl $E9D3A500+" + k(l) + "," + L;
    case 2: return " dl $E9D3A500+" + k(l) + "," + qname + k(l);
    case 3: return " wref " + L + "," + k(l);
    default: return " jref " + L + "," + k(l);
    }
  }
  static std::string hexs(int v) { char b[16]; snprintf(b, sizeof b, "%X", v); return b; }
  std::string filler() {
    int x = r.below(100);
    if (x < 40) return " db " + k(r.below(64));
    if (x < 60) return " ds " + k(r.below(r.chance(20) ? 300 : 9)) + "," + k(r.below(64));
    if (x < 70) return " dw " + k(r.below(64));
    if (x < 78) return " align even";
    if (x < 84) return "* = *+" + (r.chance(10) ? std::string("$10000") : k(r.below(20)));
    if (x < 88 && placed.size() > 1) return " ds (" + lname + k(placed.back()) + "-" + lname + k(placed[0]) + ")&15";
    if (x < 92 && cpu >= 4 && cpu <= 6) return " lda 20+" + k(r.below(9));
    if (x < 95) return "";
    return "; " + k(r.below(1000));
  }
};
static bool mk_C08(Rng& r, Case& c) {
  if (r.chance(30)) {  // any program, unchanged while it is assembled; the model knows what labels are worth
    GenOpt o = swarm(r);
    o.locals = o.equs = true;
    o.macros |= r.chance(50);
    if (r.chance(40)) o.nstyle = r.range(1, 2);
    if (r.chance(3)) o.many = true;
    if (r.chance(3)) o.segs = segsize(r, o);
    if (r.chance(2)) o.huge = true;
    c = base("C08", r, o);
    c.in.mode = "model";
    c.in.par["model"] = 1;
    if (o.segs > 5000) c.in.sc[0].maxsteps = 1200000000;
    return true;
  }
  c = Case();
  c.in.prop = "C08";
  Scenario s;
  Proc pr;
  bool longnames = r.chance(20);
  LW = longnames ? 128 : 32;
  pr.argv = argv_of(r, "a.asm", "out.cod");
  pr.k = rnd_knobs(r);
  if (pr.k.ibuf < LW) pr.k.ibuf = LW;
  pr.k.ibuf -= pr.k.ibuf % LW;
  if (r.chance(60)) pr.k.ibuf = LW * pick(r, {1, 2, 4, 16});
  for (int& x : pr.k.rchunk) x = std::max(LW, x - x % LW);
  MarkGen g{r, r.chance(30) ? 0 : r.range(1, 7), r.range(2, 12), {}, "L", "Q"};
  if (longnames) {
    int n = r.range(8, 33);
    g.lname.clear();
    for (int i = 0; i < n; i++) g.lname += "Label_Name.x"[r.below(i ? 12 : 5)];
    g.qname = g.lname + (r.chance(50) ? "Q" : "_");
  }
  bool edits = r.chance(85);
  std::string head = g.header();
  head += fixline("wref macro") + fixline(" dl $E9D3A700+\\2") + fixline(" dw \\1") + fixline(" endm");
  int ninc = r.below(3);
  // which file a label stands in: 0 main, 1.. includes
  std::vector<std::string> body[4];
  std::vector<int> order;
  for (int i = 0; i < g.nlab; i++) order.push_back(i);
  for (int i = 0; i < g.nlab; i++) std::swap(order[i], order[r.below(g.nlab)]);
  auto fill = [&](std::vector<std::string>& v, int n) {
    for (int i = 0; i < n; i++) {
      int x = r.below(100);
      if (x < 45) v.push_back(g.refline(r.below(g.nlab)));
      else if (x < 52) {
        int l = r.below(g.nlab);
        v.push_back(" if " + std::to_string(r.below(3)) + "<" + std::to_string(r.below(3)));
        v.push_back(g.filler());
        if (r.chance(50)) v.push_back(g.refline(l));
        v.push_back(" endc");
      } else v.push_back(g.filler());
    }
  };
  for (int l : order) {
    int f = ninc ? r.below(ninc + 1) : 0;
    fill(body[f], r.below(4));
    body[f].push_back(g.lname + std::to_string(l) + " dl $B7C2D100+" + std::to_string(l));
    g.placed.push_back(l);
    if (f) g.placed.pop_back();
    fill(body[f], r.below(3));
  }
  // EQU copies somewhere in the main file
  for (int l = 0; l < g.nlab; l++) {
    std::string q = g.qname + std::to_string(l) + (r.chance(50) ? " = " : " equ ") + g.lname + std::to_string(l);
    size_t at = r.below((int)body[0].size() + 1);
    body[0].insert(body[0].begin() + at, q);
  }
  for (int f = 1; f <= ninc; f++) {
    size_t at = r.below((int)body[0].size() + 1);
    body[0].insert(body[0].begin() + at, " include i" + std::to_string(f) + ".inc");
  }
  auto text = [&](const std::vector<std::string>& v, bool main) {
    std::string t = main ? head : "";
    for (auto& l : v) t += fixline(l);
    return t;
  };
  auto name = [&](int f) { return f ? "i" + std::to_string(f) + ".inc" : std::string("a.asm"); };
  for (int f = 0; f <= ninc; f++) {
    FileSpec x;
    x.path = name(f);
    x.data = text(body[f], f == 0);
    s.files.push_back(x);
  }
  s.procs.push_back(pr);
  put_stale(r, s, "out.cod", 15);
  s.maxsteps = 30000000;
  c.in.sc.push_back(s);
  if (!edits) return true;
  RunResult d = run(s);
  long nev = d.nev;
  long rewind = nev / 2;
  int mi = d.pathidx("a.asm");
  for (size_t i = 0; i < d.ev.size(); i++)
    if (d.ev[i].op == OP_SEEK && d.ev[i].path == mi) rewind = i;
  int ne = r.chance(75) ? 1 : r.range(2, 3);
  for (int e = 0; e < ne; e++) {
    Edit ed;
    int f = r.below(ninc + 1);
    ed.path = name(f);
    int k = r.below(100);
    // most interesting: between the passes
    ed.at = k < 35 ? rewind + r.range(-2, 2) : k < 60 ? r.range((int)rewind, (int)nev) : r.below((int)nev + 1);
    std::vector<std::string> v = body[f];
    int how = r.below(100);
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      size_t at = r.below((int)v.size() + 1);
      if (how >= 96) {  // a label turns into something else of the same name
        std::vector<size_t> w;
        for (size_t q = 0; q < v.size(); q++) if (v[q].find(" dl $B7C2D100+") != std::string::npos && v[q][0] != ' ') w.push_back(q);
        if (w.empty()) continue;
        size_t q = w[r.below((int)w.size())];
        std::string l = v[q].substr(0, v[q].find(' '));
        if (g.cpu && r.chance(60)) v[q] = l + " = " + (g.cpu == 7 ? r.chance(50) ? "a" : "ix" : "x");
        else {
          v[q] = l + " macro";
          v.insert(v.begin() + q + 1, " endm");
        }
      } else if (how >= 91) v.insert(v.begin() + at, "* = *+" + std::string(r.chance(70) ? "$10000" : "$20000"));
      else if (how < 45) v.insert(v.begin() + at, g.filler());
      else if (how < 70 && !v.empty()) v.erase(v.begin() + std::min(at, v.size() - 1));
      else if (how < 83 && v.size() > 1) std::swap(v[std::min(at, v.size() - 1)], v[r.below((int)v.size())]);
      else if (!v.empty()) v[std::min(at, v.size() - 1)] = g.filler();
    }
    ed.data = text(v, f == 0);
    k = r.below(100);
    ed.act = k < 50 ? ED_REPLACE : k < 80 ? ED_INPLACE : k < 88 ? ED_REMOVE : k < 94 ? ED_TRUNC : ED_APPEND;
    if (ed.act == ED_APPEND) ed.data = fixline(g.filler());
    if (ed.act == ED_REMOVE && f == 0) ed.act = ED_REPLACE;
    if (ed.act == ED_REMOVE || ed.act == ED_TRUNC) ed.data.clear();
    c.in.sc[0].edits.push_back(ed);
    if (r.chance(60)) body[f] = v;
  }
  std::stable_sort(c.in.sc[0].edits.begin(), c.in.sc[0].edits.end(), [](const Edit& a, const Edit& b) { return a.at < b.at; });
  return true;
}
static bool mk_C09(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  o.nerrors = r.chance(50) ? 1 : r.range(2, 6);
  o.listcheck = true;
  o.listctl = false;
  o.emptyincs = false;
  if (r.chance(3)) o.flood = floodsize(r, true);
  longfile(r, o);
  c = base("C09", r, o, false);
  if (o.longfile || o.warnflood > 5000) c.in.sc[0].maxsteps = 1200000000;
  if (o.flood) c.in.sc[0].maxsteps = 1200000000;
  put_stale(r, c.in.sc[0], "out.cod", 20);
  return true;
}
static bool mk_C10(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  o.ifs = true;
  o.macros = r.chance(60);
  c = base("C10", r, o);
  Program& p = c.progs[0];
  put_stale(r, c.in.sc[0], "out.cod", 30);
  std::vector<int> nested, top;
  std::function<void(const std::vector<Stmt>&, int)> walk = [&](const std::vector<Stmt>& v, int d) {
    for (auto& s : v) {
      if (s.dead) continue;
      if (d) nested.push_back(s.id);
      else top.push_back(s.id);
      if (s.k == S_IF || s.k == S_MACDEF) nested.push_back(s.id);
      walk(s.body, d + 1);
      walk(s.els, d + 1);
    }
  };
  walk(p.main, 0);
  for (auto& i : p.incs) {
    // an include that the main file reads exactly once, at top level
    int uses = 0, attop = 0;
    std::function<void(const std::vector<Stmt>&, bool)> cnt = [&](const std::vector<Stmt>& v, bool t) {
      for (auto& s : v) {
        if (s.k == S_INCLUDE && s.text == i.first && !s.dead) { uses++; attop += t; }
        cnt(s.body, false);
        cnt(s.els, false);
      }
    };
    cnt(p.main, true);
    for (auto& j : p.incs) cnt(j.second, false);
    if (uses != 1 || attop != 1 || has_kind(i.second, S_MACDEF)) continue;
    walk(i.second, 1);
    for (auto& s : i.second) {  // the statements at its top level are in no block
      auto it = std::find(nested.begin(), nested.end(), s.id);
      if (it != nested.end() && s.k != S_IF) nested.erase(it);
    }
  }
  if (!nested.empty() && r.chance(75)) {
    c.cutid = r.pick(nested);
    c.cutwhere = r.below(3);  // 0 in its line, 1 at the end of the line, 2 before the line that closes it
    c.cutoff = r.below(80);
  } else if (!top.empty()) {
    c.cutid = r.pick(top);
    c.cutwhere = r.chance(50) ? 3 : 4;  // after the statement, with or without its newline
  } else return false;
  return true;
}

// ---- damaged text
static std::string some_source(Rng& r, std::vector<FileSpec>& files) {
  if (r.chance(25)) {
    auto& s = corpus_sources();
    if (!s.empty()) {
      auto& x = s[r.below((int)s.size())];
      for (auto& f : x) {
        FileSpec n;
        n.path = f.first;
        n.data = f.second;
        // a window of a long file is enough
        if (n.path == "a.asm" && n.data.size() > 6000 && r.chance(85)) {
          size_t at = r.below((int)n.data.size() - 4000);
          at = n.data.find('\n', at);
          if (at == std::string::npos) at = 0;
          n.data = n.data.substr(0, n.data.find('\n', r.below(400)) + 1) + n.data.substr(at + 1, 3500);
        }
        files.push_back(n);
      }
      return "";
    }
  }
  GenOpt o = swarm(r);
  if (r.chance(6)) o.many = true;
  if (r.chance(20)) o.nerrors = r.range(1, 3);
  Program p = gen_program(r, o);
  for (auto& f : render(p)) {
    FileSpec n;
    n.path = f.first;
    n.data = f.second;
    files.push_back(n);
  }
  return "";
}
static void damage(Rng& r, std::string& t) {
  if (t.empty()) t = "\n";
  int n = (int)t.size();
  int at = r.below(n), len = r.chance(60) ? r.range(1, 8) : r.range(1, 200);
  len = std::min(len, n - at);
  static const char* tokens[] = {"(", ")", ",", "\"", "'", "\\", "\\1", "\\9", "\\*", "\\#", "*", "=", "-1", "$ffffffff", "0x7fffffff",
                                 " if ", " else\n", " endc\n", " macro\n", " endm\n", " exitm\n", " ds ", " asc '", " ds -1\n", " page ", " skip ",
                                 " include a.asm\n", " include m0.inc\n", "{5}", "{", "}", "lo(", "hi(", "bit(", "addr(", "<<", ">>", "/0", "/(0-1)",
                                 ".l", "==", "<>", " nam ", " title ", " fail ", " cpu ", " cpu z80\n", " cpu 6502\n", " output ", " dummy\n", " code\n", "b-", "-(", "%1",
                                 "@", "#", "a,", "(ix", "(iy+", "ix", "b-e", " page 3,5\n", " page 70,255\n", " page 10,132\n", " list off\n", " list on\n", "\t", "\r", "\f", ";", "1{", "~", "&", "|", "^",
                                 "9999999999999999999", "0q", "1b", "'a", "x macro\n x\n endm\n x\n", "$80000000/(0-1)", "-2147483648",
                                 "\n* = 5<<60\n", "\n* = $7fffffffffffffff\n", "\n* = 0-1\n", "\n* = $ffff\n", "\n* = *+$10000\n", "\nL = 1<<63\n", "\n.x = .x\n", "1<<62",
                                 "$8000000000000000", "9223372036854775807", " ds $8000\n", " page 12,", " page 0,", " skip 255\n", " fail \n", "\n;", "\x00", "\xff"};
  int k = r.below(100);
  if (k < 14) t[at] ^= 1 << r.below(8);
  else if (k < 20) for (int i = 0; i < len; i++) t[at + i] = 0;
  else if (k < 24) for (int i = 0; i < len; i++) t[at + i] = (char)r.below(256);
  else if (k < 34) t.erase(at, len);
  else if (k < 42) t.insert(r.below(n), t.substr(at, len));
  else if (k < 48) {
    std::string b = t.substr(at, len);
    t.erase(at, len);
    t.insert(t.empty() ? 0 : r.below((int)t.size()), b);
  } else if (k < 52) t.resize(at);
  else if (k < 80) {
    int m = r.chance(75) ? 1 : r.range(2, 6);
    for (int i = 0; i < m; i++) t.insert(r.below((int)t.size()), tokens[r.below((int)(sizeof tokens / sizeof *tokens))]);
  } else if (k < 90) {
    // something over-long
    static const char* unit[] = {"a", "(", "1+", "((", "9", " ", "\\1", "\"x", "~", "-", "lo(", ",1", "1,", ".", "x_", "{1}", "\t", "*", "'", "<<1", ";", "\\*", "\\\\"};
    std::string u = unit[r.below(23)], b;
    int m = r.chance(40) ? r.range(20, 120) : r.chance(50) ? r.range(100, 300) : r.range(250, 1200);
    while ((int)b.size() < m) b += u;
    t.insert(r.below(n), b);
  } else if (k < 95) {
    // many nested or repeated lines
    static const char* unit[] = {" if 1\n", " if 0\n", " else\n", "m macro\n", " endc\n", " endm\n", " include m0.inc\n", " code\n", " exitm\n", " skip 200\n"};
    std::string u = unit[r.below(10)], b;
    int m = r.range(2, 60);
    for (int i = 0; i < m; i++) b += u;
    size_t p = t.find('\n', at);
    t.insert(p == std::string::npos ? t.size() : p + 1, b);
  } else if (k < 98) {
    // an extreme number
    static const char* ext[] = {"0", "255", "256", "-1", "-128", "-129", "65535", "65536", "$7fffffff", "$80000000", "$ffffffff", "1<<32", "$7fffffffffffffff", "1<<63", "5<<60", "99999999999", "200", "201", "38", "39", "254", "20", "21"};
    size_t p = t.find_first_of("0123456789", at);
    if (p != std::string::npos) {
      size_t e = t.find_first_not_of("0123456789abcdefABCDEF", p);
      if (p && (t[p - 1] == '$' || t[p - 1] == '%')) p--;
      t.replace(p, (e == std::string::npos ? t.size() : e) - p, ext[r.below((int)(sizeof ext / sizeof *ext))]);
    }
  } else {
    size_t p = t.find('\n', at);
    if (p != std::string::npos) t.erase(p, 1);
  }
}
static std::string param_text(Rng& r);
// text built from the grammar of lines, but carelessly
static std::string wild(Rng& r) {
  static const char* mn[] = {"db", "dw", "ddb", "dl", "ds", "asc", "align", "if", "else", "endc", "macro", "endm", "exitm", "include", "cpu", "output", "page", "skip", "nam",
                             "title", "list", "mlist", "clist", "ilist", "fail", "code", "dummy", "=", "equ", "lda", "ld", "jmp", "push", "pop", "bit", "set", "add", "mm", "nop", "ex"};
  std::string t;
  int n = r.range(1, 25);
  if (r.chance(70)) t += r.chance(50) ? " cpu 6502\n" : r.chance(50) ? " cpu z80\n" : " cpu 6801\n";
  if (r.chance(80)) t += r.chance(85) ? "* = $1000\n" : "* = " + param_text(r) + "\n";
  for (int i = 0; i < n; i++) {
    if (r.chance(35)) t += r.chance(50) ? "L" + std::to_string(r.below(6)) : r.chance(50) ? ".x" : "mm";
    t += r.chance(95) ? " " : "";
    t += mn[r.below(40)];
    t += " " + param_text(r);
    if (r.chance(10)) t += " ; x";
    t += r.chance(97) ? "\n" : "";
  }
  return t;
}
static std::string param_text(Rng& r) {
  static const char* p[] = {"1", "$ffff", "L1", "L2", ".x", "*", "*+3", "'a'", "\"abc", "'it''s'", "(L1)", "(ix+3)", "(hl)", "a", "b-e", "b-l,a", "#5", "#lo(L1)", "L1,x", "(5),y",
                            "\\1", "\\*", "\\#", "1==1", "L1<>L2", "even", "odd", "on", "off", "hex", "scode", "z80", "65c02", "m0.inc", "60,80", "0,0", "3{4}", "bit(L1)", "addr(L2)",
                            "-1", "~0", "1<<31", "1<<40", "1>>-1", "5/0", "2147483647*2", "%101", "101b", "17q", "0ffh", "0x12", "", "", "", "5<<60", "1<<63", "$7fffffffffffffff", "12,252", "200,40", "$8000", "0-200"};
  int n = r.chance(70) ? 1 : r.range(2, 11);
  std::string t;
  for (int i = 0; i < n; i++) t += (i ? r.chance(80) ? "," : "+" : "") + std::string(p[r.below((int)(sizeof p / sizeof *p))]);
  return t;
}
static void damaged_files(Rng& r, Scenario& s, int maxd) {
  if (r.chance(12)) {
    FileSpec f;
    f.path = "a.asm";
    f.data = wild(r);
    s.files.push_back(f);
    f.path = "m0.inc";
    f.data = wild(r);
    s.files.push_back(f);
  } else some_source(r, s.files);
  int n = r.chance(50) ? 1 : r.range(1, maxd);
  for (int i = 0; i < n; i++) damage(r, s.files[r.chance(75) ? 0 : r.below((int)s.files.size())].data);
  for (auto& f : s.files) if (f.data.size() > 60000) f.data.resize(60000);
}
static bool mk_C11(Rng& r, Case& c) {
  c = Case();
  c.in.prop = "C11";
  Scenario s;
  Proc p;
  p.argv = argv_of(r, "a.asm", r.chance(85) ? "out.cod" : "");
  p.k = rnd_knobs(r);
  p.k.variant = 0;
  damaged_files(r, s, 8);
  s.procs.push_back(p);
  s.maxsteps = 300000000;
  c.in.sc.push_back(s);
  return true;
}
static bool mk_C12(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  if (r.chance(20)) o.nerrors = r.range(1, 2);
  if (r.chance(4)) o.many = true;
  c = base("C12", r, o);
  put_stale(r, c.in.sc[0], "out.cod", 30);
  RunResult d = dry(c);
  int n = count_ops(d, OP_MALLOC);
  if (!n) return false;
  // most of them build the table of mnemonics; prefer those of the program itself
  int first = 0, i = 0;
  for (auto& e : d.ev) {
    if (e.op == OP_READ) break;
    if (e.op == OP_MALLOC) first = i + 1;
    if (e.op == OP_MALLOC) i++;
  }
  int at = first < n && r.chance(80) ? r.range(first, n - 1) : r.below(n);
  c.in.sc[0].faults.push_back(fault(OP_MALLOC, "*", at, r.chance(60) ? 1 : -1, ENOMEM));
  c.in.sc[0].maxsteps = 30000000;
  return true;
}
static bool mk_C13(Rng& r, Case& c) {
  GenOpt o = with_includes(r);
  o.macros = r.chance(70);
  o.incexitm = r.chance(60);
  o.deepincs = r.chance(50);
  if (r.chance(35)) o.nerrors = r.range(1, 4);
  c = base("C13", r, o);
  for (auto& i : c.progs[0].incs) if (r.chance(40)) c.ro[0].nonl.push_back(i.first);
  Scenario& s = c.in.sc[0];
  Model m = run_model(c.progs[0]);
  if (m.fatal || !m.maxnest) return false;
  if (r.chance(50)) s.procs[0].k.maxfd = 3 + 2 + m.maxnest;
  c.in.par["tight"] = s.procs[0].k.maxfd < 64;
  if (r.chance(15)) {
    // cut the text of an include or of the source somewhere
    c.in.par["tight"] = 0;
    s.procs[0].k.maxfd = 64;
    RunResult d = dry(c);
    include_fault(r, c, d);
    s.procs[0].k.maxfd = 64;
  }
  return true;
}
static void any_fault_mix(Rng& r, Case& c, bool listing) {
  Scenario& s = c.in.sc[0];
  RunResult d = dry(c);
  int n = r.chance(70) ? 1 : 2;
  for (int i = 0; i < n; i++) {
    int k = r.below(listing ? 8 : 6);
    switch (k) {
    case 0: case 1: code_fault(r, c, d); break;
    case 2: if (!c.progs.empty()) read_fault(r, c, d); break;
    case 3: if (!c.progs.empty()) include_fault(r, c, d); break;
    case 4: {
      int m = count_ops(d, OP_MALLOC);
      if (m) s.faults.push_back(fault(OP_MALLOC, "*", r.below(m), r.chance(50) ? 1 : -1, ENOMEM));
      break;
    }
    case 5: s.faults.push_back(fault(OP_OPEN, "*", r.below(std::max(1, count_ops(d, OP_OPEN))), r.chance(50) ? 1 : -1, pick(r, {ENOENT, EACCES, EMFILE, EINTR, ENOMEM, ENOTDIR}))); break;
    case 6: s.faults.push_back(fault(OP_WRITE, r.chance(80) ? "<stdout0>" : "<stderr0>", r.below(std::max(1, count_ops(d, OP_WRITE, "<stdout0>"))), r.chance(50) ? 1 : -1, pick(r, {ENOSPC, EIO, EPIPE, EINTR, EAGAIN, EBADF}))); break;
    case 7: {
      int m = count_ops(d, OP_ANY);
      s.faults.push_back(fault(OP_ANY, "*", r.below(std::max(1, m)), 1, 0, pick(r, {ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_MID})));
    }
    }
  }
}
static bool mk_C14(Rng& r, Case& c) {
  if (r.chance(20)) {
    c = Case();
    c.in.prop = "C14";
    Scenario s;
    Proc p;
    p.argv = argv_of(r, "a.asm", r.chance(70) ? "out.cod" : "");
    p.k = rnd_knobs(r);
    damaged_files(r, s, 4);
    s.procs.push_back(p);
    s.maxsteps = 20000000;
    c.in.sc.push_back(s);
  } else {
    GenOpt o = r.chance(50) ? with_includes(r) : swarm(r);
    if (r.chance(35)) o.nerrors = r.range(1, 3);
    c = base("C14", r, o);
    if (r.chance(30)) c.in.sc[0].procs[0].argv = argv_of(r, "a.asm", "");
  }
  if (r.chance(40)) {
    FileSpec f;
    f.path = r.chance(50) ? "out" : "a.out";
    f.data = "not yours";
    c.in.sc[0].files.push_back(f);
  }
  put_stale(r, c.in.sc[0], "out.cod", 30);
  if (r.chance(60)) any_fault_mix(r, c, true);
  return true;
}
static bool mk_C15(Rng& r, Case& c) {
  if (r.chance(35)) {
    c = Case();
    c.in.prop = "C15";
    Scenario s;
    Proc p;
    p.argv = argv_of(r, "a.asm", "out.cod");
    damaged_files(r, s, 4);
    s.procs.push_back(p);
    s.maxsteps = 20000000;
    c.in.sc.push_back(s);
  } else {
    GenOpt o = swarm(r);
    o.listctl = r.chance(60);
    if (r.chance(35)) o.nerrors = r.range(1, 3);
    if (r.chance(3)) o.many = true;
    c = base("C15", r, o);
    c.use.push_back({0});
    c.ro.push_back(RenderOpt());
  }
  c.in.sc[0].procs[0].k = Knobs();
  c.in.sc.push_back(c.in.sc[0]);
  c.in.sc[1].procs[0].k = rnd_knobs(r);
  Knobs& k = c.in.sc[1].procs[0].k;
  if (r.chance(70)) k.heapfill = fillbyte(r), k.stackfill = fillbyte(r), k.aslr = r.below(60000);
  if (r.chance(40)) k.variant = r.range(1, 2);
  put_stale(r, c.in.sc[1], "out.cod", 30);
  if (r.chance(20)) {
    FileSpec f;
    f.path = r.chance(50) ? "a.lst" : "out.tmp";
    f.data = "left by an earlier run\n";
    c.in.sc[1].files.push_back(f);
  }
  return true;
}
static bool mk_C16(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  if (r.chance(40)) o.nerrors = r.range(1, 3);
  c = base("C16", r, o);
  Scenario& s = c.in.sc[0];
  if (r.chance(70)) s.procs[0].k.lbuf = pick(r, {0, 1, 16, 80, 512, 1024, 4096});
  put_stale(r, s, "out.cod", 35);
  RunResult d = dry(c);
  int n = count_ops(d, OP_WRITE, "<stdout0>");
  int k = r.below(100);
  if (k < 50 && n) {
    int nth = r.chance(40) ? n - 1 : r.below(n);
    s.faults.push_back(fault(OP_WRITE, "<stdout0>", nth, r.chance(50) ? 1 : -1, pick(r, {ENOSPC, EIO, EPIPE, EINTR, EAGAIN, EBADF})));
  } else if (k < 92) {
    int len = (int)d.p[0].out.size();
    s.procs[0].k.listcap = len ? (r.chance(30) ? len - 1 - r.below(std::min(len, 8)) : r.below(len)) : 0;
  } else {
    s.faults.push_back(fault(OP_WRITE, "<stderr0>", 0, -1, EIO));
    s.faults.push_back(fault(OP_WRITE, "<stdout0>", n ? r.below(n) : 0, -1, EIO));
  }
  s.maxsteps = 30000000;
  return true;
}
static void rename_files(std::vector<Stmt>& v, const std::string& pre) {
  for (auto& s : v) {
    if (s.k == S_INCLUDE) s.text = pre + s.text;
    rename_files(s.body, pre);
    rename_files(s.els, pre);
  }
}
static bool mk_C17(Rng& r, Case& c) {
  int np = r.chance(60) ? 2 : r.range(3, 4), nprog = r.chance(40) ? 1 : std::min(np, r.range(1, 3));
  c = Case();
  c.in.prop = "C17";
  Scenario s;
  std::vector<int> use;
  c.needok = false;
  for (int i = 0; i < nprog; i++) {
    GenOpt o = r.chance(60) ? with_includes(r) : swarm(r);
    o.maxst = std::min(o.maxst, 25);
    o.minst = std::min(o.minst, 10);
    if (r.chance(20)) o.nerrors = r.range(1, 2);
    Program p = gen_program(r, o);
    if (nprog > 1) {
      std::string pre = "p" + std::to_string(i);
      // every second program shares the names (and contents) of the includes of the one before
      for (auto& x : p.incs) x.first = pre + x.first;
      rename_files(p.main, pre);
      for (auto& x : p.incs) rename_files(x.second, pre);
    }
    c.progs.push_back(p);
    use.push_back(i);
  }
  for (int i = 0; i < np; i++) {
    Proc p;
    int g = i % nprog;
    p.argv = argv_of(r, g ? "a" + std::to_string(g) + ".asm" : "a.asm", "out" + std::to_string(i) + ".cod");
    // the source is the last argument, which the oracle's probe relies on
    p.k = rnd_knobs(r);
    p.k.now = 1000000000 + (r.chance(50) ? 0 : i);
    s.procs.push_back(p);
    put_stale(r, s, "out" + std::to_string(i) + ".cod", 25);
  }
  c.in.sc.push_back(s);
  c.use.push_back(use);
  c.ro.push_back(RenderOpt());
  // schedule: uniform, bursts, or one slow process
  int len = r.range(50, 1500), kind = r.below(3), slow = r.below(np), cur = 0, burst = 0;
  auto& sch = c.in.sc[0].schedule;
  for (int i = 0; i < len; i++) {
    if (kind == 0) cur = r.below(np);
    else if (kind == 1) {
      if (burst-- <= 0) { cur = r.below(np); burst = r.below(60); }
    } else do cur = r.below(np); while (cur == slow && !r.chance(10));
    sch.push_back((uint8_t)cur);
  }
  if (r.chance(40)) {
    Fault f;
    int k = r.below(3);
    if (k == 0) f = fault(OP_ANY, "*", r.range(300, 900), 1, 0, pick(r, {ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_MID}));
    else if (k == 1) f = fault(OP_WRITE, "*", r.below(3), -1, ENOSPC);
    else f = fault(OP_READ, "*", r.below(4), 1, EIO);
    f.proc = r.below(np);
    c.in.sc[0].faults.push_back(f);
  }
  return true;
}
static bool mk_C18(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  o.warnings = r.chance(80);
  bool full = r.chance(60);
  if (full) o.listctl = false;
  if (r.chance(45)) o.nerrors = r.range(1, 5);
  if (r.chance(4)) o.flood = floodsize(r, true);
  if (r.chance(3)) o.warnflood = floodsize(r, true);
  c = base("C18", r, o, true);
  Scenario& s = c.in.sc[0];
  if (o.flood > 5000 || o.warnflood > 5000) s.maxsteps = 1200000000;
  put_stale(r, s, "out.cod", 25);
  if (r.chance(10)) s.procs[0].argv = argv_of(r, "a.asm", "");
  if (r.chance(2)) s.procs[0].argv.push_back("second.asm");
  if (r.chance(45)) {
    any_fault_mix(r, c, false);
    if (s.faults.empty() && s.procs[0].k.codecap < 0 && s.procs[0].k.maxfd >= 64) c.in.par["clean"] = s.files.empty();
  } else c.in.par["clean"] = 1;
  if (s.procs[0].argv.back() == "second.asm") c.in.par["clean"] = 0;
  if (!c.in.par["clean"]) c.in.par.erase("clean");
  bool l = false;
  for (auto& a : s.procs[0].argv) l |= a.size() > 1 && a[0] == '-' && a.find('l') != std::string::npos;
  // lines of includes and of macro expansions are listed, with their warnings, only on request
  if (full && !l) {
    Stmt on[2];
    for (int i = 0; i < 2; i++) {
      on[i].k = S_LISTCTL;
      on[i].id = 910000 + i;
      on[i].text = i ? "mlist on" : "ilist on";
      c.progs[0].main.insert(c.progs[0].main.begin(), on[i]);
    }
    c.in.par["countwarn"] = 1;
  }
  return true;
}

static bool mk_C19(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  o.listctl = false;
  o.emptyincs = false;
  o.toggles = r.chance(50);
  o.page = r.chance(40) ? 0 : r.chance(60) ? r.range(10, 30) : r.range(31, 200);
  if (r.chance(2)) o.many = true;
  longfile(r, o);
  c = base("C19", r, o, false);
  if (o.longfile || o.warnflood > 5000) c.in.sc[0].maxsteps = 1200000000;
  auto& a = c.in.sc[0].procs[0].argv;
  if (r.chance(15)) a.insert(a.begin() + 1, r.chance(50) ? "-s" : "-x");
  put_stale(r, c.in.sc[0], "out.cod", 20);
  return emits(c.progs[0]);
}
static bool mk_C20(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  if (r.chance(10)) o.many = true;
  c = base("C20", r, o, false);
  auto& a = c.in.sc[0].procs[0].argv;
  if (r.chance(15)) a.insert(a.begin() + 1, "-s");
  if (r.chance(20)) a.erase(std::find(a.begin(), a.end(), "-o"), std::find(a.begin(), a.end(), "-o") + 2);
  put_stale(r, c.in.sc[0], "out.cod", 20);
  return true;
}
static bool mk_C21(Rng& r, Case& c) {
  int n = r.range(2, 4);
  Case out;
  GenOpt o = swarm(r);
  o.big = r.chance(20);
  std::vector<Program> made;
  std::vector<std::string> argv;
  for (int i = 0; i < n; i++) {
    bool last = i + 1 == n;
    Case s;
    if (r.chance(20)) o = swarm(r);
    o.nerrors = r.chance(last ? 15 : 30) ? r.range(1, 2) : 0;
    s = base("C21", r, o);
    if (!made.empty() && r.chance(40)) s.progs[0] = made[r.below((int)made.size())];  // the same sources again
    s.needok = false;
    made.push_back(s.progs[0]);
    if (i == 0) argv = s.in.sc[0].procs[0].argv;
    else if (r.chance(80)) s.in.sc[0].procs[0].argv = argv;
    if (r.chance(50)) s.in.sc[0].procs[0].k.obuf = pick(r, {1, 16, 80, 512, 0});
    if (!last && r.chance(80)) {
      if (r.chance(50)) any_fault_mix(r, s, true);
      else {
        RunResult d = dry(s);
        std::vector<int> ops;
        int m = 0, ci = d.pathidx("out.cod");
        for (auto& e : d.ev) {
          if (e.proc != 0) continue;
          if (ci >= 0 && e.path == ci) ops.push_back(m);
          m++;
        }
        if (m) s.in.sc[0].faults.push_back(fault(OP_ANY, "*", !ops.empty() && r.chance(80) ? r.pick(ops) : r.below(m), 1, 0, pick(r, {ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_MID})));
      }
    }
    if (i == 0) put_stale(r, s.in.sc[0], "out.cod", 30);
    if (i == 0) out = s;
    else {
      out.in.sc.push_back(s.in.sc[0]);
      out.progs.push_back(s.progs[0]);
      out.ro.push_back(RenderOpt());
      out.use.push_back({i});
    }
  }
  c = out;
  return true;
}
static bool codepath_given(const std::vector<std::string>& a) { return std::find(a.begin(), a.end(), "out.cod") != a.end(); }
static bool mk_C22(Rng& r, Case& c) {
  bool w = r.chance(20);
  if (w) {
    c = Case();
    c.in.prop = "C22";
    Scenario s;
    Proc p;
    damaged_files(r, s, 4);
    p.k = rnd_knobs(r);
    s.procs.push_back(p);
    s.maxsteps = 20000000;
    c.in.sc.push_back(s);
  } else {
    GenOpt o = swarm(r);
    o.warnings = r.chance(85);
    if (r.chance(50)) o.nerrors = r.range(1, 4);
    if (r.chance(2)) (r.chance(50) ? o.flood : o.warnflood) = floodsize(r);
    c = base("C22", r, o);
    c.use.push_back({0});
    c.ro.push_back(RenderOpt());
  }
  c.in.par["wild"] = w;
  c.in.sc[0].procs[0].argv = {"crasm", "-o", "out.cod", "a.asm"};
  put_stale(r, c.in.sc[0], "out.cod", 30);
  c.in.sc.push_back(c.in.sc[0]);
  auto& a = c.in.sc[1].procs[0].argv;
  for (int i = 0;; i++) {
    a = argv_of(r, "a.asm", r.chance(85) ? "out.cod" : "");
    if (a.size() != 4 || i > 20) break;
  }
  c.in.sc[1].procs[0].k = rnd_knobs(r);
  c.in.sc[1].procs[0].k.maxfd = c.in.sc[0].procs[0].k.maxfd;
  // what the first one meets, the second meets, too
  if (codepath_given(a) && r.chance(25) && !w) {
    RunResult d = dry(c);
    Scenario& s = c.in.sc[0];
    if (r.chance(50)) read_fault(r, c, d);
    else include_fault(r, c, d);
    for (auto& f : s.faults) f.count = f.op == OP_OPEN ? f.count : -1;
    c.in.sc[1].faults = s.faults;
    c.in.sc[1].procs[0].k = s.procs[0].k;
  }
  return true;
}
static bool mk_C23(Rng& r, Case& c) {
  GenOpt o = swarm(r);
  o.warnings = r.chance(80);
  o.edges = r.chance(70);
  if (r.chance(50)) o.listctl = false, o.toggles = r.chance(50);
  if (r.chance(3)) o.warnflood = floodsize(r, true);
  longfile(r, o);
  c = base("C23", r, o, false);
  if (o.longfile || o.warnflood > 5000) c.in.sc[0].maxsteps = 1200000000;
  auto& a = c.in.sc[0].procs[0].argv;
  for (const char* f : {"-s", "-l", "-x"})
    if (r.chance(12)) a.insert(a.begin() + 1, f);
  put_stale(r, c.in.sc[0], "out.cod", 20);
  return true;
}
bool make_case(const std::string& prop, uint64_t seed, Case& c) {
  typedef bool (*M)(Rng&, Case&);
  static const std::map<std::string, M> ms = {
      {"C01", mk_C01}, {"C02", mk_C02}, {"C03", mk_C03}, {"C04", mk_C04}, {"C05", mk_C05}, {"C06", mk_C06},
      {"C07", mk_C07}, {"C08", mk_C08}, {"C09", mk_C09}, {"C10", mk_C10}, {"C11", mk_C11}, {"C12", mk_C12},
      {"C13", mk_C13}, {"C14", mk_C14}, {"C15", mk_C15}, {"C16", mk_C16}, {"C17", mk_C17}, {"C18", mk_C18},
      {"C19", mk_C19}, {"C20", mk_C20}, {"C21", mk_C21}, {"C22", mk_C22}, {"C23", mk_C23}};
  auto i = ms.find(prop);
  if (i == ms.end()) return false;
  Rng r(seed);
  for (int t = 0; t < 4; t++)
    if (i->second(r, c)) return true;
  return false;
}

// ------------------------------------------------------------------ from a case to explicit scenarios
static bool apply_move(std::vector<Stmt>& v, const Move& m, std::vector<Stmt>& out, int newid) {
  int a = -1, b = -1;
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].id == m.first) a = (int)i;
    if (v[i].id == m.last) b = (int)i;
  }
  if (a >= 0 && b >= a) {
    out.assign(v.begin() + a, v.begin() + b + 1);
    Stmt inc;
    inc.k = S_INCLUDE;
    inc.id = newid;
    inc.text = m.inc;
    v.erase(v.begin() + a, v.begin() + b + 1);
    v.insert(v.begin() + a, inc);
    return true;
  }
  for (auto& s : v)
    if (s.k == S_IF && (apply_move(s.body, m, out, newid) || apply_move(s.els, m, out, newid))) return true;
  return false;
}
static const Stmt* find_stmt(const std::vector<Stmt>& v, int id, int& depth) {
  for (auto& s : v) {
    if (s.id == id) return &s;
    depth++;
    if (auto* x = find_stmt(s.body, id, depth)) return x;
    if (auto* x = find_stmt(s.els, id, depth)) return x;
    depth--;
  }
  return nullptr;
}
static size_t line_start(const std::string& t, int line) {  // 1-based
  size_t p = 0;
  for (int i = 1; i < line; i++) {
    p = t.find('\n', p);
    if (p == std::string::npos) return t.size();
    p++;
  }
  return p;
}
// the program without everything after a top-level statement of the main file
static void prefix(Program& p, int id) {
  for (size_t i = 0; i < p.main.size(); i++)
    if (p.main[i].id == id) { p.main.erase(p.main.begin() + i + 1, p.main.end()); return; }
}

static void errids(const std::vector<Stmt>& v, std::set<int>& ids) {
  for (auto& s : v) {
    if (s.k == S_ERR) ids.insert(s.id);
    errids(s.body, ids);
    errids(s.els, ids);
  }
}
bool materialize(const Case& c, Instance& in) {
  in = c.in;
  if (c.progs.empty()) return true;
  bool cut = c.in.prop == "C10" && c.cutid >= 0;
  for (size_t k = 0; k < in.sc.size(); k++) {
    std::vector<FileSpec> files;
    for (int g : c.use[k]) {
      Program p = c.progs[g];
      if ((int)k == c.movesc) {
        int nid = 800000;
        for (auto& m : c.moves) {
          std::vector<Stmt> out;
          if (apply_move(p.main, m, out, nid++)) p.incs.push_back({m.inc, out});
        }
      }
      auto text = render(p, c.ro[k]);
      if (cut) {
        int depth = 0;
        const Stmt* s = find_stmt(p.main, c.cutid, depth);
        std::string file = "a.asm";
        for (auto& i : p.incs) {
          if (s) break;
          depth = 0;
          s = find_stmt(i.second, c.cutid, depth);
          file = i.first;
        }
        if (!s || s->dead) return false;
        bool block = s->k == S_IF || s->k == S_MACDEF;
        for (auto& f : text) {
          if (f.first != file) continue;
          std::string& t = f.second;
          size_t a = line_start(t, s->line), e = t.find('\n', a), b = block ? line_start(t, s->endline) : a;
          if (e == std::string::npos) e = t.size();
          size_t fe = block ? t.find('\n', b) : e;
          if (fe == std::string::npos) fe = t.size();
          switch (c.cutwhere) {
          case 0:
            if (depth == 0) t.resize(block ? b : e);
            // a binary number without its end is a decimal one: no reservation of millions of bytes
            else if (s->k == S_DS || s->k == S_CALL || s->k == S_EQU) t.resize(e);
            else t.resize(a + (e > a ? c.cutoff % (int)(e - a + 1) : 0));
            break;
          case 1:
            // the opening line of a block is complete: the block is open
            t.resize(e + (c.cutoff & 1 ? 1 : 0));
            break;
          case 2: t.resize(block ? b + (c.cutoff & 1 ? 1 : 0) : e); break;
          case 3: t.resize(std::min(t.size(), fe + 1)); break;
          case 4: t.resize(fe); break;
          }
        }
        bool open = depth > 0 || block;
        in.par["mustfail"] = c.cutwhere <= 2 ? 1 : 0;
        if (c.cutwhere <= 2 && !open) return false;
        if (c.cutwhere > 2 && (depth > 0 || file != "a.asm")) return false;
      }
      for (auto& f : text) {
        FileSpec x;
        x.path = f.first;
        if (g && c.in.prop == "C17" && x.path == "a.asm") x.path = "a" + std::to_string(g) + ".asm";
        x.data = f.second;
        bool have = false;
        for (auto& y : in.sc[k].files) have |= y.path == x.path;
        if (!have) files.push_back(x);
      }
    }
    in.sc[k].files.insert(in.sc[k].files.begin(), files.begin(), files.end());
  }
  if (c.in.prop == "C17" || c.in.prop == "C21") return true;
  Program p = c.progs[0];
  if (cut && c.cutwhere > 2) prefix(p, c.cutid);
  render(p);
  Model m = run_model(p);
  if (m.fatal && c.in.prop != "C03" && c.in.prop != "C14") return false;
  bool bad = m.fatal || !m.errs.empty() || !m.phase.empty();
  if (c.needok && bad && !(cut && c.cutwhere <= 2)) return false;
  if (!m.phase.empty()) return false;
  if (m.errs.size() + m.warns.size() > 100000) return false;  // a flood within a macro called many times
  if (m.errs.size() + m.warns.size() > 1000)
    for (auto& x : in.sc) x.maxsteps = std::max(x.maxsteps, (uint64_t)1200000000);
  std::set<int> made, found;
  errids(p.main, made);
  for (auto& i : p.incs) errids(i.second, made);
  for (auto& e : m.errs) found.insert(e.id);
  if (c.in.prop != "C03" && c.in.prop != "C14" && !cut)
    for (int e : found)
      if (!made.count(e)) return false;
  if (p.cpu && !has_kind(p.main, S_CPU)) return false;
  for (int e : m.pass1errs) {  // errors in the first pass only are silent, but shift labels
    if (!found.count(e) && c.in.prop != "C10") return false;
  }
  Expect& x = in.ex;
  x.have = !cut || c.cutwhere > 2;
  x.ok = m.ok;
  x.hex = m.hex;
  x.coded = m.coded;
  x.codelen = m.codelen;
  x.last = m.last;
  x.lastok = c.cutwhere != 4 && std::find(c.ro[0].nonl.begin(), c.ro[0].nonl.end(), "a.asm") == c.ro[0].nonl.end();
  x.maxnest = m.maxnest;
  x.em = m.em;
  x.errlines.clear();
  for (auto& e : m.errs) x.errlines.push_back(e.line);
  // expectations that no oracle of this property uses stay out of the replay file
  if (c.in.prop == "C19") {
    if (m.listodd) return false;
    x.ll = m.ll;
    if (m.mlisted) x.ll.erase(std::remove_if(x.ll.begin(), x.ll.end(), [](const LL& l) { return l.line < 0; }), x.ll.end());
    in.par["mlisted"] = m.mlisted;
    x.grp = m.grp;
  }
  if (c.in.prop == "C20") x.syms = m.syms;
  if (c.in.prop == "C23") {
    if (m.listodd) return false;
    x.warns = m.warns;
  }
  static const std::set<std::string> full = {"C01", "C02", "C08", "C09", "C10", "C19", "C23"};
  if (!full.count(c.in.prop)) {
    if (x.em.size() > 1) x.em.resize(1);
  }
  return true;
}

// ------------------------------------------------------------------ minimiser
static double now() {
  struct timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + t.tv_usec * 1e-6;
}
namespace {
struct Mini {
  Case best;
  std::string cls;
  int budget;
  double until;
  bool spent() { return budget <= 0 || now() > until; }
  bool fails(const Case& c) {
    if (spent()) return false;
    budget--;
    Instance in;
    if (!materialize(c, in)) return false;
    return judge(in).cls == cls;
  }
  bool attempt(const Case& c) {
    if (!fails(c)) return false;
    best = c;
    return true;
  }
  bool knobs() {
    bool ch = false;
    if (best.in.prop == "C21")  // fewer assemblies before the one that goes wrong
      for (size_t k = best.in.sc.size(); k-- > 0 && best.in.sc.size() > 1;) {
        Case c = best;
        c.in.sc.erase(c.in.sc.begin() + k);
        c.use.erase(c.use.begin() + k);
        c.ro.erase(c.ro.begin() + k);
        ch |= attempt(c);
      }
    for (size_t k = 0; k < best.in.sc.size(); k++) {
      for (size_t i = best.in.sc[k].faults.size(); i-- > 0;) {
        Case c = best;
        c.in.sc[k].faults.erase(c.in.sc[k].faults.begin() + i);
        ch |= attempt(c);
      }
      for (size_t i = best.in.sc[k].edits.size(); i-- > 0;) {
        Case c = best;
        c.in.sc[k].edits.erase(c.in.sc[k].edits.begin() + i);
        ch |= attempt(c);
      }
      if (!best.progs.empty())
        for (size_t i = best.in.sc[k].files.size(); i-- > 0;) {
          Case c = best;
          c.in.sc[k].files.erase(c.in.sc[k].files.begin() + i);
          ch |= attempt(c);
        }
      for (size_t i = 0; i < best.in.sc[k].procs.size(); i++) {
        const Knobs d;
        auto field = [&](auto f) {
          Case c = best;
          Knobs& kn = c.in.sc[k].procs[i].k;
          if (!f(kn)) return;
          ch |= attempt(c);
        };
#define RESET(x) field([&](Knobs& kn) { if (kn.x == d.x) return false; kn.x = d.x; return true; })
        RESET(variant); RESET(rchunk); RESET(wchunk); RESET(ibuf); RESET(obuf); RESET(lbuf); RESET(heapfill); RESET(stackfill); RESET(aslr);
        RESET(maxfd); RESET(codecap); RESET(listcap); RESET(now); RESET(env);
        field([&](Knobs& kn) { if (kn.rchunk.size() < 2) return false; kn.rchunk.resize(1); return true; });
        field([&](Knobs& kn) { if (kn.wchunk.size() < 2) return false; kn.wchunk.resize(1); return true; });
        for (size_t a = best.in.sc[k].procs[i].argv.size(); a-- > 1;) {
          Case c = best;
          auto& av = c.in.sc[k].procs[i].argv;
          if (av[a][0] != '-' || av[a].back() == 'o') continue;
          av.erase(av.begin() + a);
          if (best.in.sc.size() > 1)
            for (auto& sc : c.in.sc) if (sc.procs.size() > i) sc.procs[i].argv = av;
          ch |= attempt(c);
        }
      }
      // fault positions and counts
      for (size_t i = 0; i < best.in.sc[k].faults.size(); i++) {
        static const int tries[] = {0, 1, 2, 3, 4, 6, 8, 12};
        for (int t : tries) {
          if (t >= best.in.sc[k].faults[i].nth) break;
          Case c = best;
          c.in.sc[k].faults[i].nth = t;
          if (attempt(c)) { ch = true; break; }
        }
        if (best.in.sc[k].faults[i].count != 1) {
          Case c = best;
          c.in.sc[k].faults[i].count = 1;
          ch |= attempt(c);
        }
      }
      auto& sch = best.in.sc[k].schedule;
      for (size_t cut = sch.size(); cut >= 1; cut /= 2) {
        Case c = best;
        auto& v = c.in.sc[k].schedule;
        if (v.size() < cut) continue;
        v.resize(v.size() - cut);
        if (attempt(c)) { ch = true; }
      }
    }
    for (size_t i = best.moves.size(); i-- > 0;) {
      Case c = best;
      c.moves.erase(c.moves.begin() + i);
      ch |= attempt(c);
    }
    for (size_t k = 0; k < best.ro.size(); k++) {
      if (best.ro[k].crlf) {
        Case c = best;
        c.ro[k].crlf = false;
        ch |= attempt(c);
      }
      for (size_t i = best.ro[k].nonl.size(); i-- > 0;) {
        Case c = best;
        c.ro[k].nonl.erase(c.ro[k].nonl.begin() + i);
        ch |= attempt(c);
      }
    }
    return ch;
  }
  static void list_at(Program& p, size_t idx, std::vector<Stmt>*& l) {
    std::vector<std::vector<Stmt>*> ls;
    stmt_lists(p, ls);
    l = idx < ls.size() ? ls[idx] : nullptr;
  }
  bool drop(size_t g) {
    bool ch = false;
    for (size_t li = 0;; li++) {
      std::vector<Stmt>* l;
      list_at(best.progs[g], li, l);
      if (!l) break;
      for (size_t chunk = std::max<size_t>(1, l->size() / 2);; chunk /= 2) {
        for (size_t i = 0;; ) {
          list_at(best.progs[g], li, l);
          if (!l || i >= l->size() || spent()) break;
          Case c = best;
          std::vector<Stmt>* m;
          list_at(c.progs[g], li, m);
          size_t n = std::min(chunk, m->size() - i);
          m->erase(m->begin() + i, m->begin() + i + n);
          if (attempt(c)) ch = true;
          else i += chunk;
        }
        if (chunk <= 1) break;
      }
      list_at(best.progs[g], li, l);
      if (!l) break;
      // conditionals: their contents instead; labels; operands
      for (size_t i = 0; i < l->size() && !spent(); i++) {
        if ((*l)[i].k == S_IF) {
          for (int w = 0; w < 2; w++) {
            Case c = best;
            std::vector<Stmt>* m;
            list_at(c.progs[g], li, m);
            std::vector<Stmt> b = w ? (*m)[i].els : (*m)[i].body;
            m->erase(m->begin() + i);
            m->insert(m->begin() + i, b.begin(), b.end());
            if (attempt(c)) { ch = true; break; }
          }
          list_at(best.progs[g], li, l);
          if (!l || i >= l->size()) break;
        }
        while ((*l)[i].k == S_DATA && (*l)[i].e.size() > 1) {
          Case c = best;
          std::vector<Stmt>* m;
          list_at(c.progs[g], li, m);
          (*m)[i].e.pop_back();
          if (!attempt(c)) break;
          ch = true;
          list_at(best.progs[g], li, l);
        }
        if (!(*l)[i].label.empty() && (*l)[i].k != S_MACDEF && (*l)[i].k != S_EQU && (*l)[i].k != S_LABEL) {
          Case c = best;
          std::vector<Stmt>* m;
          list_at(c.progs[g], li, m);
          (*m)[i].label = "";
          ch |= attempt(c);
          list_at(best.progs[g], li, l);
        }
      }
    }
    for (size_t i = best.progs[g].incs.size(); i-- > 0;) {
      Case c = best;
      c.progs[g].incs.erase(c.progs[g].incs.begin() + i);
      ch |= attempt(c);
    }
    if (!best.progs[g].simple_layout) {
      Case c = best;
      c.progs[g].simple_layout = true;
      ch |= attempt(c);
    }
    return ch;
  }
  // raw text: whole lines, then pieces of lines; equal files of several scenarios together
  bool text() {
    bool ch = false;
    std::vector<std::string> paths;
    for (auto& f : best.in.sc[0].files) paths.push_back(f.path);
    for (auto& path : paths) {
      auto get = [&](Case& c, size_t k) -> std::string* {
        for (auto& f : c.in.sc[k].files) if (f.path == path) return &f.data;
        return nullptr;
      };
      auto set = [&](Case& c, const std::string& old, const std::string& t) {
        for (size_t k = 0; k < c.in.sc.size(); k++) if (auto* d = get(c, k)) if (*d == old) *d = t;
      };
      {
        Case c = best;
        for (auto& sc : c.in.sc)
          for (size_t i = 0; i < sc.files.size(); i++) if (sc.files[i].path == path) { sc.files.erase(sc.files.begin() + i); break; }
        if (attempt(c)) { ch = true; continue; }
      }
      auto reduce = [&](int mode, size_t cap) {
        auto split = [&](const std::string& t) {
          std::vector<std::string> v;
          size_t i = 0;
          while (i < t.size()) {
            size_t e = mode == 0 ? t.find('\n', i) : i;
            if (e == std::string::npos) e = t.size() - 1;
            v.push_back(t.substr(i, e - i + 1));
            i = e + 1;
          }
          return v;
        };
        std::string cur = *get(best, 0);
        auto v = split(cur);
        if (v.size() > cap) return;
        for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
          for (size_t i = 0; i < v.size() && !spent();) {
            auto w = v;
            w.erase(w.begin() + i, w.begin() + std::min(v.size(), i + chunk));
            std::string t;
            for (auto& x : w) t += x;
            Case c = best;
            set(c, cur, t);
            if (attempt(c)) { ch = true; v = w; cur = t; } else i += chunk;
          }
          if (chunk <= 1) break;
        }
      };
      reduce(0, 1u << 20);
      if (best.in.prop != "C08") reduce(1, 3000);
    }
    return ch;
  }
};
}  // namespace

Case minimize(const Case& c, const std::string& cls, int budget, double seconds) {
  Mini m;
  m.best = c;
  m.cls = cls;
  m.budget = budget;
  m.until = now() + seconds;
  for (int it = 0; it < 6 && !m.spent(); it++) {
    bool ch = m.knobs();
    if (m.best.progs.empty()) ch |= m.text();
    for (size_t g = 0; g < m.best.progs.size(); g++) ch |= m.drop(g);
    if (!ch) break;
  }
  return m.best;
}

// ------------------------------------------------------------------ replay files
std::string instance_to_text(const Instance& in) {
  std::string t;
  char b[256];
  t += "prop " + in.prop + "\n";
  for (auto& p : in.par) t += "par " + p.first + " " + std::to_string(p.second) + "\n";
  const Expect& x = in.ex;
  snprintf(b, sizeof b, "expect %d %d %d %d %d %llx %llx %d\n", x.have, x.ok, x.hex, x.coded, x.lastok, (unsigned long long)x.codelen,
           (unsigned long long)x.last, x.maxnest);
  t += b;
  for (size_t i = 0; i < x.em.size();) {
    size_t j = i;
    snprintf(b, sizeof b, "em %d %x ", x.em[i].bad, x.em[i].addr);
    t += b;
    while (j < x.em.size() && j < i + 32 && x.em[j].bad == x.em[i].bad && x.em[j].addr == x.em[i].addr + (j - i)) {
      snprintf(b, sizeof b, "%02x", x.em[j].byte);
      t += b;
      j++;
    }
    t += "\n";
    i = j;
  }
  for (int e : x.errlines) t += "errline " + std::to_string(e) + "\n";
  for (auto& g : x.grp) t += "group " + std::to_string(g.first) + " " + std::to_string(g.second) + "\n";
  for (auto& l : x.ll) t += "listed " + std::to_string(l.line) + " " + std::to_string(l.val) + " " + std::to_string(l.g) + " " + l.text + "\n";
  for (auto& y : x.syms) t += "symbol " + y.name + " " + y.type + " " + std::to_string(y.v) + "\n";
  for (auto& w : x.warns) t += "warns " + std::to_string(w.line) + " " + std::to_string(w.lo) + " " + std::to_string(w.hi) + " " + std::to_string(w.listed) + "\n";
  for (auto& s : in.sc) t += "scenario\n" + scenario_to_text(s);
  return t;
}
bool instance_from_text(const std::string& t, Instance& in) {
  size_t i = 0;
  std::vector<std::string> sc;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if (l == "scenario") { sc.push_back(""); continue; }
    if (!sc.empty()) { sc.back() += l + "\n"; continue; }
    if (!l.compare(0, 5, "prop ")) in.prop = l.substr(5);
    else if (!l.compare(0, 4, "par ")) {
      char k[64];
      long v;
      if (sscanf(l.c_str(), "par %63s %ld", k, &v) != 2) return false;
      in.par[k] = v;
    } else if (!l.compare(0, 7, "expect ")) {
      int h, o, x, c, lo;
      unsigned long long cl, la;
      if (sscanf(l.c_str(), "expect %d %d %d %d %d %llx %llx %d", &h, &o, &x, &c, &lo, &cl, &la, &in.ex.maxnest) != 8) return false;
      in.ex.have = h; in.ex.ok = o; in.ex.hex = x; in.ex.coded = c; in.ex.lastok = lo; in.ex.codelen = cl; in.ex.last = la;
    } else if (!l.compare(0, 3, "em ")) {
      int bad, n = 0;
      unsigned a;
      if (sscanf(l.c_str(), "em %d %x %n", &bad, &a, &n) < 2) return false;
      for (size_t j = n; j + 1 < l.size(); j += 2) in.ex.em.push_back(Em{a++, (uint8_t)strtoul(l.substr(j, 2).c_str(), nullptr, 16), bad != 0});
    } else if (!l.compare(0, 8, "errline ")) in.ex.errlines.push_back(atoi(l.c_str() + 8));
    else if (!l.compare(0, 6, "group ")) {
      unsigned a;
      int o;
      if (sscanf(l.c_str(), "group %u %d", &a, &o) != 2) return false;
      in.ex.grp.push_back({a, o != 0});
    } else if (!l.compare(0, 7, "listed ")) {
      LL x;
      long long v;
      unsigned g;
      int n = 0;
      if (sscanf(l.c_str(), "listed %d %lld %u%n", &x.line, &v, &g, &n) != 3) return false;
      x.val = v;
      x.g = g;
      x.text = (size_t)n + 1 <= l.size() ? l.substr(n + 1) : "";
      in.ex.ll.push_back(x);
    } else if (!l.compare(0, 7, "symbol ")) {
      char n[256], ty[64];
      long long v;
      if (sscanf(l.c_str(), "symbol %255s %63s %lld", n, ty, &v) != 3) return false;
      in.ex.syms.push_back(Sym{n, ty, v});
    } else if (!l.compare(0, 6, "warns ")) {
      Warn w;
      int li;
      if (sscanf(l.c_str(), "warns %d %d %d %d", &w.line, &w.lo, &w.hi, &li) != 4) return false;
      w.listed = li;
      in.ex.warns.push_back(w);
    }
  }
  for (auto& x : sc) {
    Scenario s;
    if (!scenario_from_text(x, s)) return false;
    in.sc.push_back(s);
  }
  return !in.prop.empty() && !in.sc.empty();
}
