#include "checks.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <algorithm>

Stats stats;

// ------------------------------------------------------------------ running and reading results
static const char* errname(int e) {
  switch (e) {
  case EIO: return "EIO";
  case ENOSPC: return "ENOSPC";
  case EDQUOT: return "EDQUOT";
  case EFBIG: return "EFBIG";
  case EACCES: return "EACCES";
  case ENOENT: return "ENOENT";
  case EMFILE: return "EMFILE";
  case ENFILE: return "ENFILE";
  case EISDIR: return "EISDIR";
  case ESTALE: return "ESTALE";
  case EROFS: return "EROFS";
  case EPIPE: return "EPIPE";
  case ENOMEM: return "ENOMEM";
  case EPERM: return "EPERM";
  case ENXIO: return "ENXIO";
  }
  return "other";
}

// a run with more events than the log holds: judgements that rest on the log are not made
static bool log_short;

RunResult run(const Scenario& s) {
  RunResult r = run_scenario(s);
  bool broken = false;
  for (auto& p : r.p) broken |= p.san || p.signal || p.hang;
  if (r.nev > (long)r.ev.size() && !broken) log_short = true;
  stats.runs++;
  stats.events += r.nev;
  for (auto& p : r.p) stats.steps += p.steps;
  stats.traces.insert(r.hash);
  for (auto& e : r.ev)
    if (e.fault) stats.faults[std::string(op_name[e.op]) + " fails with " + (e.op == OP_MALLOC ? "ENOMEM" : errname(-e.res))]++;
  auto add = [&](const char* k, long n) { if (n) stats.faults[k] += n; };
  add("process killed", r.kills);
  add("file changed by another process", r.edits);
  add("short read", r.shortr);
  add("short write", r.shortw);
  add("disk or pipe full", r.capfired);
  for (auto& f : s.files) {
    if (f.isdir) add("directory in place of a file", 1);
    if (f.noread) add("unreadable file", 1);
    if (f.nowrite) add("unwritable file", 1);
  }
  for (auto& p : s.procs) {
    if (p.k.heapfill > 0 || p.k.stackfill > 0) add("dirty memory", 1);
    if (p.k.aslr) add("memory elsewhere", 1);
    if (p.k.maxfd < 64) add("few descriptors", 1);
  }
  if (s.procs.size() > 1) add("interleaved processes", 1);
  return r;
}

static void probe(const char* name, bool cond = true) {
  if (cond) stats.probes[name]++;
}

struct Out {
  bool summary = false, claims = false, nocode = false, fatal = false, usage = false, haslast = false;
  long nerr = -1, nwarn = -1;
  std::vector<int> errlines;  // error messages in the listing
  std::vector<int> warnlines;
  unsigned long last = 0, codelen = 0;
  bool havelen = false;
};

static Out parse_out(const std::string& t) {
  Out o;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    while (!l.empty() && (l[0] == '\f' || l[0] == '\r')) l.erase(0, 1);
    if (!l.compare(0, 7, "ERRORS:")) {
      o.nerr = strtol(l.c_str() + 7, nullptr, 10);
      o.summary = true;
    } else if (!l.compare(0, 9, "WARNINGS:")) o.nwarn = strtol(l.c_str() + 9, nullptr, 10);
    else if (!l.compare(0, 19, "Successful assembly")) o.claims = true;
    else if (!l.compare(0, 17, "No code generated")) o.nocode = true;
    else if (!l.compare(0, 14, " Last address ")) {
      o.last = strtoul(l.c_str() + 14, nullptr, 16);
      o.haslast = true;
    } else if (!l.compare(0, 13, " Code length ")) {
      o.codelen = strtoul(l.c_str() + 13, nullptr, 16);
      o.havelen = true;
    }
    if (l.find("FATAL ERROR") != std::string::npos) o.fatal = true;
    if (!l.compare(0, 7, "Syntax:")) o.usage = true;
    // messages: "> 12 ERROR: ..." or ">>12 WARNING: ..."
    const char* p = l.c_str();
    while (*p == '>') p++;
    while (*p == ' ') p++;
    if (p != l.c_str() || (*p >= '0' && *p <= '9')) {
      char* q;
      long n = strtol(p, &q, 10);
      if (q != p && *q == ' ') {
        while (*q == ' ') q++;
        if (!strncmp(q, "ERROR:", 6)) o.errlines.push_back((int)n);
        else if (!strncmp(q, "WARNING:", 8)) o.warnlines.push_back((int)n);
      }
    }
  }
  return o;
}

struct Code {
  std::string bad;  // why it is not a well-formed code file
  bool hex = false, empty = true, terminated = false;
  std::vector<std::pair<uint32_t, uint8_t>> em;
};

static Code decode(const std::string& t) {
  Code c;
  size_t i = 0;
  uint32_t ext = 0;
  int nterm = 0, line = 0;
  auto hx = [](char h) { return h >= '0' && h <= '9' ? h - '0' : h >= 'A' && h <= 'F' ? h - 'A' + 10 : h >= 'a' && h <= 'f' ? h - 'a' + 10 : -1; };
  auto fail = [&](const std::string& w) { if (c.bad.empty()) c.bad = "line " + std::to_string(line) + ": " + w; };
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    line++;
    if (e == std::string::npos) { fail("incomplete line"); e = t.size(); }
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if (!l.empty() && l.back() == '\r') l.pop_back();
    if (nterm) { fail("record after the terminator"); break; }
    if (l.empty()) { fail("empty line"); break; }
    std::vector<int> b;
    bool srec = l[0] == 'S';
    if (!srec && l[0] != ':') { fail("neither S nor : record"); break; }
    size_t k = srec ? 2 : 1;
    if (l.size() < k || (l.size() - k) % 2) { fail("odd length"); break; }
    bool ok = true;
    for (; k + 1 < l.size(); k += 2) {
      int h = hx(l[k]), lo = hx(l[k + 1]);
      if (h < 0 || lo < 0) ok = false;
      b.push_back((h << 4 | lo) & 255);
    }
    if (!ok) { fail("not hexadecimal"); break; }
    int sum = 0;
    for (int x : b) sum += x;
    if (srec) {
      char ty = l[1];
      if (b.empty() || b[0] != (int)b.size() - 1) { fail("wrong record length"); break; }
      if ((sum & 255) != 255) { fail("wrong checksum"); break; }
      int al = ty == '1' || ty == '9' || ty == '0' || ty == '5' ? 2 : ty == '2' || ty == '8' ? 3 : ty == '3' || ty == '7' ? 4 : 0;
      if (!al || (int)b.size() < al + 2) { fail("unknown or too short record"); break; }
      if (ty >= '7') { nterm++; c.terminated = true; continue; }
      if (ty == '0' || ty == '5') continue;
      uint64_t a = 0;
      for (int j = 0; j < al; j++) a = a << 8 | b[1 + j];
      uint64_t n = b.size() - 2 - al;
      if (n == 0) { fail("record without data"); break; }
      if (a + n > (1ull << (8 * al))) { fail("data beyond the address range of the record"); break; }
      for (size_t j = al + 1; j + 1 < b.size(); j++) c.em.push_back({(uint32_t)a++, (uint8_t)b[j]});
    } else {
      c.hex = true;
      if (b.size() < 5 || b[0] != (int)b.size() - 5) { fail("wrong record length"); break; }
      if ((sum & 255) != 0) { fail("wrong checksum"); break; }
      uint32_t a = b[1] << 8 | b[2];
      int n = b[0];
      switch (b[3]) {
      case 0:
        if (a + n > 0x10000) { fail("data beyond the segment"); break; }
        for (int j = 0; j < n; j++) c.em.push_back({ext + a + j, (uint8_t)b[4 + j]});
        break;
      case 1: nterm++; c.terminated = true; break;
      case 2: ext = (uint32_t)(b[4] << 8 | b[5]) << 4; break;
      case 4: ext = (uint32_t)(b[4] << 8 | b[5]) << 16; break;
      default: fail("unknown record type");
      }
      if (!c.bad.empty()) break;
    }
  }
  if (nterm != 1) fail("no terminator at the end");
  c.empty = t.empty();
  return c;
}

static std::string hexs(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "%llx", (unsigned long long)v);
  return b;
}

// compares a code file with the emission expected by the model; "" if it is right
static std::string compare_code(const std::string& t, const Expect& ex) {
  Code c = decode(t);
  if (!c.bad.empty()) return "the code file is malformed, " + c.bad;
  if (!ex.em.empty() && c.hex != ex.hex) return "the code file has the wrong format";
  size_t n = std::min(c.em.size(), ex.em.size());
  for (size_t i = 0; i < n; i++)
    if (c.em[i].first != ex.em[i].addr || c.em[i].second != ex.em[i].byte)
      return "byte " + std::to_string(i) + " of the code is " + hexs(c.em[i].second) + " at " + hexs(c.em[i].first) + ", the program emits " +
             hexs(ex.em[i].byte) + " at " + hexs(ex.em[i].addr);
  if (c.em.size() != ex.em.size())
    return "the code has " + std::to_string(c.em.size()) + " bytes, the program emits " + std::to_string(ex.em.size());
  return "";
}

static std::string codepath(const Scenario& s, int p = 0) {
  auto& a = s.procs[p].argv;
  for (size_t i = 1; i + 1 < a.size(); i++)
    if (a[i] == "-o" || (a[i].size() > 1 && a[i][0] == '-' && a[i].back() == 'o')) return a[i + 1];
  return "";
}
static const FileSpec* spec(const Scenario& s, const std::string& path) {
  for (auto& f : s.files)
    if (f.path == path) return &f;
  return nullptr;
}
static bool wrote(const RunResult& r, const std::string& path, int proc = 0) {
  int pi = r.pathidx(path);
  for (auto& e : r.ev)
    if (e.op == OP_OPEN && e.proc == proc && e.path == pi && e.res >= 0 && (e.req & O_ACCMODE) != O_RDONLY) return true;
  return false;
}
static bool any_fault(const RunResult& r, int proc = 0) {
  for (auto& e : r.ev)
    if (e.fault && e.proc == proc) return true;
  return false;
}
// ends without success: no claim, non-zero status
static std::string not_success(const ProcResult& p, const Out& o) {
  if (p.ended && p.exitcode == 0) return "exit status 0";
  if (o.claims) return "the summary says the assembly was successful";
  return "";
}
// how a run failed to end by itself
static std::string disorder(const ProcResult& p) {
  if (p.san) return "invalid memory access: " + p.why.substr(0, 600);
  if (p.signal >= 1000) return "simulator trouble " + std::to_string(p.signal);
  if (p.signal) return "killed by signal " + std::to_string(p.signal);
  if (p.hang) return "does not end within the bound of steps";
  return "";
}
static bool okrun(const ProcResult& p, const Out& o) { return p.ended && p.exitcode == 0 && o.claims && o.nerr == 0; }

static std::string clip(const std::string& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }

#define BAD(c, t) do { v.cls = (c); v.text = (t); return v; } while (0)

// state of the code file after a failed run
static std::string leftover(const Scenario& s, const RunResult& r, const Out& o) {
  std::string cp = codepath(s);
  if (cp.empty()) return "";
  auto* f = r.file(cp);
  auto* old = spec(s, cp);
  if (old && old->isdir) return "";
  if (!f) return "";
  if (wrote(r, cp)) return "the failed run left a code file of " + std::to_string(f->data.size()) + " bytes written by it";
  if (o.nerr > 0) return "errors were counted, but the code file of an earlier run is still there";
  if (!old) return "the failed run left a new code file";
  if (f->data != old->data) return "the failed run changed the code file of an earlier run";
  return "";
}

// ------------------------------------------------------------------ the oracles
static Verdict judge_code(const Instance& in, const Scenario& s, const RunResult& r) {
  // the run must be successful and its code exactly that of the model
  Verdict v;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!okrun(p, o)) BAD("not-accepted", "a valid program is not accepted: exit status " + std::to_string(p.exitcode) + ", errors " + std::to_string(o.nerr) + (o.fatal ? ", fatal" : ""));
  std::string cp = codepath(s);
  auto* f = cp.empty() ? nullptr : r.file(cp);
  auto* old = spec(s, cp);
  if (!cp.empty()) {
    if (!in.ex.em.empty()) {
      if (!f) BAD("wrong-code", "success is reported, but there is no code file");
      std::string w = compare_code(f->data, in.ex);
      if (!w.empty()) BAD("wrong-code", w);
    } else if (f && !(old && old->data == f->data && !wrote(r, cp))) {
      std::string w = compare_code(f->data, in.ex);
      if (!w.empty()) BAD("wrong-code", w);
    }
  }
  if (o.havelen && o.codelen != in.ex.codelen)
    BAD("wrong-summary", "the summary says code length " + hexs(o.codelen) + ", it is " + hexs(in.ex.codelen));
  if (o.haslast && in.ex.lastok && (in.ex.codelen || in.ex.last != (uint64_t)-1) && o.last != in.ex.last)
    BAD("wrong-summary", "the summary says last address " + hexs(o.last) + ", it is " + hexs(in.ex.last));
  return v;
}

static Verdict judge_C01(const Instance& in) {
  RunResult r = run(in.sc[0]);
  Verdict v = judge_code(in, in.sc[0], r);
  v.key = r.hash;
  v.nontrivial = in.ex.em.size() > 0;
  probe("code of more than one record", in.ex.em.size() > 16);
  bool jump = false, seg = false;
  for (size_t i = 1; i < in.ex.em.size(); i++) {
    if (in.ex.em[i].addr != in.ex.em[i - 1].addr + 1) jump = true;
    if (in.ex.em[i].addr >> 16 != in.ex.em[0].addr >> 16) seg = true;
  }
  probe("address jump inside the code", jump);
  probe("code in several 64K segments", seg);
  probe("Intel HEX output", in.ex.hex);
  probe("older code file overwritten", spec(in.sc[0], codepath(in.sc[0])) != nullptr);
  return v;
}

static Verdict judge_C02(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  bool fired = r.capfired > 0 || any_fault(r);
  int ci = r.pathidx(codepath(s));
  for (auto& e : r.ev)
    if (e.path == ci && e.res < 0 && (e.op == OP_OPEN || e.op == OP_WRITE || e.op == OP_CLOSE)) fired = true;
  v.nontrivial = fired || r.shortw > 0;
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!fired) {
    probe("only short writes", r.shortw > 0);
    return [&] { Verdict w = judge_code(in, s, r); w.key = v.key; w.nontrivial = v.nontrivial; return w; }();
  }
  std::string e = not_success(p, o);
  if (!e.empty()) BAD("success-claimed", "writing the code file failed, but " + e);
  if (!o.fatal && p.err.find("FILE ERROR") == std::string::npos && p.err.find("FATAL ERROR") == std::string::npos && o.nerr <= 0)
    BAD("no-message", "writing the code file failed, but no message says so");
  return v;
}

static Verdict judge_C03(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  if (!p.ended) {
    std::string d = disorder(p);
    if (!d.empty()) BAD("disorder", d);
    return v;
  }
  bool failed = p.exitcode != 0 || o.fatal || o.nocode || o.nerr > 0 || (in.ex.have && !in.ex.ok && s.faults.empty());
  v.nontrivial = failed;
  probe("failed after the code file was opened", failed && wrote(r, codepath(s)));
  probe("failed by a fatal error", o.fatal);
  probe("failed by source errors", o.nerr > 0);
  probe("failed with an older code file present", failed && spec(s, codepath(s)));
  if (!failed) return v;
  std::string w = leftover(s, r, o);
  if (!w.empty()) BAD("leftover", w);
  return v;
}

static bool has_terminator(const std::string& t) {
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) break;  // an incomplete line is no record
    if (!t.compare(i, 11, ":00000001FF") || (t[i] == 'S' && t[i + 1] >= '7' && t[i + 1] <= '9')) return true;
    i = e + 1;
  }
  return false;
}

static Verdict judge_C04(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  Scenario ref = s;
  ref.faults.clear();
  RunResult rr = run(ref);
  if (!rr.p[0].ended) return v;
  RunResult r = run(s);
  v.key = r.hash;
  if (!r.p[0].simkilled) return v;
  v.nontrivial = true;
  std::string cp = codepath(s);
  auto* f = r.file(cp);
  auto* old = spec(s, cp);
  auto* want = rr.file(cp);
  bool good = rr.p[0].exitcode == 0;
  bool opened = wrote(r, cp);
  probe("killed while the code file was incomplete", opened && good && f && want && f->data.size() < want->data.size());
  probe("killed with an empty code file", opened && f && f->data.empty());
  probe("killed after the code file was complete", opened && good && f && want && f->data == want->data);
  probe("killed before the code file was opened", !opened);
  probe("killed while assembling a program with errors", !good && opened);
  if (f && !(old && f->data == old->data && !opened)) {
    if (!opened) BAD("crash-state", "the run had not opened the code file, yet it changed");
    if (good && want) {
      if (want->data.compare(0, f->data.size(), f->data) || f->data.size() > want->data.size())
        BAD("crash-state", "after the kill the code file holds something that is no prefix of this program's code: " + clip(f->data));
    } else if (!good && has_terminator(f->data))
      BAD("crash-state", "killed while assembling a program with errors, a complete code file is left: " + clip(f->data));
  }
  // the same assembly again, on what the killed run left
  Scenario again = ref;
  for (size_t i = 0; i < again.files.size(); i++)
    if (again.files[i].path == cp) { again.files.erase(again.files.begin() + i); break; }
  for (auto& x : r.files) {
    bool have = false;
    for (auto& y : again.files) have |= y.path == x.path;
    if (have || x.path[0] == '<') continue;
    FileSpec n;
    n.path = x.path;
    n.data = x.data;
    again.files.push_back(n);
  }
  if (!again.edits.empty()) {  // on the sources as they are by now
    again.edits.clear();
    for (size_t i = 0; i < again.files.size();) {
      auto* x = r.file(again.files[i].path);
      if (x) again.files[i++].data = x->data;
      else again.files.erase(again.files.begin() + i);
    }
    Scenario fresh = again;
    for (size_t i = 0; i < fresh.files.size(); i++)
      if (fresh.files[i].path == cp) { fresh.files.erase(fresh.files.begin() + i); break; }
    rr = run(fresh);
    if (!rr.p[0].ended) return v;
    want = rr.file(cp);
    good = rr.p[0].exitcode == 0;
    probe("run again after edits and a kill", true);
  }
  RunResult r2 = run(again);
  auto* f2 = r2.file(cp);
  if (r2.p[0].exitcode != rr.p[0].exitcode || r2.p[0].out != rr.p[0].out || r2.p[0].ended != rr.p[0].ended)
    BAD("rerun", "running again after the kill gives another verdict or listing");
  bool emits = wrote(rr, cp);
  if (emits || !good) {
    if (good && ((f2 != nullptr) != (want != nullptr) || (f2 && f2->data != want->data))) BAD("rerun", "running again after the kill gives another code file");
    if (!good && f2 && wrote(r2, cp)) BAD("rerun", "running again after the kill leaves a code file of a program with errors");
  }
  return v;
}

static Verdict judge_C05(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  bool fired = false;
  int pass2 = 0, ci = r.pathidx(s.procs[0].argv.empty() ? "" : "a.asm");
  for (auto& e : r.ev) {
    if (e.op == OP_SEEK && e.path == ci && e.res == 0) pass2 = 1;
    if ((e.op == OP_READ && e.res < 0) || (e.op == OP_SEEK && e.fault)) {
      if (!fired) {
        probe("read fails in the first pass", e.op == OP_READ && !pass2);
        probe("read fails in the second pass", e.op == OP_READ && pass2);
        probe("read fails on an include", e.op == OP_READ && e.path != ci);
        probe("rewinding fails", e.op == OP_SEEK);
      }
      fired = true;
    }
  }
  v.nontrivial = fired;
  if (!fired) return v;
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", "after a read error the run " + d);
  std::string e = not_success(p, o);
  if (!e.empty()) BAD("success-claimed", "reading the source failed, but " + e);
  return v;
}

static Verdict judge_C06(const Instance& in) {
  Verdict v;
  RunResult a = run(in.sc[0]), b = run(in.sc[1]);
  v.key = b.hash;
  Out oa = parse_out(a.p[0].out), ob = parse_out(b.p[0].out);
  std::string da = disorder(a.p[0]), d = disorder(b.p[0]);
  if (!da.empty()) BAD("disorder", "canonical delivery: " + da);
  if (!d.empty()) BAD("disorder", d);
  std::string cp = codepath(in.sc[0]);
  auto *fa = a.file(cp), *fb = b.file(cp);
  v.nontrivial = fa || oa.nerr > 0;
  probe("last line without newline", in.par.count("nonl") && in.par.at("nonl"));
  probe("text moved to an include", in.par.count("moved") && in.par.at("moved"));
  probe("CR LF line ends", in.par.count("crlf") && in.par.at("crlf"));
  probe("program with errors", oa.nerr > 0);
  if (oa.nerr != ob.nerr || a.p[0].exitcode != b.p[0].exitcode || oa.claims != ob.claims || oa.fatal != ob.fatal)
    BAD("verdict-differs", "canonical text: " + std::to_string(oa.nerr) + " errors, exit " + std::to_string(a.p[0].exitcode) + "; same lines delivered differently: " +
                               std::to_string(ob.nerr) + " errors, exit " + std::to_string(b.p[0].exitcode));
  if ((fa != nullptr) != (fb != nullptr)) BAD("code-differs", "a code file exists for only one of the two deliveries");
  if (fa && fa->data != fb->data) {
    Code ca = decode(fa->data), cb = decode(fb->data);
    if (ca.bad != cb.bad || ca.em != cb.em || ca.hex != cb.hex) BAD("code-differs", "the same lines delivered differently give different code");
  }
  return v;
}

static Verdict judge_C07(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  Scenario ref = s;
  ref.faults.clear();
  for (auto& p : ref.procs) p.k.maxfd = 64;
  RunResult rr = run(ref), r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out), oref = parse_out(rr.p[0].out);
  std::string d = disorder(p), cp = codepath(s);
  int nfail = 0, pass2 = 0, mi = r.pathidx("a.asm");
  for (auto& e : r.ev) {
    if (e.op == OP_SEEK && e.path == mi) pass2 = 1;
    if (e.op == OP_OPEN && e.res < 0) {
      nfail++;
      probe("include does not open in the first pass", !pass2);
      probe("include does not open in the second pass", pass2);
    }
  }
  v.nontrivial = nfail > 0;
  if (!d.empty()) BAD("disorder", d);
  auto* f = r.file(cp);
  auto* want = rr.file(cp);
  if (p.exitcode == 0) {
    probe("accepted all the same", nfail > 0);
    if (!okrun(rr.p[0], oref)) {
      if (okrun(p, o) && nfail) BAD("wrong-code", "accepted only because an include did not open");
      return v;
    }
    if (!wrote(rr, cp)) return v;
    if (!f || !want || f->data != want->data) BAD("wrong-code", "an include did not open, yet success is reported and the code is not that of the whole program");
    return v;
  }
  if (o.claims) BAD("success-claimed", "exit status " + std::to_string(p.exitcode) + " but success is claimed");
  std::string w = leftover(s, r, o);
  if (!w.empty()) BAD("leftover", w);
  return v;
}

// Marker bytes make every label and every reference recognisable in the code itself.
static Verdict judge_C08(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p), cp = codepath(s);
  if (!d.empty()) BAD("disorder", d);
  v.nontrivial = r.edits > 0;
  probe("file changed and run rejected", r.edits && p.exitcode != 0);
  probe("file changed and run accepted", r.edits && p.exitcode == 0);
  if (p.exitcode != 0) {
    if (in.par.count("model") && in.ex.ok) BAD("not-accepted", "nothing changes meanwhile and every label is defined once, yet the program is not accepted");
    std::string w = leftover(s, r, o);
    if (!w.empty()) BAD("leftover", w);
    return v;
  }
  auto* f = r.file(cp);
  if (in.par.count("model")) {
    v.nontrivial = !in.ex.em.empty();
    probe("label values compared with the model", v.nontrivial);
    std::string w = f ? compare_code(f->data, in.ex) : "";
    if (!w.empty() && in.ex.ok) BAD("wrong-label", w);
    return v;
  }
  if (!f || !wrote(r, cp)) return v;
  Code c = decode(f->data);
  if (!c.bad.empty()) BAD("wrong-code", c.bad);
  auto& em = c.em;
  auto at = [&](size_t i, size_t n) -> bool {  // n bytes at consecutive addresses from i
    if (i + n > em.size()) return false;
    for (size_t k = 1; k < n; k++)
      if (em[i + k].first != em[i].first + k) return false;
    return true;
  };
  auto w = [&](size_t i, int n, bool le) {
    uint32_t x = 0;
    for (int k = 0; k < n; k++) x = x << 8 | em[i + (le ? n - 1 - k : k)].second;
    return x;
  };
  std::map<int, uint32_t> site;
  for (size_t i = 0; i < em.size(); i++) {
    if (!at(i, 4)) continue;
    for (int le = 0; le < 2; le++)
      if (w(i, 4, le) >> 8 == 0xB7C2D1) site[w(i, 4, le) & 255] = em[i].first;
  }
  int refs = 0;
  for (size_t i = 0; i < em.size(); i++) {
    if (!at(i, 4)) continue;
    for (int le = 0; le < 2; le++) {
      uint32_t m = w(i, 4, le), val = 0, mask = 0xffffffff;
      int k = m & 255;
      if (m >> 8 == 0xE9D3A5 && at(i, 8)) val = w(i + 4, 4, le);                     // dl marker,L
      else if (m >> 8 == 0xE9D3A6 && at(i, 7)) { val = w(i + 5, 2, le); mask = 0xffff; }  // dl marker / jmp L
      else if (m >> 8 == 0xE9D3A7 && at(i, 6)) { val = w(i + 4, 2, le); mask = 0xffff; }  // dl marker / dw L
      else continue;
      refs++;
      if (!site.count(k)) BAD("wrong-label", "label L" + std::to_string(k) + " is referenced in accepted code, but was not placed by this run");
      if ((site[k] & mask) != val)
        BAD("wrong-label", "a reference to L" + std::to_string(k) + " assembles " + hexs(val) + ", the label is at " + hexs(site[k]));
    }
  }
  probe("references checked", refs > 0);
  if (s.edits.empty()) v.nontrivial = refs > 0;
  return v;
}

// listing bytes: (address, byte) in order
static std::vector<std::pair<uint32_t, uint8_t>> listing_bytes(const std::string& t) {
  std::vector<std::pair<uint32_t, uint8_t>> r;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    while (!l.empty() && l[0] == '\f') l.erase(0, 1);
    size_t k = 0;
    auto ishex = [&](char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); };
    while (k < l.size() && ishex(l[k])) k++;
    if ((k != 4 && k != 6 && k != 8) || k >= l.size() || l[k] != ' ') continue;
    uint32_t a = strtoul(l.c_str(), nullptr, 16);
    for (k++; k + 1 < l.size() && ishex(l[k]) && ishex(l[k + 1]); k += 2) r.push_back({a++, (uint8_t)strtoul(l.substr(k, 2).c_str(), nullptr, 16)});
  }
  return r;
}

static Verdict judge_C09(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  v.nontrivial = in.ex.errlines.size() > 0;
  probe("several errors in one program", in.ex.errlines.size() > 1);
  auto ls = [](const std::vector<int>& x) { std::string t; for (int l : x) t += " " + std::to_string(l); return t; };
  if (o.fatal || !o.summary) BAD("wrong-errors", "the run does not reach the summary");
  if (o.errlines != in.ex.errlines) BAD("wrong-errors", "errors reported at lines" + ls(o.errlines) + ", erroneous are" + ls(in.ex.errlines));
  if (o.nerr != (long)in.ex.errlines.size()) BAD("wrong-count", "the summary counts " + std::to_string(o.nerr) + " errors, there are " + std::to_string(in.ex.errlines.size()));
  if ((p.exitcode != 0) != (o.nerr > 0)) BAD("wrong-status", "exit status " + std::to_string(p.exitcode) + " with " + std::to_string(o.nerr) + " errors");
  // the other lines: what they assemble to is seen in the listing
  auto lb = listing_bytes(p.out);
  size_t j = 0, seen = 0;
  std::set<uint32_t> badaddr;
  for (auto& e : in.ex.em) if (e.bad) badaddr.insert(e.addr);
  for (auto& e : in.ex.em) {
    if (e.bad) continue;
    while (j < lb.size() && !(lb[j].first == e.addr && lb[j].second == e.byte) && badaddr.count(lb[j].first)) j++;
    if (j >= lb.size() || lb[j].first != e.addr || lb[j].second != e.byte)
      BAD("wrong-lines", "byte " + hexs(e.byte) + " at " + hexs(e.addr) + " of a faultless line is not in its place in the listing" +
                             (j < lb.size() ? ", which has " + hexs(lb[j].second) + " at " + hexs(lb[j].first) : ""));
    j++;
    seen++;
  }
  probe("listing bytes compared", seen > 0);
  return v;
}

static Verdict judge_C10(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  v.nontrivial = true;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (in.par.at("mustfail")) {
    probe("cut inside a block");
    std::string e = not_success(p, o);
    if (!e.empty()) BAD("success-claimed", "the text ends inside an open block, but " + e);
    if (o.nerr <= 0 && !o.fatal) BAD("no-message", "the text ends inside an open block, but no error is reported");
    std::string w = leftover(s, r, o);
    if (!w.empty()) BAD("leftover", w);
    return v;
  }
  probe("cut between blocks");
  Verdict w = judge_code(in, s, r);
  w.key = v.key;
  w.nontrivial = true;
  return w;
}

static std::string blank_ds(const std::string& t) {
  std::string r;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size() - 1;
    std::string l = t.substr(i, e - i + 1), u = l;
    for (char& c : u) c = toupper(c);
    i = e + 1;
    r += u.find("DS") != std::string::npos || u.find("SKIP") != std::string::npos ? "\n" : l;
  }
  return r;
}

static Verdict judge_C11(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  v.nontrivial = true;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  if (p.limit) { probe("more output than the simulator stores"); return v; }
  if (p.hang) {
    Scenario q = s;
    for (auto& f : q.files) f.data = blank_ds(f.data);
    RunResult r2 = run(q);
    if (!r2.p[0].hang) { probe("long run asked for by the source"); return v; }
    BAD("hang", "the run does not end within the bound of steps");
  }
  std::string d = disorder(p);
  if (p.san) BAD("invalid-access", d);
  if (!d.empty()) BAD("signal", d);
  probe("damaged text accepted", p.exitcode == 0);
  probe("damaged text ends in a fatal error", o.fatal);
  if (!o.summary && !o.fatal && !o.usage) BAD("no-verdict", "the run ends with neither summary nor fatal error message, exit " + std::to_string(p.exitcode));
  if (o.nerr > 0 && p.exitcode == 0) BAD("no-verdict", "errors and exit status 0");
  return v;
}

static Verdict judge_C12(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  bool fired = any_fault(r);
  v.nontrivial = fired;
  if (!fired) return v;
  bool opened = wrote(r, codepath(s));
  probe("allocation fails while the code file is open", opened);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", "memory runs out: " + d);
  std::string e = not_success(p, o);
  if (!e.empty()) BAD("success-claimed", "memory ran out, but " + e);
  std::string w = leftover(s, r, o);
  if (!w.empty()) BAD("leftover", w);
  return v;
}

static Verdict judge_C13(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  v.nontrivial = in.ex.maxnest > 0;
  probe("nested includes", in.ex.maxnest > 1);
  bool tight = s.procs[0].k.maxfd < 64, faults = !s.faults.empty();
  probe("just enough descriptors", tight);
  if (tight && !faults && in.ex.ok && !okrun(p, o))
    BAD("not-accepted", "the nesting needs no more than the " + std::to_string(s.procs[0].k.maxfd) + " descriptors there are, but the program is not accepted");
  // a failing include may change which other includes are reached: then each file counts once
  int bound = in.ex.maxnest + 2;
  if (faults) {
    std::set<int> used;
    for (auto& e : r.ev)
      if (e.op == OP_OPEN && e.res >= 0) used.insert(e.path);
    bound = std::max(bound, (int)used.size());
  }
  if (in.ex.have && p.maxopen > bound)
    BAD("too-many-open", std::to_string(p.maxopen) + " files open at once, the nesting is " + std::to_string(in.ex.maxnest));
  // includes open at the boundary of the passes and at the end
  std::map<int, int> open;  // fd -> path
  int mi = r.pathidx("a.asm");
  auto inc_open = [&]() {
    for (auto& x : open)
      if (x.second != mi && r.paths[x.second] != codepath(s)) return true;
    return false;
  };
  std::vector<int> nest;  // descriptors of the includes in the order of their opening
  for (auto& e : r.ev) {
    if (e.op == OP_OPEN && e.res >= 0) {
      for (auto& x : open)
        if (x.second == e.path && e.path != mi) BAD("left-open", r.paths[e.path] + " is opened while it is still open");
      open[e.res] = e.path;
      if (e.path != mi && r.paths[e.path] != codepath(s)) nest.push_back(e.res);
    }
    if (e.op == OP_CLOSE) nest.erase(std::remove(nest.begin(), nest.end(), (int)e.req), nest.end());
    if (e.op == OP_READ && !nest.empty() && e.path != open[nest.back()])
      BAD("left-open", r.paths[e.path] + " is read on while " + r.paths[open[nest.back()]] + ", included later, is still open");
    if (e.op == OP_CLOSE) open.erase(e.req);
    if (e.op == OP_SEEK && e.path == mi && e.res == 0 && inc_open()) BAD("left-open", "an include is still open when the second pass begins");
  }
  if (p.ended && !o.fatal && o.summary) {
    for (auto& x : open)
      if (x.second != mi) BAD("left-open", r.paths[x.second] + " is still open at the end of the run");
  }
  return v;
}

static Verdict judge_C14(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  v.nontrivial = true;
  std::string cp = codepath(s);
  int ci = cp.empty() ? -1 : r.pathidx(cp);
  probe("without -o", cp.empty());
  probe("with faults", any_fault(r) || r.capfired);
  probe("killed", r.kills > 0);
  for (auto& e : r.ev) {
    if (e.path < 0) continue;
    const std::string& path = r.paths[e.path];
    bool std = path[0] == '<' && !path.compare(0, 4, "<std");
    if (e.path == ci || std) continue;
    bool bad = (e.op == OP_OPEN && (e.req & O_ACCMODE) != O_RDONLY) || e.op == OP_WRITE || e.op == OP_UNLINK || e.op == OP_RENAME || e.op == OP_TRUNC;
    if (bad) BAD("foreign-file", std::string(op_name[e.op]) + " on " + path + ", which is not the code file");
    if (e.op == OP_RENAME && e.req != ci) BAD("foreign-file", "rename");
  }
  for (auto& f : s.files) {
    if (f.path == cp) continue;
    auto* x = r.file(f.path);
    if (!x || (!f.isdir && x->data != f.data)) BAD("foreign-file", f.path + " was changed or removed");
  }
  for (auto& f : r.files) {
    if (f.path == cp || f.path[0] == '<') continue;
    if (!spec(s, f.path)) BAD("foreign-file", f.path + " was created");
  }
  return v;
}

static std::string final_code(const Scenario& s, const RunResult& r, int p = 0) {
  std::string cp = codepath(s, p);
  if (cp.empty()) return "-";
  auto* f = r.file(cp);
  auto* old = spec(s, cp);
  if (!f || (old && old->data == f->data && !wrote(r, cp, p))) return "-";
  return "+" + f->data;
}

static std::string firstdiff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t l = a.rfind('\n', i ? i - 1 : 0);
  l = l == std::string::npos ? 0 : l + 1;
  auto cut = [&](const std::string& x) { return l < x.size() ? x.substr(l, std::min<size_t>(x.find('\n', l) - l, 100)) : std::string("(end)"); };
  return "\"" + cut(a) + "\" and \"" + cut(b) + "\"";
}

static Verdict judge_C15(const Instance& in) {
  Verdict v;
  RunResult a = run(in.sc[0]), b = run(in.sc[1]);
  v.key = b.hash;
  auto &p = a.p[0], &q = b.p[0];
  if (p.hang || q.hang || p.limit || q.limit) { probe("too long to compare"); return v; }
  v.nontrivial = true;
  if (!p.ended || !q.ended) {
    if (p.ended != q.ended) BAD("ending-differs", "one of two equal assemblies ends by itself, the other: " + disorder(p.ended ? q : p));
    return v;
  }
  probe("equal runs that succeed", p.exitcode == 0);
  probe("equal runs that fail", p.exitcode != 0);
  if (p.exitcode != q.exitcode) BAD("status-differs", "exit status " + std::to_string(p.exitcode) + " and " + std::to_string(q.exitcode));
  if (p.out != q.out) BAD("listing-differs", "the listings differ: " + firstdiff(p.out, q.out));
  if (final_code(in.sc[0], a) != final_code(in.sc[1], b)) BAD("code-differs", "the code files differ");
  return v;
}

static Verdict judge_C16(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  Scenario ref = s;
  ref.faults.clear();
  ref.procs[0].k.listcap = -1;
  RunResult rr = run(ref), r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out oref = parse_out(rr.p[0].out);
  if (!rr.p[0].ended) return v;
  bool fired = any_fault(r) || r.capfired;
  v.nontrivial = fired;
  if (!fired) return v;
  probe("listing lost", p.listlost > 0);
  probe("listing of a program with errors lost", p.listlost > 0 && oref.nerr > 0);
  probe("standard error lost", p.listlost == 0);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", "output is lost: " + d);
  if (final_code(s, r) != final_code(ref, rr)) BAD("code-differs", "losing the listing changed the code file");
  std::string cp = codepath(s);
  if (!cp.empty() && (r.file(cp) != nullptr) != (rr.file(cp) != nullptr)) BAD("code-differs", "losing the listing changed whether there is a code file");
  if (p.listlost > 0 && p.exitcode == 0) BAD("success-claimed", "part of the listing was lost, but the exit status is 0");
  if (rr.p[0].exitcode != 0 && p.exitcode == 0) BAD("success-claimed", "losing output turned a failure into exit status 0");
  return v;
}

static Verdict judge_C17(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  int np = (int)s.procs.size();
  int sw = 0;
  for (size_t i = 1; i < r.ev.size(); i++) sw += r.ev[i].proc != r.ev[i - 1].proc;
  v.nontrivial = sw > np;
  for (int i = 0; i < np; i++) {
    bool faulty = false;
    for (auto& f : s.faults) faulty |= f.proc == i;
    if (faulty) { probe("a neighbour was killed or failed", r.p[i].simkilled || any_fault(r, i)); continue; }
    Scenario solo = s;
    solo.procs = {s.procs[i]};
    solo.faults.clear();
    solo.schedule.clear();
    RunResult q = run(solo);
    auto &a = q.p[0], &b = r.p[i];
    if (a.limit || a.hang) continue;
    std::string who = "process " + std::to_string(i);
    if (a.ended != b.ended || a.exitcode != b.exitcode) BAD("status-differs", who + ": exit status alone " + std::to_string(a.exitcode) + ", together " + std::to_string(b.exitcode) + " " + disorder(b));
    if (a.out != b.out) BAD("listing-differs", who + ": the listing differs from that of a run alone: " + firstdiff(a.out, b.out));
    std::string cp = codepath(s, i);
    auto *fa = q.file(cp), *fb = r.file(cp);
    if ((fa != nullptr) != (fb != nullptr) || (fa && fa->data != fb->data)) BAD("code-differs", who + ": the code file differs from that of a run alone");
    probe("several processes read the same file", s.procs[i].argv.back() == s.procs[(i + 1) % np].argv.back());
  }
  return v;
}

static Verdict judge_C18(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!p.ended || p.listlost) return v;
  v.nontrivial = true;
  bool file = p.err.find("FILE ERROR") != std::string::npos || p.err.find("FATAL ERROR") != std::string::npos;
  probe("success", p.exitcode == 0);
  probe("failure by source errors", p.exitcode && o.nerr > 0);
  probe("failure by a fatal error", o.fatal);
  probe("warnings", o.nwarn > 0);
  std::string cp = codepath(s);
  if (p.exitcode == 0) {
    if (!o.claims || o.nocode) BAD("verdicts-differ", "exit status 0, but the summary does not say successful");
    if (o.nerr != 0) BAD("verdicts-differ", "exit status 0 with " + std::to_string(o.nerr) + " errors");
    if (!o.errlines.empty()) BAD("verdicts-differ", "exit status 0, but the listing contains an error message");
    if (o.fatal || file) BAD("verdicts-differ", "exit status 0 after a fatal error");
    if (!cp.empty() && in.ex.have && in.ex.ok && !in.ex.em.empty() && !r.file(cp)) BAD("verdicts-differ", "success, but no code file");
    if (!cp.empty() && in.ex.have && in.ex.ok && !in.ex.em.empty() && !wrote(r, cp)) BAD("verdicts-differ", "success, but the code file was not written");
  } else {
    if (o.claims) BAD("verdicts-differ", "exit status " + std::to_string(p.exitcode) + ", but success is claimed");
    if (o.nerr <= 0 && !o.fatal && !file && !o.usage) BAD("verdicts-differ", "exit status " + std::to_string(p.exitcode) + " without any message");
    if (o.nerr > 0 && !cp.empty() && r.file(cp) && !(spec(s, cp) && spec(s, cp)->isdir)) BAD("verdicts-differ", "errors were counted, but there is a code file");
  }
  if (in.ex.have && s.faults.empty() && in.par.count("clean")) {
    // the model knows whether the program is right
    if (in.ex.ok != (p.exitcode == 0)) BAD("wrong-verdict", in.ex.ok ? "a valid program fails" : "an erroneous program is accepted");
  }
  if (o.summary && o.nerr != (long)o.errlines.size())
    BAD("wrong-count", "the summary counts " + std::to_string(o.nerr) + " errors, the listing has " + std::to_string(o.errlines.size()) + " error messages");
  if (o.summary && in.par.count("countwarn") && o.nwarn != (long)o.warnlines.size())
    BAD("wrong-count", "the summary counts " + std::to_string(o.nwarn) + " warnings, the listing has " + std::to_string(o.warnlines.size()) + " warning messages");
  return v;
}

// blanks and tabs as one blank, none at the ends
static std::string squeeze(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '\r') continue;
    if (c != ' ' && c != '\t') r += c;
    else if (!r.empty() && r.back() != ' ') r += ' ';
  }
  if (!r.empty() && r.back() == ' ') r.pop_back();
  return r;
}
static Verdict judge_C19(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!okrun(p, o)) BAD("rejected", "a correct program is not accepted");
  const Expect& x = in.ex;
  v.nontrivial = !x.em.empty() && !x.ll.empty();
  // the code file says the same as the listing
  std::string cp = codepath(s);
  if (!cp.empty()) {
    auto f = r.file(cp);
    if (f || !x.em.empty()) {
      std::string w = f ? compare_code(f->data, x) : "no code file";
      if (!w.empty()) BAD("wrong-code", w);
    }
  }
  // rows of the listing: bytes, and the numbered lines
  struct Row { int line; std::string text, head; size_t bytes; };
  std::vector<Row> rows;
  std::vector<std::pair<uint32_t, uint8_t>> lb;
  std::vector<int> width;
  auto ishex = [&](char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'); };
  size_t i = 0;
  int pages = 0;
  while (i < p.out.size()) {
    size_t e = p.out.find('\n', i);
    if (e == std::string::npos) e = p.out.size();
    std::string l = p.out.substr(i, e - i);
    i = e + 1;
    while (!l.empty() && l[0] == '\f') l.erase(0, 1);
    if (!l.compare(0, 6, "Crasm ")) { pages++; continue; }
    if (!l.compare(0, 7, "ERRORS:")) break;
    if (l.empty() || l[0] == '>') continue;
    size_t k = 0;
    while (k < l.size() && ishex(l[k])) k++;
    if ((k == 4 || k == 6 || k == 8) && k < l.size() && l[k] == ' ') {
      uint32_t a = strtoul(l.c_str(), nullptr, 16);
      for (k++; k + 1 < l.size() && k < 20 && ishex(l[k]) && ishex(l[k + 1]); k += 2) {
        lb.push_back({a++, (uint8_t)strtoul(l.substr(k, 2).c_str(), nullptr, 16)});
        width.push_back((int)l.find(' ') * 4);
      }
    }
    if (l.size() < 26) continue;
    std::string num = l.substr(21, 5);
    size_t z = num.find_first_not_of(' ');
    if (num.find('C') != std::string::npos && num.find_first_not_of(" C") == std::string::npos && !in.par.at("mlisted")) {
      rows.push_back(Row{-1, l.size() > 28 ? squeeze(l.substr(28)) : "", l.substr(0, 21), lb.size()});
      continue;
    }
    if (z == std::string::npos || num.find_first_not_of("0123456789", z) != std::string::npos) continue;
    if (l.size() > 26 && l[26] != ' ') continue;
    rows.push_back(Row{atoi(num.c_str()), l.size() > 28 ? squeeze(l.substr(28)) : "", l.substr(0, 21), lb.size()});
  }
  probe("listings of several pages", pages > 2);
  // the bytes: line by line, at least 20 of each line
  std::set<size_t> at = {0};
  size_t w = 0, g = 0;
  auto expectnum = [&](const LL& q) { return (q.line < 0 ? std::string("the unassembled line") : "line " + std::to_string(q.line)) + " (" + clip(squeeze(q.text)) + ")"; };
  auto group = [&]() {  // one more assembled line
    size_t b = x.grp[g].first, e = g + 1 < x.grp.size() ? x.grp[g + 1].first : x.em.size();
    g++;
    if (b == e || !x.grp[g - 1].second) return true;
    std::set<size_t> to;
    size_t n = e - b, need = n < 20 ? n : 20;
    for (size_t j : at)
      for (size_t m = 0; m <= n; m++) {
        if (m >= need) to.insert(j + m);
        if (m == n || j + m >= lb.size() || lb[j + m].second != x.em[b + m].byte) break;
        int wd = width[j + m];
        if (lb[j + m].first != (wd == 32 ? x.em[b + m].addr : x.em[b + m].addr & ((1u << wd) - 1))) break;
      }
    if (to.empty()) {
      size_t j = *at.rbegin();
      v.cls = "wrong-bytes";
      v.text = "the listing does not show the bytes emitted at " + hexs(x.em[b].addr) + " in their place" +
               (j < lb.size() ? "; it has " + hexs(lb[j].second) + " at " + hexs(lb[j].first) : "");
      return false;
    }
    at = to;
    return true;
  };
  for (auto& q : x.ll) {
    while (g < q.g) if (!group()) return v;
    std::string t = squeeze(q.text);
    while (w < rows.size() && rows[w].text.empty() && !(rows[w].line == q.line && t.empty())) w++;  // the end of a file
    if (w >= rows.size()) BAD("wrong-lines", expectnum(q) + " is not listed");
    if (rows[w].line != q.line || rows[w].text != t)
      BAD("wrong-lines", "the listing shows line " + std::to_string(rows[w].line) + " (" + clip(rows[w].text) + ") in place of " + expectnum(q));
    if (!at.count(rows[w].bytes)) BAD("wrong-bytes", "the bytes shown beside " + expectnum(q) + " are not its own");
    at = {rows[w].bytes};
    if (q.val >= 0) {
      size_t k = rows[w].head.find_first_not_of(' '), n = 0;
      while (k != std::string::npos && k + n < rows[w].head.size() && ishex(rows[w].head[k + n])) n++;
      if (n != 4 && n != 6 && n != 8) BAD("wrong-value", "no value is shown beside " + expectnum(q));
      uint64_t a = strtoull(rows[w].head.substr(k, n).c_str(), nullptr, 16), b = (uint64_t)q.val & (n == 8 ? 0xffffffffu : (1u << n * 4) - 1);
      if (a != b) BAD("wrong-value", hexs(a) + " is shown beside " + expectnum(q) + ", its value is " + hexs(b));
      probe("values beside definitions");
    }
    w++;
  }
  while (g < x.grp.size()) if (!group()) return v;
  while (w < rows.size() && rows[w].text.empty()) w++;
  if (w < rows.size()) BAD("wrong-lines", "line " + std::to_string(rows[w].line) + " (" + clip(rows[w].text) + ") is listed, but is not to be listed here");
  if (!at.count(lb.size())) BAD("wrong-bytes", "the listing shows bytes which are not emitted");
  probe("lines listed", !x.ll.empty());
  probe("listing bytes compared", !lb.empty());
  return v;
}

// the symbol table after the summary
static Verdict judge_C20(const Instance& in) {
  Verdict v;
  RunResult r = run(in.sc[0]);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!okrun(p, o)) BAD("rejected", "a correct program is not accepted");
  size_t i = p.out.rfind("\n Code length ");
  if (i == std::string::npos) BAD("no-summary", "the listing has no summary");
  i = p.out.find('\n', i + 1);
  std::vector<std::string> tok;
  while (i < p.out.size()) {
    size_t e = p.out.find('\n', i);
    if (e == std::string::npos) e = p.out.size();
    std::string l = p.out.substr(i, e - i);
    i = e + 1;
    while (!l.empty() && l[0] == '\f') l.erase(0, 1);
    if (!l.compare(0, 6, "Crasm ")) continue;
    std::string t;
    for (char c : l + " ") {
      if (c != ' ') t += c;
      else if (!t.empty()) { tok.push_back(t); t.clear(); }
    }
  }
  std::map<std::string, const Sym*> want;
  for (auto& y : in.ex.syms) want[y.name] = &y;
  v.nontrivial = !want.empty();
  probe("symbol tables of more than 50 names", want.size() > 50);
  std::set<std::string> seen;
  for (size_t k = 0; k < tok.size();) {
    std::string t = tok[k++];
    while (!t.empty() && (t[0] == '?' || t[0] == '^')) t.erase(0, 1);
    if (t.empty()) continue;
    std::string value, type = t;
    if (t.find_first_not_of("0123456789ABCDEF") == std::string::npos && (t.size() == 4 || t.size() == 6 || t.size() == 8)) {
      value = t;
      if (k >= tok.size()) BAD("malformed", "the symbol table ends after the value " + t);
      type = tok[k++];
    }
    if (k >= tok.size()) BAD("malformed", "the symbol table ends after " + type);
    std::string name = tok[k++];
    if (!seen.insert(name).second) BAD("twice", "the symbol " + name + " is in the table twice");
    auto q = want.find(name);
    if (q == want.end() && type == "Undefined") continue;  // only used where the first pass went another way
    if (q == want.end()) BAD("unknown-symbol", "the symbol table has " + type + " " + name + ", which is not a symbol of the program");
    if (type != q->second->type) BAD("wrong-type", "the symbol table calls " + name + " " + type + ", it is " + q->second->type);
    if (type == "Macro" || type == "Mnemonic" || type == "Register(s)") continue;
    uint64_t a = strtoull(value.c_str(), nullptr, 16), b = (uint64_t)q->second->v & (value.size() >= 8 ? 0xffffffffull : (1ull << value.size() * 4) - 1);
    if (value.empty() || a != b) BAD("wrong-value", "the symbol table gives " + name + " the value " + value + ", it is " + hexs(b));
  }
  for (auto& q : want)
    if (!seen.count(q.first)) BAD("missing-symbol", "the symbol " + q.first + " is not in the symbol table");
  return v;
}
// a history of assemblies in one directory, the last one undisturbed
static Verdict judge_C21(const Instance& in) {
  Verdict v;
  std::set<std::string> sources;
  for (auto& s : in.sc) for (auto& f : s.files) if (f.path != codepath(s)) sources.insert(f.path);
  std::vector<FileSpec> left;
  bool had = false;
  int disturbed = 0;
  for (size_t i = 0; i < in.sc.size(); i++) {
    Scenario s = in.sc[i];
    bool last = i + 1 == in.sc.size();
    std::string cp = codepath(s);
    Scenario fresh = s;  // the same assembly, in a directory that holds nothing else, without faults
    fresh.faults.clear();
    fresh.procs[0].k.codecap = fresh.procs[0].k.listcap = -1;
    for (auto it = fresh.files.begin(); it != fresh.files.end();) it = it->path == cp ? fresh.files.erase(it) : it + 1;
    auto mine = spec(s, cp);
    bool blocked = mine && (mine->isdir || mine->nowrite);
    if (!blocked) {
      for (auto it = s.files.begin(); it != s.files.end();) it = it->path == cp ? s.files.erase(it) : it + 1;
      for (auto& f : left) s.files.push_back(f);
    }
    RunResult rf = run(fresh), r = run(s);
    v.key = v.key * 1000003 + r.hash;
    auto &p = r.p[0], &q = rf.p[0];
    if (q.hang || q.limit || !q.ended) return v;
    std::string step = "assembly " + std::to_string(i + 1) + " of " + std::to_string(in.sc.size()) + ": ";
    std::string d = disorder(p);
    if (!d.empty()) BAD("disorder", step + d);
    auto *f = r.file(cp), *g = rf.file(cp);
    auto* old = spec(s, cp);
    bool good = q.exitcode == 0, emits = wrote(rf, cp), dist = any_fault(r) || r.capfired || p.simkilled || blocked;
    if (dist) disturbed++;
    for (auto& x : r.files)
      if (x.path[0] != '<' && x.path != cp && !sources.count(x.path)) BAD("litter", step + "it leaves a file " + x.path);
    if (!blocked) {
      bool same = (f == nullptr) == (old == nullptr) && (!f || f->data == old->data);
      bool own = good && emits && f && g && f->data == g->data;
      if (!dist) {
        if (p.exitcode != q.exitcode || p.out != q.out)
          BAD("other-result", step + "exit status or listing differ from those in an empty directory: " + firstdiff(q.out, p.out));
        if (good && emits && !own) BAD("other-code", step + "the code file is not that of the same assembly in an empty directory");
        if (!good && f && (parse_out(p.out).nerr > 0 || !same)) BAD("leftover", step + "errors were counted, yet there is a code file");
        if (good && !emits && !same) BAD("other-code", step + "nothing was emitted, yet the code file changed");
      } else if (p.simkilled) {
        bool prefix = good && g && f && g->data.compare(0, f->data.size(), f->data) == 0;
        if (f && !same && !prefix && ((good && s.faults.size() == 1) || has_terminator(f->data)))
          BAD("crash-state", step + "killed, it leaves a code file which is neither the old one nor the beginning of its own");
      } else if (p.exitcode == 0) {
        if (good && emits && !own) BAD("other-code", step + "it claims success, but the code file is not that of the same assembly in an empty directory");
      } else {
        Out o = parse_out(p.out);
        if (f && !own && !same) BAD("leftover", step + "it failed and left a code file which is neither the old one nor complete");
        if (f && !own && o.nerr > 0) BAD("leftover", step + "it counted errors, but the code file of an earlier one is still there");
      }
    }
    left.clear();
    for (auto& x : r.files) {
      if (x.path[0] == '<' || sources.count(x.path) || blocked) continue;
      FileSpec n;
      n.path = x.path;
      n.data = x.data;
      left.push_back(n);
    }
    if (last) {
      v.nontrivial = disturbed > 0 || had;
      probe("recovered after a disturbed assembly", disturbed > 0 && good);
      probe("the last of three or more assemblies", i >= 2);
    }
    had |= f != nullptr;
  }
  return v;
}

// the same assembly with other options
static Verdict judge_C22(const Instance& in) {
  Verdict v;
  RunResult a = run(in.sc[0]), b = run(in.sc[1]);
  v.key = b.hash;
  auto &p = a.p[0], &q = b.p[0];
  if (p.hang || q.hang || p.limit || q.limit) { probe("too long to compare"); return v; }
  if (!p.ended || !q.ended) {
    if (p.ended != q.ended) BAD("ending-differs", "one of the two assemblies ends by itself, the other: " + disorder(p.ended ? q : p));
    return v;
  }
  auto has = [&](const Scenario& s, char o) {
    for (size_t i = 1; i < s.procs[0].argv.size(); i++)
      if (s.procs[0].argv[i][0] == '-' && s.procs[0].argv[i].find(o) != std::string::npos) return true;
    return false;
  };
  const Scenario& s = in.sc[1];
  Out x = parse_out(p.out), y = parse_out(q.out);
  v.nontrivial = true;
  probe("with errors", x.nerr > 0);
  probe("with warnings", x.nwarn > 0);
  if (p.exitcode != q.exitcode) BAD("status-differs", "exit status " + std::to_string(p.exitcode) + ", with other options " + std::to_string(q.exitcode));
  if (x.fatal != y.fatal || x.summary != y.summary || x.claims != y.claims || x.nocode != y.nocode) BAD("verdict-differs", "the verdicts differ with the options");
  if (x.nerr != y.nerr || x.errlines != y.errlines) BAD("errors-differ", "the errors reported differ with the options");
  if (x.codelen != y.codelen || x.last != y.last) BAD("summary-differs", "code length or last address differ with the options");
  if (!has(s, 's') && x.nwarn != y.nwarn) BAD("warnings-differ", std::to_string(x.nwarn) + " warnings, with other options " + std::to_string(y.nwarn));
  if (has(s, 's') && (y.nwarn > 0 || !y.warnlines.empty())) BAD("warnings-shown", "-s does not suppress the warnings");
  if (!has(s, 'l') && !has(s, 's') && x.warnlines != y.warnlines) BAD("warnings-differ", "the warnings reported differ with the options");
  if (codepath(in.sc[0]).size() && codepath(s).size()) {
    auto *f = a.file(codepath(in.sc[0])), *g = b.file(codepath(s));
    if ((f == nullptr) != (g == nullptr)) BAD("code-differs", std::string("with other options there is ") + (g ? "a" : "no") + " code file");
    if (f && f->data != g->data) BAD("code-differs", "the code files differ with the options");
    probe("code files compared", f != nullptr);
  }
  if (codepath(s).empty())
    for (auto& f : b.files)
      if (f.path[0] != '<' && !spec(s, f.path)) BAD("litter", "without -o the file " + f.path + " is made");
  if (has(s, 'l')) {  // no source line is listed, but those in error
    size_t i = 0, n = 0;
    while (i < q.out.size()) {
      size_t e = q.out.find('\n', i);
      if (e == std::string::npos) e = q.out.size();
      std::string l = q.out.substr(i, e - i);
      i = e + 1;
      if (!l.compare(0, 7, "ERRORS:")) break;
      if (l.size() < 28) continue;
      std::string num = l.substr(21, 5);
      size_t z = num.find_first_not_of(' ');
      if (l[26] == ' ' && z != std::string::npos && num.find_first_not_of("0123456789", z) == std::string::npos) n++;
    }
    if (n > y.errlines.size() && !in.par.at("wild")) BAD("listed", "-l does not suppress the listing");
  }
  return v;
}

// warnings: what does not fit, once, in its place
static Verdict judge_C23(const Instance& in) {
  Verdict v;
  const Scenario& s = in.sc[0];
  RunResult r = run(s);
  v.key = r.hash;
  auto& p = r.p[0];
  Out o = parse_out(p.out);
  std::string d = disorder(p);
  if (!d.empty()) BAD("disorder", d);
  if (!okrun(p, o)) BAD("rejected", "a correct program is not accepted");
  std::string cp = codepath(s);
  if (!cp.empty() && !in.ex.em.empty()) {
    auto f = r.file(cp);
    std::string w = f ? compare_code(f->data, in.ex) : "no code file";
    if (!w.empty()) BAD("wrong-code", w);
  }
  bool off[2] = {false, false};
  for (auto& a : s.procs[0].argv)
    if (a.size() > 1 && a[0] == '-')
      for (int i = 0; i < 2; i++) off[i] |= a.find("sl"[i]) != std::string::npos;
  long lo = 0, hi = 0;
  std::vector<Warn> want;  // what the listing shows, line by line
  for (auto& w : in.ex.warns) {
    lo += w.lo;
    hi += w.hi;
    if (!w.listed || off[1]) continue;
    if (!want.empty() && want.back().line == w.line) want.back().lo += w.lo, want.back().hi += w.hi;
    else want.push_back(w);
  }
  v.nontrivial = lo > 0 && !off[0];
  if (off[0]) {
    if (o.nwarn != 0 || !o.warnlines.empty()) BAD("warned", "there are warnings in spite of -s");
    return v;
  }
  size_t i = 0;
  for (auto& w : want) {
    int n = 0;
    while (i < o.warnlines.size() && o.warnlines[i] == w.line && n < w.hi) i++, n++;
    if (n < w.lo)
      BAD("not-warned", "line " + std::to_string(w.line) + " has " + std::to_string(w.lo) + " operands which do not fit or are in parentheses, there are " + std::to_string(n) + " warnings" +
                            (i < o.warnlines.size() ? "; the next one is for line " + std::to_string(o.warnlines[i]) : ""));
  }
  if (i < o.warnlines.size()) BAD("warned", "a warning for line " + std::to_string(o.warnlines[i]) + " which does not deserve it");
  if (o.nwarn < lo || o.nwarn > hi) BAD("wrong-count", "the summary counts " + std::to_string(o.nwarn) + " warnings, the program deserves " + std::to_string(lo) + (hi > lo ? " to " + std::to_string(hi) : ""));
  probe("warnings in their place", o.warnlines.size() > 0);
  probe("warnings counted, not listed", o.nwarn > (long)o.warnlines.size());
  probe("more than 20 warnings", o.warnlines.size() > 20);
  return v;
}

Verdict judge(const Instance& in) {
  typedef Verdict (*J)(const Instance&);
  static const std::map<std::string, J> js = {
      {"C01", judge_C01}, {"C02", judge_C02}, {"C03", judge_C03}, {"C04", judge_C04}, {"C05", judge_C05}, {"C06", judge_C06},
      {"C07", judge_C07}, {"C08", judge_C08}, {"C09", judge_C09}, {"C10", judge_C10}, {"C11", judge_C11}, {"C12", judge_C12},
      {"C13", judge_C13}, {"C14", judge_C14}, {"C15", judge_C15}, {"C16", judge_C16}, {"C17", judge_C17}, {"C18", judge_C18},
      {"C19", judge_C19}, {"C20", judge_C20}, {"C21", judge_C21}, {"C22", judge_C22}, {"C23", judge_C23}};
  auto i = js.find(in.prop);
  if (i == js.end()) return Verdict();
  log_short = false;
  Verdict v = i->second(in);
  if (log_short && !v.cls.empty()) {
    probe("more events than the log holds");
    v.cls.clear();
  }
  return v;
}
