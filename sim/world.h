// Simulated world of the crasm simulator: file system, descriptors, clock, faults, event trace.
// Lives in one MAP_SHARED region so that the driver can inspect it after the simulated
// process (a forked child that runs the real crasm code) has ended in whatever way.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

enum Op : uint8_t { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_UNLINK, OP_RENAME, OP_TRUNC, OP_SEEK,
                    OP_MALLOC, OP_OTHER, OP_EXIT, OP_ANY, OP_NUM };
extern const char* const op_name[OP_NUM];

enum Act : uint8_t { ACT_FAIL, ACT_KILL_BEFORE, ACT_KILL_AFTER, ACT_KILL_MID };

// One injected fault: the nth (0-based) operation `op` on path `path` ("*" = any) of process `proc`,
// and the following count-1 ones (count < 0: for good). OP_ANY counts all operations of the process.
struct Fault {
  int proc = 0;
  int op = OP_READ;
  std::string path = "*";
  int nth = 0;
  int count = 1;
  int act = ACT_FAIL;
  int err = 5;
};

// A change made by another process (an editor) just before the event with global number `at`.
enum EdAct : uint8_t { ED_REPLACE, ED_INPLACE, ED_APPEND, ED_REMOVE, ED_TRUNC };
struct Edit {
  long at = 0;
  int act = ED_REPLACE;
  std::string path;
  std::string data;
};

struct FileSpec {
  std::string path, data;
  bool isdir = false, noread = false, nowrite = false;
};

struct Knobs {
  int variant = 0;          // which build of crasm: 0 as shipped, 1.. other compile settings
  std::vector<int> rchunk;  // sizes of successive read transfers, cyclic (empty: as asked)
  std::vector<int> wchunk;  // same for writes
  int ibuf = 4096, obuf = 4096, lbuf = 4096;  // stdio buffers: inputs, code file, listing (0: unbuffered)
  int heapfill = -1;        // byte that fresh heap memory contains (-1: zero)
  int stackfill = -1;       // byte that fresh stack memory contains (-1: zero)
  int aslr = 0;             // where heap and stack lie
  int maxfd = 64;           // descriptor limit, including 0..2
  long codecap = -1;        // bytes the code file may grow to before ENOSPC
  long listcap = -1;        // same for standard output
  long now = 1000000000;    // simulated date
  int env = 0;              // which environment variables exist
};

struct Proc {
  std::vector<std::string> argv;
  Knobs k;
};

struct Scenario {
  std::vector<Proc> procs;
  std::vector<FileSpec> files;
  std::vector<Fault> faults;
  std::vector<Edit> edits;
  std::vector<uint8_t> schedule;  // which process performs the next operation (several processes)
  uint64_t maxsteps = 60000000;   // bound on executed edges per process
};

struct Ev {
  uint8_t proc, op, fault;
  int8_t path;
  int32_t req, res;
};

struct ProcResult {
  bool ended = false;    // exit() or return from main
  int exitcode = -1;
  bool simkilled = false;  // killed by the simulator
  bool hang = false;       // step bound exceeded
  bool limit = false;      // output exceeded what the simulator stores
  int signal = 0;          // died from a signal
  bool san = false;        // sanitizer report
  uint64_t steps = 0;
  int maxopen = 0;       // max number of simultaneously open descriptors (without 0..2)
  int openatexit = 0;
  std::string out, err;  // standard output and error as delivered
  int listlost = 0;      // failed writes on standard output
  std::string why;       // sanitizer text, if any
};

struct FileState {
  std::string path, data;
  bool exists = true;
};

struct RunResult {
  std::vector<ProcResult> p;
  std::vector<FileState> files;  // final directory contents
  std::vector<Ev> ev;
  std::vector<std::string> paths;
  uint64_t hash = 0;  // over the complete event log and all outputs
  long nev = 0;
  long faults_fired[OP_NUM] = {0};
  long kills = 0, edits = 0, shortr = 0, shortw = 0, capfired = 0;
  const FileState* file(const std::string& path) const {
    for (auto& f : files)
      if (f.path == path) return &f;
    return nullptr;
  }
  int pathidx(const std::string& path) const {
    for (size_t i = 0; i < paths.size(); i++)
      if (paths[i] == path) return (int)i;
    return -1;
  }
};

void sim_init();  // once per worker process
RunResult run_scenario(const Scenario& s);
std::vector<uint32_t> cov_points();  // edges reached so far in this worker
extern bool sim_is_asan;

std::string scenario_to_text(const Scenario& s);
bool scenario_from_text(const std::string& t, Scenario& s);
