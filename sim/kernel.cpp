#include "world.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>

const char* const op_name[OP_NUM] = {"open", "read", "write", "close", "unlink", "rename",
                                     "trunc", "seek", "malloc", "other", "exit", "any"};
#ifdef SIM_ASAN
bool sim_is_asan = true;
#else
bool sim_is_asan = false;
#endif

extern "C" {
int crasm_main_0(int, char**);
int crasm_main_1(int, char**) __attribute__((weak));
int crasm_main_2(int, char**) __attribute__((weak));
}

namespace {

const int MAXPATH = 100, MAXINODE = 160, MAXFD = 96, MAXPROC = 4;
const size_t ARENA = 160u << 20, MAXFILE = 32u << 20;
const long MAXEV = 1 << 20;

struct Inode {
  char* data;
  size_t size, cap;
  bool isdir, noread, nowrite, special;
  long mtime;
  int lockby;  // process holding a lock, plus 1
  int owner;  // process whose standard stream this is, -1 otherwise
};
struct Ofile {
  bool used;
  int inode, path;
  size_t pos;
  int flags;
};
struct PState {
  Ofile fd[MAXFD];
  int maxopen;
  bool ended, simkilled, hang, limit;
  int exitcode;
  uint64_t steps;
  int rci, wci;
  int listlost;
  uint32_t cnt[OP_NUM][MAXPATH + 1], cntall;
};
struct World {
  int npath;
  char path[MAXPATH][128];
  int dirent[MAXPATH];  // inode or -1
  int ninode;
  Inode ino[MAXINODE];
  size_t arena_used;
  long nev;
  uint64_t evhash;
  Ev ev[MAXEV];
  PState p[MAXPROC];
  long fired[OP_NUM];
  long kills, edits, shortr, shortw, capfired;
  unsigned char edited[1024];
  unsigned char cov[1 << 16];
};

World* W;
char* arena;
const Scenario* S;
int me;           // index of this simulated process (in the child)
bool multi;       // several processes: hand over the baton at every operation
int baton_in, baton_out;
bool in_sim = false;
uint64_t steps, maxsteps = ~0ull;

[[noreturn]] void die(int code) { _exit(code); }

uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

const char* norm(const char* p) {
  while (p[0] == '.' && p[1] == '/') {
    p += 2;
    while (*p == '/') p++;
  }
  return p;
}
int path_id(const char* p) {
  p = norm(p);
  for (int i = 0; i < W->npath; i++)
    if (!strncmp(W->path[i], p, 127)) return i;
  if (W->npath >= MAXPATH) return MAXPATH - 1;
  int i = W->npath++;
  strncpy(W->path[i], p, 127);
  W->path[i][127] = 0;
  W->dirent[i] = -1;
  return i;
}
long now() { return S->procs[me].k.now + (long)(steps / 100000); }
int new_inode() {
  if (W->ninode >= MAXINODE) return -1;
  int i = W->ninode++;
  memset(&W->ino[i], 0, sizeof(Inode));
  W->ino[i].owner = -1;
  return i;
}
bool grow(Inode* n, size_t want) {
  if (want <= n->cap) return true;
  if (want > MAXFILE) return false;
  size_t c = n->cap ? n->cap : 512;
  while (c < want) c *= 2;
  if (W->arena_used + c > ARENA) return false;
  char* d = arena + W->arena_used;
  W->arena_used += c;
  memcpy(d, n->data, n->size);
  n->data = d;
  n->cap = c;
  return true;
}
void set_data(Inode* n, const char* d, size_t len) {
  n->size = 0;
  if (!grow(n, len)) return;
  memcpy(n->data, d, len);
  n->size = len;
}

void apply_edits() {
  for (size_t i = 0; i < S->edits.size() && i < sizeof W->edited; i++) {
    const Edit& e = S->edits[i];
    if (W->edited[i] || e.at > W->nev) continue;
    W->edited[i] = 1;
    W->edits++;
    int p = path_id(e.path.c_str());
    switch (e.act) {
    case ED_REMOVE: W->dirent[p] = -1; break;
    case ED_REPLACE: {
      int n = new_inode();
      if (n < 0) break;
      set_data(&W->ino[n], e.data.data(), e.data.size());
      W->dirent[p] = n;
      break;
    }
    case ED_TRUNC:
      if (W->dirent[p] >= 0) W->ino[W->dirent[p]].size = 0;
      break;
    case ED_INPLACE:
    case ED_APPEND: {
      if (W->dirent[p] < 0) {
        int n = new_inode();
        if (n < 0) break;
        W->dirent[p] = n;
      }
      Inode* n = &W->ino[W->dirent[p]];
      if (e.act == ED_INPLACE)
        set_data(n, e.data.data(), e.data.size());
      else if (grow(n, n->size + e.data.size())) {
        memcpy(n->data + n->size, e.data.data(), e.data.size());
        n->size += e.data.size();
      }
    }
    }
  }
}

[[noreturn]] void sim_kill() {
  W->p[me].simkilled = true;
  W->kills++;
  W->p[me].steps = steps;
  die(0);
}

struct Ctl {
  bool fail = false, kill_after = false, kill_mid = false;
  int err = 0;
};

void sched_point() {
  if (!multi) return;
  char c = 1;
  if (write(baton_out, &c, 1) != 1) die(97);
  if (read(baton_in, &c, 1) != 1) die(97);
}

// Start of a simulated operation: scheduling, changes by others, fault decision.
Ctl enter(int op, int path) {
  Ctl c;
  bool was = in_sim;
  in_sim = true;
  sched_point();
  apply_edits();
  uint32_t n = W->p[me].cnt[op][path < 0 ? MAXPATH : path]++;
  W->p[me].cntall++;
  uint32_t nany = 0;
  bool any_done = false;
  for (const Fault& f : S->faults) {
    if (f.proc != me || (f.op != op && f.op != OP_ANY)) continue;
    uint32_t k;
    if (f.op == OP_ANY) k = W->p[me].cntall - 1;
    else if (f.path == "*") {
      if (!any_done) {
        for (int i = 0; i <= MAXPATH; i++) nany += W->p[me].cnt[op][i];
        any_done = true;
      }
      k = nany - 1;
    } else {
      if (path < 0 || f.path != W->path[path]) continue;
      k = n;
    }
    if (k < (uint32_t)f.nth) continue;
    if (f.count >= 0 && k >= (uint32_t)(f.nth + f.count)) continue;
    W->fired[op]++;
    switch (f.act) {
    case ACT_FAIL:
      c.fail = true;
      c.err = f.err;
      break;
    case ACT_KILL_BEFORE: sim_kill();
    case ACT_KILL_AFTER: c.kill_after = true; break;
    case ACT_KILL_MID: c.kill_mid = true; break;
    }
  }
  in_sim = was;
  return c;
}

void leave(int op, int path, long req, long res, const Ctl& c) {
  Ev e;
  memset(&e, 0, sizeof e);
  e.proc = me;
  e.op = op;
  e.fault = c.fail;
  e.path = path;
  e.req = (int32_t)req;
  e.res = (int32_t)res;
  if (W->nev < MAXEV) W->ev[W->nev] = e;
  W->nev++;
  W->evhash = mix(W->evhash, ((uint64_t)e.proc << 56) ^ ((uint64_t)e.op << 48) ^ ((uint64_t)e.fault << 40) ^
                                 ((uint64_t)(uint8_t)e.path << 32) ^ (uint32_t)e.res);
  if (c.kill_after || c.kill_mid) sim_kill();
}

void count_open() {
  int n = 0;
  for (int i = 3; i < MAXFD; i++) n += W->p[me].fd[i].used;
  if (n > W->p[me].maxopen) W->p[me].maxopen = n;
}

long k_open(const char* name, int flags) {
  int p = path_id(name);
  Ctl c = enter(OP_OPEN, p);
  long r = -1;
  int err = 0;
  PState& ps = W->p[me];
  const Knobs& k = S->procs[me].k;
  int fd = 3;
  while (fd < MAXFD && ps.fd[fd].used) fd++;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  int ino = W->dirent[p];
  if (c.fail) err = c.err;
  else if (fd >= MAXFD || fd >= k.maxfd) err = EMFILE;
  else if (!*name) err = ENOENT;
  else if (ino < 0 && !(flags & O_CREAT)) err = ENOENT;
  else if (ino >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) err = EEXIST;
  else if (ino >= 0 && W->ino[ino].isdir && wr) err = EISDIR;
  else if (ino >= 0 && !wr && W->ino[ino].noread) err = EACCES;
  else if (ino >= 0 && wr && W->ino[ino].nowrite) err = EACCES;
  else {
    if (ino < 0) {
      ino = new_inode();
      if (ino >= 0) W->ino[ino].mtime = now();
      W->dirent[p] = ino;
    }
    if (ino < 0) err = ENOSPC;
    else {
      if (flags & O_TRUNC) W->ino[ino].size = 0, W->ino[ino].mtime = now();
      Ofile& o = ps.fd[fd];
      o.used = true;
      o.inode = ino;
      o.path = p;
      o.pos = 0;
      o.flags = flags;
      r = fd;
      count_open();
    }
  }
  // requests in the log: the flags, so that writers are recognisable
  leave(OP_OPEN, p, flags, r < 0 ? -err : r, c);
  if (r < 0) errno = err;
  return r;
}

Ofile* get(int fd) {
  if (fd < 0 || fd >= MAXFD || !W->p[me].fd[fd].used) return nullptr;
  return &W->p[me].fd[fd];
}

long k_read(int fd, char* buf, size_t n) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Ctl c = enter(OP_READ, o->path);
  PState& ps = W->p[me];
  Inode& in = W->ino[o->inode];
  long r;
  int err = 0;
  if (c.fail) { r = -1; err = c.err; }
  else if (in.isdir) { r = -1; err = EISDIR; }
  else if ((o->flags & O_ACCMODE) == O_WRONLY) { r = -1; err = EBADF; }
  else {
    size_t avail = o->pos < in.size ? in.size - o->pos : 0;
    size_t m = n < avail ? n : avail;
    const auto& ch = S->procs[me].k.rchunk;
    if (!ch.empty()) {
      size_t lim = ch[ps.rci++ % ch.size()];
      if (m > lim) { m = lim; W->shortr++; }
    }
    memcpy(buf, in.data + o->pos, m);
    o->pos += m;
    r = m;
  }
  leave(OP_READ, o->path, n, r < 0 ? -err : r, c);
  if (r < 0) errno = err;
  return r;
}

long k_write(int fd, const char* buf, size_t n) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Ctl c = enter(OP_WRITE, o->path);
  PState& ps = W->p[me];
  const Knobs& k = S->procs[me].k;
  Inode& in = W->ino[o->inode];
  long r = -1;
  int err = 0;
  if (c.fail) err = c.err;
  else if ((o->flags & O_ACCMODE) == O_RDONLY) err = EBADF;
  else {
    if (o->flags & O_APPEND) o->pos = in.size;
    size_t m = n;
    if (!k.wchunk.empty()) {
      size_t lim = k.wchunk[ps.wci++ % k.wchunk.size()];
      if (m > lim) { m = lim; W->shortw++; }
    }
    if (c.kill_mid) m = m / 2;
    long cap = in.owner >= 0 ? (fd == 1 ? k.listcap : -1) : k.codecap;
    if (cap >= 0 && (long)(o->pos + m) > cap) {
      m = (long)o->pos < cap ? cap - o->pos : 0;
      W->capfired++;
      if (m == 0) err = ENOSPC;
    }
    if (!err) {
      size_t end = o->pos + m;
      if (!grow(&in, end)) {
        ps.limit = true;
        ps.steps = steps;
        die(0);
      }
      if (o->pos > in.size) memset(in.data + in.size, 0, o->pos - in.size);
      memcpy(in.data + o->pos, buf, m);
      o->pos = end;
      if (end > in.size) in.size = end;
      in.mtime = now();
      r = m;
    }
  }
  if (r < 0 && fd == 1) ps.listlost++;
  leave(OP_WRITE, o->path, n, r < 0 ? -err : r, c);
  if (r < 0) errno = err;
  return r;
}

int k_close(int fd) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Ctl c = enter(OP_CLOSE, o->path);
  o->used = false;
  leave(OP_CLOSE, o->path, fd, c.fail ? -c.err : 0, c);
  if (c.fail) { errno = c.err; return -1; }
  return 0;
}

off_t k_seek(int fd, off_t off, int wh) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Inode& in = W->ino[o->inode];
  if (in.special) { errno = ESPIPE; return -1; }
  Ctl c = enter(OP_SEEK, o->path);
  off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o->pos : (off_t)in.size;
  off_t np = base + off;
  int err = c.fail ? c.err : np < 0 ? EINVAL : 0;
  if (!err) o->pos = np;
  leave(OP_SEEK, o->path, wh, err ? -err : (long)np, c);
  if (err) { errno = err; return -1; }
  return np;
}

int k_unlink(const char* name) {
  int p = path_id(name);
  Ctl c = enter(OP_UNLINK, p);
  int r = 0, err = 0;
  if (c.fail) { r = -1; err = c.err; }
  else if (W->dirent[p] < 0) { r = -1; err = ENOENT; }
  else if (W->ino[W->dirent[p]].isdir) { r = -1; err = EISDIR; }
  else W->dirent[p] = -1;
  leave(OP_UNLINK, p, 0, r < 0 ? -err : 0, c);
  if (r < 0) errno = err;
  return r;
}

int k_rename(const char* a, const char* b) {
  int p = path_id(a), q = path_id(b);
  Ctl c = enter(OP_RENAME, p);
  int r = 0, err = 0;
  if (c.fail) { r = -1; err = c.err; }
  else if (W->dirent[p] < 0) { r = -1; err = ENOENT; }
  else if (p != q) {
    W->dirent[q] = W->dirent[p];
    W->dirent[p] = -1;
  }
  leave(OP_RENAME, p, q, r < 0 ? -err : 0, c);
  if (r < 0) errno = err;
  return r;
}

int k_trunc(int ino, int path, off_t len) {
  Ctl c = enter(OP_TRUNC, path);
  int r = 0, err = 0;
  if (c.fail) { r = -1; err = c.err; }
  else if (ino < 0) { r = -1; err = ENOENT; }
  else if (len < 0 || !grow(&W->ino[ino], len)) { r = -1; err = EFBIG; }
  else {
    Inode& in = W->ino[ino];
    if ((size_t)len > in.size) memset(in.data + in.size, 0, len - in.size);
    in.size = len;
  }
  leave(OP_TRUNC, path, len, r < 0 ? -err : 0, c);
  if (r < 0) errno = err;
  return r;
}

// ---- stdio on top of the simulated descriptors: glibc's own, through cookies -------------
std::map<FILE*, int>* filefd;

ssize_t ck_read(void* c, char* b, size_t n) { return k_read((int)(intptr_t)c, b, n); }
ssize_t ck_write(void* c, const char* b, size_t n) {
  // as _IO_new_file_write: repeats after short writes, gives up on an error
  size_t done = 0;
  while (done < n) {
    long r = k_write((int)(intptr_t)c, b + done, n - done);
    if (r < 0) break;
    done += r;
  }
  return done;
}
int ck_seek(void* c, off64_t* off, int wh) {
  off_t r = k_seek((int)(intptr_t)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int ck_close(void* c) { return k_close((int)(intptr_t)c); }

char bufpool[64][4096 + 16];
bool bufused[64];

FILE* mkfile(int fd, const char* mode, int bufsize, bool line) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  if (!f) return nullptr;
  if (bufsize <= 0) setvbuf(f, nullptr, _IONBF, 0);
  else {
    if (bufsize > 4096) bufsize = 4096;
    for (int i = 0; i < 64; i++)
      if (!bufused[i]) {
        bufused[i] = true;
        setvbuf(f, bufpool[i], line ? _IOLBF : _IOFBF, bufsize);
        break;
      }
  }
  (*filefd)[f] = fd;
  return f;
}

int modeflags(const char* m) {
  int plus = strchr(m, '+') != nullptr, x = strchr(m, 'x') ? O_EXCL : 0;
  switch (*m) {
  case 'r': return plus ? O_RDWR : O_RDONLY;
  case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x;
  case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND | x;
  }
  return -1;
}

void (*exitfn[32])();
int nexitfn;

}  // namespace

// ---- the seam: what the C library names in crasm's object files are bound to ------------
extern "C" {

FILE* simw_fopen(const char* name, const char* mode) {
  int fl = modeflags(mode);
  if (fl < 0) { errno = EINVAL; return nullptr; }
  int fd = k_open(name, fl);
  if (fd < 0) return nullptr;
  const Knobs& k = S->procs[me].k;
  return mkfile(fd, mode, (fl & O_ACCMODE) == O_RDONLY ? k.ibuf : k.obuf, false);
}
int simw_fclose(FILE* f) {
  filefd->erase(f);
  return fclose(f);
}
FILE* simw_fdopen(int fd, const char* mode) {
  if (!get(fd)) { errno = EBADF; return nullptr; }
  const Knobs& k = S->procs[me].k;
  return mkfile(fd, mode, *mode == 'r' ? k.ibuf : k.obuf, false);
}
FILE* simw_freopen(const char* name, const char* mode, FILE* f) {
  simw_fclose(f);
  return simw_fopen(name, mode);
}
FILE* simw_tmpfile() {
  FILE* f = simw_fopen("<tmpfile>", "w+");
  if (f) k_unlink("<tmpfile>");
  return f;
}
int simw_fileno(FILE* f) {
  auto i = filefd->find(f);
  if (i == filefd->end()) { errno = EBADF; return -1; }
  return i->second;
}
int simw_open(const char* name, int fl, ...) { return k_open(name, fl); }
int simw_openat(int, const char* name, int fl, ...) { return k_open(name, fl); }
int simw_creat(const char* name, mode_t) { return k_open(name, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t simw_read(int fd, void* b, size_t n) { return k_read(fd, (char*)b, n); }
ssize_t simw_read_chk(int fd, void* b, size_t n, size_t) { return k_read(fd, (char*)b, n); }
ssize_t simw_write(int fd, const void* b, size_t n) { return k_write(fd, (const char*)b, n); }
int simw_close(int fd) { return k_close(fd); }
off_t simw_lseek(int fd, off_t o, int w) { return k_seek(fd, o, w); }
int simw_unlink(const char* p) { return k_unlink(p); }
int simw_unlinkat(int, const char* p, int) { return k_unlink(p); }
int simw_remove(const char* p) { return k_unlink(p); }
int simw_rename(const char* a, const char* b) { return k_rename(a, b); }
int simw_renameat(int, const char* a, int, const char* b) { return k_rename(a, b); }
int simw_link(const char* a, const char* b) {
  int p = path_id(a), q = path_id(b);
  Ctl c = enter(OP_RENAME, q);
  W->dirent[q] = W->dirent[p];
  leave(OP_RENAME, q, p, 0, c);
  return 0;
}
int simw_mkdir(const char* a, mode_t) {
  int p = path_id(a);
  Ctl c = enter(OP_RENAME, p);
  int n = new_inode();
  if (n >= 0) { W->ino[n].isdir = true; W->dirent[p] = n; }
  leave(OP_RENAME, p, -1, 0, c);
  return 0;
}
int simw_truncate(const char* a, off_t l) {
  int p = path_id(a);
  return k_trunc(W->dirent[p], p, l);
}
int simw_ftruncate(int fd, off_t l) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  return k_trunc(o->inode, o->path, l);
}
int simw_fsync(int fd) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Ctl c = enter(OP_OTHER, o->path);
  leave(OP_OTHER, o->path, 0, c.fail ? -c.err : 0, c);
  if (c.fail) { errno = c.err; return -1; }
  return 0;
}
static void fillstat(struct stat* st, int ino) {
  memset(st, 0, sizeof *st);
  Inode& n = W->ino[ino];
  st->st_mode = n.isdir ? (S_IFDIR | 0755) : n.special ? (S_IFIFO | 0600) : (S_IFREG | 0644);
  st->st_size = n.size;
  st->st_mtime = st->st_ctime = n.mtime;
  if (n.isdir || n.special) st->st_mtime = 0;
  if (n.noread) st->st_mode &= ~0444u;
  if (n.nowrite) st->st_mode &= ~0222u;
  st->st_ino = ino + 1;
  st->st_nlink = 1;
  st->st_blksize = 4096;
}
int simw_stat(const char* p, struct stat* st) {
  int i = path_id(p);
  if (W->dirent[i] < 0) { errno = ENOENT; return -1; }
  fillstat(st, W->dirent[i]);
  return 0;
}
int simw_fstat(int fd, struct stat* st) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  fillstat(st, o->inode);
  return 0;
}
int simw_access(const char* p, int m) {
  int i = path_id(p);
  if (W->dirent[i] < 0) { errno = ENOENT; return -1; }
  Inode& n = W->ino[W->dirent[i]];
  if (((m & R_OK) && n.noread) || ((m & W_OK) && n.nowrite)) { errno = EACCES; return -1; }
  return 0;
}
int simw_isatty(int fd) {  // in some environments the listing and the messages go to a terminal
  if (fd >= 0 && fd <= 2 && S->procs[me].k.env == 3) return 1;
  errno = ENOTTY;
  return 0;
}
static int changed(const char* a, int with) {  // a change of the directory
  int p = path_id(a);
  Ctl c = enter(OP_RENAME, p);
  if (!c.fail) W->dirent[p] = with;
  leave(OP_RENAME, p, -1, c.fail ? -c.err : 0, c);
  if (c.fail) errno = c.err;
  return c.fail ? -1 : 0;
}
int simw_symlink(const char* a, const char* b) { return changed(b, W->dirent[path_id(a)]); }
int simw_rmdir(const char* a) { return changed(a, -1); }
int simw_mkfifo(const char* a, mode_t) { return changed(a, new_inode()); }
int simw_chmod(const char* a, mode_t m) {
  int p = path_id(a);
  if (W->dirent[p] < 0) { errno = ENOENT; return -1; }
  W->ino[W->dirent[p]].noread = !(m & 0444);
  W->ino[W->dirent[p]].nowrite = !(m & 0222);
  return changed(a, W->dirent[p]);
}
int simw_fchmod(int fd, mode_t m) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  return simw_chmod(W->path[o->path], m);
}
// no other program is ever started, no other process disturbed
int simw_system(const char* c) {
  if (!c) return 0;
  Ctl x = enter(OP_OTHER, path_id("<another program>"));
  leave(OP_OTHER, path_id("<another program>"), 0, -EPERM, x);
  errno = EPERM;
  return -1;
}
FILE* simw_popen(const char* c, const char*) { simw_system(c); return nullptr; }
int simw_fork() { return simw_system("fork"); }
int simw_execvp(const char*, char* const*) { return simw_system("exec"); }
int simw_kill(int, int) { errno = EPERM; return -1; }
// advisory locks: with several processes a lock that is held is waited for
static int lock(int fd, bool un, bool wait) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  Inode& in = W->ino[o->inode];
  for (;;) {
    Ctl c = enter(OP_OTHER, o->path);
    int h = in.lockby;
    if (h && (h == me + 1 || W->p[h - 1].ended || W->p[h - 1].simkilled)) h = 0;
    if (!h) in.lockby = un ? 0 : me + 1;
    leave(OP_OTHER, o->path, un, h ? -EAGAIN : 0, c);
    if (!h || un) return 0;
    if (!wait) { errno = EAGAIN; return -1; }
    steps += 1000;
    if (steps > maxsteps) {
      W->p[me].hang = true;
      W->p[me].steps = steps;
      die(0);
    }
  }
}
int simw_flock(int fd, int op) { return lock(fd, op & 8, !(op & 4)); }
int simw_lockf(int fd, int op, off_t) { return lock(fd, op == F_ULOCK, op == F_LOCK); }
int simw_fcntl(int fd, int op, ...) {
  va_list ap;
  va_start(ap, op);
  struct flock* l = va_arg(ap, struct flock*);
  va_end(ap);
  if (op == F_SETLK || op == F_SETLKW) return lock(fd, l->l_type == F_UNLCK, op == F_SETLKW);
  if (!get(fd)) { errno = EBADF; return -1; }
  return op == F_GETFL ? get(fd)->flags : 0;
}
ssize_t simw_pread(int fd, void* b, size_t n, off_t at) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  size_t was = o->pos;
  o->pos = at;
  long r = k_read(fd, (char*)b, n);
  o->pos = was;
  return r;
}
ssize_t simw_pwrite(int fd, const void* b, size_t n, off_t at) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  size_t was = o->pos;
  o->pos = at;
  long r = k_write(fd, (const char*)b, n);
  o->pos = was;
  return r;
}
ssize_t simw_writev(int fd, const struct iovec* v, int n) {
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = k_write(fd, (const char*)v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
ssize_t simw_readv(int fd, const struct iovec* v, int n) {
  ssize_t t = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = k_read(fd, (char*)v[i].iov_base, v[i].iov_len);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return t;
}
void* simw_mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
  if (fd < 0) return mmap(a, n, prot, fl, fd, off);
  void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m != MAP_FAILED && simw_pread(fd, m, n, off) < 0) return MAP_FAILED;
  return m;
}
int simw_dup(int fd) {
  Ofile* o = get(fd);
  if (!o) { errno = EBADF; return -1; }
  for (int i = 3; i < MAXFD && i < S->procs[me].k.maxfd; i++)
    if (!W->p[me].fd[i].used) {
      W->p[me].fd[i] = *o;
      count_open();
      return i;
    }
  errno = EMFILE;
  return -1;
}
int simw_dup2(int fd, int to) {
  Ofile* o = get(fd);
  if (!o || to < 0 || to >= MAXFD) { errno = EBADF; return -1; }
  W->p[me].fd[to] = *o;
  count_open();
  return to;
}
char* simw_getcwd(char* b, size_t n) { return b && n > 4 ? strcpy(b, "/sim") : nullptr; }
int simw_chdir(const char*) { errno = EACCES; return -1; }
void* simw_opendir(const char*) { errno = EACCES; return nullptr; }

static bool mfail() {
  Ctl c = enter(OP_MALLOC, -1);
  leave(OP_MALLOC, -1, 0, c.fail ? -c.err : 0, c);
  if (c.fail) errno = ENOMEM;
  return c.fail;
}
// The heap of the simulated process: an arena at a fixed place with given contents, so that
// whatever a program reads there is a function of the scenario. Under ASan the real one is used.
static char* heap;
static size_t heapused;
static const size_t HEAPMAX = 256u << 20, HEAPMAGIC = 0x5ca1ab1e0ddba11ull;
static bool ours(void* p) { return heap && (char*)p >= heap && (char*)p < heap + HEAPMAX; }
static void* halloc(size_t n) {
  int f = S->procs[me].k.heapfill;
  if (f < 0) f = 0;
  if (sim_is_asan) {
    void* p = malloc(n);
    if (p) memset(p, f, n);
    return p;
  }
  size_t t = (n + 47) & ~(size_t)15;
  if (!heap || n > HEAPMAX || heapused + t > HEAPMAX) { errno = ENOMEM; return nullptr; }
  size_t* h = (size_t*)(heap + heapused);
  heapused += t;
  h[0] = HEAPMAGIC;
  h[1] = n;
  memset(h + 2, f, t - 16);
  return h + 2;
}
static size_t hsize(void* p) { return ((size_t*)p)[-1]; }
void* simw_malloc(size_t n) {
  if (mfail()) return nullptr;
  return halloc(n);
}
void* simw_calloc(size_t a, size_t b) {
  if (mfail()) return nullptr;
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
  void* p = halloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void simw_free(void* p) {
  if (!ours(p)) { free(p); return; }
  size_t* h = (size_t*)p - 2;
  if (h[0] != HEAPMAGIC) abort();  // as the C library does
  h[0] = 0;
  memset(p, 0xdd, h[1]);
}
void* simw_realloc(void* q, size_t n) {
  if (mfail()) return nullptr;
  if (q && !ours(q)) return realloc(q, n);
  void* p = halloc(n);
  if (p && q) {
    size_t o = hsize(q);
    memcpy(p, q, o < n ? o : n);
    simw_free(q);
  }
  return p;
}
char* simw_strndup(const char* s, size_t n) {
  if (mfail()) return nullptr;
  size_t l = strnlen(s, n);
  char* p = (char*)halloc(l + 1);
  if (p) { memcpy(p, s, l); p[l] = 0; }
  return p;
}
char* simw_strdup(const char* s) { return simw_strndup(s, (size_t)-1); }
ssize_t simw_getdelim(char** l, size_t* n, int d, FILE* f) {
  size_t k = 0;
  int c;
  if (!*l) *n = 0;
  while ((c = getc(f)) != EOF) {
    if (k + 2 > *n) {
      char* t = (char*)simw_realloc(*l, *n < 60 ? 120 : *n * 2);
      if (!t) return -1;
      *l = t;
      *n = *n < 60 ? 120 : *n * 2;
    }
    (*l)[k++] = (char)c;
    if (c == d) break;
  }
  if (!k) return -1;
  (*l)[k] = 0;
  return (ssize_t)k;
}
ssize_t simw_getline(char** l, size_t* n, FILE* f) { return simw_getdelim(l, n, '\n', f); }
int simw_vasprintf(char** r, const char* f, va_list a) {
  va_list b;
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, b);
  va_end(b);
  *r = n < 0 ? nullptr : (char*)simw_malloc((size_t)n + 1);
  return *r ? vsnprintf(*r, (size_t)n + 1, f, a) : -1;
}
int simw_asprintf(char** r, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int n = simw_vasprintf(r, f, a);
  va_end(a);
  return n;
}
int simw___vasprintf_chk(char** r, int, const char* f, va_list a) { return simw_vasprintf(r, f, a); }
int simw___asprintf_chk(char** r, int, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int n = simw_vasprintf(r, f, a);
  va_end(a);
  return n;
}
int simw_mkstemp(char* t) {
  // deterministic: the first free name
  size_t n = strlen(t);
  for (int i = 0; n >= 6 && i < 1000; i++) {
    char b[8];
    snprintf(b, sizeof b, "%06d", i);
    memcpy(t + n - 6, b, 6);
    int fd = k_open(t, O_RDWR | O_CREAT | O_EXCL);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST;
  return -1;
}

void simw__exit(int code) {
  Ctl c = enter(OP_EXIT, -1);
  leave(OP_EXIT, -1, 0, code, c);
  PState& ps = W->p[me];
  ps.ended = true;
  ps.exitcode = code & 255;
  ps.steps = steps;
  die(0);
}
void simw_exit(int code) {
  while (nexitfn > 0) exitfn[--nexitfn]();
  fflush(nullptr);
  simw__exit(code);
}
void simw_abort() {
  W->p[me].steps = steps;
  abort();
}
void simw_srand(unsigned) {}
void simw_srandom(unsigned) {}
int simw_atexit(void (*f)()) {
  if (nexitfn >= 32) return -1;
  exitfn[nexitfn++] = f;
  return 0;
}
// time, identity, environment: all from the scenario
time_t simw_time(time_t* t) {
  time_t n = S->procs[me].k.now + steps / 100000;
  if (t) *t = n;
  return n;
}
int simw_gettimeofday(struct timeval* tv, void*) {
  tv->tv_sec = S->procs[me].k.now + steps / 100000;
  tv->tv_usec = steps % 100000 * 10;
  return 0;
}
int simw_clock_gettime(int, struct timespec* ts) {
  ts->tv_sec = S->procs[me].k.now + steps / 100000;
  ts->tv_nsec = steps % 100000 * 10000;
  return 0;
}
clock_t simw_clock() { return steps; }
pid_t simw_getpid() { return 100 + me + (pid_t)(S->procs[me].k.now % 1000); }
int simw_rand() { return (int)(S->procs[me].k.now * 2654435761u + steps * 40503u) & 0x7fffffff; }
long simw_random() { return simw_rand(); }
double simw_drand48() { return simw_rand() / 2147483648.0; }
unsigned simw_arc4random() { return simw_rand() * 2u + 1; }
ssize_t simw_getrandom(void* b, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = simw_rand() >> i % 24;
  return n;
}
pid_t simw_getppid() { return 90 + (pid_t)(S->procs[me].k.now % 7); }
uid_t simw_getuid() { return S->procs[me].k.env ? 1000 + S->procs[me].k.env : 0; }
int simw_gethostname(char* b, size_t n) { return snprintf(b, n, "host%d", S->procs[me].k.env) < 0 ? -1 : 0; }
int simw_nanosleep(const struct timespec* t, struct timespec*) { steps += t->tv_sec * 100000 + t->tv_nsec / 10000; return 0; }
unsigned simw_alarm(unsigned) { return 0; }
char* simw_getenv(const char* n) {
  static char a[64];
  if (!S->procs[me].k.env) return nullptr;
  snprintf(a, sizeof a, "%d", S->procs[me].k.env);
  for (auto d : {"DIR", "TMP", "TEMP", "HOME", "PATH"})
    if (strstr(n, d)) strcpy(a, S->procs[me].k.env == 2 ? "d" : ".");
  for (auto d : {"COLUMN", "LINE", "WIDTH", "LEN", "SIZE", "PAGE", "MAX"})
    if (strstr(n, d)) strcpy(a, S->procs[me].k.env == 1 ? "132" : S->procs[me].k.env == 2 ? "40" : "80");
  for (auto d : {"LANG", "LC_", "LOCALE"})
    if (strstr(n, d)) strcpy(a, S->procs[me].k.env == 1 ? "fr_FR" : S->procs[me].k.env == 2 ? "de_DE.UTF-8" : "en_US");
  return a;
}
unsigned simw_sleep(unsigned n) { steps += (uint64_t)n * 100000; return 0; }
int simw_usleep(unsigned n) { steps += n / 10; return 0; }

// clock of the simulation: one tick per executed control-flow edge of crasm's code
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
  if (!W) return;
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  W->cov[(pc >> 1 ^ pc >> 13) & 0xffff] = 1;
  if (++steps > maxsteps && !in_sim) {
    W->p[me].hang = true;
    W->p[me].steps = steps;
    die(0);
  }
}
}  // extern "C"

// In the simulated process the memory of the C library and of the simulator itself comes from one
// place too: nothing that crasm may meet on its stack depends on what the driver did before.
static char* stackmem;
static int nullfd = -1;
static const size_t STACKMAX = 8u << 20;
#ifndef SIM_ASAN
static char* libheap;
static const size_t LIBMAX = 64u << 20;
static size_t libused;
static bool in_child = false;
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
static void* lalloc(size_t n, size_t al) {
  libused = (libused + 16 + al - 1) & ~(al - 1);
  if (n > LIBMAX || libused + n > LIBMAX) { errno = ENOMEM; return nullptr; }
  char* p = libheap + libused;
  ((size_t*)p)[-1] = n;
  libused += n;
  return p;
}
void* malloc(size_t n) { return in_child ? lalloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!in_child) __libc_free(p); }
void* calloc(size_t a, size_t b) {
  if (!in_child) return __libc_calloc(a, b);
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; }
  return lalloc(a * b, 16);  // never used twice: zero
}
void* realloc(void* q, size_t n) {
  if (!in_child) return __libc_realloc(q, n);
  void* p = lalloc(n, 16);
  if (p && q) {
    size_t o = (char*)q >= libheap && (char*)q < libheap + LIBMAX ? ((size_t*)q)[-1] : 0;
    if (!o) abort();
    memcpy(p, q, o < n ? o : n);
  }
  return p;
}
void* memalign(size_t al, size_t n) { return in_child ? lalloc(n, al < 16 ? 16 : al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
}
#endif

// ---- running a scenario -------------------------------------------------------------------
void sim_init() {
  size_t tot = (sizeof(World) + 4095) & ~4095ul;
  char* m = (char*)mmap((void*)0x210000000000, tot + ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | (sim_is_asan ? 0 : MAP_FIXED_NOREPLACE), -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(2); }
  W = (World*)m;
  arena = m + tot;
  if (!sim_is_asan) {
    void* h = mmap((void*)0x200000000000, HEAPMAX, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (h == MAP_FAILED) { perror("mmap"); exit(2); }
    heap = (char*)h;
    nullfd = open("/dev/null", O_WRONLY | O_CLOEXEC);
    h = mmap((void*)0x230000000000, STACKMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (h == MAP_FAILED) { perror("mmap"); exit(2); }
    stackmem = (char*)h;
#ifndef SIM_ASAN
    h = mmap((void*)0x220000000000, LIBMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (h == MAP_FAILED) { perror("mmap"); exit(2); }
    libheap = (char*)h;
#endif
  }
}

std::vector<uint32_t> cov_points() {
  std::vector<uint32_t> v;
  for (uint32_t i = 0; i < sizeof W->cov; i++)
    if (W->cov[i]) v.push_back(i);
  return v;
}

static char** child_argv;
static int child_argc;
[[noreturn]] static void child_main() {
  const Knobs& k = S->procs[me].k;
  int (*fn)(int, char**) = crasm_main_0;
  if (k.variant == 1 && crasm_main_1) fn = crasm_main_1;
  if (k.variant == 2 && crasm_main_2) fn = crasm_main_2;
  int r = fn(child_argc, child_argv);
  simw_exit(r);
  die(98);
}
[[noreturn]] static void __attribute__((noinline, optimize("no-stack-protector"))) enter_child() {
  const Knobs& k = S->procs[me].k;
  const size_t painted = 96 << 10;
  int fill = k.stackfill < 0 ? 0 : k.stackfill;
  if (sim_is_asan) {
    volatile char area[painted];
    for (size_t i = 0; i < painted; i++) area[i] = (char)fill;
    asm volatile("" : : "r"(area) : "memory");
    child_main();
  }
  char* top = stackmem + STACKMAX - 256 - (size_t)(k.aslr & 1023) * 48;
  top = (char*)((uintptr_t)top & ~(uintptr_t)15);
  memset(top - painted, fill, painted);
  void (*f)() = (void (*)())child_main;
  asm volatile("movq %0, %%rsp\n\txorl %%ebp, %%ebp\n\tcall *%1\n\tud2"
               : : "r"(top), "r"(f) : "memory");
  __builtin_unreachable();
}

[[noreturn]] static void __attribute__((noinline, optimize("no-stack-protector"))) start_child(int i, int in, int out) {
  me = i;
#ifndef SIM_ASAN
  in_child = true;
  libused = 0;
  if (nullfd >= 0) dup2(nullfd, 2);
  // the secrets of the C library, stack guard and pointer guard, are the same in all runs
  asm volatile("movq %0, %%fs:0x28\n\tmovq %1, %%fs:0x30" : : "r"(0x51d0c4a7e1b32f00ull), "r"(0x7193ab5502cd48efull) : "memory");
#endif
  S = new Scenario(*S);
  if (heap) heapused = (size_t)(S->procs[i].k.aslr & 0xffff) * 64;
  baton_in = in;
  baton_out = out;
  steps = 0;
  maxsteps = S->maxsteps;
  filefd = new std::map<FILE*, int>;
  const Knobs& k = S->procs[i].k;
  if (sim_is_asan) {
    int fd = open("/dev/null", O_WRONLY);
    (void)fd;
  }
  FILE* so = mkfile(1, "w", k.lbuf, false);
  FILE* se = mkfile(2, "w", 0, false);
  stdout = so;
  stderr = se;
  static std::vector<std::string> args;
  static std::vector<char*> av;
  args = S->procs[i].argv;
  av.clear();
  for (auto& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  child_argv = av.data();
  if (multi) {
    char c;
    if (read(baton_in, &c, 1) != 1) die(97);
  }
  child_argc = (int)args.size();
  enter_child();
}

static const int SAN_EXIT = 77;
extern "C" const char* __asan_default_options() {
  return "exitcode=77:abort_on_error=0:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=2:thread_local_quarantine_size_kb=64:print_summary=1:symbolize=0";
}

RunResult run_scenario(const Scenario& s) {
  S = &s;
  RunResult R;
  int np = (int)s.procs.size();
  // reset the world
  W->npath = 0;
  W->ninode = 0;
  W->arena_used = 0;
  W->nev = 0;
  W->evhash = 1;
  memset(W->p, 0, sizeof(PState) * np);
  memset(W->fired, 0, sizeof W->fired);
  W->kills = W->edits = W->shortr = W->shortw = W->capfired = 0;
  memset(W->edited, 0, sizeof W->edited);
  for (auto& f : s.files) {
    int p = path_id(f.path.c_str());
    int n = new_inode();
    Inode& in = W->ino[n];
    set_data(&in, f.data.data(), f.data.size());
    in.isdir = f.isdir;
    in.noread = f.noread;
    in.nowrite = f.nowrite;
    // when it was last written: in any order, rarely in the future
    uint64_t h = mix((uint64_t)s.procs[0].k.now, (uint64_t)s.procs[0].k.aslr);
    for (char ch : f.path) h = mix(h, (unsigned char)ch);
    in.mtime = s.procs[0].k.now - 100000 + (long)(h % 110000);
    W->dirent[p] = n;
  }
  std::vector<int> so(np), se(np);
  for (int i = 0; i < np; i++) {
    char nm[32];
    for (int j = 1; j <= 2; j++) {
      snprintf(nm, sizeof nm, "<std%s%d>", j == 1 ? "out" : "err", i);
      int p = path_id(nm);
      int n = new_inode();
      W->ino[n].special = true;
      W->ino[n].owner = i;
      Ofile& o = W->p[i].fd[j];
      o.used = true;
      o.inode = n;
      o.path = p;
      o.pos = 0;
      o.flags = O_WRONLY | O_APPEND;
      (j == 1 ? so : se)[i] = n;
    }
  }
  multi = np > 1;
  std::vector<pid_t> pid(np);
  std::vector<int> status(np, 0);
  std::vector<int> errpipe(np, -1);
  fflush(stdout);
  fflush(stderr);
  FILE* real_out = stdout;
  FILE* real_err = stderr;
  if (!multi) {
    int ep[2] = {-1, -1};
    if (sim_is_asan && pipe(ep)) { perror("pipe"); exit(2); }
    pid[0] = fork();
    if (pid[0] < 0) { perror("fork"); exit(2); }
    if (pid[0] == 0) {
      if (sim_is_asan) { dup2(ep[1], 2); close(ep[0]); close(ep[1]); }
      start_child(0, -1, -1);
    }
    if (sim_is_asan) {
      close(ep[1]);
      R.p.resize(np);
      char b[4096];
      ssize_t n;
      std::string t;
      while ((n = read(ep[0], b, sizeof b)) > 0) if (t.size() < 20000) t.append(b, n);
      close(ep[0]);
      R.p[0].why = t;
    }
    waitpid(pid[0], &status[0], 0);
  } else {
    std::vector<int> tochild(np), fromchild(np);
    std::vector<std::pair<int, int>> allfds;
    for (int i = 0; i < np; i++) {
      int a[2], b[2];
      if (pipe(a) || pipe(b)) { perror("pipe"); exit(2); }
      pid[i] = fork();
      if (pid[i] < 0) { perror("fork"); exit(2); }
      if (pid[i] == 0) {
        for (int j = 0; j < i; j++) { close(tochild[j]); close(fromchild[j]); }
        close(a[1]);
        close(b[0]);
        if (sim_is_asan) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); }
        start_child(i, a[0], b[1]);
      }
      close(a[0]);
      close(b[1]);
      tochild[i] = a[1];
      fromchild[i] = b[0];
    }
    std::vector<bool> alive(np, true);
    int left = np;
    size_t si = 0;
    while (left) {
      int want = si < s.schedule.size() ? s.schedule[si] % np : (int)(si % np);
      si++;
      while (!alive[want]) want = (want + 1) % np;
      char c = 1;
      bool dead = write(tochild[want], &c, 1) != 1;
      if (!dead) dead = read(fromchild[want], &c, 1) != 1;
      if (dead) {
        alive[want] = false;
        left--;
        close(tochild[want]);
        close(fromchild[want]);
        waitpid(pid[want], &status[want], 0);
      }
    }
  }
  stdout = real_out;
  stderr = real_err;
  R.p.resize(np);
  uint64_t h = W->evhash;
  for (int i = 0; i < np; i++) {
    ProcResult& r = R.p[i];
    PState& ps = W->p[i];
    r.ended = ps.ended;
    r.exitcode = ps.exitcode;
    r.simkilled = ps.simkilled;
    r.hang = ps.hang;
    r.limit = ps.limit;
    r.steps = ps.steps;
    r.maxopen = ps.maxopen;
    r.listlost = ps.listlost;
    if (WIFSIGNALED(status[i])) r.signal = WTERMSIG(status[i]);
    else if (WEXITSTATUS(status[i]) == SAN_EXIT) r.san = true;
    else if (WEXITSTATUS(status[i]) != 0) r.signal = 1000 + WEXITSTATUS(status[i]);
    for (int f = 3; f < MAXFD; f++) r.openatexit += ps.fd[f].used;
    r.out.assign(W->ino[so[i]].data ? W->ino[so[i]].data : "", W->ino[so[i]].size);
    r.err.assign(W->ino[se[i]].data ? W->ino[se[i]].data : "", W->ino[se[i]].size);
    for (char c : r.out) h = mix(h, (unsigned char)c);
    for (char c : r.err) h = mix(h, (unsigned char)c);
    h = mix(h, r.exitcode * 16 + r.ended * 8 + r.hang * 4 + r.simkilled * 2 + r.san);
    h = mix(h, r.signal);
  }
  for (int i = 0; i < W->npath; i++) {
    R.paths.push_back(W->path[i]);
    if (W->dirent[i] < 0) continue;
    Inode& n = W->ino[W->dirent[i]];
    FileState f;
    f.path = W->path[i];
    f.data.assign(n.data ? n.data : "", n.size);
    for (char c : f.data) h = mix(h, (unsigned char)c);
    h = mix(h, i);
    R.files.push_back(std::move(f));
  }
  R.nev = W->nev;
  R.ev.assign(W->ev, W->ev + (W->nev < MAXEV ? W->nev : MAXEV));
  R.hash = h;
  memcpy(R.faults_fired, W->fired, sizeof R.faults_fired);
  R.kills = W->kills;
  R.edits = W->edits;
  R.shortr = W->shortr;
  R.shortw = W->shortw;
  R.capfired = W->capfired;
  return R;
}

// ---- text form of a scenario (replay files) --------------------------------------------------
static std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\\') r += "\\\\";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
static std::string unesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { r += s[i]; continue; }
    i++;
    if (s[i] == 'n') r += '\n';
    else if (s[i] == 't') r += '\t';
    else if (s[i] == '\\') r += '\\';
    else if (s[i] == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
  }
  return r;
}

// one record per line; a file's contents as one "|"-prefixed line per source line
std::string scenario_to_text(const Scenario& s) {
  std::string t;
  char b[512];
  auto vec = [](const std::vector<int>& v) {
    std::string r;
    for (int x : v) r += (r.empty() ? "" : ",") + std::to_string(x);
    return r.empty() ? std::string("-") : r;
  };
  auto body = [&](const std::string& d) {
    size_t i = 0;
    while (i < d.size()) {
      size_t e = d.find('\n', i);
      std::string l = e == std::string::npos ? d.substr(i) : d.substr(i, e - i + 1);
      t += "|" + esc(l) + "\n";
      i += l.size();
    }
  };
  snprintf(b, sizeof b, "maxsteps %llu\n", (unsigned long long)s.maxsteps);
  t += b;
  for (auto& p : s.procs) {
    const Knobs& k = p.k;
    snprintf(b, sizeof b,
             "proc variant=%d rchunk=%s wchunk=%s ibuf=%d obuf=%d lbuf=%d heapfill=%d stackfill=%d aslr=%d maxfd=%d "
             "codecap=%ld listcap=%ld now=%ld env=%d\n",
             k.variant, vec(k.rchunk).c_str(), vec(k.wchunk).c_str(), k.ibuf, k.obuf, k.lbuf, k.heapfill, k.stackfill, k.aslr,
             k.maxfd, k.codecap, k.listcap, k.now, k.env);
    t += b;
    for (auto& a : p.argv) t += "arg " + esc(a) + "\n";
  }
  for (auto& f : s.files) {
    snprintf(b, sizeof b, "file %d%d%d %s\n", f.isdir, f.noread, f.nowrite, f.path.c_str());
    t += b;
    body(f.data);
  }
  for (auto& f : s.faults) {
    snprintf(b, sizeof b, "fault %d %s %d %d %d %d %s\n", f.proc, op_name[f.op], f.nth, f.count, f.act, f.err,
             f.path.c_str());
    t += b;
  }
  for (auto& e : s.edits) {
    snprintf(b, sizeof b, "edit %ld %d %s\n", e.at, e.act, e.path.c_str());
    t += b;
    body(e.data);
  }
  if (!s.schedule.empty()) {
    t += "schedule ";
    for (uint8_t x : s.schedule) t += (char)('0' + x);
    t += "\n";
  }
  return t;
}

bool scenario_from_text(const std::string& t, Scenario& s) {
  size_t i = 0;
  std::string* body = nullptr;
  auto ints = [](const char* p) {
    std::vector<int> v;
    if (*p == '-') return v;
    while (*p && *p != ' ') {
      v.push_back(strtol(p, (char**)&p, 10));
      if (*p == ',') p++;
    }
    return v;
  };
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) e = t.size();
    std::string l = t.substr(i, e - i);
    i = e + 1;
    if (l.empty() || l[0] == '#') continue;
    if (l[0] == '|') {
      if (!body) return false;
      *body += unesc(l.substr(1));
      continue;
    }
    body = nullptr;
    auto val = [&](const char* key) -> const char* {
      static const char* z = "0";
      size_t p = l.find(std::string(" ") + key + "=");
      return p == std::string::npos ? z : l.c_str() + p + strlen(key) + 2;
    };
    if (!l.compare(0, 9, "maxsteps ")) s.maxsteps = strtoull(l.c_str() + 9, nullptr, 10);
    else if (!l.compare(0, 5, "proc ")) {
      Proc p;
      Knobs& k = p.k;
      k.variant = atoi(val("variant"));
      k.rchunk = ints(val("rchunk"));
      k.wchunk = ints(val("wchunk"));
      k.ibuf = atoi(val("ibuf"));
      k.obuf = atoi(val("obuf"));
      k.lbuf = atoi(val("lbuf"));
      k.heapfill = atoi(val("heapfill"));
      k.stackfill = atoi(val("stackfill"));
      k.aslr = atoi(val("aslr"));
      k.maxfd = atoi(val("maxfd"));
      k.codecap = atol(val("codecap"));
      k.listcap = atol(val("listcap"));
      k.now = atol(val("now"));
      k.env = atoi(val("env"));
      s.procs.push_back(p);
    } else if (!l.compare(0, 4, "arg ")) {
      if (s.procs.empty()) return false;
      s.procs.back().argv.push_back(unesc(l.substr(4)));
    } else if (!l.compare(0, 5, "file ")) {
      FileSpec f;
      f.isdir = l[5] == '1';
      f.noread = l[6] == '1';
      f.nowrite = l[7] == '1';
      f.path = l.substr(9);
      s.files.push_back(f);
      body = &s.files.back().data;
    } else if (!l.compare(0, 6, "fault ")) {
      Fault f;
      char op[32], path[256];
      if (sscanf(l.c_str(), "fault %d %31s %d %d %d %d %255s", &f.proc, op, &f.nth, &f.count, &f.act, &f.err, path) != 7)
        return false;
      f.path = path;
      f.op = -1;
      for (int o = 0; o < OP_NUM; o++)
        if (!strcmp(op, op_name[o])) f.op = o;
      if (f.op < 0) return false;
      s.faults.push_back(f);
    } else if (!l.compare(0, 5, "edit ")) {
      Edit d;
      char path[256];
      if (sscanf(l.c_str(), "edit %ld %d %255s", &d.at, &d.act, path) != 3) return false;
      d.path = path;
      s.edits.push_back(d);
      body = &s.edits.back().data;
    } else if (!l.compare(0, 9, "schedule ")) {
      for (size_t j = 9; j < l.size(); j++) s.schedule.push_back(l[j] - '0');
    }
  }
  return true;
}
