#include "vdisk.hh"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;

namespace sim { namespace vd {

const char* const op_names[] = {"open", "read", "write", "close"};
const char* const fault_names[] = {"EIO", "ENOSPC", "short", "EINTR", "EACCES", "crash", "EISDIR", "EMFILE"};

namespace {
const int MAXF = 24;
const size_t CAP = 1u << 20;
struct Inode { char name[120]; bool used; size_t size; char data[CAP]; };
struct FaultSpec { int op; int64_t nth; int kind; };
struct Disk {
  Inode f[MAXF];
  int64_t capacity;
  int64_t counts[4];
  int nfaults;
  FaultSpec faults[64];
  int64_t chunk;
  int64_t fired, hard;
  int full;
};
Disk* D;
Disk* disk() {
  if (!D) {
    D = (Disk*)mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (D == MAP_FAILED) abort();
    D->capacity = -1;
  }
  return D;
}
struct Open { int inode; size_t pos; bool append, rd, wr; FILE* f; };
std::map<int, Open>* opens;   // by descriptor

int find(const char* name) {
  Disk* d = disk();
  for (int i = 0; i < MAXF; i++) if (d->f[i].used && !strcmp(d->f[i].name, name)) return i;
  return -1;
}
int create(const char* name) {
  Disk* d = disk();
  for (int i = 0; i < MAXF; i++)
    if (!d->f[i].used) {
      d->f[i].used = true;
      snprintf(d->f[i].name, sizeof d->f[i].name, "%s", name);
      d->f[i].size = 0;
      return i;
    }
  return -1;
}
// The fault, if any, for this operation. Counts it.
int fault(int op) {
  Disk* d = disk();
  int64_t n = d->counts[op]++;
  step();
  int r = -1;
  for (int i = 0; i < d->nfaults; i++) if (d->faults[i].op == op && d->faults[i].nth == n) r = d->faults[i].kind;
  ev("io", op, n, r);
  if (r >= 0) {
    bool applies = true;
    if (r == F_SHORT && (op == OPEN || op == CLOSE)) applies = false;
    if (r == F_ENOSPC && op == READ) applies = false;
    if (r == F_EISDIR && (op == WRITE || op == CLOSE)) applies = false;
    if ((r == F_EACCES || r == F_EMFILE) && op != OPEN) applies = false;
    if (r == F_EINTR && (op == OPEN || op == CLOSE)) applies = false;
    if (!applies) return -1;
    d->fired++;
    if (r != F_SHORT && r != F_EINTR) d->hard++;
    char nm[44];
    snprintf(nm, sizeof nm, "fault:%s-%s", op_names[op], fault_names[r]);
    sim::count(nm);
    if (r == F_CRASH) { ev("crash"); _exit(77); }
  }
  return r;
}
int err_of(int kind) {
  switch (kind) {
  case F_ENOSPC: return ENOSPC;
  case F_EACCES: return EACCES;
  case F_EISDIR: return EISDIR;
  case F_EMFILE: return EMFILE;
  case F_EINTR: return EINTR;
  default: return EIO;
  }
}
int64_t total() {
  int64_t t = 0;
  for (int i = 0; i < MAXF; i++) if (disk()->f[i].used) t += int64_t(disk()->f[i].size);
  return t;
}
bool is_virtual(const char* p) { return p && !strncmp(p, "/sim/", 5); }
Open* lookup(int fd) {
  if (!opens) return nullptr;
  auto it = opens->find(fd);
  return it == opens->end() ? nullptr : &it->second;
}

FILE* vopen(const char* path, const char* mode) {
  int k = fault(OPEN);
  if (k >= 0 && k != F_EISDIR) { errno = err_of(k); return nullptr; }
  bool rd = strchr(mode, 'r') || strchr(mode, '+'), wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
  if (k == F_EISDIR && wr) { errno = EISDIR; return nullptr; }
  int i = find(path);
  if (strchr(mode, 'r')) { if (i < 0) { errno = ENOENT; return nullptr; } }
  else if (i < 0) { i = create(path); if (i < 0) { errno = ENOSPC; return nullptr; } }
  else if (strchr(mode, 'w')) disk()->f[i].size = 0;
  static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
  FILE* f = real("/dev/null", rd && wr ? "r+" : wr ? "w" : "r");
  if (!f) return nullptr;
  if (!opens) opens = new std::map<int, Open>;
  (*opens)[fileno(f)] = Open{k == F_EISDIR ? -2 : i, 0, strchr(mode, 'a') != nullptr, rd, wr, f};
  ev("opened", int64_t(hash_str(path)), wr);
  return f;
}
ssize_t vread(Open* o, void* p, size_t n) {
  int k = fault(READ);
  if (o->inode == -2) { errno = EISDIR; return -1; }
  if (k == F_EIO || k == F_EINTR || k == F_EISDIR) { errno = err_of(k); return -1; }
  Inode& f = disk()->f[o->inode];
  size_t a = o->pos < f.size ? f.size - o->pos : 0;
  if (n > a) n = a;
  if (k == F_SHORT && n > 1) n = (n + 1) / 2;
  if (disk()->chunk > 0 && n > size_t(disk()->chunk)) { n = size_t(disk()->chunk); }
  memcpy(p, f.data + o->pos, n);
  o->pos += n;
  return ssize_t(n);
}
ssize_t vwrite(Open* o, const void* p, size_t n) {
  int k = fault(WRITE);
  if (k == F_EIO || k == F_EINTR || k == F_ENOSPC) { if (k == F_ENOSPC) disk()->full = 1; errno = err_of(k); return -1; }
  if (o->inode < 0) { errno = EIO; return -1; }
  Inode& f = disk()->f[o->inode];
  if (o->append) o->pos = f.size;
  if (k == F_SHORT && n > 1) n = n / 2;
  if (o->pos + n > CAP) n = CAP > o->pos ? CAP - o->pos : 0;
  if (disk()->capacity >= 0) {
    int64_t room = disk()->capacity - total();
    if (room < 0) room = 0;
    int64_t grow = int64_t(o->pos + n) - int64_t(f.size);
    if (grow > room) {
      int64_t fit = int64_t(n) - (grow - room);
      if (fit <= 0) {
        if (n > 0) { disk()->full = 1; disk()->fired++; disk()->hard++; sim::count("fault:disk-full"); errno = ENOSPC; return -1; }
      } else n = size_t(fit);
    }
  }
  if (n == 0) { errno = ENOSPC; return -1; }
  if (o->pos > f.size) memset(f.data + f.size, 0, o->pos - f.size);
  memcpy(f.data + o->pos, p, n);
  o->pos += n;
  if (o->pos > f.size) f.size = o->pos;
  return ssize_t(n);
}
} // namespace

void reset() {
  Disk* d = disk();
  for (int i = 0; i < MAXF; i++) d->f[i].used = false;
  clear_faults();
  if (opens) opens->clear();
}
void clear_faults() {
  Disk* d = disk();
  d->capacity = -1;
  d->nfaults = 0;
  d->chunk = 0;
  reset_counts();
}
void reset_counts() {
  Disk* d = disk();
  memset(d->counts, 0, sizeof d->counts);
  d->fired = d->hard = 0;
  d->full = 0;
}
void put(const std::string& name, const std::string& c) {
  int i = find(name.c_str());
  if (i < 0) i = create(name.c_str());
  if (i < 0 || c.size() > CAP) harness_error("virtual disk too small");
  memcpy(disk()->f[i].data, c.data(), c.size());
  disk()->f[i].size = c.size();
}
bool exists(const std::string& n) { return find(n.c_str()) >= 0; }
std::string get(const std::string& n) {
  int i = find(n.c_str());
  return i < 0 ? "" : std::string(disk()->f[i].data, disk()->f[i].size);
}
void remove(const std::string& n) { int i = find(n.c_str()); if (i >= 0) disk()->f[i].used = false; }
void rename(const std::string& a, const std::string& b) { std::string c = get(a); remove(a); put(b, c); }
void set_capacity(int64_t b) { disk()->capacity = b; }
void add_fault(int op, int64_t nth, int kind) {
  Disk* d = disk();
  if (d->nfaults < 64) d->faults[d->nfaults++] = FaultSpec{op, nth, kind};
}
void set_chunk(int64_t n) { disk()->chunk = n; }
int64_t count(int op) { return disk()->counts[op]; }
int64_t fired() { return disk()->fired; }
int64_t fired_hard() { return disk()->hard; }
int64_t bytes() { return total(); }
bool full_hit() { return disk()->full; }
void configure(const Plan& p, const std::string& key) {
  auto& l = p.list(key);
  for (size_t i = 0; i + 2 < l.size(); i += 3)
    add_fault(int(((l[i] % 4) + 4) % 4), l[i + 1] < 0 ? 0 : l[i + 1], int(((l[i + 2] % F_KINDS) + F_KINDS) % F_KINDS));
}
} } // namespace sim::vd

using namespace sim::vd;

extern "C" {
FILE* fopen(const char* path, const char* mode) {
  if (is_virtual(path)) return vopen(path, mode);
  static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
  return real(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
  if (is_virtual(path)) return vopen(path, mode);
  static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64");
  return real(path, mode);
}
int fclose(FILE* f) {
  static auto real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
  if (opens && f) {
    int fd = fileno(f);
    if (lookup(fd)) {
      int k = fault(CLOSE);
      Open o = *lookup(fd);
      opens->erase(fd);
      real(f);
      if (k == F_EIO || k == F_ENOSPC) {
        // a file system that writes when the file is closed, as network file systems do: part of the data never gets there
        if (o.wr && o.inode >= 0) disk()->f[o.inode].size /= 2;
        errno = err_of(k); return EOF; }
      return 0;
    }
  }
  return real(f);
}
ssize_t read(int fd, void* p, size_t n) {
  if (Open* o = lookup(fd)) return vread(o, p, n);
  return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
  if (Open* o = lookup(fd)) return vwrite(o, p, n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (Open* o = lookup(fd)) {
    std::string s;
    for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return vwrite(o, s.data(), s.size());
  }
  return syscall(SYS_writev, fd, v, c);
}
off_t lseek(int fd, off_t off, int wh) {
  if (Open* o = lookup(fd)) {
    if (o->inode < 0) return 0;
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? off_t(o->pos) : off_t(disk()->f[o->inode].size);
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->pos = size_t(b + off);
    return off_t(o->pos);
  }
  return syscall(SYS_lseek, fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
}
