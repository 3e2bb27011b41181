// In-memory file system under /vfs with fault injection, and the libc calls that reach it.
#include "vfs.hh"
#include "internal.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim { namespace vfs {
std::function<int(int, const char*, const std::string&)> g_fault;
std::function<size_t(int, const char*, const std::string&, size_t)> g_short;
static uint64_t g_ino = 100;
static Ptr& root() { static Ptr* r = new Ptr([] { auto p = std::make_shared<Inode>(); p->dir = true; p->mode = 0755; p->ino = 1; return p; }()); return *r; }
struct Disk { uint64_t total = 1ULL << 40, free = 1ULL << 39, avail = 1ULL << 39; };
static std::map<int, Disk>& disks() { static auto* m = new std::map<int, Disk>; return *m; }
void setDisk(int n, uint64_t t, uint64_t f, uint64_t a) { disks()[n] = Disk{t, f, std::min(a, f)}; }

bool isVfs(const char* p) { return strncmp(p, "/vfs", 4) == 0 && (p[4] == '/' || !p[4]); }
static std::vector<std::string> parts(const std::string& p) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string s = p.substr(i, j - i);
    if (s == "..") { if (!v.empty()) v.pop_back(); }
    else if (!s.empty() && s != ".") v.push_back(s);
    i = j + 1;
  }
  return v;
}
Ptr lookup(const std::string& path) {
  if (!isVfs(path.c_str())) return nullptr;
  Ptr p = root();
  auto v = parts(path);
  for (size_t i = 1; i < v.size(); i++) {
    if (!p->dir) return nullptr;
    auto it = p->kids.find(v[i]);
    if (it == p->kids.end()) return nullptr;
    p = it->second;
  }
  return p;
}
static Ptr parentOf(const std::string& path, std::string& leaf) {
  auto v = parts(path);
  if (v.size() < 2) return nullptr;
  Ptr p = root();
  for (size_t i = 1; i + 1 < v.size(); i++) {
    if (!p->dir) return nullptr;
    auto it = p->kids.find(v[i]);
    if (it == p->kids.end()) return nullptr;
    p = it->second;
  }
  if (!p->dir) return nullptr;
  leaf = v.back();
  return p;
}
static Ptr newInode(bool dir, int mode, int dev) {
  auto p = std::make_shared<Inode>();
  p->dir = dir; p->mode = mode; p->ino = ++g_ino; p->dev = dev;
  p->mtime = node(curNode()).real();
  return p;
}
Ptr mkdirs(const std::string& path, int dev) {
  NoPreempt np;
  Ptr p = root();
  auto v = parts(path);
  for (size_t i = 1; i < v.size(); i++) {
    auto& k = p->kids[v[i]];
    if (!k) k = newInode(true, 0755, i == 1 ? dev : p->dev);
    p = k;
  }
  return p;
}
bool exists(const std::string& p) { return (bool)lookup(p); }
bool isDir(const std::string& p) { auto i = lookup(p); return i && i->dir; }
std::vector<std::string> list(const std::string& path) {
  std::vector<std::string> v;
  auto p = lookup(path);
  if (p && p->dir) for (auto& k : p->kids) v.push_back(k.first);
  return v;
}
Ptr create(const std::string& path, const std::string& data, int mode) {
  NoPreempt np;
  std::string leaf;
  Ptr d = parentOf(path, leaf);
  if (!d) return nullptr;
  Ptr f = newInode(false, mode, d->dev);
  f->data = data;
  f->synced = data.size();
  d->kids[leaf] = f;
  d->mtime = f->mtime;
  return f;
}
static int unlinkPath(const std::string& path) {
  std::string leaf;
  Ptr d = parentOf(path, leaf);
  if (!d || !d->kids.count(leaf)) return ENOENT;
  d->kids.erase(leaf);
  return 0;
}
bool removeTree(const std::string& path) {
  NoPreempt np;
  return unlinkPath(path) == 0;
}
int renameTo(const std::string& a, const std::string& b) {
  NoPreempt np;
  std::string la, lb;
  Ptr da = parentOf(a, la), db = parentOf(b, lb);
  if (!da || !db || !da->kids.count(la)) return ENOENT;
  Ptr src = da->kids[la];
  auto it = db->kids.find(lb);
  if (it != db->kids.end()) {
    if (it->second == src) return 0;
    if (it->second->dir && !it->second->kids.empty()) return ENOTEMPTY;
    if (it->second->dir != src->dir) return it->second->dir ? EISDIR : ENOTDIR;
  }
  if (src->dir) {  // into itself?
    for (Ptr p = db; p;) { if (p == src) return EINVAL; break; }
  }
  if (da->dev != db->dev) return EXDEV;
  da->kids.erase(la);
  db->kids[lb] = src;
  return 0;
}
static Ptr deepCopy(const Ptr& s) {
  Ptr d = newInode(s->dir, s->mode, s->dev);
  d->data = s->data; d->synced = s->synced; d->logLike = s->logLike; d->mtime = s->mtime;
  for (auto& k : s->kids) d->kids[k.first] = deepCopy(k.second);
  return d;
}
bool copyTree(const std::string& a, const std::string& b) {
  NoPreempt np;
  std::string lb;
  Ptr s = lookup(a), db = parentOf(b, lb);
  if (!s || !db) return false;
  db->kids[lb] = deepCopy(s);
  return true;
}
static void dumpRec(const Ptr& p, const std::string& name, std::string& o) {
  if (p->dir) { o += name + "/\n"; for (auto& k : p->kids) dumpRec(k.second, name + "/" + k.first, o); }
  else o += fmt("%s %zu %016llx\n", name.c_str(), p->data.size(), (unsigned long long)strHash(p->data));
}
std::string dump(const std::string& path) {
  NoPreempt np;
  std::string o; Ptr p = lookup(path);
  if (p) dumpRec(p, "", o);
  return o;
}
std::string slurp(const std::string& path) { auto p = lookup(path); return p ? p->data : ""; }
static int fault(const char* op, const std::string& path) {
  int n = curNode();
  if (n == 0 || !g_fault) return 0;
  NoPreempt np;
  int e = g_fault(n, op, path);
  if (e) { countFault((std::string("disk_") + op + (e == ENOSPC ? "_enospc" : e == EIO ? "_eio" : "_err")).c_str()); trace(fmt("disk fault %s %s errno %d", op, path.c_str(), e)); }
  return e;
}
static size_t shortN(const char* op, const std::string& path, size_t n) {
  int nd = curNode();
  if (nd == 0 || !g_short) return n;
  NoPreempt np;
  size_t k = g_short(nd, op, path, n);
  if (k < n) { countFault((std::string("disk_short_") + op).c_str()); trace(fmt("short %s %s %zu of %zu", op, path.c_str(), k, n)); }
  return k;
}
int append(const Ptr& f, const std::string& path, const std::string& data) {
  ioPoint(curNode(), "write");
  if (int e = fault("write", path)) {
    NoPreempt np;
    size_t k = data.empty() ? 0 : rngFault.below(data.size());
    f->data.append(data, 0, k);  // partial write before the error
    return e;
  }
  NoPreempt np;
  f->data += data;
  f->mtime = node(curNode()).real();
  return 0;
}
int sync(const Ptr& f, const std::string& path) {
  ioPoint(curNode(), "sync");
  if (int e = fault("sync", path)) return e;
  f->synced = f->data.size();
  return 0;
}
static void powerRec(const Ptr& p, Rng& r) {
  if (p->dir) { for (auto& k : p->kids) powerRec(k.second, r); return; }
  if (!p->logLike) { return; }
  size_t un = p->data.size() - p->synced;
  if (!un) return;
  size_t keep = 0;
  switch (r.below(4)) {
    case 0: keep = 0; break;
    case 1: keep = un; break;
    default: keep = r.below(un + 1);
  }
  if (keep < un) countFault("lost_unsynced_bytes");
  p->data.resize(p->synced + keep);
  if (keep && r.chance(0.3)) {  // torn tail: last bytes never reached the platter
    size_t z = r.below(keep < 64 ? keep : 64) + 1;
    for (size_t i = 0; i < z; i++) p->data[p->data.size() - 1 - i] = (char)(r.chance(0.5) ? 0 : r.next());
    countFault("torn_write");
  }
  p->synced = p->data.size();
}
static void wbRec(const Ptr& p) {
  if (p->dir) { for (auto& k : p->kids) wbRec(k.second); return; }
  p->synced = p->data.size();
}
void writebackTree(const std::string& rootp) {
  NoPreempt np;
  Ptr p = lookup(rootp);
  if (p) wbRec(p);
}
void powerLossTree(const std::string& rootp, Rng& r) {
  NoPreempt np;
  Ptr p = lookup(rootp);
  if (p) powerRec(p, r);
}

// ------------------------------------------------------------------ handles
struct Handle {
  Ptr ino; std::string path; size_t pos = 0; bool app = false, wr = false, rd = false; int kind = 0;  // 0 file, 1 urandom, 2 eventfd
  uint64_t counter = 0; FILE* file = nullptr; bool open = false;
  std::function<bool()> ready;   // kind 3: socket
};
static const int FDBASE = 1 << 20;
static std::vector<Handle*>& H() { static auto* v = new std::vector<Handle*>; return *v; }
static int newHandle(Handle* h) { NoPreempt np; h->open = true; H().push_back(h); return FDBASE + (int)H().size() - 1; }
static Handle* handle(int fd) { return fd >= FDBASE && fd - FDBASE < (int)H().size() ? H()[fd - FDBASE] : nullptr; }
int newPollable(std::function<bool()> ready) { NoPreempt np; Handle* h = new Handle; h->kind = 3; h->ready = std::move(ready); int fd = newHandle(h); h->open = false; return fd; }
int openCount() { int n = 0; for (auto* h : H()) n += h->open; return n; }
static ssize_t hread(Handle* h, char* buf, size_t n) {
  if (h->kind == 1) { for (size_t i = 0; i < n; i++) buf[i] = (char)rngMisc.next(); return n; }
  if (h->kind == 2) { if (!h->counter) { errno = EAGAIN; return -1; } memcpy(buf, &h->counter, 8); h->counter = 0; return 8; }
  ioPoint(curNode(), "fread");
  if (int e = fault("read", h->path)) { errno = e; return -1; }
  if (h->ino->dir) { errno = EISDIR; return -1; }
  size_t av = h->ino->data.size() > h->pos ? h->ino->data.size() - h->pos : 0;
  if (n > av) n = av;
  if (n > 1) { size_t k = shortN("read", h->path, n); if (k >= 1 && k < n) n = k; }
  memcpy(buf, h->ino->data.data() + h->pos, n);
  h->pos += n;
  return (ssize_t)n;
}
static ssize_t hwrite(Handle* h, const char* buf, size_t n) {
  if (h->kind == 2) { uint64_t v; memcpy(&v, buf, 8); h->counter += v; wakeAll(h); return 8; }
  ioPoint(curNode(), "fwrite");
  if (int e = fault("write", h->path)) { errno = e; return -1; }
  size_t k = shortN("write", h->path, n);
  if (k == 0 && n) { errno = ENOSPC; return -1; }
  NoPreempt np;
  if (h->app) h->pos = h->ino->data.size();
  if (h->ino->data.size() < h->pos + k) h->ino->data.resize(h->pos + k);
  memcpy(&h->ino->data[h->pos], buf, k);
  h->pos += k;
  h->ino->synced = h->ino->data.size();
  h->ino->mtime = node(curNode()).real();
  return (ssize_t)k;
}
static ssize_t cookRead(void* c, char* b, size_t n) { return hread(H()[(intptr_t)c - FDBASE], b, n); }
static ssize_t cookWrite(void* c, const char* b, size_t n) { ssize_t r = hwrite(H()[(intptr_t)c - FDBASE], b, n); return r < 0 ? 0 : r; }
static int cookSeek(void* c, off64_t* off, int wh) {
  Handle* h = H()[(intptr_t)c - FDBASE];
  if (h->kind) return -1;
  off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)h->pos : (off64_t)h->ino->data.size();
  h->pos = (size_t)(base + *off);
  *off = h->pos;
  return 0;
}
static int cookClose(void* c) {
  Handle* h = H()[(intptr_t)c - FDBASE];
  h->open = false;
  if (h->kind == 0 && h->wr) { ioPoint(curNode(), "fclose"); if (int e = fault("close", h->path)) { errno = e; return -1; } }
  return 0;
}
struct FakeDir { uint32_t magic = 0xD1D1D1D1; std::vector<std::pair<std::string, bool>> ents; size_t i = 0; struct dirent de; std::string path; };
static std::set<void*>& dirs() { static auto* s = new std::set<void*>; return *s; }
static void fillStat(const Ptr& p, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = (p->dir ? S_IFDIR : S_IFREG) | p->mode;
  st->st_size = p->data.size();
  st->st_dev = p->dev; st->st_ino = p->ino; st->st_nlink = 1;
  st->st_mtim.tv_sec = p->mtime / SEC; st->st_mtim.tv_nsec = p->mtime % SEC;
  st->st_ctim = st->st_atim = st->st_mtim;
  st->st_blksize = 4096; st->st_blocks = (p->data.size() + 511) / 512;
}
}}  // namespace

using namespace sim;
using namespace sim::vfs;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static bool guardReal(const char* path, const char* op) {
  // code running on a simulated node never touches the real file system
  if (g_cur && curNode() != 0) { countProbe(std::string("blocked_real_fs_") + op); trace(std::string("blocked access to real path ") + path); return true; }
  return false;
}
extern "C" {
FILE* fopen64(const char* path, const char* mode) {
  bool ur = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random");
  if (g_cur && (isVfs(path) || ur)) {
    if (!g_nopreempt) syncPoint();
    Handle* h;
    {
      NoPreempt np;
      h = new Handle; h->path = path;
    }
    if (ur) h->kind = 1;
    else {
      ioPoint(curNode(), "open");
      if (int e = fault("open", path)) { errno = e; return nullptr; }
      NoPreempt np;
      Ptr p = lookup(path);
      if (mode[0] == 'r') {
        if (!p) { errno = ENOENT; return nullptr; }
        if (p->dir) { h->rd = true; }
        if (strchr(mode, '+')) h->wr = true;
      } else {
        if (p && p->dir) { errno = EISDIR; return nullptr; }
        if (!p) { p = create(path); if (!p) { errno = ENOENT; return nullptr; } }
        else if (mode[0] == 'w') { p->data.clear(); p->synced = 0; p->mtime = node(curNode()).real(); }
        h->wr = true; h->app = mode[0] == 'a';
      }
      h->ino = p;
    }
    int fd = newHandle(h);
    cookie_io_functions_t fn = {cookRead, cookWrite, cookSeek, cookClose};
    h->file = fopencookie((void*)(intptr_t)fd, mode, fn);
    return h->file;
  }
  if (guardReal(path, "fopen")) { errno = EACCES; return nullptr; }
  static auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
  return f(path, mode);
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }
static int openVfs(const char* path, int flags, int mode) {
  if (!g_nopreempt) syncPoint();
  Handle* h;
  { NoPreempt np; h = new Handle; h->path = path; }
  if (!isVfs(path)) h->kind = 1;
  else {
    ioPoint(curNode(), "open");
    if (int e = fault("open", path)) { errno = e; return -1; }
    NoPreempt np;
    Ptr p = lookup(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (p && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (!p && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (p && p->dir && wr) { errno = EISDIR; return -1; }
    if (!p) { p = create(path, "", mode); if (!p) { errno = ENOENT; return -1; } }
    else if (wr && (flags & O_TRUNC)) { p->data.clear(); p->synced = 0; p->mtime = node(curNode()).real(); }
    h->wr = wr; h->app = flags & O_APPEND; h->ino = p;
  }
  return newHandle(h);
}
static bool simOpen(const char* path) { return g_cur && (isVfs(path) || !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")); }
int open64(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = flags & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
  if (simOpen(path)) return openVfs(path, flags, mode);
  if (guardReal(path, "open")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = flags & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
  if (simOpen(path)) return openVfs(path, flags, mode);
  if (guardReal(path, "open")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
FILE* fdopen(int fd, const char* mode) {
  if (Handle* h = handle(fd)) {
    cookie_io_functions_t fn = {cookRead, cookWrite, cookSeek, cookClose};
    return h->file = fopencookie((void*)(intptr_t)fd, mode, fn);
  }
  static auto f = real<FILE* (*)(int, const char*)>("fdopen");
  return f(fd, mode);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) {
  if (Handle* h = handle(fd)) { if (h->kind) { errno = ESPIPE; return -1; } size_t old = h->pos; h->pos = (size_t)off; ssize_t r = hread(h, (char*)b, n); h->pos = old; return r; }
  return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) { return pread64(fd, b, n, off); }
int fileno(FILE* f) {
  if (g_cur) for (size_t i = H().size(); i-- > 0;) if (H()[i]->file == f && H()[i]->open) return FDBASE + (int)i;
  static auto r = real<int (*)(FILE*)>("fileno");
  return r(f);
}
static int doStat(const char* path, struct stat* st) {
  if (!g_nopreempt) syncPoint();
  if (int e = fault("stat", path)) { errno = e; return -1; }
  NoPreempt np;
  Ptr p = lookup(path);
  if (!p) { errno = ENOENT; return -1; }
  fillStat(p, st);
  return 0;
}
int stat(const char* path, struct stat* st) {
  if (g_cur && isVfs(path)) return doStat(path, st);
  if (guardReal(path, "stat")) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0) < 0 ? -1 : 0;
}
int stat64(const char* path, struct stat64* st) { return stat(path, (struct stat*)st); }
int lstat(const char* path, struct stat* st) {
  if (g_cur && isVfs(path)) return doStat(path, st);
  if (guardReal(path, "stat")) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW) < 0 ? -1 : 0;
}
int fstat(int fd, struct stat* st) {
  if (Handle* h = handle(fd)) {
    if (h->kind) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; return 0; }
    if (int e = fault("stat", h->path)) { errno = e; return -1; }
    fillStat(h->ino, st); return 0;
  }
  return (int)syscall(SYS_fstat, fd, st) < 0 ? -1 : 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int statfs(const char* path, struct statfs* st) {
  memset(st, 0, sizeof *st);
  if (g_cur && isVfs(path)) {
    if (int e = fault("statfs", path)) { errno = e; return -1; }
    if (!lookup(path)) { errno = ENOENT; return -1; }
    Disk d = disks()[curNode()];
    st->f_bsize = 4096; st->f_blocks = d.total / 4096; st->f_bfree = d.free / 4096; st->f_bavail = d.avail / 4096;
    return 0;
  }
  if (guardReal(path, "statfs")) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_statfs, path, st) < 0 ? -1 : 0;
}
int statfs64(const char* path, struct statfs64* st) { return statfs(path, (struct statfs*)st); }
int mkdir(const char* path, mode_t mode) {
  if (g_cur && isVfs(path)) {
    ioPoint(curNode(), "mkdir");
    if (int e = fault("mkdir", path)) { errno = e; return -1; }
    NoPreempt np;
    std::string leaf; Ptr d = parentOf(path, leaf);
    if (!d) { errno = ENOENT; return -1; }
    if (d->kids.count(leaf)) { errno = EEXIST; return -1; }
    d->kids[leaf] = newInode(true, mode, d->dev);
    return 0;
  }
  if (guardReal(path, "mkdir")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_mkdir, path, mode) < 0 ? -1 : 0;
}
int rename(const char* a, const char* b) {
  if (g_cur && isVfs(a)) {
    ioPoint(curNode(), "rename");
    if (int e = fault("rename", a)) { errno = e; return -1; }
    int e;
    { e = renameTo(a, b); }
    ioPoint(curNode(), "renamed");
    if (e) { errno = e; return -1; }
    return 0;
  }
  if (guardReal(a, "rename")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_rename, a, b) < 0 ? -1 : 0;
}
int unlink(const char* p) {
  if (g_cur && isVfs(p)) {
    ioPoint(curNode(), "unlink");
    if (int e = fault("unlink", p)) { errno = e; return -1; }
    NoPreempt np; int e = unlinkPath(p); if (e) { errno = e; return -1; } return 0;
  }
  if (guardReal(p, "unlink")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_unlink, p) < 0 ? -1 : 0;
}
int rmdir(const char* p) {
  if (g_cur && isVfs(p)) {
    ioPoint(curNode(), "rmdir");
    NoPreempt np; Ptr i = lookup(p);
    if (!i) { errno = ENOENT; return -1; }
    if (!i->kids.empty()) { errno = ENOTEMPTY; return -1; }
    unlinkPath(p); return 0;
  }
  if (guardReal(p, "rmdir")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_rmdir, p) < 0 ? -1 : 0;
}
int remove(const char* p) { if (g_cur && isVfs(p)) { Ptr i = lookup(p); return i && i->dir ? rmdir(p) : unlink(p); } return unlink(p); }
int access(const char* p, int m) {
  if (g_cur && isVfs(p)) { if (!lookup(p)) { errno = ENOENT; return -1; } return 0; }
  if (guardReal(p, "access")) { errno = ENOENT; return -1; }
  return (int)syscall(SYS_access, p, m) < 0 ? -1 : 0;
}
int chmod(const char* p, mode_t m) {
  if (g_cur && isVfs(p)) { Ptr i = lookup(p); if (!i) { errno = ENOENT; return -1; } i->mode = m & 07777; return 0; }
  if (guardReal(p, "chmod")) { errno = EACCES; return -1; }
  return (int)syscall(SYS_chmod, p, m) < 0 ? -1 : 0;
}
DIR* opendir(const char* path) {
  if (g_cur && isVfs(path)) {
    ioPoint(curNode(), "opendir");
    if (int e = fault("opendir", path)) { errno = e; return nullptr; }
    NoPreempt np;
    Ptr p = lookup(path);
    if (!p || !p->dir) { errno = p ? ENOTDIR : ENOENT; return nullptr; }
    FakeDir* d = new FakeDir; d->path = path;
    d->ents.push_back({".", true}); d->ents.push_back({"..", true});
    for (auto& k : p->kids) d->ents.push_back({k.first, k.second->dir});
    if (curNode()) for (size_t i = d->ents.size(); i > 1; i--) std::swap(d->ents[i - 1], d->ents[rngFault.below(i)]);
    dirs().insert(d);
    return (DIR*)d;
  }
  if (guardReal(path, "opendir")) { errno = ENOENT; return nullptr; }
  static auto f = real<DIR* (*)(const char*)>("opendir");
  return f(path);
}
struct dirent* readdir(DIR* dp) {
  if (dirs().count(dp)) {
    FakeDir* d = (FakeDir*)dp;
    if (int e = fault("readdir", d->path)) { errno = e; return nullptr; }
    if (d->i >= d->ents.size()) return nullptr;
    memset(&d->de, 0, sizeof d->de);
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", d->ents[d->i].first.c_str());
    d->de.d_type = d->ents[d->i].second ? DT_DIR : DT_REG;
    d->i++;
    return &d->de;
  }
  static auto f = real<struct dirent* (*)(DIR*)>("readdir");
  return f(dp);
}
struct dirent64* readdir64(DIR* dp) { return (struct dirent64*)readdir(dp); }
int closedir(DIR* dp) {
  if (dirs().count(dp)) { NoPreempt np; dirs().erase(dp); delete (FakeDir*)dp; return 0; }
  static auto f = real<int (*)(DIR*)>("closedir");
  return f(dp);
}
ssize_t read(int fd, void* b, size_t n) {
  if (Handle* h = handle(fd)) return hread(h, (char*)b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (Handle* h = handle(fd)) return hwrite(h, (const char*)b, n);
  return syscall(SYS_write, fd, b, n);
}
int close(int fd) {
  if (Handle* h = handle(fd)) { h->open = false; return 0; }
  return (int)syscall(SYS_close, fd);
}
off64_t lseek64(int fd, off64_t off, int wh) {
  if (Handle* h = handle(fd)) { off64_t o = off; if (cookSeek((void*)(intptr_t)fd, &o, wh)) { errno = ESPIPE; return -1; } (void)h; return o; }
  return syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int eventfd(unsigned v, int) { Handle* h; { NoPreempt np; h = new Handle; } h->kind = 2; h->counter = v; return newHandle(h); }
int poll(struct pollfd* p, nfds_t n, int timeout) {
  if (g_cur && n >= 1 && handle(p[0].fd)) {
    Handle* h = handle(p[0].fd);
    Time dl = timeout < 0 ? NEVER : now() + (Time)timeout * MS;
    while (h->kind == 3 && !h->ready()) { if (now() >= dl) return 0; sleepUntil(std::min(dl, now() + MS)); }
    if (h->kind == 3) { p[0].revents = POLLOUT; return 1; }
    while (!h->counter && h->kind == 2) { if (!blockOn(h, dl)) return 0; }
    p[0].revents = POLLIN;
    return 1;
  }
  return (int)syscall(SYS_poll, p, n, timeout);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (handle(fd)) return 0;
  return (int)syscall(SYS_fcntl, fd, cmd, a);
}
int fsync(int fd) { if (handle(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
int kill(pid_t p, int sig) {
  if (g_cur && curNode()) { if (p == getpid() && sig == 0) return 0; nodeDied(fmt("kill(%d, %d)", p, sig)); }
  return (int)syscall(SYS_kill, p, sig);
}
// shell commands are interpreted, never executed
int system(const char* cmd) {
  if (!g_cur) return 127;
  std::vector<std::string> tok;
  bool bad = false;
  {
    NoPreempt np;
    std::string t; bool in = false, any = false;
    for (const char* c = cmd; *c; c++) {
      if (*c == '\'') { in = !in; any = true; continue; }
      if (!in && (*c == ' ' || *c == '\t')) { if (any) tok.push_back(t); t.clear(); any = false; continue; }
      if (!in && strchr(";|&<>`$(){}*?\n\"", *c)) bad = true;
      t += *c; any = true;
    }
    if (any) tok.push_back(t);
    trace(std::string("system: ") + cmd);
  }
  ioPoint(curNode(), "system");
  if (tok.empty()) return 0;
  if (bad) { violation("shell-injection", std::string("unquoted shell metacharacter reaches system(): ") + cmd); }
  if (tok[0] == "kill") nodeDied(std::string("system(") + cmd + ")");
  if (tok[0] == "rm") {
    int rc = 0;
    for (size_t i = 1; i < tok.size(); i++) {
      if (tok[i][0] == '-') continue;
      if (!isVfs(tok[i].c_str()) || parts(tok[i]).size() < 2) { violation("destructive-escape", std::string("rm of a path outside the database area: ") + cmd); }
      if (int e = fault("unlink", tok[i])) { (void)e; rc = 256; continue; }
      // recursive removal is not atomic: a crash may leave a part behind
      Ptr p = lookup(tok[i]);
      if (p && p->dir) {
        std::vector<std::string> names;
        { NoPreempt np; names = list(tok[i]); for (size_t k = names.size(); k > 1; k--) std::swap(names[k - 1], names[rngFault.below(k)]); }
        for (auto& nme : names) { ioPoint(curNode(), "rm"); NoPreempt np; removeTree(tok[i] + "/" + nme); }
      }
      ioPoint(curNode(), "rm");
      removeTree(tok[i]);
    }
    return rc;
  }
  if (tok[0] == "mv" && tok.size() == 3) {
    if (fault("rename", tok[1])) return 256;
    std::string dst = tok[2];
    if (isDir(dst)) dst += "/" + tok[1].substr(tok[1].rfind('/') + 1);
    return renameTo(tok[1], dst) ? 256 : 0;
  }
  if (tok[0] == "cp" && tok.size() >= 3) return copyTree(tok[tok.size() - 2], tok.back()) ? 0 : 256;
  if (tok[0] == "mkdir") { mkdirs(tok.back()); return 0; }
  countProbe("unknown_system_command");
  return 127 << 8;
}
}  // extern C
