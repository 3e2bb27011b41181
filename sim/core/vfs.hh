#pragma once
#include "sim.hh"
#include <memory>
namespace sim { namespace vfs {
struct Inode {
  bool dir = false;
  std::string data;
  size_t synced = 0;        // prefix guaranteed to survive a power loss
  bool logLike = false;     // append-only file whose unsynced tail can be lost/torn
  int mode = 0644;
  Time mtime = 0;
  uint64_t ino = 0;
  int dev = 1;
  std::map<std::string, std::shared_ptr<Inode>> kids;
};
typedef std::shared_ptr<Inode> Ptr;
// fault decision: returns errno (0 = no fault). op in {open,read,write,sync,close,mkdir,rename,unlink,opendir,readdir,stat,statfs,link}
extern std::function<int(int node, const char* op, const std::string& path)> g_fault;
// short transfer decision: given n bytes returns how many are transferred (same op names)
extern std::function<size_t(int node, const char* op, const std::string& path, size_t n)> g_short;
Ptr lookup(const std::string& path);
Ptr mkdirs(const std::string& path, int dev = 1);
bool exists(const std::string& path);
bool isDir(const std::string& path);
std::vector<std::string> list(const std::string& path);
Ptr create(const std::string& path, const std::string& data = "", int mode = 0644);
bool removeTree(const std::string& path);
int renameTo(const std::string& a, const std::string& b);   // errno
bool copyTree(const std::string& a, const std::string& b);
std::string dump(const std::string& path);                    // recursive listing with hashes
std::string slurp(const std::string& path);
// storage-engine level operations with fault and crash points; return errno
int append(const Ptr& f, const std::string& path, const std::string& data);
int sync(const Ptr& f, const std::string& path);
void powerLossTree(const std::string& root, Rng& r);
void writebackTree(const std::string& root);  // the operating system flushed everything written so far
uint64_t diskFree(const std::string& path);
void setDisk(int node, uint64_t total, uint64_t free, uint64_t avail = ~0ULL);  // avail: free for unprivileged users
bool isVfs(const char* p);
int openCount();
int newPollable(std::function<bool()> ready);
}}
