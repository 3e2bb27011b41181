// Stub storage engine (see rocksdb/db.h). Uninstrumented; every public call is a scheduling point.
#include "rocksdb/db.h"
#include "../core/sim.hh"
#include "../core/vfs.hh"
#include <algorithm>
#include <set>
#include <cerrno>
using namespace sim;
namespace rocksdb {
std::function<void(int, const std::string&)> g_simVerify;
SimHooks simHooks;
const std::string DB::Properties::kLevelStats = "rocksdb.levelstats";
const std::string DB::Properties::kCompressionRatioAtLevelPrefix = "rocksdb.compression-ratio-at-level";
const std::string DB::Properties::kStats = "rocksdb.stats";
#define PROPERTY(n, v) const std::string DB::Properties::n = "rocksdb." v;
PROPERTY(kNumFilesAtLevelPrefix, "num-files-at-level") PROPERTY(kSSTables, "sstables") PROPERTY(kCFStats, "cfstats") PROPERTY(kDBStats, "dbstats") PROPERTY(kEstimateNumKeys, "estimate-num-keys")
PROPERTY(kBackgroundErrors, "background-errors") PROPERTY(kNumSnapshots, "num-snapshots") PROPERTY(kNumRunningCompactions, "num-running-compactions") PROPERTY(kNumRunningFlushes, "num-running-flushes")
PROPERTY(kCompactionPending, "compaction-pending") PROPERTY(kMemTableFlushPending, "mem-table-flush-pending") PROPERTY(kEstimateLiveDataSize, "estimate-live-data-size")
PROPERTY(kTotalSstFilesSize, "total-sst-files-size") PROPERTY(kCurSizeAllMemTables, "cur-size-all-mem-tables") PROPERTY(kSizeAllMemTables, "size-all-mem-tables") PROPERTY(kIsWriteStopped, "is-write-stopped")
const std::string kDefaultColumnFamilyName = "default";
const std::string& ColumnFamilyHandle::GetName() const { return kDefaultColumnFamilyName; }
CFH* DB::DefaultColumnFamily() const { static CFH h; return &h; }
std::vector<Status> DB::MultiGet(const ReadOptions& r, const std::vector<Slice>& keys, std::vector<std::string>* v) {
  std::vector<Status> st(keys.size());
  v->resize(keys.size());
  ReadOptions ro = r;
  if (!r.snapshot) ro.snapshot = GetSnapshot();   // one consistent view for all the keys
  for (size_t i = 0; i < keys.size(); i++) st[i] = Get(ro, keys[i], &(*v)[i]);
  if (!r.snapshot) ReleaseSnapshot(ro.snapshot);
  return st;
}
void DB::MultiGet(const ReadOptions& r, CFH*, size_t n, const Slice* keys, PinnableSlice* v, Status* st, bool) {
  std::vector<std::string> out;
  auto s = MultiGet(r, std::vector<Slice>(keys, keys + n), &out);
  for (size_t i = 0; i < n; i++) { st[i] = s[i]; v[i].PinSelf(out[i]); }
}
bool DB::KeyMayExist(const ReadOptions& r, const Slice& k, std::string* v, bool* found) {
  // may always say yes; it only knows the value when it happens to be at hand
  if (found) *found = false;
  bool lucky = rngFault.chance(0.5);
  std::string x;
  Status st = Get(r, k, &x);
  if (st.ok()) { if (lucky && found) { *found = true; if (v) *v = x; } return true; }
  return !(st.IsNotFound() && lucky);
}
Status WriteBatch::DeleteRange(const Slice& b, const Slice& e) { NoPreempt np; ops.push_back({kTypeRangeDeletion, b.ToString(), e.ToString()}); return Status(); }
Status WriteBatch::Iterate(Handler* h) const {
  for (auto& o : ops) {
    if (!h->Continue()) break;
    if (o.type == kTypeValue) h->Put(o.key, o.value);
    else if (o.type == kTypeDeletion) h->Delete(o.key);
    else if (o.type == kTypeSingleDeletion) h->SingleDelete(o.key);
  }
  return Status();
}
std::string Status::ToString() const {
  switch (c_) {
    case kOk: return "OK";
    case kNotFound: return "NotFound: " + m_;
    case kCorruption: return "Corruption: " + m_;
    case kInvalidArgument: return "Invalid Argument: " + m_;
    case kIOError: return "IO error: " + m_;
    case kNotSupported: return "Not implemented: " + m_;
    default: return "Error: " + m_;
  }
}
const Comparator* BytewiseComparator() { static Comparator c; return &c; }
const FilterPolicy* NewBloomFilterPolicy(double, bool) { return new FilterPolicy; }
std::shared_ptr<Cache> NewLRUCache(size_t, int, bool, double) { return std::make_shared<Cache>(); }
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions&) { return new TableFactory; }

Status WriteBatch::Put(const Slice& k, const Slice& v) { NoPreempt np; ops.push_back({kTypeValue, k.ToString(), v.ToString()}); return Status(); }
Status WriteBatch::Delete(const Slice& k) { NoPreempt np; ops.push_back({kTypeDeletion, k.ToString(), ""}); return Status(); }
Status WriteBatch::SingleDelete(const Slice& k) { NoPreempt np; ops.push_back({kTypeSingleDeletion, k.ToString(), ""}); return Status(); }
void WriteBatch::Clear() { ops.clear(); saves.clear(); }
size_t WriteBatch::GetDataSize() const { size_t n = 12; for (auto& o : ops) n += o.key.size() + o.value.size() + 4; return n; }

struct Ver { uint64_t seq; OpType type; std::string value; };
typedef std::vector<Ver> Chain;  // oldest first

static void put32(std::string& s, uint32_t v) { s.append((char*)&v, 4); }
static void put64(std::string& s, uint64_t v) { s.append((char*)&v, 8); }
static bool get32(const std::string& s, size_t& o, uint32_t& v) { if (o + 4 > s.size()) return false; memcpy(&v, s.data() + o, 4); o += 4; return true; }
static bool get64(const std::string& s, size_t& o, uint64_t& v) { if (o + 8 > s.size()) return false; memcpy(&v, s.data() + o, 8); o += 8; return true; }
static bool getStr(const std::string& s, size_t& o, std::string& v) { uint32_t n; if (!get32(s, o, n) || o + n > s.size()) return false; v.assign(s, o, n); o += n; return true; }
static void putStr(std::string& s, const std::string& v) { put32(s, (uint32_t)v.size()); s += v; }
static uint32_t crc(const std::string& s) { uint64_t h = strHash(s); return (uint32_t)(h ^ (h >> 32)); }

struct Entry { std::string key; uint64_t seq; OpType type; std::string value; };
static void encEntry(std::string& s, const Entry& e) { putStr(s, e.key); put64(s, e.seq); s += (char)e.type; putStr(s, e.value); }
static bool decEntry(const std::string& s, size_t& o, Entry& e) {
  if (!getStr(s, o, e.key) || !get64(s, o, e.seq) || o >= s.size()) return false;
  e.type = (OpType)(unsigned char)s[o++];
  return getStr(s, o, e.value);
}
static std::string numName(uint64_t n, const char* ext) { return fmt("%06llu.%s", (unsigned long long)n, ext); }

struct Manifest { std::map<uint64_t, std::pair<uint64_t, uint32_t>> ssts; uint64_t logNum = 0, nextFile = 5, lastSeq = 0; };
static std::string encManifest(const Manifest& m) {
  std::string b;
  put64(b, m.logNum); put64(b, m.nextFile); put64(b, m.lastSeq); put32(b, (uint32_t)m.ssts.size());
  for (auto& s : m.ssts) { put64(b, s.first); put64(b, s.second.first); put32(b, s.second.second); }
  std::string r;
  put32(r, (uint32_t)b.size()); put32(r, crc(b)); r += b;
  return r;
}
static bool lastManifest(const std::string& d, Manifest& out) {
  size_t o = 0; bool any = false;
  for (;;) {
    uint32_t n, c;
    size_t p = o;
    if (!get32(d, p, n) || !get32(d, p, c) || p + n > d.size()) break;
    std::string b = d.substr(p, n);
    if (crc(b) != c) break;
    Manifest m; size_t q = 0; uint32_t k;
    get64(b, q, m.logNum); get64(b, q, m.nextFile); get64(b, q, m.lastSeq); get32(b, q, k);
    for (uint32_t i = 0; i < k; i++) { uint64_t f, sz; uint32_t cc; get64(b, q, f); get64(b, q, sz); get32(b, q, cc); m.ssts[f] = {sz, cc}; }
    out = m; any = true; o = p + n;
  }
  return any;
}

class DBImpl;
static std::map<vfs::Inode*, std::pair<int, int>>& locks() { static auto* m = new std::map<vfs::Inode*, std::pair<int, int>>; return *m; }
static std::set<DBImpl*>& openDbs() { static auto* s = new std::set<DBImpl*>; return *s; }
uint64_t simOpenCount() { return openDbs().size(); }

class SnapImpl : public Snapshot { public: uint64_t s; uint64_t GetSequenceNumber() const override { return s; } };

class DBImpl : public DB {
 public:
  uint32_t magic = 0xDBDBDBDB;
  int nodeId = 0, inc = 0;
  Options opt;
  std::string path;
  using DB::Put; using DB::Delete; using DB::SingleDelete; using DB::Get; using DB::NewIterator; using DB::GetProperty; using DB::GetIntProperty; using DB::SetOptions; using DB::CompactRange; using DB::Flush; using DB::VerifyChecksum;
  vfs::Ptr dir;
  vfs::Ptr log;
  std::string logPath;
  std::map<std::string, Chain> data;
  std::vector<Entry> mem;
  size_t memBytes = 0;
  bool memUnlogged = false;
  std::string walBuf;   // with manual_wal_flush: records the process still holds
  uint64_t seq = 0;
  Manifest man;
  uint64_t manNum = 0;
  std::multiset<uint64_t> snaps;
  int liveIters = 0;
  bool busy = false;
  bool bgError = false;
  std::string bgMsg;
  size_t flushBytes = 0;

  void check() { if (magic != 0xDBDBDBDB) nodeDied("use of a closed database"); }
  std::string P(const std::string& f) { return path + "/" + f; }

  // serialise writers like the engine's write thread does
  void enter() { check(); syncPoint(); while (busy) blockOn(this); busy = true; }
  void leave() { busy = false; wakeOne(this); }
  struct Busy { DBImpl* d; Busy(DBImpl* x) : d(x) { d->enter(); } ~Busy() { if (d) d->leave(); } };

  void delay(const char* what, double p, Time maxD) {
    if (curNode() == 0) return;
    static double scale = -1;
    if (scale < 0) scale = knob("disk.slow", 1);
    if (rngFault.chance(p * scale)) { countFault(what); sleepFor((Time)rngFault.below(maxD)); }
  }
  Status ioErr(int e, const std::string& what) { return Status::IOError(what, strerror(e)); }
  Status fail(int e, const std::string& what) {
    NoPreempt np;
    bgError = true; bgMsg = what + ": " + strerror(e);
    return Status::IOError(what, strerror(e));
  }

  void applyVersions(const std::vector<BatchOp>& ops, bool unlogged) {
    for (auto& o : ops) {
      uint64_t s = ++seq;
      data[o.key].push_back(Ver{s, o.type, o.value});
      mem.push_back(Entry{o.key, s, o.type, o.value});
      memBytes += o.key.size() + o.value.size() + 24;
    }
    if (unlogged) memUnlogged = true;
  }

  Status writeManifest() {
    // append a new complete version to the current MANIFEST
    std::string mp = P(fmt("MANIFEST-%06llu", (unsigned long long)manNum));
    vfs::Ptr f = vfs::lookup(mp);
    if (!f) return fail(ENOENT, mp);
    std::string r;
    { NoPreempt np; r = encManifest(man); }
    if (int e = vfs::append(f, mp, r)) return fail(e, mp);
    if (int e = vfs::sync(f, mp)) return fail(e, mp);
    return Status();
  }
  Status newManifestFile() {
    uint64_t n;
    std::string mp, r;
    vfs::Ptr f;
    { NoPreempt np; n = man.nextFile++; mp = P(fmt("MANIFEST-%06llu", (unsigned long long)n)); f = vfs::create(mp); r = encManifest(man); }
    if (!f) return fail(ENOENT, mp);
    if (int e = vfs::append(f, mp, r)) return fail(e, mp);
    if (int e = vfs::sync(f, mp)) return fail(e, mp);
    std::string tmp = P(numName(n, "dbtmp"));
    vfs::Ptr c;
    { NoPreempt np; c = vfs::create(tmp); }
    if (int e = vfs::append(c, tmp, fmt("MANIFEST-%06llu\n", (unsigned long long)n))) return fail(e, tmp);
    if (int e = vfs::sync(c, tmp)) return fail(e, tmp);
    ioPoint(curNode(), "rename");
    { NoPreempt np; vfs::renameTo(tmp, P("CURRENT")); }
    ioPoint(curNode(), "renamed");
    uint64_t old = manNum;
    manNum = n;
    if (old) { NoPreempt np; vfs::removeTree(P(fmt("MANIFEST-%06llu", (unsigned long long)old))); }
    return Status();
  }
  Status newLog() {
    NoPreempt np;
    uint64_t n = man.nextFile++;
    logPath = P(numName(n, "log"));
    log = vfs::create(logPath);
    if (!log) return fail(ENOENT, logPath);
    log->logLike = true;
    log->synced = 0;
    man.logNum = n;
    return Status();
  }
  Status writeSst(const std::vector<Entry>& es, uint64_t& num) {
    std::string b, sp;
    vfs::Ptr f;
    {
      NoPreempt np;
      for (auto& e : es) encEntry(b, e);
      num = man.nextFile++;
      sp = P(numName(num, "sst"));
      f = vfs::create(sp);
    }
    if (!f) return fail(ENOENT, sp);
    if (int e = vfs::append(f, sp, b)) return fail(e, sp);
    if (int e = vfs::sync(f, sp)) return fail(e, sp);
    NoPreempt np;
    man.ssts[num] = {b.size(), crc(b)};
    return Status();
  }
  // flush the memtable; the caller holds busy
  Status flushLocked() {
    if (mem.empty()) return Status();
    std::vector<Entry> es;
    { NoPreempt np; es.swap(mem); memBytes = 0; memUnlogged = false; std::stable_sort(es.begin(), es.end(), [](const Entry& a, const Entry& b) { return a.key < b.key; }); }
    uint64_t num;
    Status st = writeSst(es, num);
    if (!st.ok()) return st;
    std::string oldLog = logPath;
    { NoPreempt np; walBuf.clear(); }
    st = newLog();
    if (!st.ok()) return st;
    man.lastSeq = seq;
    st = writeManifest();
    if (!st.ok()) return st;
    ioPoint(curNode(), "dellog");
    { NoPreempt np; vfs::removeTree(oldLog); countProbe("db_flush"); }
    if (man.ssts.size() > 4 && rngFault.chance(0.5) && !opt.disable_auto_compactions) return compactLocked();
    return Status();
  }
  // rewrite everything into one file, dropping versions no reader can see
  Status compactLocked() {
    std::vector<Entry> es;
    std::vector<uint64_t> olds;
    {
      NoPreempt np;
      uint64_t oldest = snaps.empty() ? seq : *snaps.begin();
      for (auto it = data.begin(); it != data.end();) {
        Chain& c = it->second;
        Chain keep;
        // versions newer than the oldest snapshot stay
        size_t i = c.size();
        while (i > 0 && c[i - 1].seq > oldest) i--;
        // c[0..i) is the visible-to-oldest part: reduce
        Chain low(c.begin(), c.begin() + i), red;
        for (auto& v : low) {
          if (v.type == kTypeSingleDeletion) {
            // annihilates with the put right below it, older versions may reappear
            if (!red.empty() && red.back().type == kTypeValue) { red.pop_back(); if (!red.empty()) countProbe("db_single_delete_resurrection"); }
            else if (!red.empty() && red.back().type == kTypeDeletion) {}
            // nothing below: tombstone disappears at the bottom level
          } else red.push_back(v);
        }
        if (!red.empty()) {
          Ver last = red.back();
          red.clear();
          if (last.type == kTypeValue) red.push_back(last);
        }
        keep = red;
        keep.insert(keep.end(), c.begin() + i, c.end());
        // entries still only in the memtable must not be dropped from the map if recovery would bring them back
        c.swap(keep);
        if (c.empty()) { it = data.erase(it); continue; }
        ++it;
      }
      std::set<std::pair<std::string, uint64_t>> inMem;
      for (auto& e : mem) inMem.insert({e.key, e.seq});
      for (auto& k : data)
        for (auto& v : k.second)
          if (!inMem.count({k.first, v.seq})) es.push_back(Entry{k.first, v.seq, v.type, v.value});
      for (auto& s : man.ssts) olds.push_back(s.first);
      countProbe("db_compaction");
    }
    uint64_t num = 0;
    if (!es.empty()) {
      Status st = writeSst(es, num);
      if (!st.ok()) return st;
    }
    for (auto o : olds) man.ssts.erase(o);
    Status st = writeManifest();
    if (!st.ok()) return st;
    for (auto o : olds) { ioPoint(curNode(), "delsst"); NoPreempt np; vfs::removeTree(P(numName(o, "sst"))); }
    return Status();
  }

  Status Write(const WriteOptions& w, WriteBatch* b) override {
    Busy bz(this);
    if (bgError) return Status::IOError("background error", bgMsg);
    delay("db_write_delay", 0.01, 30 * MS);
    check();
    WriteBatch expanded;
    for (auto& o : b->ops)
      if (o.type == kTypeRangeDeletion) {
        NoPreempt np;
        std::set<std::string> live;
        for (auto& q : b->ops) {
          if (q.type == kTypeRangeDeletion) {
            for (auto it = data.lower_bound(q.key); it != data.end() && it->first < q.value; ++it) live.insert(it->first);
            for (auto& k : live) if (k >= q.key && k < q.value) expanded.ops.push_back({kTypeDeletion, k, ""});
          } else { expanded.ops.push_back(q); live.insert(q.key); }
        }
        b = &expanded;
        break;
      }
    if (!w.disableWAL) {
      std::string rec, body;
      {
        NoPreempt np;
        put64(body, seq);
        put32(body, (uint32_t)b->ops.size());
        for (auto& o : b->ops) { body += (char)o.type; putStr(body, o.key); putStr(body, o.value); }
        put32(rec, (uint32_t)body.size()); put32(rec, crc(body)); rec += body;
      }
      if (opt.manual_wal_flush && !w.sync) { NoPreempt np; walBuf += rec; }
      else {
        if (!walBuf.empty()) { NoPreempt np; rec = walBuf + rec; walBuf.clear(); }
        if (int e = vfs::append(log, logPath, rec)) return fail(e, logPath);
      }
      if (w.sync) {
        if (curNode()) sleepFor(20 * US + (Time)rngFault.below(300 * US));
        delay("db_sync_delay", 0.05, 40 * MS);
        if (int e = vfs::sync(log, logPath)) return fail(e, logPath);
      }
    }
    {
      NoPreempt np;
      applyVersions(b->ops, w.disableWAL);
      if (simHooks.onWrite) simHooks.onWrite(nodeId, path, b->ops);
    }
    ioPoint(curNode(), "dbwritten");
    if (memBytes > flushBytes) { Status st = flushLocked(); if (!st.ok()) return Status(); }
    delay("db_write_delay_after", 0.01, 30 * MS);
    return Status();
  }
  Status Put(const WriteOptions& w, const Slice& k, const Slice& v) override { WriteBatch b; b.Put(k, v); return Write(w, &b); }
  Status Delete(const WriteOptions& w, const Slice& k) override { WriteBatch b; b.Delete(k); return Write(w, &b); }
  Status SingleDelete(const WriteOptions& w, const Slice& k) override { WriteBatch b; b.SingleDelete(k); return Write(w, &b); }
  Status DeleteRange(const WriteOptions& w, CFH*, const Slice& a, const Slice& e) override { WriteBatch b; b.DeleteRange(a, e); return Write(w, &b); }
  const std::string& GetName() const override { return path; }
  Options GetOptions() const override { return opt; }
  bool GetIntProperty(const Slice& p, uint64_t* v) override {
    check(); NoPreempt np;
    std::string q = p.ToString();
    if (q == DB::Properties::kEstimateNumKeys) *v = data.size();
    else if (q == DB::Properties::kNumSnapshots) *v = snaps.size();
    else if (q == DB::Properties::kBackgroundErrors) *v = bgError;
    else if (q == DB::Properties::kCurSizeAllMemTables || q == DB::Properties::kSizeAllMemTables) *v = memBytes;
    else if (q == DB::Properties::kTotalSstFilesSize || q == DB::Properties::kEstimateLiveDataSize) { *v = 0; for (auto& s : man.ssts) *v += s.second.first; }
    else *v = 0;
    return true;
  }
  const Ver* find(const std::string& k, uint64_t s) {
    auto it = data.find(k);
    if (it == data.end()) return nullptr;
    for (size_t i = it->second.size(); i-- > 0;)
      if (it->second[i].seq <= s) return &it->second[i];
    return nullptr;
  }
  Status Get(const ReadOptions& r, const Slice& k, std::string* v) override {
    check();
    syncPoint();
    if (curNode() && vfs::g_fault) { if (int e = vfs::g_fault(curNode(), "dbread", path)) { countFault("disk_dbread_err"); return ioErr(e, path); } }
    NoPreempt np;
    uint64_t s = r.snapshot ? ((SnapImpl*)r.snapshot)->s : seq;
    const Ver* x = find(k.ToString(), s);
    if (!x || x->type != kTypeValue) return Status::NotFound("");
    *v = x->value;
    return Status();
  }
  Iterator* NewIterator(const ReadOptions& r) override;
  const Snapshot* GetSnapshot() override { check(); syncPoint(); NoPreempt np; SnapImpl* s = new SnapImpl; s->s = seq; snaps.insert(seq); return s; }
  void ReleaseSnapshot(const Snapshot* s) override {
    check();
    NoPreempt np;
    SnapImpl* x = (SnapImpl*)s;
    auto it = snaps.find(x->s);
    if (it != snaps.end()) snaps.erase(it);
    delete x;
  }
  bool GetProperty(const Slice& p, std::string* v) override {
    check(); NoPreempt np;
    std::string q = p.ToString();
    if (q.compare(0, DB::Properties::kCompressionRatioAtLevelPrefix.size(), DB::Properties::kCompressionRatioAtLevelPrefix) == 0) { *v = "1.0"; return true; }
    *v = "simulated " + q + " files=" + std::to_string(man.ssts.size()) + "\n";
    return true;
  }
  Status SetOptions(const std::unordered_map<std::string, std::string>&) override { check(); return Status(); }
  Status CompactRange(const CompactRangeOptions&, const Slice*, const Slice*) override {
    Busy bz(this);
    if (bgError) return Status::IOError("background error", bgMsg);
    Status st = flushLocked();
    if (!st.ok()) return st;
    return compactLocked();
  }
  Status Flush(const FlushOptions&) override { Busy bz(this); if (bgError) return Status::IOError(bgMsg); return flushLocked(); }
  Status flushBuf() {
    if (walBuf.empty()) return Status();
    Busy bz(this);
    if (bgError) return Status::IOError("background error", bgMsg);
    std::string r;
    { NoPreempt np; r.swap(walBuf); }
    if (!r.empty()) if (int e = vfs::append(log, logPath, r)) return fail(e, logPath);
    return Status();
  }
  Status SyncWAL() override {
    check(); syncPoint();
    { Status st = flushBuf(); if (!st.ok()) return st; }
    vfs::Ptr f = log; std::string p = logPath;
    if (curNode()) sleepFor(20 * US + (Time)rngFault.below(500 * US));
    delay("db_sync_delay", 0.05, 40 * MS);
    check();
    if (int e = vfs::sync(f, p)) { return fail(e, p); }
    return Status();
  }
  Status FlushWAL(bool s) override { return s ? SyncWAL() : flushBuf(); }
  Status VerifyChecksum() override {
    check(); syncPoint(); NoPreempt np;
    if (g_simVerify) g_simVerify(curNode(), path);
    for (auto& s : man.ssts) {
      vfs::Ptr f = vfs::lookup(P(numName(s.first, "sst")));
      if (!f || f->data.size() != s.second.first || crc(f->data) != s.second.second) return Status::Corruption("block checksum mismatch", numName(s.first, "sst"));
    }
    return Status();
  }
  uint64_t GetLatestSequenceNumber() const override { return seq; }
  Status Close() override { return Status(); }

  Status load(bool readOnly) {
    NoPreempt np;
    vfs::Ptr cur = vfs::lookup(P("CURRENT"));
    std::string c = cur ? cur->data : "";
    if (c.empty() || c.back() != '\n') return Status::Corruption("CURRENT file does not end with newline");
    c.pop_back();
    vfs::Ptr m = vfs::lookup(P(c));
    if (!m) return Status::Corruption("CURRENT file points to a non-existing file");
    if (!lastManifest(m->data, man)) return Status::Corruption("no valid record in MANIFEST");
    manNum = strtoull(c.c_str() + 9, nullptr, 10);
    seq = man.lastSeq;
    std::vector<Entry> all;
    for (auto& s : man.ssts) {
      vfs::Ptr f = vfs::lookup(P(numName(s.first, "sst")));
      if (!f) return Status::Corruption("Sst file missing", numName(s.first, "sst"));
      if (f->data.size() != s.second.first) return Status::Corruption("Sst file size mismatch", numName(s.first, "sst"));
      if (crc(f->data) != s.second.second) return Status::Corruption("Sst checksum mismatch", numName(s.first, "sst"));
      size_t o = 0; Entry e;
      while (o < f->data.size()) { if (!decEntry(f->data, o, e)) return Status::Corruption("bad sst"); all.push_back(e); if (e.seq > seq) seq = e.seq; }
    }
    std::stable_sort(all.begin(), all.end(), [](const Entry& a, const Entry& b) { return a.seq < b.seq; });
    for (auto& e : all) { Chain& ch = data[e.key]; if (ch.empty() || ch.back().seq < e.seq) ch.push_back(Ver{e.seq, e.type, e.value}); }
    // replay logs in order
    std::vector<uint64_t> logs;
    for (auto& n : vfs::list(path)) if (n.size() > 4 && n.substr(n.size() - 4) == ".log") { uint64_t k = strtoull(n.c_str(), nullptr, 10); if (k >= man.logNum) logs.push_back(k); }
    std::sort(logs.begin(), logs.end());
    for (auto l : logs) {
      vfs::Ptr f = vfs::lookup(P(numName(l, "log")));
      const std::string& d = f->data;
      size_t o = 0;
      bool bad = false;
      while (o < d.size()) {
        uint32_t n, cc; size_t p = o;
        if (!get32(d, p, n) || !get32(d, p, cc) || p + n > d.size()) { bad = true; break; }
        std::string body = d.substr(p, n);
        if (crc(body) != cc) { bad = true; break; }
        size_t q = 0; uint64_t s0; uint32_t cnt;
        get64(body, q, s0); get32(body, q, cnt);
        seq = s0;
        std::vector<BatchOp> ops;
        for (uint32_t i = 0; i < cnt; i++) { BatchOp op; op.type = (OpType)(unsigned char)body[q++]; getStr(body, q, op.key); getStr(body, q, op.value); ops.push_back(op); }
        applyVersions(ops, false);
        o = p + n;
      }
      if (bad && opt.wal_recovery_mode == WALRecoveryMode::kAbsoluteConsistency) return Status::Corruption("truncated record in the log", numName(l, "log"));
      if (bad) { countProbe("db_torn_log_tail"); break; }
      if (l >= man.nextFile) man.nextFile = l + 1;
    }
    (void)readOnly;
    return Status();
  }
  ~DBImpl() override {
    check();
    if (curNode() != 0 && (liveIters || !snaps.empty()))
      violation("storage-misuse", fmt("database %s closed with %d live iterators and %zu live snapshots", path.c_str(), liveIters, snaps.size()));
    while (busy) blockOn(this);
    busy = true;
    if (memUnlogged && !bgError && !opt.avoid_flush_during_shutdown) flushLocked();
    if (!walBuf.empty() && !bgError) { std::string r; { NoPreempt np; r.swap(walBuf); } vfs::append(log, logPath, r); }
    NoPreempt np;
    magic = 0xDEADDEAD;
    auto it = locks().find(dir.get());
    if (it != locks().end() && it->second == std::make_pair(nodeId, inc)) locks().erase(it);
    openDbs().erase(this);
  }
};

class IterImpl : public Iterator {
 public:
  DBImpl* db; uint64_t s; bool internal; bool valid = false; bool total = true;
  std::string k, v; uint64_t curSeq = 0;
  Status st;
  const Slice *lower = nullptr, *upper = nullptr;
  bool tailing = false;
  void pin(uint64_t to) {   // move the view of the iterator
    auto it = db->snaps.find(s);
    if (it != db->snaps.end()) db->snaps.erase(it);
    s = to;
    db->snaps.insert(s);
  }
  Status Refresh() override { chk(); NoPreempt np; pin(db->seq); valid = false; return Status(); }
  std::string clampLo(const std::string& t) { return lower && t < lower->ToString() ? lower->ToString() : t; }
  bool inBounds() {
    if (valid && upper && k >= upper->ToStringView()) valid = false;
    if (valid && lower && k < lower->ToStringView()) valid = false;
    return valid;
  }
  ~IterImpl() override {
    NoPreempt np;
    if (db->magic == 0xDBDBDBDB) { db->liveIters--; auto it = db->snaps.find(s); if (it != db->snaps.end()) db->snaps.erase(it); }
    else if (curNode()) nodeDied("iterator destroyed after its database");
  }
  void chk() { db->check(); plainPoint(); }
  bool Valid() const override { return valid; }
  bool load(std::map<std::string, Chain>::iterator it, bool fwd, uint64_t below = UINT64_MAX) {
    while (it != db->data.end()) {
      if (internal) {
        for (size_t i = it->second.size(); i-- > 0;) {
          auto& x = it->second[i];
          if (x.seq <= s && x.seq < below) { k = it->first; v = x.value; curSeq = x.seq; type = x.type; valid = true; return true; }
        }
        below = UINT64_MAX;
      } else {
        for (size_t i = it->second.size(); i-- > 0;) {
          auto& x = it->second[i];
          if (x.seq <= s) { if (x.type == kTypeValue) { k = it->first; v = x.value; valid = true; return true; } break; }
        }
      }
      if (fwd) ++it;
      else { if (it == db->data.begin()) break; --it; }
    }
    valid = false;
    return false;
  }
  OpType type = kTypeValue;
  void mk() { if (inBounds() && internal) { ik = k; uint64_t t = (curSeq << 8) | type; ik.append((char*)&t, 8); } }
  std::string ik;
  bool rdFault() {
    if (curNode() && vfs::g_fault) { if (int e = vfs::g_fault(curNode(), "dbread", db->path)) { countFault("disk_dbread_err"); st = Status::IOError("read", strerror(e)); valid = false; return true; } }
    return false;
  }
  void SeekToFirst() override { chk(); if (rdFault()) return; NoPreempt np; if (tailing) pin(db->seq); load(lower ? db->data.lower_bound(lower->ToString()) : db->data.begin(), true); mk(); }
  void SeekToLast() override {
    chk(); NoPreempt np;
    if (tailing) pin(db->seq);
    auto it = upper ? db->data.lower_bound(upper->ToString()) : db->data.end();
    if (it == db->data.begin()) { valid = false; return; }
    load(std::prev(it), false); mk();
  }
  void Seek(const Slice& t) override { chk(); syncPoint(); if (rdFault()) return; NoPreempt np; if (tailing) pin(db->seq); load(db->data.lower_bound(clampLo(t.ToString())), true); mk(); }
  void SeekForPrev(const Slice& t) override {
    chk(); syncPoint(); NoPreempt np;
    if (tailing) pin(db->seq);
    auto it = db->data.upper_bound(t.ToString());
    if (upper && t.ToStringView() >= upper->ToStringView()) it = db->data.lower_bound(upper->ToString());
    if (it == db->data.begin()) { valid = false; return; }
    load(std::prev(it), false); mk();
  }
  void Next() override {
    chk();
    if (!valid) { if (curNode()) nodeDied("Next() on an invalid iterator"); return; }
    if (rdFault()) return;
    NoPreempt np;
    load(db->data.upper_bound(k), true); // internal mode too: one entry, the newest, per user key
    mk();
  }
  void Prev() override {
    chk();
    if (!valid) { if (curNode()) nodeDied("Prev() on an invalid iterator"); return; }
    NoPreempt np;
    auto it = db->data.lower_bound(k);
    if (it == db->data.begin()) { valid = false; return; }
    load(std::prev(it), false); mk();
  }
  Slice key() const override { if (!valid && curNode()) nodeDied("key() on an invalid iterator"); return internal ? Slice(ik) : Slice(k); }
  Slice value() const override { if (!valid && curNode()) nodeDied("value() on an invalid iterator"); return Slice(v); }
  Status status() const override { return st; }
};
Iterator* DBImpl::NewIterator(const ReadOptions& r) {
  check(); syncPoint(); NoPreempt np;
  IterImpl* it = new IterImpl;
  it->db = this;
  it->s = r.snapshot ? ((SnapImpl*)r.snapshot)->s : seq;
  it->internal = r.iter_start_seqnum > 0;
  it->lower = r.iterate_lower_bound;
  it->upper = r.iterate_upper_bound;
  it->tailing = r.tailing;
  snaps.insert(it->s);
  liveIters++;
  return it;
}
class EmptyIter : public Iterator {
  bool Valid() const override { return false; }
  void SeekToFirst() override {} void SeekToLast() override {} void Seek(const Slice&) override {} void SeekForPrev(const Slice&) override {}
  void Next() override {} void Prev() override {}
  Slice key() const override { return Slice(); } Slice value() const override { return Slice(); } Status status() const override { return Status(); }
};
Iterator* NewEmptyIterator() { return new EmptyIter; }

Status WriteBatchWithIndex::Put(const Slice& k, const Slice& v) { NoPreempt np; batch.Put(k, v); index[k.ToString()] = batch.ops.size() - 1; return Status(); }
Status WriteBatchWithIndex::Delete(const Slice& k) { NoPreempt np; batch.Delete(k); index[k.ToString()] = batch.ops.size() - 1; return Status(); }
Status WriteBatchWithIndex::SingleDelete(const Slice& k) { NoPreempt np; batch.SingleDelete(k); index[k.ToString()] = batch.ops.size() - 1; return Status(); }
Status WriteBatchWithIndex::RollbackToSavePoint() {
  NoPreempt np;
  Status st = batch.RollbackToSavePoint();
  if (!st.ok()) return st;
  index.clear();
  for (size_t i = 0; i < batch.ops.size(); i++) index[batch.ops[i].key] = i;
  return st;
}
void WriteBatchWithIndex::Clear() { batch.Clear(); index.clear(); }
Status WriteBatchWithIndex::GetFromBatch(const DBOptions&, const Slice& k, std::string* v) {
  NoPreempt np;
  auto it = index.find(k.ToString());
  if (it == index.end() || batch.ops[it->second].type != kTypeValue) return Status::NotFound();
  *v = batch.ops[it->second].value;
  return Status();
}
Status WriteBatchWithIndex::GetFromBatchAndDB(DB* db, const ReadOptions& r, const Slice& k, std::string* v) {
  {
    NoPreempt np;
    auto it = index.find(k.ToString());
    if (it != index.end()) {
      if (batch.ops[it->second].type != kTypeValue) return Status::NotFound();
      *v = batch.ops[it->second].value;
      return Status();
    }
  }
  return db->Get(r, k, v);
}
Status WriteBatchWithIndex::GetFromBatchAndDB(DB* db, const ReadOptions& r, const Slice& k, PinnableSlice* v) {
  Status st = GetFromBatchAndDB(db, r, k, v->GetSelf());
  v->PinSelf();
  return st;
}
class MergeIter : public Iterator {
 public:
  std::unique_ptr<Iterator> base; WriteBatchWithIndex* w;
  bool valid = false; std::string k, v;
  // position on the first visible key >= t (or > t)
  void fwd(std::string t, bool strict) {
    for (;;) {
      base->Seek(t);
      while (base->Valid() && strict && base->key().ToString() <= t) base->Next();
      NoPreempt np;
      auto it = strict ? w->index.upper_bound(t) : w->index.lower_bound(t);
      bool hb = base->Valid(), hw = it != w->index.end();
      if (!hb && !hw) { valid = false; return; }
      std::string bk = hb ? base->key().ToString() : "";
      if (hw && (!hb || it->first <= bk)) {
        auto& op = w->batch.ops[it->second];
        if (op.type == kTypeValue) { k = it->first; v = op.value; valid = true; return; }
        t = it->first; strict = true; continue;
      }
      k = bk; v = base->value().ToString(); valid = true; return;
    }
  }
  void bwd(std::string t, bool strict) {
    for (;;) {
      base->SeekForPrev(t);
      while (base->Valid() && strict && base->key().ToString() >= t) base->Prev();
      NoPreempt np;
      auto it = strict ? w->index.lower_bound(t) : w->index.upper_bound(t);
      bool hw = it != w->index.begin(), hb = base->Valid();
      if (hw) --it;
      if (!hb && !hw) { valid = false; return; }
      std::string bk = hb ? base->key().ToString() : "";
      if (hw && (!hb || it->first >= bk)) {
        auto& op = w->batch.ops[it->second];
        if (op.type == kTypeValue) { k = it->first; v = op.value; valid = true; return; }
        t = it->first; strict = true; continue;
      }
      k = bk; v = base->value().ToString(); valid = true; return;
    }
  }
  bool Valid() const override { return valid; }
  void SeekToFirst() override { fwd("", false); }
  void SeekToLast() override { bwd(std::string(300, '\xff'), false); }
  void Seek(const Slice& t) override { fwd(t.ToString(), false); }
  void SeekForPrev(const Slice& t) override { bwd(t.ToString(), false); }
  void Next() override { if (!valid) { if (curNode()) nodeDied("Next() on an invalid iterator"); return; } fwd(k, true); }
  void Prev() override { if (!valid) { if (curNode()) nodeDied("Prev() on an invalid iterator"); return; } bwd(k, true); }
  Slice key() const override { if (!valid && curNode()) nodeDied("key() on an invalid iterator"); return Slice(k); }
  Slice value() const override { if (!valid && curNode()) nodeDied("value() on an invalid iterator"); return Slice(v); }
  Status status() const override { return base->status(); }
};
Iterator* WriteBatchWithIndex::NewIteratorWithBase(Iterator* b) { NoPreempt np; MergeIter* m = new MergeIter; m->base.reset(b); m->w = this; return m; }

static Status doOpen(const Options& o, const std::string& name, DB** out) {
  *out = nullptr;
  syncPoint();
  int nd = curNode();
  ioPoint(nd, "dbopen");
  std::string nm = name;
  while (nm.size() > 1 && nm.back() == '/') nm.pop_back();
  if (!vfs::isVfs(nm.c_str())) return Status::IOError("path outside of the simulated file system", nm);
  if (nd && vfs::g_fault) { if (int e = vfs::g_fault(nd, "dbopen", nm)) { countFault("disk_dbopen_err"); return Status::IOError(nm, strerror(e)); } }
  vfs::Ptr d;
  {
    NoPreempt np;
    d = vfs::lookup(nm);
    if (!d) {
      if (!o.create_if_missing) return Status::InvalidArgument(nm, "does not exist (create_if_missing is false)");
      size_t sl = nm.rfind('/');
      if (!vfs::isDir(nm.substr(0, sl))) return Status::IOError("While mkdir if missing", nm);
      d = vfs::mkdirs(nm);
    }
    if (!d->dir) return Status::IOError("not a directory", nm);
    auto it = locks().find(d.get());
    if (it != locks().end()) return Status::IOError("While lock file: " + nm + "/LOCK", "Resource temporarily unavailable");
  }
  bool fresh = !vfs::exists(nm + "/CURRENT");
  if (fresh && !o.create_if_missing) return Status::InvalidArgument(nm, "does not exist (create_if_missing is false)");
  if (!fresh && o.error_if_exists) return Status::InvalidArgument(nm, "exists (error_if_exists is true)");
  DBImpl* db;
  {
    NoPreempt np;
    db = new DBImpl;
    db->nodeId = nd; db->inc = node(nd).incarnation;
    db->opt = o; db->path = nm; db->dir = d;
    static const size_t fl[] = {2000, 8000, 64000, 400000};
    db->flushBytes = (size_t)knob("db.flush", 0);
    if (!db->flushBytes) db->flushBytes = fl[rngFault.below(4)];
    locks()[d.get()] = {nd, db->inc};
    openDbs().insert(db);
    if (!vfs::exists(nm + "/LOCK")) vfs::create(nm + "/LOCK");
    if (!vfs::exists(nm + "/IDENTITY")) vfs::create(nm + "/IDENTITY", "sim-identity");
  }
  Status st;
  if (!fresh) st = db->load(false);
  db->busy = true;
  if (st.ok()) {
    uint64_t oldLog = db->man.logNum;
    std::vector<Entry> es;
    { NoPreempt np; es.swap(db->mem); db->memBytes = 0; std::stable_sort(es.begin(), es.end(), [](const Entry& a, const Entry& b) { return a.key < b.key; }); }
    uint64_t num;
    if (!es.empty()) st = db->writeSst(es, num);
    if (st.ok() && fresh) st = db->newManifestFile();   // an empty database exists before its first log file
    if (st.ok()) st = db->newLog();
    db->man.lastSeq = db->seq;
    if (st.ok()) st = db->newManifestFile();
    (void)oldLog;
    if (st.ok()) {
      NoPreempt np;
      for (auto& n : vfs::list(nm)) {
        if (n.size() > 4 && n.substr(n.size() - 4) == ".log" && strtoull(n.c_str(), nullptr, 10) < db->man.logNum) vfs::removeTree(nm + "/" + n);
        if (n.size() > 4 && n.substr(n.size() - 4) == ".sst" && !db->man.ssts.count(strtoull(n.c_str(), nullptr, 10))) vfs::removeTree(nm + "/" + n);
      }
    }
  }
  db->busy = false;
  if (!st.ok()) { db->bgError = true; db->memUnlogged = false; delete db; return st; }
  *out = db;
  if (simHooks.onOpen) {
    NoPreempt np;
    std::map<std::string, std::string> m;
    for (auto& k : db->data) { auto& x = k.second.back(); if (x.type == kTypeValue) m[k.first] = x.value; }
    simHooks.onOpen(nd, nm, m);
  }
  return st;
}
Status DB::Open(const Options& o, const std::string& name, DB** out) { return doOpen(o, name, out); }
Status DB::OpenForReadOnly(const Options& o, const std::string& name, DB** out, bool) { return doOpen(o, name, out); }

Status DestroyDB(const std::string& name, const Options&) {
  ioPoint(curNode(), "destroydb");
  NoPreempt np;
  if (!vfs::isVfs(name.c_str())) return Status::IOError("path outside of the simulated file system", name);
  vfs::Ptr d = vfs::lookup(name);
  if (d && locks().count(d.get())) return Status::IOError("While lock file: " + name + "/LOCK", "Resource temporarily unavailable");
  vfs::removeTree(name);
  return Status();
}
Status Checkpoint::Create(DB* db, Checkpoint** out) { Checkpoint* c = new Checkpoint; c->db_ = db; *out = c; return Status(); }
Status Checkpoint::CreateCheckpoint(const std::string& dst0, uint64_t, uint64_t*) {
  DBImpl* d = (DBImpl*)db_;
  std::string dst = dst0;
  while (dst.size() > 1 && dst.back() == '/') dst.pop_back();
  if (!vfs::isVfs(dst.c_str())) return Status::IOError("path outside of the simulated file system", dst);
  DBImpl::Busy bz(d);
  if (vfs::exists(dst)) return Status::InvalidArgument("Directory exists");
  size_t sl = dst.rfind('/');
  if (!vfs::isDir(dst.substr(0, sl))) return Status::IOError("parent missing", dst);
  if (d->bgError) return Status::IOError(d->bgMsg);
  Status st = d->flushLocked();
  if (!st.ok()) return st;
  std::string tmp = dst + ".tmp";
  ioPoint(curNode(), "checkpoint");
  { NoPreempt np; vfs::removeTree(tmp); vfs::mkdirs(tmp); }
  auto fault = [&](const char* op) -> int { return curNode() && vfs::g_fault ? vfs::g_fault(curNode(), op, tmp) : 0; };
  std::vector<std::string> files;
  { NoPreempt np; for (auto& s : d->man.ssts) files.push_back(numName(s.first, "sst")); }
  for (auto& f : files) {
    ioPoint(curNode(), "checkpoint");
    if (int e = fault("link")) { countFault("disk_link_err"); NoPreempt np; vfs::removeTree(tmp); return Status::IOError(tmp, strerror(e)); }
    NoPreempt np;
    vfs::Ptr src = vfs::lookup(d->P(f));
    vfs::Ptr dd = vfs::lookup(tmp);
    if (!src || !dd) return Status::IOError("link", f);
    dd->kids[f] = src;  // hard link
  }
  ioPoint(curNode(), "checkpoint");
  if (int e = fault("write")) { countFault("disk_checkpoint_write_err"); NoPreempt np; vfs::removeTree(tmp); return Status::IOError(tmp, strerror(e)); }
  {
    NoPreempt np;
    Manifest m = d->man;
    m.lastSeq = d->seq;
    vfs::create(tmp + fmt("/MANIFEST-%06llu", (unsigned long long)d->manNum), encManifest(m));
    vfs::create(tmp + "/CURRENT", fmt("MANIFEST-%06llu\n", (unsigned long long)d->manNum));
    vfs::create(tmp + "/OPTIONS-000007", "simulated options");
  }
  ioPoint(curNode(), "checkpoint");
  if (int e = fault("rename")) { countFault("disk_rename_err"); NoPreempt np; vfs::removeTree(tmp); return Status::IOError(tmp, strerror(e)); }
  int e;
  { NoPreempt np; e = vfs::renameTo(tmp, dst); }
  ioPoint(curNode(), "checkpoint");
  if (e) return Status::IOError("rename", strerror(e));
  return Status();
}
Status GetAllKeyVersions(DB* db, Slice b, Slice e, size_t max, std::vector<KeyVersion>* out) {
  DBImpl* d = (DBImpl*)db;
  d->check(); syncPoint();
  if (curNode() && vfs::g_fault) { if (int er = vfs::g_fault(curNode(), "dbread", d->path)) { countFault("disk_dbread_err"); return Status::IOError("read", strerror(er)); } }
  NoPreempt np;
  for (auto it = d->data.lower_bound(b.ToString()); it != d->data.end() && it->first <= e.ToString(); ++it)
    for (size_t i = it->second.size(); i-- > 0;) {
      if (out->size() >= max) return Status();
      KeyVersion k; k.user_key = it->first; k.value = it->second[i].value; k.sequence = it->second[i].seq; k.type = it->second[i].type;
      out->push_back(k);
    }
  return Status();
}
bool simDump(const std::string& dirp, std::map<std::string, std::string>* out, std::string* err) {
  NoPreempt np;
  DBImpl* db = new DBImpl;
  db->path = dirp; db->dir = vfs::lookup(dirp);
  if (!db->dir || !vfs::exists(dirp + "/CURRENT")) { if (err) *err = "missing"; db->magic = 0xDEADDEAD; return false; }
  Status st = db->load(true);
  if (st.ok() && out)
    for (auto& k : db->data) { auto& x = k.second.back(); if (x.type == kTypeValue) (*out)[k.first] = x.value; }
  if (!st.ok() && err) *err = st.ToString();
  db->magic = 0xDBDBDBDB;
  db->memUnlogged = false; db->busy = false;
  delete db;
  return st.ok();
}
void simStall(int nd, const std::string& part, WriteStallCondition c) {
  std::vector<std::pair<std::shared_ptr<EventListener>, WriteStallInfo>> calls;
  for (auto* d : openDbs()) {
    if (d->nodeId != nd || d->path.find(part) == std::string::npos) continue;
    for (auto& l : d->opt.listeners) { WriteStallInfo i; i.condition.prev = WriteStallCondition::kNormal; i.condition.cur = c; calls.push_back({l, i}); }
  }
  for (auto& x : calls) x.first->OnStallConditionsChanged(x.second);
}
void simInit() {
  onNodeDown([](int n, bool power) {
    for (auto it = locks().begin(); it != locks().end();) { if (it->second.first == n) it = locks().erase(it); else ++it; }
    for (auto it = openDbs().begin(); it != openDbs().end();) { if ((*it)->nodeId == n) it = openDbs().erase(it); else ++it; }
    if (power) vfs::powerLossTree("/vfs/n" + std::to_string(n), rngFault);
  });
}
}  // namespace rocksdb
