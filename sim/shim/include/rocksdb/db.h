// Stub storage engine used by the simulator in place of RocksDB: same interface subset, multi-version
// map in memory, WAL/SST/MANIFEST files in the simulated file system with crash points and faults.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#define ROCKSDB_MAJOR 6
#define ROCKSDB_MINOR 2
#define ROCKSDB_PATCH 4
namespace rocksdb {
class Slice {
 public:
  Slice() : d_(""), n_(0) {}
  Slice(const char* d, size_t n) : d_(d), n_(n) {}
  Slice(const std::string& s) : d_(s.data()), n_(s.size()) {}
  Slice(const std::string_view& s) : d_(s.data()), n_(s.size()) {}
  Slice(const char* s) : d_(s), n_(strlen(s)) {}
  const char* data() const { return d_; }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  char operator[](size_t i) const { return d_[i]; }
  std::string ToString(bool = false) const { return std::string(d_, n_); }
  std::string_view ToStringView() const { return std::string_view(d_, n_); }
  bool starts_with(const Slice& x) const { return n_ >= x.n_ && memcmp(d_, x.d_, x.n_) == 0; }
  void remove_prefix(size_t k) { d_ += k; n_ -= k; }
  void remove_suffix(size_t k) { n_ -= k; }
  bool ends_with(const Slice& x) const { return n_ >= x.n_ && memcmp(d_ + n_ - x.n_, x.d_, x.n_) == 0; }
  void clear() { d_ = ""; n_ = 0; }
  size_t difference_offset(const Slice& b) const { size_t i = 0; while (i < n_ && i < b.n_ && d_[i] == b.d_[i]) i++; return i; }
  int compare(const Slice& b) const { return ToStringView().compare(b.ToStringView()); }
 private:
  const char* d_;
  size_t n_;
};
inline bool operator==(const Slice& a, const Slice& b) { return a.ToStringView() == b.ToStringView(); }
inline bool operator!=(const Slice& a, const Slice& b) { return !(a == b); }
inline bool operator<(const Slice& a, const Slice& b) { return a.compare(b) < 0; }
class PinnableSlice : public Slice {
 public:
  PinnableSlice() {}
  PinnableSlice(const PinnableSlice&) = delete;
  PinnableSlice& operator=(const PinnableSlice&) = delete;
  void PinSelf(const Slice& x) { self_ = x.ToString(); PinSelf(); }
  bool IsPinned() const { return false; }
  std::string* GetSelf() { return &self_; }
  void PinSelf() { *static_cast<Slice*>(this) = Slice(self_); }
  void Reset() { self_.clear(); PinSelf(); }
 private:
  std::string self_;
};
class Status {
 public:
  enum Code { kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5, kMergeInProgress = 6, kIncomplete = 7,
              kShutdownInProgress = 8, kTimedOut = 9, kAborted = 10, kBusy = 11, kExpired = 12, kTryAgain = 13, kCompactionTooLarge = 14, kColumnFamilyDropped = 15 };
  enum SubCode { kNone = 0, kNoSpace = 4, kMaxSubCode = 12 };
  enum Severity { kNoError = 0, kSoftError = 1, kHardError = 2, kFatalError = 3, kUnrecoverableError = 4 };
  Status() : c_(kOk) {}
  Status(Code c, std::string m = "") : c_(c), m_(std::move(m)) {}
  static Status OK() { return Status(); }
  static Status NotFound(const Slice& m = "", const Slice& m2 = "") { return mk(kNotFound, m, m2); }
  static Status Corruption(const Slice& m = "", const Slice& m2 = "") { return mk(kCorruption, m, m2); }
  static Status InvalidArgument(const Slice& m = "", const Slice& m2 = "") { return mk(kInvalidArgument, m, m2); }
  static Status IOError(const Slice& m = "", const Slice& m2 = "") { return mk(kIOError, m, m2); }
  static Status NotSupported(const Slice& m = "", const Slice& m2 = "") { return mk(kNotSupported, m, m2); }
  static Status Aborted(const Slice& m = "", const Slice& m2 = "") { return mk(kAborted, m, m2); }
  static Status Busy(const Slice& m = "", const Slice& m2 = "") { return mk(kBusy, m, m2); }
  static Status Incomplete(const Slice& m = "", const Slice& m2 = "") { return mk(kIncomplete, m, m2); }
  static Status TimedOut(const Slice& m = "", const Slice& m2 = "") { return mk(kTimedOut, m, m2); }
  static Status TryAgain(const Slice& m = "", const Slice& m2 = "") { return mk(kTryAgain, m, m2); }
  static Status Expired(const Slice& m = "", const Slice& m2 = "") { return mk(kExpired, m, m2); }
  static Status ShutdownInProgress(const Slice& m = "", const Slice& m2 = "") { return mk(kShutdownInProgress, m, m2); }
  bool ok() const { return c_ == kOk; }
  bool IsAborted() const { return c_ == kAborted; }
  bool IsBusy() const { return c_ == kBusy; }
  bool IsIncomplete() const { return c_ == kIncomplete; }
  bool IsTimedOut() const { return c_ == kTimedOut; }
  bool IsTryAgain() const { return c_ == kTryAgain; }
  bool IsExpired() const { return c_ == kExpired; }
  bool IsNotSupported() const { return c_ == kNotSupported; }
  bool IsShutdownInProgress() const { return c_ == kShutdownInProgress; }
  bool IsNoSpace() const { return c_ == kIOError && m_.find(strerror(28)) != std::string::npos; }
  SubCode subcode() const { return IsNoSpace() ? kNoSpace : kNone; }
  Severity severity() const { return kNoError; }
  const char* getState() const { return m_.empty() ? nullptr : m_.c_str(); }
  void PermitUncheckedError() const {}
  bool IsNotFound() const { return c_ == kNotFound; }
  bool IsCorruption() const { return c_ == kCorruption; }
  bool IsIOError() const { return c_ == kIOError; }
  bool IsInvalidArgument() const { return c_ == kInvalidArgument; }
  Code code() const { return c_; }
  std::string ToString() const;
  bool operator==(const Status& o) const { return c_ == o.c_; }
  bool operator!=(const Status& o) const { return c_ != o.c_; }
 private:
  static Status mk(Code c, const Slice& a, const Slice& b) { std::string s = a.ToString(); if (!b.empty()) s += ": " + b.ToString(); return Status(c, s); }
  Code c_;
  std::string m_;
};
class Snapshot { public: virtual ~Snapshot() {} virtual uint64_t GetSequenceNumber() const = 0; };
typedef uint64_t SequenceNumber;
enum ReadTier { kReadAllTier = 0, kBlockCacheTier = 1, kPersistedTier = 2, kMemtableTier = 3 };
struct ReadOptions {
  const Snapshot* snapshot = nullptr;
  const Slice* iterate_lower_bound = nullptr;
  const Slice* iterate_upper_bound = nullptr;
  size_t readahead_size = 0;
  uint64_t max_skippable_internal_keys = 0;
  ReadTier read_tier = kReadAllTier;
  bool verify_checksums = true, fill_cache = true, tailing = false, managed = false, total_order_seek = false, auto_prefix_mode = false;
  bool prefix_same_as_start = false, pin_data = false, background_purge_on_iterator_cleanup = false, ignore_range_deletions = false, async_io = false;
  std::function<bool(const void*)> table_filter;
  uint64_t iter_start_seqnum = 0;
  ReadOptions() {}
  ReadOptions(bool cksum, bool cache) : verify_checksums(cksum), fill_cache(cache) {}
};
struct WriteOptions { bool sync = false; bool disableWAL = false; bool ignore_missing_column_families = false; bool no_slowdown = false; bool low_pri = false; bool memtable_insert_hint_per_batch = false; };
struct FlushOptions { bool wait = true; bool allow_write_stall = false; };
enum class BottommostLevelCompaction { kSkip, kIfHaveCompactionFilter, kForce, kForceOptimized };
struct CompactRangeOptions { bool exclusive_manual_compaction = true; bool change_level = false; int target_level = -1; uint32_t target_path_id = 0; bool allow_write_stall = false; BottommostLevelCompaction bottommost_level_compaction = BottommostLevelCompaction::kIfHaveCompactionFilter; uint32_t max_subcompactions = 0; };
enum CompressionType : unsigned char { kNoCompression = 0, kSnappyCompression = 1, kZlibCompression = 2, kLZ4Compression = 4, kLZ4HCCompression = 5, kZSTD = 7 };
enum class WriteStallCondition { kNormal, kDelayed, kStopped };
struct WriteStallInfo { std::string cf_name; struct { WriteStallCondition cur, prev; } condition; };
class DB;
struct FlushJobInfo { std::string cf_name, file_path; int job_id = 0; };
struct CompactionJobInfo { std::string cf_name; int job_id = 0; };
enum class BackgroundErrorReason { kFlush, kCompaction, kWriteCallback, kMemTable };
class EventListener {
 public:
  virtual ~EventListener() {}
  virtual void OnStallConditionsChanged(const WriteStallInfo&) {}
  virtual void OnFlushBegin(DB*, const FlushJobInfo&) {}
  virtual void OnFlushCompleted(DB*, const FlushJobInfo&) {}
  virtual void OnCompactionBegin(DB*, const CompactionJobInfo&) {}
  virtual void OnCompactionCompleted(DB*, const CompactionJobInfo&) {}
  virtual void OnBackgroundError(BackgroundErrorReason, Status*) {}
};
class Logger { public: virtual ~Logger() {} };
class Statistics { public: virtual ~Statistics() {} };
inline std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); }
class RateLimiter { public: virtual ~RateLimiter() {} };
class SliceTransform { public: virtual ~SliceTransform() {} };
enum InfoLogLevel : unsigned char { DEBUG_LEVEL = 0, INFO_LEVEL, WARN_LEVEL, ERROR_LEVEL, FATAL_LEVEL, HEADER_LEVEL };
enum class WALRecoveryMode : char { kTolerateCorruptedTailRecords = 0, kAbsoluteConsistency = 1, kPointInTimeRecovery = 2, kSkipAnyCorruptedRecords = 3 };
enum CompactionStyle : char { kCompactionStyleLevel = 0, kCompactionStyleUniversal = 1, kCompactionStyleFIFO = 2, kCompactionStyleNone = 3 };
class Comparator { public: virtual ~Comparator() {} };
const Comparator* BytewiseComparator();
class FilterPolicy { public: virtual ~FilterPolicy() {} };
const FilterPolicy* NewBloomFilterPolicy(double bits, bool = false);
class Cache { public: virtual ~Cache() {} };
std::shared_ptr<Cache> NewLRUCache(size_t, int = -1, bool = false, double = 0);
class TableFactory { public: virtual ~TableFactory() {} };
class MemTableRepFactory { public: virtual ~MemTableRepFactory() {} };
class VectorRepFactory : public MemTableRepFactory {};
struct BlockBasedTableOptions {
  enum IndexType : char { kBinarySearch = 0, kHashSearch = 1, kTwoLevelIndexSearch = 2, kBinarySearchWithFirstKey = 3 };
  std::shared_ptr<const FilterPolicy> filter_policy;
  std::shared_ptr<Cache> block_cache;
  size_t block_size = 4096;
  int block_restart_interval = 16;
  uint32_t format_version = 4;
  IndexType index_type = kBinarySearch;
  bool cache_index_and_filter_blocks = false, pin_l0_filter_and_index_blocks_in_cache = false, no_block_cache = false, whole_key_filtering = true, partition_filters = false;
};
TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = BlockBasedTableOptions());
class MergeOperator { public: virtual ~MergeOperator() {} };
struct DBOptions {
  bool create_if_missing = false, error_if_exists = false, paranoid_checks = true;
  uint64_t max_manifest_file_size = 1ULL << 30;
  std::vector<std::shared_ptr<EventListener>> listeners;
  std::shared_ptr<Cache> row_cache;
  std::shared_ptr<Logger> info_log;
  std::shared_ptr<Statistics> statistics;
  std::shared_ptr<RateLimiter> rate_limiter;
  InfoLogLevel info_log_level = INFO_LEVEL;
  WALRecoveryMode wal_recovery_mode = WALRecoveryMode::kPointInTimeRecovery;
  uint32_t max_subcompactions = 1;
  bool allow_concurrent_memtable_write = true, enable_write_thread_adaptive_yield = true, create_missing_column_families = false;
  bool use_fsync = false, manual_wal_flush = false, avoid_flush_during_shutdown = false, avoid_flush_during_recovery = false, unordered_write = false;
  bool enable_pipelined_write = false, two_write_queues = false, allow_mmap_reads = false, allow_mmap_writes = false, use_direct_reads = false;
  bool use_direct_io_for_flush_and_compaction = false, atomic_flush = false, skip_stats_update_on_db_open = false, allow_2pc = false, best_efforts_recovery = false;
  int max_background_jobs = 2, max_background_compactions = -1, max_background_flushes = -1, max_open_files = -1;
  uint64_t max_total_wal_size = 0, bytes_per_sync = 0, wal_bytes_per_sync = 0, delayed_write_rate = 0, WAL_ttl_seconds = 0, WAL_size_limit_MB = 0, delete_obsolete_files_period_micros = 0;
  size_t keep_log_file_num = 1000, max_log_file_size = 0, recycle_log_file_num = 0, db_write_buffer_size = 0, writable_file_max_buffer_size = 1 << 20, compaction_readahead_size = 0;
  unsigned int stats_dump_period_sec = 600, stats_persist_period_sec = 600;
  std::string wal_dir, db_log_dir;
  DBOptions* IncreaseParallelism(int = 16) { return this; }
};
struct ColumnFamilyOptions {
  std::shared_ptr<TableFactory> table_factory;
  std::shared_ptr<MemTableRepFactory> memtable_factory;
  CompressionType compression = kSnappyCompression, bottommost_compression = kNoCompression;
  bool optimize_filters_for_hits = false, level_compaction_dynamic_level_bytes = false, disable_auto_compactions = false;
  int max_write_buffer_number = 2, level0_slowdown_writes_trigger = 20, level0_stop_writes_trigger = 36;
  uint64_t soft_pending_compaction_bytes_limit = 0, hard_pending_compaction_bytes_limit = 0;
  std::shared_ptr<MergeOperator> merge_operator;
  std::shared_ptr<const SliceTransform> prefix_extractor;
  const Comparator* comparator = BytewiseComparator();
  CompactionStyle compaction_style = kCompactionStyleLevel;
  std::vector<CompressionType> compression_per_level;
  size_t write_buffer_size = 64 << 20;
  int min_write_buffer_number_to_merge = 1, max_write_buffer_number_to_maintain = 0, num_levels = 7, level0_file_num_compaction_trigger = 4;
  uint64_t target_file_size_base = 64 << 20, max_bytes_for_level_base = 256 << 20, max_compaction_bytes = 0, periodic_compaction_seconds = 0, ttl = 0;
  int target_file_size_multiplier = 1;
  double max_bytes_for_level_multiplier = 10, memtable_prefix_bloom_size_ratio = 0;
  bool paranoid_file_checks = false, force_consistency_checks = true, report_bg_io_stats = false, inplace_update_support = false, enable_blob_files = false;
  ColumnFamilyOptions* OptimizeForPointLookup(uint64_t) { return this; }
  ColumnFamilyOptions* OptimizeLevelStyleCompaction(uint64_t = 0) { return this; }
  ColumnFamilyOptions* OptimizeForSmallDb() { return this; }
};
struct Options : public DBOptions, public ColumnFamilyOptions {
  Options() {}
  Options(const DBOptions& d, const ColumnFamilyOptions& c) : DBOptions(d), ColumnFamilyOptions(c) {}
  Options* PrepareForBulkLoad() { return this; }
};
class ColumnFamilyHandle { public: virtual ~ColumnFamilyHandle() {} virtual const std::string& GetName() const; virtual uint32_t GetID() const { return 0; } };
extern const std::string kDefaultColumnFamilyName;
typedef ColumnFamilyHandle CFH;
struct Range { Slice start, limit; Range() {} Range(const Slice& a, const Slice& b) : start(a), limit(b) {} };

class Iterator {
 public:
  virtual ~Iterator() {}
  virtual bool Valid() const = 0;
  virtual void SeekToFirst() = 0;
  virtual void SeekToLast() = 0;
  virtual void Seek(const Slice&) = 0;
  virtual void SeekForPrev(const Slice&) = 0;
  virtual void Next() = 0;
  virtual void Prev() = 0;
  virtual Slice key() const = 0;
  virtual Slice value() const = 0;
  virtual Status status() const = 0;
  virtual Status Refresh() { return Status::NotSupported("Refresh() is not supported"); }
  virtual Status GetProperty(std::string, std::string*) { return Status::InvalidArgument("Unidentified property."); }
};
Iterator* NewEmptyIterator();
enum OpType : unsigned char { kTypeDeletion = 0x0, kTypeValue = 0x1, kTypeSingleDeletion = 0x7, kTypeRangeDeletion = 0xF };
struct BatchOp { OpType type; std::string key, value; };
struct SliceParts { const Slice* parts; int num_parts; SliceParts(const Slice* p, int n) : parts(p), num_parts(n) {} SliceParts() : parts(nullptr), num_parts(0) {}
  std::string str() const { std::string r; for (int i = 0; i < num_parts; i++) r += parts[i].ToString(); return r; } };
class WriteBatchBase {
 public:
  virtual ~WriteBatchBase() {}
  virtual Status Put(const Slice& k, const Slice& v) = 0;
  virtual Status Delete(const Slice& k) = 0;
  virtual Status SingleDelete(const Slice& k) = 0;
  virtual Status DeleteRange(const Slice& b, const Slice& e) = 0;
  Status Put(CFH*, const Slice& k, const Slice& v) { return Put(k, v); }
  Status Put(const SliceParts& k, const SliceParts& v) { return Put(Slice(k.str()), Slice(v.str())); }
  Status Delete(CFH*, const Slice& k) { return Delete(k); }
  Status Delete(const SliceParts& k) { return Delete(Slice(k.str())); }
  Status SingleDelete(CFH*, const Slice& k) { return SingleDelete(k); }
  Status DeleteRange(CFH*, const Slice& b, const Slice& e) { return DeleteRange(b, e); }
  Status PutLogData(const Slice&) { return Status(); }
  virtual void Clear() = 0;
  virtual void SetSavePoint() = 0;
  virtual Status RollbackToSavePoint() = 0;
  virtual Status PopSavePoint() = 0;
};
class WriteBatch : public WriteBatchBase {
 public:
  WriteBatch() {}
  explicit WriteBatch(size_t, size_t = 0) {}
  using WriteBatchBase::Put; using WriteBatchBase::Delete; using WriteBatchBase::SingleDelete; using WriteBatchBase::DeleteRange;
  Status Put(const Slice& k, const Slice& v) override;
  Status Delete(const Slice& k) override;
  Status SingleDelete(const Slice& k) override;
  Status DeleteRange(const Slice& b, const Slice& e) override;
  void Clear() override;
  void SetSavePoint() override { saves.push_back(ops.size()); }
  Status RollbackToSavePoint() override { if (saves.empty()) return Status::NotFound(); ops.resize(saves.back()); saves.pop_back(); return Status(); }
  Status PopSavePoint() override { if (saves.empty()) return Status::NotFound(); saves.pop_back(); return Status(); }
  // what a handler passed to Iterate() may see
  class Handler {
   public:
    virtual ~Handler() {}
    virtual void Put(const Slice&, const Slice&) {}
    virtual void Delete(const Slice&) {}
    virtual void SingleDelete(const Slice&) {}
    virtual bool Continue() { return true; }
  };
  Status Iterate(Handler* h) const;
  uint32_t Count() const { return (uint32_t)ops.size(); }
  size_t GetDataSize() const;
  bool HasPut() const { for (auto& o : ops) if (o.type == kTypeValue) return true; return false; }
  bool HasDelete() const { for (auto& o : ops) if (o.type == kTypeDeletion) return true; return false; }
  WriteBatch* GetWriteBatch() { return this; }
  std::vector<BatchOp> ops;
  std::vector<size_t> saves;
};
class WriteBatchWithIndex : public WriteBatchBase {
 public:
  explicit WriteBatchWithIndex(const Comparator* = nullptr, size_t = 0, bool overwrite = false, size_t = 0) : overwrite_(overwrite) {}
  using WriteBatchBase::Put; using WriteBatchBase::Delete; using WriteBatchBase::SingleDelete; using WriteBatchBase::DeleteRange;
  Status Put(const Slice& k, const Slice& v) override;
  Status Delete(const Slice& k) override;
  Status SingleDelete(const Slice& k) override;
  Status DeleteRange(const Slice&, const Slice&) override { return Status::NotSupported("DeleteRange unsupported in WriteBatchWithIndex"); }
  WriteBatch* GetWriteBatch() { return &batch; }
  void Clear() override;
  void SetSavePoint() override { batch.SetSavePoint(); }
  Status RollbackToSavePoint() override;
  Status PopSavePoint() override { return batch.PopSavePoint(); }
  Status GetFromBatch(const DBOptions&, const Slice& k, std::string* v);
  Status GetFromBatch(CFH*, const DBOptions& o, const Slice& k, std::string* v) { return GetFromBatch(o, k, v); }
  Status GetFromBatchAndDB(DB* db, const ReadOptions&, const Slice& k, std::string* v);
  Status GetFromBatchAndDB(DB* db, const ReadOptions&, const Slice& k, PinnableSlice* v);
  Status GetFromBatchAndDB(DB* db, const ReadOptions& r, CFH*, const Slice& k, std::string* v) { return GetFromBatchAndDB(db, r, k, v); }
  Status GetFromBatchAndDB(DB* db, const ReadOptions& r, CFH*, const Slice& k, PinnableSlice* v) { return GetFromBatchAndDB(db, r, k, v); }
  Iterator* NewIteratorWithBase(Iterator* base);
  Iterator* NewIteratorWithBase(CFH*, Iterator* base, const ReadOptions* = nullptr) { return NewIteratorWithBase(base); }
  size_t GetDataSize() const { return batch.GetDataSize(); }
  WriteBatch batch;
  std::map<std::string, size_t> index;  // key -> last op
 private:
  bool overwrite_;
};
class DB {
 public:
  struct Properties {
    static const std::string kNumFilesAtLevelPrefix, kLevelStats, kCompressionRatioAtLevelPrefix, kStats, kSSTables, kCFStats, kDBStats, kEstimateNumKeys, kBackgroundErrors,
        kNumSnapshots, kNumRunningCompactions, kNumRunningFlushes, kCompactionPending, kMemTableFlushPending, kEstimateLiveDataSize, kTotalSstFilesSize, kCurSizeAllMemTables, kSizeAllMemTables, kIsWriteStopped;
  };
  static Status Open(const Options& o, const std::string& name, DB** out);
  static Status OpenForReadOnly(const Options& o, const std::string& name, DB** out, bool = false);
  static Status ListColumnFamilies(const DBOptions&, const std::string&, std::vector<std::string>* out) { out->assign(1, kDefaultColumnFamilyName); return Status(); }
  virtual ~DB() {}
  virtual Status Put(const WriteOptions&, const Slice& k, const Slice& v) = 0;
  virtual Status Delete(const WriteOptions&, const Slice& k) = 0;
  virtual Status SingleDelete(const WriteOptions&, const Slice& k) = 0;
  virtual Status DeleteRange(const WriteOptions&, CFH*, const Slice& b, const Slice& e) = 0;
  virtual Status Write(const WriteOptions&, WriteBatch* b) = 0;
  virtual Status Get(const ReadOptions&, const Slice& k, std::string* v) = 0;
  virtual Iterator* NewIterator(const ReadOptions&) = 0;
  Status Put(const WriteOptions& w, CFH*, const Slice& k, const Slice& v) { return Put(w, k, v); }
  Status Delete(const WriteOptions& w, CFH*, const Slice& k) { return Delete(w, k); }
  Status SingleDelete(const WriteOptions& w, CFH*, const Slice& k) { return SingleDelete(w, k); }
  Status Get(const ReadOptions& r, CFH*, const Slice& k, std::string* v) { return Get(r, k, v); }
  Status Get(const ReadOptions& r, CFH*, const Slice& k, PinnableSlice* v) { Status st = Get(r, k, v->GetSelf()); v->PinSelf(); return st; }
  Iterator* NewIterator(const ReadOptions& r, CFH*) { return NewIterator(r); }
  std::vector<Status> MultiGet(const ReadOptions& r, const std::vector<Slice>& keys, std::vector<std::string>* v);
  std::vector<Status> MultiGet(const ReadOptions& r, const std::vector<CFH*>&, const std::vector<Slice>& keys, std::vector<std::string>* v) { return MultiGet(r, keys, v); }
  void MultiGet(const ReadOptions& r, CFH*, size_t n, const Slice* keys, PinnableSlice* v, Status* st, bool sorted = false);
  bool KeyMayExist(const ReadOptions& r, const Slice& k, std::string* v, bool* found = nullptr);
  bool KeyMayExist(const ReadOptions& r, CFH*, const Slice& k, std::string* v, bool* found = nullptr) { return KeyMayExist(r, k, v, found); }
  virtual CFH* DefaultColumnFamily() const;
  virtual const std::string& GetName() const = 0;
  virtual const Snapshot* GetSnapshot() = 0;
  virtual void ReleaseSnapshot(const Snapshot*) = 0;
  virtual bool GetProperty(const Slice& p, std::string* v) = 0;
  bool GetProperty(CFH*, const Slice& p, std::string* v) { return GetProperty(p, v); }
  virtual bool GetIntProperty(const Slice& p, uint64_t* v) = 0;
  bool GetIntProperty(CFH*, const Slice& p, uint64_t* v) { return GetIntProperty(p, v); }
  virtual Options GetOptions() const = 0;
  virtual Status SetOptions(const std::unordered_map<std::string, std::string>&) = 0;
  Status SetOptions(CFH*, const std::unordered_map<std::string, std::string>& m) { return SetOptions(m); }
  Status SetDBOptions(const std::unordered_map<std::string, std::string>& m) { return SetOptions(m); }
  virtual Status CompactRange(const CompactRangeOptions&, const Slice*, const Slice*) = 0;
  Status CompactRange(const CompactRangeOptions& o, CFH*, const Slice* a, const Slice* b) { return CompactRange(o, a, b); }
  Status PauseBackgroundWork() { return Status(); }
  Status ContinueBackgroundWork() { return Status(); }
  Status EnableAutoCompaction(const std::vector<CFH*>&) { return Status(); }
  Status Resume() { return Status(); }
  virtual Status Flush(const FlushOptions&) = 0;
  Status Flush(const FlushOptions& o, CFH*) { return Flush(o); }
  virtual Status SyncWAL() = 0;
  virtual Status FlushWAL(bool sync) = 0;
  virtual Status VerifyChecksum() = 0;
  Status VerifyChecksum(const ReadOptions&) { return VerifyChecksum(); }
  virtual SequenceNumber GetLatestSequenceNumber() const = 0;
  virtual Status Close() = 0;
};
struct FlushWALOptions { bool sync = false; };
inline void CancelAllBackgroundWork(DB*, bool = false) {}
Status DestroyDB(const std::string& name, const Options& o);
// releases the snapshot when it goes out of scope
class ManagedSnapshot {
 public:
  explicit ManagedSnapshot(DB* d) : db_(d), s_(d->GetSnapshot()) {}
  ManagedSnapshot(DB* d, const Snapshot* s) : db_(d), s_(s) {}
  ~ManagedSnapshot() { if (s_) db_->ReleaseSnapshot(s_); }
  const Snapshot* snapshot() { return s_; }
 private:
  DB* db_;
  const Snapshot* s_;
};
class Checkpoint {
 public:
  static Status Create(DB* db, Checkpoint** out);
  virtual ~Checkpoint() {}
  virtual Status CreateCheckpoint(const std::string& dir, uint64_t log_size_for_flush = 0, uint64_t* = nullptr);
 private:
  DB* db_ = nullptr;
};
struct KeyVersion { std::string user_key, value; uint64_t sequence; int type; std::string GetTypeName() const { return type == kTypeValue ? "TypeValue" : type == kTypeDeletion ? "TypeDeletion" : "TypeSingleDeletion"; } };
Status GetAllKeyVersions(DB* db, Slice begin, Slice end, size_t max, std::vector<KeyVersion>* out);
class LDBTool { public: void Run(int, char**) {} };
class SSTDumpTool { public: int Run(int, char**) { return 0; } };

// ---- simulator side -----------------------------------------------------------------------
struct SimHooks {
  // called after a batch became visible (node, database directory, operations)
  std::function<void(int, const std::string&, const std::vector<BatchOp>&)> onWrite;
  // called after a database was opened, with its contents
  std::function<void(int, const std::string&, const std::map<std::string, std::string>&)> onOpen;
};
extern SimHooks simHooks;
// contents a freshly opened database would have; false if it could not be opened
bool simDump(const std::string& dir, std::map<std::string, std::string>* out, std::string* err = nullptr);
void simStall(int node, const std::string& dirPart, WriteStallCondition c);
extern std::function<void(int node, const std::string& dir)> g_simVerify;   // told of every checksum verification
void simInit();
uint64_t simOpenCount();
}  // namespace rocksdb
