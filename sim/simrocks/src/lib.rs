//! The part of the `rocksdb` 0.18 API a key-value user needs, on a simulated disk.
//! Databases are found by path in a registry local to the simulation thread.
use simcore::{lock, Call, Durability, Outcome, SharedDisk};
type Write = simcore::Write;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::path::{Path, PathBuf};

thread_local! {
    static REGISTRY: RefCell<BTreeMap<PathBuf, SharedDisk>> = const { RefCell::new(BTreeMap::new()) };
}

/// Control plane of the simulator.
pub mod sim {
    use super::*;
    pub fn reset() {
        REGISTRY.with(|r| r.borrow_mut().clear());
    }
    pub fn disk(path: &Path) -> SharedDisk {
        REGISTRY.with(|r| r.borrow_mut().entry(path.to_path_buf()).or_default().clone())
    }
    pub fn register(path: &Path, disk: SharedDisk) {
        REGISTRY.with(|r| r.borrow_mut().insert(path.to_path_buf(), disk));
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}

impl Error {
    fn new(m: &str) -> Self {
        Self { message: m.to_owned() }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.into_string()
    }
}
impl std::error::Error for Error {}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.message.fmt(f)
    }
}

/// Settings that only steer performance are accepted and ignored.
macro_rules! ignored {
    ($t:ty: $($f:ident($a:ty)),* $(,)?) => {
        impl $t {
            $(pub fn $f(&mut self, _: $a) {})*
        }
    };
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum LogLevel {
    Debug,
    Info,
    Warn,
    Error,
    Fatal,
    Header,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum DBCompactionStyle {
    Level,
    Universal,
    Fifo,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum BlockBasedIndexType {
    BinarySearch,
    HashSearch,
    TwoLevelIndexSearch,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum DataBlockIndexType {
    BinarySearch,
    BinaryAndHash,
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum DBRecoveryMode {
    TolerateCorruptedTailRecords,
    AbsoluteConsistency,
    PointInTime,
    SkipAnyCorruptedRecord,
}

#[derive(Clone)]
pub struct Cache;
impl Cache {
    pub fn new_lru_cache(_: usize) -> Result<Self, Error> {
        Ok(Self)
    }
}

#[derive(Default)]
pub struct BlockBasedOptions;
impl BlockBasedOptions {
    pub fn set_block_cache(&mut self, _: &Cache) {}
    pub fn disable_cache(&mut self) {}
    pub fn set_bloom_filter(&mut self, _: f64, _: bool) {}
    pub fn set_index_type(&mut self, _: BlockBasedIndexType) {}
    pub fn set_data_block_index_type(&mut self, _: DataBlockIndexType) {}
}

#[derive(Clone)]
pub struct Options {
    create: bool,
    fail_if_exists: bool,
    manual_wal_flush: bool,
    skip_corrupt: bool,
}
impl Default for Options {
    fn default() -> Self {
        Self { create: false, fail_if_exists: false, manual_wal_flush: false, skip_corrupt: false }
    }
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.fail_if_exists = v;
    }
    pub fn set_manual_wal_flush(&mut self, v: bool) {
        self.manual_wal_flush = v;
    }
    pub fn set_wal_recovery_mode(&mut self, mode: DBRecoveryMode) {
        self.skip_corrupt = mode == DBRecoveryMode::SkipAnyCorruptedRecord;
    }
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_bottommost_compression_type(&mut self, _: DBCompressionType) {}
    pub fn set_compression_per_level(&mut self, _: &[DBCompressionType]) {}
    pub fn set_log_level(&mut self, _: LogLevel) {}
    pub fn set_compaction_style(&mut self, _: DBCompactionStyle) {}
    pub fn set_block_based_table_factory(&mut self, _: &BlockBasedOptions) {}
    pub fn set_row_cache(&mut self, _: &Cache) {}
    pub fn prepare_for_bulk_load(&mut self) {}
    pub fn enable_statistics(&mut self) {}
    pub fn set_db_log_dir<P: AsRef<Path>>(&mut self, _: P) {}
    pub fn set_wal_dir<P: AsRef<Path>>(&mut self, _: P) {}
}

#[derive(Default)]
pub struct WriteOptions {
    sync: bool,
    no_wal: bool,
}
impl WriteOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_sync(&mut self, sync: bool) {
        self.sync = sync;
    }
    pub fn disable_wal(&mut self, disable: bool) {
        self.no_wal = disable;
    }
}

#[derive(Default)]
pub struct ReadOptions;
impl ReadOptions {
    pub fn set_iterate_upper_bound<K: Into<Vec<u8>>>(&mut self, _: K) {}
    pub fn set_iterate_lower_bound<K: Into<Vec<u8>>>(&mut self, _: K) {}
}

#[derive(Default)]
pub struct FlushOptions;
impl FlushOptions {
    pub fn new() -> Self {
        Self
    }
}

ignored!(BlockBasedOptions:
    set_block_size(usize),
    set_metadata_block_size(usize),
    set_partition_filters(bool),
    set_lru_cache(usize),
    set_lru_cache_compressed(usize),
    set_ribbon_filter(f64),
    set_cache_index_and_filter_blocks(bool),
    set_pin_l0_filter_and_index_blocks_in_cache(bool),
    set_pin_top_level_index_and_filter(bool),
    set_format_version(i32),
    set_block_restart_interval(i32),
    set_index_block_restart_interval(i32),
    set_data_block_hash_ratio(f64),
    set_whole_key_filtering(bool),
);
ignored!(Options:
    increase_parallelism(i32),
    optimize_level_style_compaction(usize),
    optimize_universal_style_compaction(usize),
    create_missing_column_families(bool),
    set_paranoid_checks(bool),
    set_zstd_max_train_bytes(i32),
    set_compaction_readahead_size(usize),
    set_level_compaction_dynamic_level_bytes(bool),
    optimize_for_point_lookup(u64),
    set_optimize_filters_for_hits(bool),
    set_delete_obsolete_files_period_micros(u64),
    set_max_open_files(i32),
    set_max_file_opening_threads(i32),
    set_use_fsync(bool),
    set_bytes_per_sync(u64),
    set_wal_bytes_per_sync(u64),
    set_writable_file_max_buffer_size(u64),
    set_allow_concurrent_memtable_write(bool),
    set_enable_write_thread_adaptive_yield(bool),
    set_max_sequential_skip_in_iterations(u64),
    set_use_direct_reads(bool),
    set_use_direct_io_for_flush_and_compaction(bool),
    set_is_fd_close_on_exec(bool),
    set_allow_os_buffer(bool),
    set_table_cache_num_shard_bits(i32),
    set_target_file_size_multiplier(i32),
    set_min_write_buffer_number(i32),
    set_max_write_buffer_number(i32),
    set_write_buffer_size(usize),
    set_db_write_buffer_size(usize),
    set_max_bytes_for_level_base(u64),
    set_max_bytes_for_level_multiplier(f64),
    set_max_manifest_file_size(usize),
    set_target_file_size_base(u64),
    set_min_write_buffer_number_to_merge(i32),
    set_level_zero_file_num_compaction_trigger(i32),
    set_level_zero_slowdown_writes_trigger(i32),
    set_level_zero_stop_writes_trigger(i32),
    set_unordered_write(bool),
    set_max_subcompactions(u32),
    set_max_background_jobs(i32),
    set_max_background_compactions(i32),
    set_max_background_flushes(i32),
    set_disable_auto_compactions(bool),
    set_memtable_huge_page_size(usize),
    set_max_successive_merges(usize),
    set_bloom_locality(u32),
    set_inplace_update_support(bool),
    set_inplace_update_locks(usize),
    set_skip_checking_sst_file_sizes_on_db_open(bool),
    set_max_write_buffer_size_to_maintain(i64),
    set_enable_pipelined_write(bool),
    set_min_level_to_compress(i32),
    set_report_bg_io_stats(bool),
    set_max_total_wal_size(u64),
    set_stats_dump_period_sec(u32),
    set_stats_persist_period_sec(u32),
    set_advise_random_on_open(bool),
    set_use_adaptive_mutex(bool),
    set_num_levels(i32),
    set_memtable_prefix_bloom_ratio(f64),
    set_max_compaction_bytes(u64),
    set_wal_ttl_seconds(u64),
    set_wal_size_limit_mb(u64),
    set_manifest_preallocation_size(usize),
    set_skip_stats_update_on_db_open(bool),
    set_keep_log_file_num(usize),
    set_allow_mmap_writes(bool),
    set_allow_mmap_reads(bool),
    set_atomic_flush(bool),
    set_max_log_file_size(usize),
    set_log_file_time_to_roll(usize),
    set_recycle_log_file_num(usize),
    set_soft_pending_compaction_bytes_limit(usize),
    set_hard_pending_compaction_bytes_limit(usize),
    set_arena_block_size(usize),
    set_dump_malloc_stats(bool),
    set_memtable_whole_key_filtering(bool),
);
ignored!(WriteOptions:
    set_ignore_missing_column_families(bool),
    set_no_slowdown(bool),
    set_low_pri(bool),
    set_memtable_insert_hint_per_batch(bool),
);
ignored!(ReadOptions:
    fill_cache(bool),
    set_prefix_same_as_start(bool),
    set_total_order_seek(bool),
    set_max_skippable_internal_keys(u64),
    set_background_purge_on_iterator_cleanup(bool),
    set_ignore_range_deletions(bool),
    set_verify_checksums(bool),
    set_readahead_size(usize),
    set_tailing(bool),
    set_pin_data(bool),
);
ignored!(FlushOptions:
    set_wait(bool),
);

pub trait WriteBatchIterator {
    fn put(&mut self, key: Box<[u8]>, value: Box<[u8]>);
    fn delete(&mut self, key: Box<[u8]>);
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Vec<Write>,
}
impl WriteBatch {
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn size_in_bytes(&self) -> usize {
        12 + self
            .ops
            .iter()
            .map(|w| match w {
                Write::Put(k, v) => k.len() + v.len() + 3,
                Write::Del(k) => k.len() + 2,
                Write::DelRange(k, to) => k.len() + to.len() + 3,
            })
            .sum::<usize>()
    }
    pub fn iterate(&self, cb: &mut dyn WriteBatchIterator) {
        for w in &self.ops {
            match w {
                Write::Put(k, v) => cb.put(k.clone().into(), v.clone().into()),
                Write::Del(k) => cb.delete(k.clone().into()),
                Write::DelRange(..) => {}
            }
        }
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {
        self.ops.push(Write::Put(key.as_ref().to_vec(), value.as_ref().to_vec()));
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {
        self.ops.push(Write::Del(key.as_ref().to_vec()));
    }
    pub fn delete_range<K: AsRef<[u8]>>(&mut self, from: K, to: K) {
        self.ops.push(Write::DelRange(from.as_ref().to_vec(), to.as_ref().to_vec()));
    }
    pub fn clear(&mut self) {
        self.ops.clear();
    }
}

pub struct DBPinnableSlice(Vec<u8>);
impl std::ops::Deref for DBPinnableSlice {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBPinnableSlice {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

/// A consistent view of the database at one moment.
pub struct Snapshot<'a> {
    _db: &'a DB,
    map: BTreeMap<Vec<u8>, Vec<u8>>,
}
impl Snapshot<'_> {
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        // The call itself can fail like any other read
        lock(&self._db.disk).read(key.as_ref()).map_err(|()| io())?;
        Ok(self.map.get(key.as_ref()).cloned())
    }
}

pub struct DB {
    disk: SharedDisk,
    path: PathBuf,
    manual_wal_flush: bool,
}
pub type DBWithThreadMode = DB;

impl Drop for DB {
    fn drop(&mut self) {
        let mut d = lock(&self.disk);
        d.open_handles = d.open_handles.saturating_sub(1);
        d.close();
    }
}

fn io() -> Error {
    Error::new("IO error: simulated")
}

impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let mut options = Options::default();
        options.create_if_missing(true);
        Self::open(&options, path)
    }
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<Self, Error> {
        let path = path.as_ref().to_path_buf();
        let disk = sim::disk(&path);
        {
            let mut d = lock(&disk);
            if d.open_handles > 0 {
                return Err(Error::new("IO error: While lock file: LOCK: Resource temporarily unavailable"));
            }
            if d.open() == Outcome::Fail {
                return Err(io());
            }
            if d.created && opts.fail_if_exists {
                return Err(Error::new("Invalid argument: exists (error_if_exists is true)"));
            }
            if !d.created && !opts.create {
                return Err(Error::new("Invalid argument: does not exist (create_if_missing is false)"));
            }
            d.created = true;
            d.skip_corrupt = opts.skip_corrupt;
            d.open_handles += 1;
        }
        Ok(Self { disk, path, manual_wal_flush: opts.manual_wal_flush })
    }
    pub fn destroy<P: AsRef<Path>>(_opts: &Options, path: P) -> Result<(), Error> {
        REGISTRY.with(|r| r.borrow_mut().remove(path.as_ref()));
        Ok(())
    }
    pub fn repair<P: AsRef<Path>>(_opts: &Options, _path: P) -> Result<(), Error> {
        Ok(())
    }
    pub fn open_for_read_only<P: AsRef<Path>>(opts: &Options, path: P, _error_if_log_file_exists: bool) -> Result<Self, Error> {
        Self::open(opts, path)
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        lock(&self.disk).read(key.as_ref()).map_err(|()| io())
    }
    pub fn get_opt<K: AsRef<[u8]>>(&self, key: K, _: &ReadOptions) -> Result<Option<Vec<u8>>, Error> {
        self.get(key)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBPinnableSlice>, Error> {
        Ok(self.get(key)?.map(DBPinnableSlice))
    }
    pub fn get_pinned_opt<K: AsRef<[u8]>>(&self, key: K, _: &ReadOptions) -> Result<Option<DBPinnableSlice>, Error> {
        self.get_pinned(key)
    }
    pub fn multi_get<K: AsRef<[u8]>, I: IntoIterator<Item = K>>(&self, keys: I) -> Vec<Result<Option<Vec<u8>>, Error>> {
        keys.into_iter().map(|k| self.get(k)).collect()
    }
    pub fn key_may_exist<K: AsRef<[u8]>>(&self, key: K) -> bool {
        lock(&self.disk).map.contains_key(key.as_ref())
    }
    fn record(&self, call: Call, ops: Vec<Write>, o: &WriteOptions) -> Result<(), Error> {
        let durability = if o.no_wal {
            Durability::Unlogged
        } else if self.manual_wal_flush {
            Durability::Buffered
        } else {
            Durability::Logged
        };
        let mut d = lock(&self.disk);
        if d.write_as(call, ops, durability) == Outcome::Fail {
            return Err(io());
        }
        if o.sync && !o.no_wal {
            d.sync_log();
        }
        Ok(())
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.write_opt(batch, &WriteOptions::default())
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        self.record(Call::Commit, batch.ops, o)
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        let mut o = WriteOptions::default();
        o.disable_wal(true);
        self.write_opt(batch, &o)
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.put_opt(key, value, &WriteOptions::default())
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V, o: &WriteOptions) -> Result<(), Error> {
        self.record(Call::Put, vec![Write::Put(key.as_ref().to_vec(), value.as_ref().to_vec())], o)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.delete_opt(key, &WriteOptions::default())
    }
    pub fn delete_opt<K: AsRef<[u8]>>(&self, key: K, o: &WriteOptions) -> Result<(), Error> {
        self.record(Call::Delete, vec![Write::Del(key.as_ref().to_vec())], o)
    }
    pub fn snapshot(&self) -> Snapshot<'_> {
        Snapshot { _db: self, map: lock(&self.disk).map.clone() }
    }
    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _: Option<S>, _: Option<E>) {}
    pub fn set_options(&self, _: &[(&str, &str)]) -> Result<(), Error> {
        Ok(())
    }
    pub fn property_value(&self, _: &str) -> Result<Option<String>, Error> {
        Ok(None)
    }
    pub fn property_int_value(&self, _: &str) -> Result<Option<u64>, Error> {
        Ok(None)
    }
    pub fn cancel_all_background_work(&self, _: bool) {}
    pub fn flush(&self) -> Result<(), Error> {
        let mut d = lock(&self.disk);
        if d.dead {
            return Err(io());
        }
        d.sync();
        Ok(())
    }
    pub fn flush_opt(&self, _: &FlushOptions) -> Result<(), Error> {
        self.flush()
    }
    pub fn flush_wal(&self, sync: bool) -> Result<(), Error> {
        let mut d = lock(&self.disk);
        if d.dead {
            return Err(io());
        }
        d.flush_log();
        if sync {
            d.sync_log();
        }
        Ok(())
    }
    pub fn latest_sequence_number(&self) -> u64 {
        lock(&self.disk).log_len() as u64
    }
    pub fn iterator(&self, mode: IteratorMode) -> std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)> {
        let d = lock(&self.disk);
        let mut v: Vec<(Box<[u8]>, Box<[u8]>)> =
            d.map.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect();
        match mode {
            IteratorMode::Start => {}
            IteratorMode::End => v.reverse(),
            IteratorMode::From(from, Direction::Forward) => v.retain(|x| x.0.as_ref() >= from),
            IteratorMode::From(from, Direction::Reverse) => {
                v.retain(|x| x.0.as_ref() <= from);
                v.reverse();
            }
        }
        v.into_iter()
    }
}
