def m(*pairs): return [{"name": a, "where": b} for a, b in pairs]

p("C01", "WAL records decode to exactly what was written, or are refused",
  "Every WAL record that is encoded and then decoded yields the same sequence number, record kind, provisional id, rows, per-row commit timestamps and commit marker. Bytes that are cut short, or whose magic, version, record kind, length or checksum do not match, are refused with an error and never yield a record.",
  ["inputs"], "for all events (begin, upsert and delete payloads with any batch, commit, abort), all sequence numbers and ids, all truncations and all header or checksum corruptions",
  "unit tests round-trip a few hand-written frames and flip one or two fixed bytes; the statement ranges over all 64-bit values, all payload lengths and all corruptions",
  ["src/wal/frame.rs"],
  m(("FrameHeader encode/decode", "src/wal/frame.rs FrameHeader::{encode_into,decode_from}"), ("payload encode/decode", "src/wal/frame.rs encode_*/decode_frame"), ("commit column append/split", "src/wal/mod.rs")))

p("C02", "WAL replay yields exactly the durable prefix, in order, honouring the floor",
  "Replaying a WAL directory returns every intact record of every segment at or above the requested floor, in segment and append order, each exactly once. A record cut short at the end of the log ends the replay without error and without inventing records, and corruption is reported rather than skipped.",
  ["crash_points", "inputs", "histories"], "for all segment layouts, all floors, and every byte at which a crash may have cut the last segment",
  "tests cut the log at one or two chosen places; a crash can cut at any byte of any layout",
  ["src/wal/replay.rs", "src/wal/storage.rs"],
  m(("segment walk and truncated tail handling", "src/wal/replay.rs Replayer::scan_with_floor"), ("segment listing order", "src/wal/storage.rs list_segments")))

p("C03", "WAL writer: contiguous sequences, acknowledged frames are replayable",
  "Frames accepted by the WAL writer get strictly increasing, gap-free sequence numbers, the acknowledgement names exactly the frames written for that submission, and everything acknowledged as durable is found by a later replay, across segment rotations. No two submissions get the same provisional id. The configured sync policy decides when an acknowledgement may be sent, and a storage failure is reported to the submitter instead of being acknowledged. The frame bounds reported for each segment are those of the frames in it; with a state store configured, the record in it names the same segments and bounds and the last frame before an acknowledgement is sent.",
  ["histories", "schedules", "fault_sequences"], "for all sequences of submissions, batch sizes, sync policies, rotation thresholds and storage failures",
  "tests submit a few frames under one policy each; the guarantee is over every interleaving of submissions, rotations, timer fires and failures",
  ["src/wal/writer.rs", "src/wal/mod.rs", "src/wal/storage.rs"],
  m(("append path and sequence assignment", "src/wal/writer.rs"), ("sync policy decision", "src/wal/writer.rs"), ("rotation", "src/wal/writer.rs")))

p("C04", "WAL garbage collection keeps every segment still needed",
  "Removing WAL segments below a floor removes only segments strictly below it and leaves every other file byte-for-byte intact. The references collected for the manifest name every segment that holds live frames or lies above the persisted floor. Retention by size removes only sealed segments, oldest first, never the active one, and stops as soon as the budget is met.",
  ["histories", "configurations"], "for all sets of segments, floors, retention budgets and pinned segments",
  "tests use three or four segments and one floor; the statement ranges over all layouts and budgets",
  ["src/wal/storage.rs", "src/wal/writer.rs", "src/wal/manifest_ext.rs"],
  m(("prune_below", "src/wal/storage.rs WalStorage::prune_below"), ("retention", "src/wal/writer.rs enforce_retention / segment_required")))

p("C05", "Reopening a WAL tail keeps all complete frames and resumes after them",
  "When an existing WAL segment is reopened, the bytes of every complete frame are kept, an incomplete frame at the end is cut off exactly at the last frame boundary, and numbering of frames and of provisional transactions continues after the largest found. Corruption inside the segment is reported, never cut away silently. Every segment number has a file name of its own, which sorts and reads back as that number.",
  ["crash_points", "inputs"], "for every byte at which the last append may have been interrupted and every sequence of frames before it",
  "tests truncate at one place; the guarantee is for every cut",
  ["src/wal/storage.rs"],
  m(("tail scan and truncation", "src/wal/storage.rs tail_metadata / scan_tail")))

p("C06", "A snapshot read sees the newest version not newer than its timestamp",
  "Scanning the mutable buffer or a sealed in-memory segment at a read timestamp yields, for every key, exactly the row of the newest version whose commit timestamp does not exceed the read timestamp, and yields nothing (or a tombstone) when that version is a delete or none exists. Keys come out in ascending order, each at most once.",
  ["histories", "inputs"], "for all histories of upserts and deletes with arbitrary commit timestamps and all read timestamps",
  "tests write two or three versions and read at a couple of timestamps; visibility must hold for every history and timestamp",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs"],
  m(("mutable scan", "src/inmem/mutable/memtable.rs DynRowScan::next"), ("immutable scan", "src/inmem/immutable/memtable.rs ImmutableVisibleScan::next")))

p("C07", "Sealing the mutable buffer loses and invents nothing",
  "Sealing the mutable buffer yields a segment holding exactly the versions that were inserted (every upsert with its row and commit timestamp, every delete with its timestamp) and leaves the buffer empty. Size, key range and timestamp range reported for the segment cover its contents.",
  ["histories", "inputs"], "for all sequences of inserted batches, deletes and seal points",
  "tests seal one small buffer; losslessness must hold for every mix of duplicates, versions, deletes and batch boundaries",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs"],
  m(("seal_into_immutable", "src/inmem/mutable/memtable.rs"), ("ImmutableMemTable construction", "src/inmem/immutable/memtable.rs")))

p("C08", "Range scans return exactly the keys inside the requested range",
  "A range scan over the mutable buffer or a sealed segment returns the visible rows of exactly the keys that lie inside the requested bounds (a start bound that does not lie past the end bound), for inclusive, exclusive and unbounded ends alike, at every read timestamp.",
  ["inputs"], "for all key sets, all version histories, all pairs of bounds (inclusive, exclusive, unbounded) and read timestamps",
  "tests cover one inclusive and one exclusive range; the composite (key, timestamp) bounds must be right at every boundary key and timestamp",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs"],
  m(("bounds translation", "src/inmem/mutable/memtable.rs lower_bound_for_mutable/upper_bound_for_mutable; src/inmem/immutable/memtable.rs equivalents")))

p("C09", "Write-write conflicts after a snapshot are always detected",
  "The conflict check for a key and snapshot timestamp reports a conflict exactly when the store holds some version of that key, upsert or delete, committed after the snapshot timestamp. It never blames another key and never misses a delete.",
  ["histories", "inputs"], "for all version histories, keys and snapshot timestamps, in the mutable buffer and in sealed segments",
  "tests check one conflicting upsert; a missed conflict for any version order or delete is a lost update",
  ["src/inmem/mutable/memtable.rs", "src/inmem/immutable/memtable.rs", "src/mode/mod.rs"],
  m(("has_conflict", "src/inmem/mutable/memtable.rs DynMem::has_conflict; src/inmem/immutable/memtable.rs ImmutableMemTable::has_conflict")))

p("C10", "Merged scans return each visible key once, newest source and version first",
  "Merging ordered per-source scans yields keys in ascending order, each key at most once, taken from the highest-timestamp version and, for equal timestamps, from the higher-priority source. A key whose winning version is a delete is omitted even if older sources hold rows for it, and a limit of n stops after exactly the first n surviving keys.",
  ["inputs", "histories"], "for all numbers of sources, all interleavings of keys, timestamps, tombstones, and all limits",
  "tests merge two short hand-written streams; correctness is over every interleaving of sources",
  ["src/query/stream/merge.rs", "src/query/stream/mod.rs"],
  m(("heap order", "src/query/stream/merge.rs HeapEntry::cmp"), ("dedup, tombstone, limit", "src/query/stream/merge.rs MergeStream::poll_next")))

p("C11", "Keys are totally ordered and equality, hashing and order agree",
  "Comparing keys is a total order: reflexive, antisymmetric, transitive and total over all supported key types and composite keys; keys compare equal exactly when they are equal, and equal keys hash alike. A version (key, timestamp) orders by key ascending and then by timestamp descending, and borrowed and owned forms of a key agree on all of this. The stored (serialised) form of a key reads back as the same key.",
  ["inputs"], "for all keys of every supported column type, null cells and composites included",
  "tests compare a few pairs; total-order laws quantify over all triples, and the skip lists, merges and binary searches are only correct if they hold",
  ["src/key/row.rs", "src/key/owned.rs", "src/key/ts.rs"],
  m(("cell comparison", "src/key/row.rs dyn_rows_cmp / dyn_rows_equal / dyn_rows_hash"), ("version order", "src/key/ts.rs")))

p("C12", "An SSTable holds exactly what was flushed into it, sorted, with true statistics",
  "Flushing staged segments writes a table whose rows and delete markers are exactly the staged ones, ordered by key ascending and then commit timestamp descending, and whose recorded row count, key range, timestamp range and tombstone count describe that content. Tables of different numbers or levels never share a file. Scanning the table at a timestamp returns each key's newest row version visible at that timestamp, hiding keys whose newest visible version is a delete.",
  ["inputs", "histories"], "for all sets of staged segments, overlapping keys, versions and deletes, and all read timestamps",
  "tests flush one or two tiny segments; statistics feed pruning, so they must cover every possible content",
  ["src/ondisk/sstable.rs", "src/ondisk/scan.rs"],
  m(("staging and finish", "src/ondisk/sstable.rs ParquetTableWriter"), ("stats accumulation", "src/ondisk/sstable.rs StagedTableStats"), ("visibility scan", "src/ondisk/scan.rs SstableScan")))

p("C13", "Compaction merges preserve every key's latest state",
  "Merging SSTables in a compaction produces outputs that hold, for each key of the inputs, its newest version, be it row or delete marker, exactly once, in key order and split only at the configured caps, and nothing that was not in the inputs. The recorded statistics of every output describe its contents.",
  ["inputs", "histories"], "for all sets of input tables, batch boundaries, versions, deletes and output caps",
  "tests merge two or three tiny tables; loss shows only for particular interleavings of keys, deletes and batch boundaries",
  ["src/ondisk/merge.rs"],
  m(("merge order", "src/ondisk/merge.rs HeapEntry::cmp"), ("per-source cursor", "src/ondisk/merge.rs SourceCursor"), ("output accumulation and split", "src/ondisk/merge.rs OutputState")))

p("C14", "Compaction planning picks eligible, overlap-closed inputs",
  "A compaction plan names only tables that exist at the planned source and target levels, never names a table twice, respects thresholds and input caps, moves data to exactly the next level, and, for plans out of level 1 and below, includes every next-level table whose key range overlaps a selected table with known range. When no level exceeds its threshold no plan is produced.",
  ["inputs", "configurations"], "for all level layouts (table counts, sizes, key ranges, missing statistics) and all planner configurations",
  "tests plan for a handful of layouts; a missed overlap for some layout would let an old version resurface",
  ["src/compaction/planner.rs"],
  m(("leveled planner", "src/compaction/planner.rs LeveledCompactionPlanner::plan / plan_l0 / plan_leveled_from"), ("run selection", "src/compaction/planner.rs select_compaction_run / aggregate_key_range")))

p("C15", "A compaction outcome changes exactly the planned tables and keeps needed WAL",
  "Publishing a compaction outcome removes exactly the input tables and adds exactly the outputs at the target level, each under a table number no other output was given, and a version edit sequence applied to a version changes only what the edits name. The WAL segments recorded afterwards still include every segment that a remaining table refers to, and the floor never moves past a needed segment.",
  ["inputs", "histories"], "for all versions, inputs, outputs and WAL reference sets",
  "tests publish one compaction; the bookkeeping must be right for every set of tables and references",
  ["src/compaction/executor.rs", "src/compaction/orchestrator.rs", "src/manifest/domain.rs"],
  m(("edits", "src/compaction/executor.rs CompactionOutcome::to_version_edits"), ("wal reconciliation", "src/compaction/orchestrator.rs"), ("edit application", "src/manifest/domain.rs VersionState::apply_edits")))

p("C16", "Manifest updates are atomic, ordered and never overwrite a concurrent commit",
  "An update publishes all of its edits or none; a compare-and-set update succeeds only if the table's head still is the one expected, and otherwise, like an update whose edits cannot be applied, reports an error and changes nothing. Every published version is listed newest first with increasing timestamps, and a snapshot taken at any time shows one published version in full together with the WAL floor it implies.",
  ["schedules", "histories"], "for all interleavings of publishers on one table and all edit sequences",
  "tests run one or two publishers; lost updates appear only under particular interleavings",
  ["src/manifest/driver.rs", "src/manifest/domain.rs"],
  m(("apply with head check", "src/manifest/driver.rs"), ("version list and snapshot", "src/manifest/driver.rs")))

p("C17", "Commit timestamps never repeat or go backwards",
  "Every commit timestamp handed out is strictly greater than all handed out before and than every timestamp the clock was told had been used, for any number of concurrent callers; a read view taken at any time covers every commit already handed out and no later one.",
  ["schedules", "histories"], "for all interleavings of allocation, advancement and reads, up to the end of the 64-bit range",
  "tests call the clock a few times from one thread",
  ["src/mvcc/mod.rs"],
  m(("commit clock", "src/mvcc/mod.rs CommitClock")))

p("C18", "Pruning by key range or timestamp never drops a matching row",
  "If a key satisfies all of several bounds it lies in their intersection, if it satisfies any it lies in their envelope, and a segment or row that could contain a matching key or a version visible at the read timestamp (including delete markers) is never pruned. A row selection yields exactly its selected rows, in order, and intersecting selections keeps exactly the common rows.",
  ["inputs"], "for all bounds, key ranges, segment sets, read timestamps and row selections",
  "tests check a few intervals; a missing boundary case silently drops rows or resurrects deleted ones",
  ["src/query/scan.rs", "src/inmem/immutable/mod.rs"],
  m(("bound algebra", "src/query/scan.rs KeyBounds"), ("row sets", "src/query/scan.rs RowSet"), ("segment pruning", "src/inmem/immutable/mod.rs prune_segments"), ("prefix successor", "src/query/scan.rs next_prefix_string")))

p("C19", "A transaction reads its own writes and stages the last write per key",
  "Within a transaction the staged state of a key is that of its last staged operation, upsert or delete, and reads inside the transaction see staged rows and hide staged deletes over the snapshot, other keys being unaffected. The staged batches handed to commit contain exactly the staged upserts and deletes, each key once.",
  ["histories", "inputs"], "for all sequences of staged operations and all snapshot contents",
  "tests stage a few operations; last-write-wins must hold for every sequence",
  ["src/transaction/mod.rs"],
  m(("staging", "src/transaction/mod.rs StagedMutations"), ("overlay scan", "src/transaction/mod.rs TransactionScan")))

p("C20", "Coalesced and cached reads return the bytes and metadata of the request",
  "Reading several byte ranges at once returns for each range exactly the bytes that reading it alone would return, in request order, whatever the overlap or gaps. The metadata and bloom-filter caches return for a key only what was last stored for that key, never hold more than their capacity, and make room by dropping the entry stored first. A bloom filter handed out for a column chunk is the one the file stores for it.",
  ["inputs", "histories"], "for all lists of ranges (overlapping, adjacent, unsorted, empty) and all access histories",
  "tests read two ranges and cache two entries",
  ["src/ondisk/bloom.rs"],
  m(("range coalescing", "src/ondisk/bloom.rs BatchedAsyncReader::get_byte_ranges"), ("caches", "src/ondisk/bloom.rs / src/ondisk/metadata.rs")))

p("C21", "Key extraction projects exactly the declared key columns",
  "Keys taken from a batch consist of exactly the declared key columns, in declared order, with the values of the named row; schemas that name a missing or unsupported key column are rejected, and a row with a null key component is refused; the same key is obtained whether it is read from a data batch, a delete batch or the declared key schema; and the declaration written back into the schema metadata declares the same key.",
  ["inputs", "configurations"], "for all schemas, key column choices and batches",
  "tests use one or two schemas; every key-ordered structure depends on extraction being consistent",
  ["src/extractor/extractors.rs", "src/schema.rs", "src/mode/dyn_config.rs"],
  m(("projection", "src/extractor/extractors.rs"), ("schema metadata", "src/mode/dyn_config.rs")))

p("C22", "Follow-up compactions stay within their configured budget",
  "Cascaded compactions triggered by a finished one are admitted only within the configured number and only after the configured cooldown, and a new budget is granted exactly when a fresh trigger resets it. The scheduler takes a job exactly when fewer jobs than its capacity wait, hands the oldest waiting jobs out unchanged, each under a lease of its own and no more of them per round than the round's budget, and ends a round only after the jobs it started have ended. The seal policies fire exactly when the configured rows, bytes, batches or age are reached, and the figures they read are those of the writes since the last seal.",
  ["histories", "configurations"], "for all sequences of triggers, times and configurations",
  "tests try one budget and one cooldown",
  ["src/compaction/scheduler.rs", "src/compaction/driver.rs", "src/inmem/policy.rs", "src/inmem/mutable/memtable.rs"],
  m(("cascade control", "src/compaction/driver.rs CascadeControl"), ("queue and rounds", "src/compaction/scheduler.rs CompactionScheduler"), ("write figures", "src/inmem/mutable/memtable.rs build_stats"), ("seal policy", "src/inmem/policy.rs")))

p("C23", "Acknowledged writes survive a crash; unfinished transactions leave no trace",
  "With the write-ahead log enabled and strict acknowledgement, every ingest or transaction whose call returned success is in the log, closed by its commit marker and durable, before it becomes visible in memory. Recovery applies exactly the transactions whose commit marker is in the log, each with all its upserts and deletes and at its own commit timestamp, and nothing of a transaction that was not committed or was aborted, so reopening after a crash at any point shows every acknowledged write and no part of an unfinished one. The commit clock resumes above every timestamp recovered from the log or already flushed, so later writes are not hidden by earlier ones.",
  ["crash_points", "histories"], "for every history of ingests and transactions and every byte at which the log may end",
  "a test crashes at a few chosen points; the guarantee is for every history and every prefix of the log",
  ["src/db/wal.rs", "src/db/mod.rs", "src/transaction/mod.rs"],
  m(("recovery", "src/db/wal.rs")))

p("C24", "Filtered scans return exactly the rows whose predicate is true",
  "A scan delivers, in merge order, exactly the merged rows for which its predicate is true, each with the values of the requested columns, in non-empty batches no larger than the configured size and up to the row limit. Predicates follow three-valued logic: a missing or null operand, or operands that do not compare, give unknown, and only true keeps a row. Numbers of different types compare by exact mathematical value (an integer is never rounded to a float), and literals of a column's own date, time, timestamp or duration type compare as such. A predicate that cannot be evaluated on a row, because it names a column the scan does not have or is of a kind the filter does not support, is reported as an error and never silently drops or keeps the row.",
  ["inputs", "configurations"], "for all rows, predicates, limits, batch sizes and column choices",
  "tests filter a handful of rows with one operator; the interplay of nulls, negation, mixed numeric types, limits and batch boundaries is unbounded",
  ["src/query/stream/package.rs"],
  m(("batches and limits", "src/query/stream/package.rs PackageStream"), ("predicate evaluation", "src/query/stream/package.rs ResidualEvaluator"), ("number comparison", "src/query/stream/package.rs compare_scalar_values")))

p("C25", "The catalog gives every table name one identity and never redefines a table",
  "Registering a table whose name the catalog does not hold adds exactly that table, under an id no registered table has and with the given definition, and leaves every other table as it was. Registering a known name returns the existing table's metadata if schema fingerprint, key columns, schema version and retention all agree, and otherwise reports a conflict and changes nothing; in particular the table's versions stay. No name ever stands for two tables and no table disappears or changes its definition, also when several processes register at once or a failed registration is repeated. Initialising a catalog that exists changes nothing. A snapshot carries the metadata its table was registered with. Recording a collection plan replaces that table's plan and no other. Each of the three manifests of a database keeps its objects in a directory of its own below the database's root, the same one on every opening. The schema fingerprints of two tables agree exactly when their schemas do: same columns in the same order, same types, nullability and metadata. The definition a table is registered with carries its schema's fingerprint and its key columns in key order.",
  ["histories", "schedules"], "for all sequences of registrations, definitions and interleavings of several processes",
  "one test registers a table twice; identity must hold for every history of definitions and every race between processes",
  ["src/manifest/driver.rs", "src/manifest/bootstrap.rs", "src/mode/mod.rs"],
  m(("registration", "src/manifest/driver.rs register_table / find_table_by_name / ensure_table_compat"), ("bundle", "src/manifest/bootstrap.rs TonboManifest"), ("layout", "src/manifest/bootstrap.rs init_fs_manifest")))

p("C26", "A scan of the database delivers the newest visible version of every matching key and nothing else",
  "A scan at a snapshot (of the database, of a held snapshot, or of a transaction with its staged writes on top) delivers exactly one row per key: the newest version committed at or before the snapshot, unless that is a delete, and only if the predicate is true of it, no matter how the versions are spread over the mutable memtable, sealed segments and stored tables. No source is skipped that holds a version the answer depends on; what key ranges and row filters do not decide is filtered after versions are merged; a limit counts delivered rows only; the columns a filter needs are read even when they are not asked for; staged writes win over committed ones. The same scan gives the same answer before and after a flush.",
  ["inputs", "histories", "configurations"], "for all histories of writes, deletes, seals and flushes, snapshots, predicates, projections and limits",
  "tests scan a few rows in one or two places with one predicate; the guarantee is over every placement of versions and every predicate's split between sources",
  ["src/db/scan.rs", "src/query/scan.rs", "src/ondisk/sstable.rs", "src/query/stream"],
  m(("planning", "src/db/scan.rs plan_scan_with_context"), ("residual of memory scans", "src/db/scan.rs split_predicate_for_non_sst"), ("row filter split", "src/ondisk/sstable.rs split_predicate_for_row_filter"), ("streams and limits", "src/db/scan.rs build_scan_streams / execute_with_txn_scan")))
