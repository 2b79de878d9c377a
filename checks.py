"""Per property: proof units (proofs/<unit>.rs.in), level, bound of the harness, assumptions."""
CHECKS = {
    "C01": dict(units=["c01_frame", "c01_commit"], level="proof",
                bound="random commands with batches of up to 300 rows; every truncation of small frames; bit flips of every checked header field",
                assumptions=["Arrow IPC encode/decode of one record batch are inverse (assumed contract, exercised by the harness)",
                             "append/split of the commit column are inverse: proved in unit c01_commit over a model of Arrow batches (named columns of values, uint64 column without gaps), used as a contract in c01_frame",
                             "CRC32C is an uninterpreted function: corruption that keeps the checksum is out of scope"]),
    "C17": dict(units=["c17_clock"], level="proof",
                bound="sequential histories of up to 30 operations; 2 to 5 threads with 400 operations each",
                assumptions=["atomic read-modify-write operations on one location are linearizable (rely-guarantee contracts on AtomicU64)",
                             "fewer than 2^64 timestamps are allocated (the counter does not wrap)"]),
    "C22": dict(units=["c22_policy", "c22_sched", "c22_stats"], level="proof",
                bound="histories of up to 40 attempts and resets, of up to 40 admissions and rounds on queues of up to 5 jobs; statistics around each threshold, and after up to 12 writes and seals",
                assumptions=["a futures channel holds its buffer plus one job per sender, first in first out; FuturesUnordered yields every pushed job once; the jobs of a round are those waiting when it looks (admissions during a round count as before or after it)",
                             "the scheduler's async mutex is dropped: one admission at a time; a lease id drawn by Ulid::new is not drawn again",
                             "Duration/Instant compare as nanosecond counts", "key bytes plus entries times overhead fits usize", "the memtable's counters are written by one thread at a time (under its write lock), read without a write in between; the key count and key bytes fit usize",
                             "Arc<dyn SealPolicy> inside AnyOf is an arbitrary function of the statistics"]),
    "C14": dict(units=["c14_planner"], level="proof",
                bound="layouts of up to 4 levels with up to 14 tables each, with and without missing statistics; 6 planning calls per layout",
                assumptions=["slice::sort_by permutes its input (its order is not relied on)",
                             "key order: the derived-from-components order on KeyOwned is a total order (property C11), here an axiom",
                             "the byte totals of one level fit usize; fewer than usize::MAX levels",
                             "slice iteration `a.iter().copied().chain(b)` is list concatenation"]),
    "C11": dict(units=["c11_key"], level="proof",
                bound="composite keys of up to 3 components and 7 rows over all scalar key types, with NaN, signed zeros, extreme integers, non-ASCII text; all pairs compared in all forms",
                assumptions=["DynRowOwned/DynRowRaw conversions of typed-arrow-dyn keep every component",
                             "IEEE partial_cmp/==/is_nan/to_bits: non-NaN floats embed in the integers, both zeros alike",
                             "slice::from_raw_parts reads the bytes the cell points to (cell validity is the unsafe contract)",
                             "slice comparison is lexicographic; Hash writes the value to the hasher",
                             "derived PartialEq/Hash of KeyTsOwned and Timestamp; nested (struct, list, union) components are excluded from the contract"]),
    "C18": dict(units=["c18_prune"], level="proof",
                bound="all bounds over 5 keys of two key types (exhaustive algebra); random predicates of depth up to 2 over 12 key types and all literal types; row selections of up to 13 rows; memtable histories of up to 16 operations",
                assumptions=["key order is total and antisymmetric (property C11, proved in its own unit), here an axiom",
                             "KeyOwned::from(x) is the key of x's own type and value; strings compare by code points (UTF-8 bytes order alike)",
                             "parquet RowSelection: row_count, intersection, union and from_consecutive_ranges act on the row mask",
                             "Iterator::min/max return a least/greatest element; NaN literals are outside the value model of predicates",
                             "a sealed segment's index agrees with its timestamp columns (the segment invariant, established by sealing: C07)"]),
    "C06": dict(units=["c06_scan"], level="proof",
                bound="memtable histories of up to 14 upserts, deletes and seals over string, integer and composite keys with 2 to 13 slots; every interesting read timestamp",
                assumptions=["key order is total and antisymmetric and owned and borrowed keys agree (property C11), here an axiom",
                             "BTreeMap and SkipMap iterate their entries in ascending key order; the index does not change during one scan",
                             "typed-arrow-dyn projects the row it is asked for",
                             "every indexed row lies in a filled slot / in the segment's columns (established by inserts and sealing: C07)"]),
    "C07": dict(units=["c07_seal"], level="proof",
                bound="histories of up to 20 inserts, deletes, rejected batches and seals over three key kinds with 1 to 8 slots; every segment compared with the model, including its reported size and ranges",
                assumptions=["inserters are exclusive: parking_lot's upgradable lock admits one at a time (the shared self of the insert functions is treated as exclusive)",
                             "Arrow: slice, concat_batches, RecordBatch::try_new keep rows; KeyProjection is a function of the row (C21); dropping the commit column keeps the key",
                             "SkipMap, BTreeMap and OnceLock behave as maps and write-once cells; fewer than 2^32 - 1 versions per buffer",
                             "seal's small local closure pop_single_batch returns the last batch; no claim on the buffer when sealing itself fails"]),
    "C08": dict(units=["c06_scan"], level="proof",
                bound="memtable histories as for C06; all pairs of bounds over the keys of the history and neighbours",
                assumptions=["as for C06", "range() of BTreeMap and SkipMap returns exactly the entries inside the bounds; bounds are not inverted"]),
    "C09": dict(units=["c06_scan"], level="proof",
                bound="memtable histories as for C06; every key and neighbouring keys, every interesting snapshot",
                assumptions=["as for C06; the ordering of the conflict check and the write is the transaction layer's (not in this build)"]),
    "C10": dict(units=["c10_merge"], level="proof",
                bound="merges of up to 10 staged, mutable and sealed sources with overlapping keys and equal timestamps over three key kinds, with and without limits",
                assumptions=["each source yields its entries in version order and its next entry when polled (C06, C12, C19); a source that is pending or errs keeps its remaining entries",
                             "BinaryHeap::peek and pop return an entry that no other precedes; derived order of SourcePriority is its declaration order",
                             "key order is total and antisymmetric and owned and borrowed keys agree (property C11), here an axiom",
                             "Pin projection and the poll context are dropped; StreamExt::next polls until the source answers"]),
    "C12": dict(units=["c12_scan", "c12_stage", "c12_cols"], level="proof",
                bound="real Parquet tables of up to 40 rows and delete markers over 10 keys flushed from up to 3 immutable segments and read back at every timestamp; 312 cases",
                assumptions=["async functions, Pin projection and poll wakers are dropped by the extraction; a pending poll changes nothing",
                             "Arrow and Parquet store the rows given and stream them back in file order (exercised by the harness with the real writer and reader)",
                             "key and timestamp of a row are read as stored (C21); delete markers carry no row; key order is total (C11), here an axiom",
                             "a sealed segment lists each of its rows and delete markers once (C07) and reports its true first and last key (proved in c18_prune); a merge stages batches in key order (C13)",
                             "slice sort_by permutes and orders by a total comparator; Arrow take and concat keep rows; a closed writer's file holds the rows written; row totals stay below 2^64",
                             "decimal numbers, plain or padded to 20 digits, differ where the numbers do and hold no dot; column names are compared as strings"]),
    "C13": dict(units=["c13_merge", "c13_rows", "c13_caps"], level="proof",
                bound="merges of up to 5 real Parquet tables with up to 60 operations over 12 keys, and of tables with thousands of rows so that batches end unevenly; chunk sizes 1 to 64, row and byte caps",
                assumptions=["async functions run to completion; a table's reader streams its rows and delete markers in file order, paired by position (exercised by the harness with the real reader)",
                             "input tables are sorted by key, newer versions first (C12); Arrow take and concat keep rows; a column cast to its type keeps its cells, and the key projection reads a cell as stored (C21)",
                             "BinaryHeap::peek and pop return an entry that no other outranks; the stored table holds what was staged (C12)",
                             "a record batch has fewer than 2^32 rows; row and byte totals stay below 2^64; key order is total (C11), here an axiom"]),
    "C15": dict(units=["c15_outcome"], level="proof",
                bound="versions of up to 3 levels with 4 tables each and 5 WAL segments; up to 3 outputs; edit sequences of up to 5 edits, repeated up to 5 times",
                assumptions=["HashMap, HashSet and BTreeMap behave as maps and sets; slice sort permutes",
                             "windows(2).any and position over slices (stated over the list)",
                             "table levels fit u32 (the cast is stated literally); removal is by table id",
                             "an atomic fetch_add by one reads and replaces the counter in one step, so no other step yields the same number",
                             "writing the edits and the collection plan to the manifest stores is the driver's (C16); running the merge is C13"]),
    "C16": dict(units=["c16_manifest"], level="proof",
                bound="two tables, up to 6 rounds of up to 4 concurrent publishers and readers on two handles, interleaved before every look at the head; limits and historical versions around every published one",
                assumptions=["async functions run to completion; interleaving is modelled by the backing store's history growing by any number of foreign commits before every session",
                             "a fusio-manifest write session commits all its staged operations at once if nothing was committed since it began, and publishes nothing otherwise or on error; a session reads one published state",
                             "the derived order of VersionKey groups a table's versions by timestamp; slice sort_by_key permutes and sorts",
                             "what apply_edits does to a version is proved in unit c15_outcome; timestamps stay below 2^64 - 1"]),
    "C19": dict(units=["c19_txn"], level="proof",
                bound="up to 40 staged operations over up to 32 keys of 3 key layouts, every projection of up to 3 columns; whole-crate transactions over up to 8 committed ones",
                assumptions=["BTreeMap is an ordered map over the key order of C11; by-value iteration is rewritten to a vector of its entries in order",
                             "typed_arrow_dyn: builders collect the appended rows in order, projections and row conversions are functions of the cells",
                             "memory validity of raw rows is not modelled (exercised by the harness)"]),
    "C20": dict(units=["c20_reads"], level="proof",
                bound="files of up to 400 KB with up to 9 ranges; caches of up to 5 entries under up to 25 operations; parquet files of up to 4 row groups and 2 columns",
                assumptions=["async functions run to completion; the storage reader returns the bytes of a range that lies in the file, or an error",
                             "slice sort_by_key permutes and sorts; HashMap and VecDeque behave as map and queue; the hash-map entry API is rewritten to contains_key and insert",
                             "ranges are not inverted (start <= end)",
                             "the shared filter cache is used under its mutex: whoever holds it leaves only filters stored for their key",
                             "parquet's footer and filter parsing are functions of the file's bytes"]),
    "C21": dict(units=["c21_extract"], level="proof",
                bound="schemas of up to 5 columns of the 12 supported and 7 unsupported types, keys of up to 3 columns, batches of up to 5 rows",
                assumptions=["arrow: a batch has one column per field, of its type and of the batch's length; reading a non-null slot gives its value",
                             "typed_arrow_dyn's projection of a row gives the cells of the projected columns in order (exercised by the harness)",
                             "iterator chains over fields (find by name, collect, split_at) are replaced by helpers with the same meaning; sort_by_key permutes and sorts",
                             "trimming, integer parsing, the truthy words and the JSON list are uninterpreted; that the list reads back as written is checked by the harness only",
                             "KeyRow::from_dyn refuses nulls (unit c11_key has the key order)"]),
    "C25": dict(units=["c25_catalog", "c25_layout", "c25_print"], level="proof",
        bound="up to two databases on one store with two handles each, 3-13 steps of registering, publishing, recording and taking plans and reopening; up to 4 rounds of up to 4 concurrent registrations, interleaved before every look at the head",
        assumptions=["async functions run to completion; interleaving is modelled by the backing store's history growing by any number of foreign commits, which obey the same rules, before every session",
            "a fusio-manifest write session commits all its staged operations at once if nothing was committed since it began, and publishes nothing otherwise or on error; a session reads one published state",
            "newly generated ids (ULIDs) differ from those in the catalog",
            "serialising a schema gives one of its JSON forms (entries of maps in any order, no name twice in a map) and two schemas are equal exactly when their forms are, up to that order; JSON text tells the value and the order of its entries; SHA-256 has no collision; a map built from entries in ascending order gives them out in that order; recursion on JSON values ends (they are finite)", "strings, lists of strings and retention settings are compared and copied as wholes (derived and std PartialEq, Clone)",
            "paths are sequences of segments; parsing the constant segment names succeeds; the fusio-manifest stores keep their objects under the path they are given",
            "the version manifest's contracts used by the bundle are proved in unit c16_manifest"]),
    "C24": dict(units=["c24_num", "c24_filter"], level="proof",
                bound="rows of up to 4 columns of 22 types (dates, times, timestamps and durations included) with values around every place where integers and floats part; predicates of depth up to 3 over all operators; 20000 scans with batch sizes 1 to 4, limits and projections",
                assumptions=["the merge yields its entries one by one and ends when none is left (unit c10_merge)",
                             "typed-arrow-dyn: builders keep the rows appended to them, a projection picks the cells of the named columns, a borrowed row can be copied",
                             "datafusion orders two scalars of one type (for 64-bit integers: as numbers) and says which are null; two scalars have one data type iff data_type() says so",
                             "f64 operations act on IEEE 754 bit patterns; leading_zeros counts binary digits; two's complement casts and shifts without overflow are exact",
                             "the predicate type (crate aisle, a stand-in here) has the variants the evaluator names and possibly others",
                             "iterating a schema's fields into a map keeps the last position of a name; the rows of a scan can be counted in usize"]),
    "C23": dict(units=["c23_recover", "c01_frame", "c02_replay", "c03_writer", "c04_gc", "c05_tail"], also=["C01", "C02", "C03", "C04", "C05"], level="proof",
                bound="real on-disk databases in scratch directories: 1 to 4 incarnations of up to 6 operations each (plain and tombstone ingests, transactions committed or dropped, log pruning), 8 keys, three key layouts, log segments of 300 bytes to 1 MiB, sealing after 1 to 1000 batches, with and without flushing, with and without the log's state file; crashes between operations and at a random byte of the last log write; without syncing, any end of the log lost",
                assumptions=["the log is a sequence of events of which an acknowledged prefix survives (units c01_frame, c02_replay, c03_writer, c05_tail prove the parts); an append is read back with the rows and timestamp it was written with",
                             "a provisional id handed out is used by no open transaction of the log (unit c05_tail proves that ids continue after the largest found)",
                             "the memtable takes a batch as unit c07_seal proves; flushing, minor compaction, back pressure and the manifest update of a commit are stubs that leave the data alone: what they do to it is covered by C12, C13, C15, C16 and, end to end, by the harness only",
                             "build_delete_batch, take_full_batch and the row builders are named functions of their inputs (Arrow); batches have fewer than 2^32 rows",
                             "operations of one thread: interleavings of concurrent writers are not modelled; interior locks are plain fields, .await is dropped; only the strict acknowledgement mode promises durability"]),
    "C02": dict(units=["c02_replay"], level="proof",
                bound="logs of up to 6 segments; every byte cut of the last segment of small logs, random cuts and damage beyond; floors around every segment and frame",
                assumptions=["async functions run to completion (.await is dropped by the extraction); reading a file returns its bytes",
                             "a directory listing yields each file once; the number in a segment's file name is parsed as written (exercised by the harness)",
                             "Vec::sort_by_key, Vec::dedup_by and Iterator::any over the real closures: stable sort by the closure's value, adjacent entries the closure calls the same collapse into the first; Path::prefix_matches and the stored segment hint are uninterpreted",
                             "decode_frame and FrameHeader::decode_from meet their contracts (proved in unit c01_frame)"]),
    "C03": dict(units=["c03_writer", "c03_state", "c03_handle", "c03_store"], level="proof",
                bound="histories of up to 20 submissions, rotations, clock steps and snapshots under every policy, with storage failures at every operation; the real writer loop on a virtual clock",
                assumptions=["async functions run to completion; a successful append adds exactly the bytes given, fsync of a path makes its bytes durable",
                             "the message loop run_writer_loop is proved with select_biased! as a nondeterministic choice between queue and timer, and a queued command carrying the reply channel it was sent with; fewer than 2^64 frames and segments are written in one run",
                             "an atomic fetch_add by one reads and replaces the counter in one step, so no other step yields the same number",
                             "fusio's conditional put writes iff the condition holds of the file there is",
                             "the state store is compare-and-swap of one file and reads back what was put; JSON decodes what it encoded; the state store does not touch the log; fewer than 2^64 frames and segments",
                             "durability is claimed on a local disk whose writes reach the operating system when they return (fusio on unix); the directory entry of a new segment is not",
                             "Frame::into_bytes and encode_command meet their contracts (proved in unit c01_frame); retention is proved in c04_gc"]),
    "C04": dict(units=["c04_gc"], level="proof",
                bound="logs of up to 6 segments with foreign files beside them, all floors around them, with storage failures; retention budgets around the sizes of the log",
                assumptions=["async functions run to completion; removal permission is an uninterpreted predicate, so only what the contract grants can be removed",
                             "listing, tail scan and frame bounds meet their contracts (proved in c02_replay and c05_tail)",
                             "segment numbers of one directory are distinct; a segment with bytes has frames; byte totals fit usize",
                             "the state store's record of sealed segments is not under contract"]),
    "C05": dict(units=["c05_tail", "c05_files"], level="proof",
                bound="logs of up to 4 segments with 4 records each; every byte cut of the last segment for 30 logs, random cuts, bit flips and storage failures beyond; reopening with the real writer",
                assumptions=["async functions run to completion (.await is dropped by the extraction); reading a file returns its bytes",
                             "FrameHeader::decode_from meets its contract (proved in unit c01_frame)",
                             "a transaction frame carries at least its 8-byte id (the encoder never writes less: C01)",
                             "listing: the last listed segment is the newest (unit c02_replay)",
                             "decimal digits padded to 20 tell numbers apart and parse back; a file opened without truncation keeps its bytes and is written at its end",
                             "that the rewrite of the torn segment is itself atomic is not claimed: see the known finding",
                             "a length field damaged so that it points past the end of the file looks like an incomplete frame"]),
    "C26": dict(units=["c26_split", "c26_plan", "c26_exec", "c26_mem"], level="proof",
                bound="whole-crate databases of 3 key layouts with up to some dozen commits, deletes, seals and flushes; predicates of depth up to 3, projections, limits, held snapshots and transactions with staged writes",
                assumptions=["async functions run to completion; nothing is sealed or flushed between planning a scan and opening its streams",
                             "aisle prunes only row groups and pages without a selected row; its expression constructors mean what they say; parquet's row filter keeps exactly the rows its predicate selects",
                             "statistics of segments, memtable and tables cover their contents (C07, C08, C12, C13, C18); a literal's key stands for its value (C18); key order is total (C11)",
                             "the merge delivers the newest version of each key, first stream winning ties (C10); residual filtering and packaging are C24; the overlay of staged writes is C19",
                             "the key of a row is not null and of the key column's type (C21)"]),
}
NOT_APPLICABLE = {
}
