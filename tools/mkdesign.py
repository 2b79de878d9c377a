"""Rewrites section 2 and 3 of DESIGN.md from checks.py, properties.jsonl, seeded/*/meta.json and the texts below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
PROVED = {
"C01": "decoding an encoded frame gives back kind, sequence number and payload; decoding an encoded payload gives back the command's ids, batch, timestamps; splitting off the appended timestamp column gives back the batch and the timestamp, and a batch whose column is missing, of another type or not constant is refused; `decode_from` returns Ok only if magic, version, kind, length and checksum of the bytes match the header it returns (so any other bytes are refused); every length computation is free of overflow.",
"C02": "`scan_with_floor` returns exactly the events of the complete frames of the segments at or above the floor (spec function over the directory's contents), errs on corruption, and stops without error at a frame cut short; the listing is sorted by sequence number and complete; on an object store whose listing lacks the newest segment the state file names, it is completed from the listing of the root, every segment once.",
"C03": "writer invariant (numbering is the last frame + 1; the segment's bounds are those of its frames; the log's bytes are exactly the encoded frames) is kept by every function of the writer; an acknowledgement names the first and last frame of the submission; under a per-append sync policy the bytes are durable before the function returns Ok; every storage error is returned. A provisional id comes from one atomic step on the counter. Opening (`WriterContext::new`) numbers on after every segment there is and after the recorded last frame; the record for the state file always names exactly the segments there are with their extents, and the file holds it before an acknowledgement; a timer is set exactly when a sync or a rotation is due, for the earlier of the two. On the caller's side every submission is queued exactly as given together with the ticket that gets its acknowledgement, and `durable()` returns Ok only when the writer acknowledged. The message loop `run_writer_loop` itself (select over queue and timer as a nondeterministic choice) acknowledges only a command whose frames are in the log with the policy met, handles nothing after a failed write, keeps numbering, always has a timer for a due sync, syncs on shutdown, and confirms a rotation only after the segment was turned. In c03_store, the state record is replaced only where it is the one last seen.",
"C04": "`prune_below` removes exactly the files whose number lies below the floor; `segment_required` is the stated predicate; the collected references name every segment that has a live frame or lies above the floor; retention removes from the oldest sealed end, never the active one, and only while over budget.",
"C05": "`scan_tail` returns the frames up to the last complete boundary (spec function over bytes), errs on corruption; `tail_metadata` takes the newest segment and the maximum provisional id over all segments; `segment_frame_bounds` are the first and last sequence number in the file. In c05_files, a segment's name is a function of its number that reads back as it and no two numbers share a path (`prop_names_apart`), opening a segment keeps what it holds, and the rewrite of a torn one ends with exactly the bytes given, flushed.",
"C06": "the scan iterators yield, for the remaining index entries, exactly `due(...)` — the first entry of each key with timestamp not after the read timestamp, tombstones included or skipped as the scan says; `prop_due_is_newest_visible` turns this into the property. The mutable cursor merges upserts and deletes in version order. The readers' own streams (`scan_visible`, `scan_visible_in_range`, `OwnedMutableScan`, `OwnedImmutableScan`) pass the requested timestamp, bounds and projection through unchanged.",
"C07": "insert and delete put exactly the rows of the batch at their versions and leave the buffer as it was on error; `seal` yields a segment whose index is the buffer's map and leaves the empty buffer; statistics cover the contents; an insert at full capacity seals first and hands the segment out.",
"C08": "bounds translation: the composite bounds select exactly the versions whose key lies in the requested range (for every bound kind); combined with C06's iterator contract over the ranged index.",
"C09": "`has_conflict` of both stores is true exactly when some version of the key has a timestamp above the snapshot.",
"C10": "heap order is key, then timestamp descending, then priority; merge invariant (heap holds the head of each source; everything emitted precedes); `poll_next` yields the next survivor of the merged list; `prop_merged`/`prop_survivors` tie the sequence of answers to the list of winning rows cut at the limit.",
"C11": "each scalar comparison implements the model order; lexicographic lifting to rows; every PartialEq/Ord/PartialOrd/Hash impl on the four key forms equals the one model function; version order is key ascending, timestamp descending. Totality, antisymmetry, transitivity are lemmas about the model.",
"C12": "the writer stages every row and delete marker once, in version order, with statistics equal to those of the staged list; closing writes them in that order; the scan's poll function yields the newest visible row of each key out of the remaining rows and deletes. In c12_cols, a stored batch is the given columns plus the commit times under the reserved name, reading the times back gives the same ones and refuses nulls, `take` picks whole rows, a table without a configured key is sorted by the columns its delete markers name, and no two files of any tables share a path (`prop_paths_apart`).",
"C13": "each source cursor delivers its table's rows and deletes in file order; the output holds the newest version per key seen so far, pending keys included; chunk and cap splits keep the order; statistics are those of the contents; the first output has the number of the task and every other one a number from one atomic step on the shared counter; in c13_rows the key, commit timestamp and sequence of a row or delete marker are the stored ones at that position or a corruption error (null, wrong type, missing column); in c13_caps the caps handed to the merge are the configured ones, at least one row and one byte; `execute_inner`'s loop invariant gives the property at its end.",
"C14": "each plan is `valid_plan`: inputs exist at their levels, without duplicates, target is source + 1, caps and thresholds hold, and for every selected table with a known range each overlapping next-level table is included.",
"C15": "`apply_edits` equals the fold of the stated meaning of each edit; the outcome's edits are removal of exactly the inputs and addition of exactly the outputs; remaining WAL ids contain those of every remaining table or, if one does not say, everything is kept; the floor is the first remaining segment; the number of an output comes from one atomic step on the shared counter.",
"C16": "one session per update; the published history grows by exactly one version with all edits, with larger timestamp, if the head matched; on error nothing is published by this session; list and snapshot results are functions of the history.",
"C17": "rely/guarantee contracts on the atomic: `alloc` returns a value at or above every value used before and leaves the clock above it; `advance_to_at_least` never lowers it; `peek` lies one below the next allocation.",
"C18": "bound algebra over the key model (member of intersection iff member of both, member of a part implies member of the envelope, overlap decides emptiness of the intersection); predicate-to-bounds translation covers every matching key; `prune_segments` keeps every segment with a version visible and in range; row sets are sets of row indices.",
"C19": "staging is a map update (last operation wins); `entries` and `into_mutations` list it; overlay scan yields staged rows over the snapshot, hiding staged deletes; the commit payload lists each key once (`prop_commit_payload`).",
"C20": "each returned piece equals the file's bytes of its range, in request order; caches are maps with a capacity and first-in-first-out eviction.",
"C21": "the projection yields the cells of the declared columns in declared order, refuses nulls and unsupported types; the key schema and delete schema give the same key (`prop_same_key`); metadata written by the builder reads back (`prop_round_trip`, list round trip assumed).",
"C22": "`try_acquire` admits iff budget remains and the cooldown is over, and counts it; `reset_budget` restores it; every seal policy fires iff its threshold is reached. In c22_sched, the queue has the configured capacity; a job is admitted, as given and under a lease of its own, iff there is room; a round starts the oldest min(budget, waiting) jobs and ends when they have ended. In c22_stats, after any sequence of writes since a seal the counters are the rows, the replaced rows, the distinct keys and their bytes, a seal clears them, and `build_stats` hands the policies exactly these and the batch count.",
"C23": "`replay_wal_events` applies exactly the transactions of the log that have a commit marker, each with all its payloads and its timestamp (fold over the event list; `prop_uncommitted_tail`: events of an unfinished transaction change nothing); `ingest`, `insert_dyn_wal_batch` and `Transaction::commit` touch memory only after the log acknowledged begin, every payload and the marker; `recover_with_wal_inner` leaves the clock above every recovered and flushed timestamp (`prop_clock_above`); the live-frame floor is the least frame of any unflushed range.",
"C24": "the comparison of an integer and a float is that of their exact values (floats modelled on their bits; for all 128-bit integers and all doubles); the evaluator's answer on every predicate and row is the truth value of a recursive three-valued semantics, independent of what un-evaluable parts are taken to be, and an evaluable predicate gives no error; each batch `poll_next` hands out is a non-empty prefix, no longer than the batch size, of the rows still due (filtered, projected, cut at the limit), and the stream ends only when none is due (`c24_drain`).",
"C25": "an invariant of every published catalog state (named tables are exactly those with metadata, under the same id and name; names are unique) and a relation between successive states (no table disappears or changes) are kept by every commit; `register_table` adds exactly one table or returns the agreeing one, and reports a conflict only against a differing table of that name; the bundle's functions pass each call to the right manifest; the three manifests' directories are disjoint functions of the root. c25_print: `canonicalize_json` returns the value with the entries of every map, at any depth, in ascending order and nothing else changed; two values with the same meaning have one canonical form and conversely (`prop_canonical`, by induction over JSON values), so `fingerprint_schema` gives two schemas one fingerprint exactly when they are equal (`prop_fingerprint`); `table_definition` carries that fingerprint and the key columns in key order.",
"C26": "over a recursive three-valued meaning of predicates on rows: the two halves of a row-filter split select what the predicate selects (and a fully pushed predicate keeps its value, so it may be negated); the key range and the memory residual do too (`split_predicate_for_non_sst`, `bounds_from_expr` in both directions, the next-prefix bound being exact); `plan_scan_with_context` reads every memory source with a version visible and in bounds and every table of the pinned version in which anything can matter, and what it filters (range, pushdown, residual) selects exactly the predicate's rows for every source it reads, staged rows included; `build_scan_streams` opens one stream per planned source, staged writes first; `execute_with_txn_scan` passes the limit to the merge only if nothing is filtered after it; the live memtable's key and commit bounds and row count, which the planner prunes by, are exact.",
}
FIND = {
"C05": "Known finding: `overwrite_segment` truncates before rewriting (not repaired: it needs a write-to-temporary-and-rename scheme across every fusio back end). Numbering from 1 after an empty rotated segment and reuse of provisional ids were repaired (a2f1877, d83bb2f).",
"C07": "Repaired: ff19007.", "C11": "Repaired: 8c19dcd (NaN and signed zero), 1a61477 (float keys changed or became unreadable in the stored form).", "C13": "Repaired: 17cb15c.", "C16": "Repaired: cf7d2eb.",
"C09": "Known finding: versions already flushed to an SSTable are not consulted by the commit's conflict check.",
"C18": "Repaired: 9a8ca18, ff325cf.",
"C19": "Repaired: 7d5d6b1. Known finding: `get` does not consult SSTables.", "C21": "Repaired: 0fa54a5, 3e95a9d.",
"C24": "Repaired: bae435a (literals of temporal types never compared with temporal columns, so in-memory rows were dropped).",
"C26": "Repaired: 7d469c1 (a NULL literal on the key filtered nothing in memory), e767329 (FALSE on a composite key filtered nothing in memory). Known findings: a predicate on a value column is applied inside each table before versions merge, so a replaced version that meets it can be delivered (existing tests pin the pushdown); a held snapshot reads the pinned tables and the current segments, so rows flushed after it was taken are in neither.",
"C23": "Repaired: 602f105. The C05 finding also shows here.",
}
SCOPE = {
"C01": "CRC collisions are outside the statement (the checksum matches).",
"C02": "Stopping at a record cut short in an earlier segment than the last is the documented point-in-time behaviour.",
"C05": "A length field damaged so that it points past the end of the file is indistinguishable from an interrupted append.",
"C07": "No claim on the buffer when sealing itself fails.",
"C08": "Inverted bounds are excluded (the standard library's range panics on them).",
"C10": "Only ascending order exists in the code. Equal timestamps at equal priority accept either row.",
"C11": "Nested key components (struct, list, union) are excluded. The stored form goes through serde and is checked by the bounded harness only.",
"C12": "Two versions with equal key and timestamp from different segments are unspecified; a delete wins such a tie in a scan. No claim on a writer after a failed staging call.",
"C15": "Removal is by table id. No claim on the state value after `apply_edits` returned an error (the caller discards it).",
"C16": "`commit` returning Err is assumed to publish nothing.",
"C18": "NaN and negative-zero literals are outside the value model of predicates.",
"C21": "Union-typed keys are accepted by the code but not claimed.",
"C22": "No claim on a round whose channel is closed under it (the scheduler holds a sender, so none is). Key bytes are an approximation; only that they grow with new keys and restart at a seal is checked, by the harness.",
"C23": "Strict acknowledgement only; a crash inside a log write accepts the state before or after that operation; the model is single-threaded. Async functions' suspension points are dropped.",
"C26": "The known findings are left out of the random cases (value predicates once a key has several stored versions; snapshots held across a flush). Concurrent seals and flushes between planning and opening streams are not modelled. aisle's pruning and row filters are not available offline: the stand-in never prunes. Negative zero and negative NaN (which datafusion's same-type comparison tells apart from the key order) are outside the statement.",
"C25": "Recording a plan overwrites the previous one, as the garbage-collection RFC states; taking a plan is test-only code and is exercised by the harness only.",
"C24": "Two floats of one type compare as datafusion does (total order: NaN and signed zeros are outside the statement), columns of large or fixed-size binary, large text or zoned timestamps cannot be built by typed-arrow-dyn and are refused before filtering; a null list operand makes IN unknown even for an empty list. Pruning inside SSTables by the aisle crate is not available offline.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m["what_it_breaks"]))
out = ["## 2. Properties\n"]
for p in props:
    i = p["id"]; c = CHECKS.get(i)
    out.append(f"### {i} — {p['title']}\n")
    if not c:
        out.append("Not claimed: " + NOT_APPLICABLE.get(i, "") + "\n"); continue
    out.append("Units: " + ", ".join(f"`proofs/{u}.rs.in`" for u in c["units"]) + (f" (with the harness of {', '.join(c['also'])})" if c.get("also") else "") + ".\n")
    out.append("Proved (Verus, no bound): " + PROVED[i] + "\n")
    out.append("Assumed: " + "; ".join(c["assumptions"]) + ".\n")
    out.append("Harness (bounded): " + c["bound"] + ".\n")
    if i in SCOPE: out.append("Scope: " + SCOPE[i] + "\n")
    if i in FIND: out.append(FIND[i] + "\n")
    if i in seeds: out.append("Planted bugs caught: " + "; ".join(f"{a} ({b})" for a, b in seeds[i]) + ".\n")
s = open(os.path.join(V, "DESIGN.md")).read()
a = s.index("## 2. Properties"); b = s.find("\n## 3. ")
open(os.path.join(V, "DESIGN.md"), "w").write(s[:a] + "\n".join(out) + (s[b:] if b >= 0 else ""))
