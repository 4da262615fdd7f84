#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so the long strings stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=observe or [], hook_needed=hook)))

YH = "A guarded scheduling point when an in-process lock is taken (cfg possum_sim); everything else is seen at the libc boundary."

prop("C01", "Reads return exactly the last committed value",
 "Across all threads, handles and processes that share a directory, every committed write, delete and rename takes effect at a single instant between its call and its return. A read returns byte for byte the value most recently committed under the key at such an instant, or reports the key missing if there is none. It never returns older, mixed, truncated, zeroed or foreign bytes, and a value whose commit has returned is visible to every read that starts afterwards.",
 ["schedules","histories","configurations"],
 "Every interleaving of any number of client threads, handles and processes doing single and batched writes, deletes, renames and reads, including the background reclaimer, with file cloning, range locking or whole-file locking.",
 "The tests run one or two threads over a few operations and see a handful of interleavings; read_and_writes_different_handles samples one reader against one writer on one key, and only in the whole-file locking mode.",
 ["src/handle.rs","src/reader.rs","src/tx.rs","src/lib.rs"],
 [("Immediate sqlite transaction held from the first lookup until the value regions are locked or cloned","src/handle.rs: Handle::read; src/reader.rs: Reader::begin"),
  ("single write transaction per commit","src/lib.rs: BatchWriter::commit_inner"),
  ("clone cache invalidated for altered files","src/tx.rs: PostCommitWork::complete")],
 [("keys table","key -> (file, offset, length, last used)","manifest.sql")],
 ["Handle::read_single, Handle::read + Reader::add/begin, Handle::list_items"], YH)

prop("C02", "Write batches commit all or nothing",
 "Everything staged in one write batch (values and renames) becomes visible to other readers at the same instant when the batch is committed. A batch that is dropped, or whose commit reports failure, leaves every key as it was. If a key is staged more than once in a batch, the value staged last is the one that is kept, and abandoning one value of a batch does not disturb the other values staged in it.",
 ["schedules","histories","inputs"],
 "Every batch content (duplicate keys, empty values, values abandoned half-way, renames mixed with writes) and every interleaving of its preparation and commit with concurrent snapshot readers, other batches and the reclaimer, in the same or another process.",
 "Tests commit one-value batches from one thread and look at the result once it is over; no test reads concurrently with a multi-key commit or abandons a value inside a batch.",
 ["src/lib.rs","src/tx.rs","src/handle.rs"],
 [("one immediate transaction for all pending writes and renames","src/lib.rs: BatchWriter::commit_inner"),
  ("exclusive file returned to the batch only once staged","src/lib.rs: BatchWriter::stage_write"),
  ("rollback on drop of the sqlite transaction","src/tx.rs: Transaction")],
 [("pending_writes / value_renames","uncommitted content of the batch","src/lib.rs: BatchWriter")],
 ["BatchWriter::commit, concurrent Reader snapshots"], YH)

prop("C03", "Snapshots are consistent and never change",
 "All values looked up in one reader reflect a single instant of the store. Once the snapshot is taken, each of its values keeps returning exactly the same bytes through every way of reading it (whole view, positioned read, stream), for as long as it is held. Overwriting, deleting, renaming or evicting the key, reclaiming space, and closing or killing other handles and processes do not affect it.",
 ["schedules","histories","configurations"],
 "Every sequence and interleaving of later writes, deletes, evictions, reclaim passes, handle closes and process deaths between taking a snapshot and any later read of it, with file cloning, range locking and whole-file locking.",
 "Tests read a snapshot right after taking it; only punch_value_before_snapshot_cloned has one concurrent overwrite, on one key, in one mode. The test machine's file system cannot clone, so the cloning path never runs.",
 ["src/reader.rs","src/lib.rs","src/handle.rs","src/sys/flock/ofd.rs","src/sys/clonefile/sys.rs"],
 [("files cloned, or extents share-locked, before the read transaction ends","src/reader.rs: Reader::begin, clone_files, lock_read_extents"),
  ("reclaim needs the exclusive lock on the region","src/lib.rs: punch_value")],
 [("FileClone","open file, lock and mmap backing the snapshot","src/lib.rs")],
 ["SnapshotValue::view/read/read_at/new_reader"], YH)

prop("C04", "Committed data survives the death of any process",
 "If a process using the directory is killed at any point, the directory can still be opened and every operation that had returned success before the kill is still fully in effect, with exact bytes. An operation in progress when the process died is afterwards either completely in effect or not at all. Other processes that have the directory open carry on, with their data intact and without help.",
 ["crash_points","schedules","histories"],
 "A kill of any process at any system call boundary or part-way through a write, any number of times, with other processes running concurrently, followed by reopening.",
 "No test kills anything; there is no crash harness in the repository.",
 ["src/lib.rs","src/handle.rs","src/tx.rs","src/exclusive_file.rs"],
 [("sqlite WAL commit after the value bytes are written","src/lib.rs: BatchWriter::commit_inner; src/handle.rs: init_sqlite_conn"),
  ("append-only exclusive value files; locks vanish with the process","src/exclusive_file.rs")],
 [("manifest.db + WAL","the committed keys","manifest.sql")],
 ["reopen with Handle::new, then read and list"], YH)

prop("C05", "Reclaiming space never damages live data",
 "Giving back disk space (making holes, truncating or removing storage files) only ever affects bytes that belong to no committed value, no snapshot still held, and no write still being prepared. This holds whatever other handles and processes are writing, committing, reading or closing at the same moment, and for values of every size and alignment.",
 ["schedules","histories","inputs","crash_points"],
 "All value sizes and alignments around block boundaries, all orders of deletes, overwrites and evictions, and all interleavings of the background reclaimers of several handles and processes with writers, readers, handle closes and process deaths.",
 "Two unit tests punch a few block-aligned values in one process; sub-block neighbours, concurrent appends to the same file, several reclaimers and truncation or removal under concurrency are never exercised.",
 ["src/lib.rs","src/handle.rs","src/tx.rs","src/exclusive_file.rs","src/main.rs"],
 [("region bounded by neighbouring live values","src/tx.rs: query_last_end_offset, next_value_offset"),
  ("exclusive lock on the region or whole file before changing it","src/lib.rs: punch_value")],
 [("deleted values queue","locations waiting to be reclaimed","src/handle.rs: value_puncher")],
 ["reads of every live key and held snapshot; fallocate/ftruncate/unlink on storage files"], YH)

prop("C06", "Space of deleted values is given back",
 "After a value is deleted, overwritten or evicted through a handle with hole punching enabled, every whole disk block inside that value is released within a few seconds once nothing is reading it. This stays true while other readers, writers and reclaimers are active, when a first attempt finds the region locked, and after the handle itself has been closed.",
 ["schedules","histories","inputs"],
 "All value sizes and orders of deletion, all lifetimes of snapshots that pin a value, all interleavings of several reclaimers, writers and handle closes (no process death, no injected I/O error).",
 "test_replace_keys looks at two blocks after one replacement; retry after a held lock, several handles and odd alignments are not tested.",
 ["src/handle.rs","src/lib.rs","src/tx.rs"],
 [("failed punches are kept and retried every second, also after the handle is dropped","src/handle.rs: value_puncher, punch_values"),
  ("deleted locations are sent to the reclaimer after commit","src/tx.rs: PostCommitWork::complete")],
 [("pending_values","punches still to do","src/handle.rs: value_puncher")],
 ["allocated blocks of the storage files"], YH)

prop("C07", "The configured size limit holds after every write",
 "With a maximum total value size set on the handles in use, no committed state of the store ever holds more than that many bytes of values in total. This holds whatever mix of single writes, batches, overwrites, renames, deletes and reads ran before, from any number of threads, handles and processes, and across process deaths.",
 ["histories","schedules","crash_points","inputs"],
 "All histories of inserts, overwrites, deletes, renames and evictions of values of any size (including values larger than the limit and empty ones), all interleavings across handles that carry the same limit, all kill points.",
 "The only use of a limit in the tests is the torrent benchmark, which never checks the total.",
 ["src/tx.rs","src/handle.rs","manifest.sql"],
 [("limit applied inside the committing transaction","src/tx.rs: Transaction::commit, apply_limits, evict_values"),
  ("running total kept by triggers","manifest.sql")],
 [("sums.value_length","running total of value sizes","manifest.sql")],
 ["Handle::list_items taken at any time"], None)

prop("C08", "Eviction drops the least recently used values, no more",
 "When a write makes the total exceed the limit, the values dropped are those that were used (written or read) longest ago, and dropping stops as soon as the total fits. Values that did not have to go stay readable and intact, and nothing is dropped while the total fits.",
 ["histories","inputs","configurations"],
 "All histories of writes, overwrites, reads, deletes and renames over any number of handles and processes, all value sizes, and all behaviours of the clock between operations.",
 "No test checks which value is evicted.",
 ["src/tx.rs","manifest.sql"],
 [("delete in order of last_used until enough bytes are freed","src/tx.rs: evict_values, apply_limits")],
 [("last_used","time of last read or write","manifest.sql: keys")],
 ["Handle::list_items before and after each operation"], None)

prop("C09", "Every operation finishes and never panics",
 "Under every schedule each call returns, without deadlock, panic or abort, within a bounded time once the locks it has to wait for are released; without injected faults it succeeds unless it collides with an existing key or with another transaction that stays open for seconds. In the default locking mode, values being written but not yet committed, however long they take, do not hold up readers or other writers.",
 ["schedules","histories","configurations"],
 "All interleavings of client threads and background threads over several handles and processes, with stalls of any thread at any point, in all locking and cloning modes.",
 "A deadlock or race needs a specific interleaving; BUILD notes record that read_and_writes_different_handles panics in a few percent of runs in the default mode.",
 ["src/reader.rs","src/lib.rs","src/handle.rs","src/sys/flock/ofd.rs","src/exclusive_file.rs","src/concurrency/sync.rs"],
 [("region locks limited to uncommitted bytes","src/exclusive_file.rs: from_file, committed; src/sys/flock/ofd.rs"),
  ("lock order connection -> clone cache","src/reader.rs: clone_files; src/tx.rs: PostCommitWork")],
 [], ["return of every API call, panics, blocked threads"], YH)

prop("C10", "I/O errors are contained",
 "When a system call fails or is cut short (no space, I/O error, short or interrupted transfer, too many files, failing source stream) the operation either reports an error or succeeds completely. Previously committed values stay exact, a failed operation is never partly visible, a value retried on the same writer after a failed copy holds only the retried bytes, and once the faults stop the same directory works normally again.",
 ["fault_sequences","schedules","histories"],
 "Every placement of failing, short and interrupted system calls on storage files, the manifest, and temporary files, and of failures of a caller-supplied stream, over histories of writes, imports, deletes and reads.",
 "No test injects an error of any kind.",
 ["src/lib.rs","src/exclusive_file.rs","src/handle.rs","src/reader.rs","src/tx.rs"],
 [("rewind of a failed copy","src/lib.rs: ValueWriter::copy_from, BatchWriter::stage_write; src/exclusive_file.rs: revert_to_offset"),
  ("rollback of the sqlite transaction on error","src/lib.rs: commit_inner; src/tx.rs")],
 [], ["results of API calls during and after the faults"], YH)

prop("C11", "Renames move a value intact and exactly once",
 "Renaming a key, or renaming a looked-up value in a batch, makes the same bytes appear under the new key and disappear from the old key at one instant, replacing for the batch form whatever the new key held. Renaming a value to the key it already has leaves it in place. Renaming a key that does not exist reports that, and a rename that fails or whose value is no longer stored changes nothing.",
 ["histories","schedules","inputs"],
 "All chains and cycles of renames, onto missing, existing and identical keys, racing with overwrites, deletes, snapshots and reclaim, in one or several processes.",
 "One test renames one key once; renaming a looked-up value is exercised only by the benchmark, never onto an existing or identical key.",
 ["src/tx.rs","src/lib.rs","src/handle.rs"],
 [("key update in the manifest, storage untouched","src/tx.rs: rename_item, rename_value"),
  ("displaced value queued for reclaim","src/tx.rs: rename_value")],
 [], ["Handle::rename_item, BatchWriter::rename_value then reads"], None)

prop("C12", "Prefix operations are exact and atomic",
 "Listing a prefix returns every key that starts with it and no other key, with the sizes all keys had at one instant. Deleting or moving a prefix affects exactly those keys, in one step as seen by any reader, and a move either relocates all of them or changes nothing.",
 ["inputs","schedules","histories"],
 "All byte-string keys and prefixes (including empty and 0xff bytes), all interleavings with concurrent writers, readers and reclaim in any process.",
 "Tests list three ASCII prefixes; delete_prefix runs once with an empty prefix and move_prefix never.",
 ["src/tx.rs","src/handle.rs","src/lib.rs"],
 [("half-open key range from the incremented prefix","src/tx.rs: list_items; src/lib.rs: inc_big_endian_array"),
  ("one transaction per prefix operation","src/handle.rs: move_prefix, delete_prefix")],
 [], ["Handle::list_items, move_prefix, delete_prefix"], None)

prop("C13", "Imported files are stored exactly",
 "Importing a whole file stores exactly that file's content under the key, wherever its read position was, whether the file system clones it or falls back to copying, and even if cloning fails for this file. A failed import leaves the key as it was, the source file keeps its content, and values written by others at the same time are unaffected.",
 ["configurations","schedules","fault_sequences","inputs"],
 "All file sizes and starting positions, file systems with, without and with failing clone support, all interleavings with other writers, readers and reclaim.",
 "clone_in_file imports one file with no concurrency, and always takes the copy path on the test machine.",
 ["src/lib.rs","src/handle.rs","src/sys/clonefile/sys.rs","src/exclusive_file.rs"],
 [("clone into a new storage file, else rewind and copy","src/lib.rs: BeginWriteValue::clone_file, copy_file")],
 [], ["Handle::clone_from_file then reads"], YH)

prop("C14", "Snapshot files are removed when, and only when, unused",
 "Temporary snapshot files disappear once the last value using them and the handle that made them are gone. Those left behind by killed processes are removed by a snapshot clean-up, which never removes files that a live process is still using and never fails or disturbs reads because other processes take or drop snapshots meanwhile.",
 ["crash_points","schedules","configurations"],
 "All interleavings of clean-up with taking and dropping snapshots in other threads and processes, and all kill points while a snapshot is being created or held.",
 "cleanup_snapshots returns early on the test machine because it cannot clone files; nothing is checked there.",
 ["src/lib.rs","src/reader.rs","src/handle.rs","src/walk.rs"],
 [("shared lock on a live snapshot file, exclusive lock before removal","src/reader.rs: clone_file; src/lib.rs: delete_unused_snapshots"),
  ("tempdir reference counted by its clones","src/lib.rs: FileClone")],
 [], ["directory entries below the store"], YH)

prop("C15", "Concurrent writers never share storage",
 "Values written concurrently, by any number of batches, threads, handles and processes, each keep their own storage: no two committed values overlap, and every committed value lies completely inside an existing storage file with exactly the bytes given by its writer. The internal total of stored bytes always equals the sum of the sizes of the stored values.",
 ["schedules","histories","crash_points"],
 "All interleavings of value writers that start, write in pieces, stage, commit, fail or are dropped, in any number of handles and processes, with process deaths in between.",
 "Tests that write concurrently use one writer per key and check only the final content in one schedule.",
 ["src/exclusive_file.rs","src/lib.rs","src/handle.rs","manifest.sql"],
 [("exclusive lock on the append region of a storage file","src/exclusive_file.rs: from_file, committed"),
  ("exclusive files handed out to one writer at a time","src/handle.rs: get_exclusive_file; src/lib.rs: begin, stage_write")],
 [("exclusive_files pool","files reserved by this handle","src/handle.rs")],
 ["storage location of every value in the manifest, raw file content"], YH)

prop("C16", "Opening a directory is safe at any moment",
 "Opening a directory that is up to date never changes or loses its content, whatever other handles and processes do with it meanwhile. Opening one whose manifest has an older version discards all its old content and storage files and leaves an empty, working store. If a process dies at any point while creating or upgrading a directory, the next open completes the job.",
 ["crash_points","schedules","configurations"],
 "All kill points during the first open and the upgrade, reopening any number of times, opens and closes of further handles at any moment of other work.",
 "Tests always start from an empty directory or one written by the same version, and never interrupt an open.",
 ["src/handle.rs","src/dir.rs"],
 [("user_version checked under an exclusive manifest lock, set last","src/handle.rs: init_sqlite_conn, delete_all_values_files")],
 [("user_version","manifest schema version","src/handle.rs: USER_VERSION")],
 ["Handle::new then list and read"], None)

prop("C17", "The C interface gives the same guarantees",
 "Programs using the C functions see the same results as the Rust interface under the same schedules: atomic batches, consistent and unchanging reader snapshots, exact reads at any offset with the right byte count, correct listings with the prefix stripped, and the documented error code for a missing key. C and Rust callers can share one handle or directory concurrently.",
 ["schedules","histories","inputs"],
 "All interleavings of C and Rust clients in one or several processes, all offsets and buffer sizes, snapshots held across later changes.",
 "There is no Rust or C test of the C interface; the Go tests need modules that are not available and use it from one goroutine.",
 ["src/c_api/mod.rs","src/c_api/ext_fns/mod.rs","src/c_api/ext_fns/handle.rs","src/c_api/types.rs"],
 [("reader transaction started before lookups and kept to the snapshot","src/c_api/ext_fns/handle.rs: possum_reader_new; ext_fns/mod.rs: possum_reader_begin"),
  ("handle shared through a counted read-write lock","src/c_api/types.rs: PossumHandle")],
 [], ["return codes and out parameters of the possum_* functions"], YH)

prop("C18", "Last-used times follow reads and writes",
 "After a value is written, or read through a completed reader, its last-used time equals the wall-clock time of that operation to the millisecond; listing, renaming and reads that are abandoned before their snapshot do not change it. This holds when the clock stands still, jumps forward or jumps backward between operations, and the time returned with a value agrees with the one stored.",
 ["histories","schedules","configurations"],
 "All histories of reads, writes, renames and listings over several handles and processes, and all clock movements including repeated, skipped and decreasing milliseconds.",
 "reads_update_last_used sleeps real milliseconds and only checks that the time grows.",
 ["src/tx.rs","manifest.sql","src/reader.rs"],
 [("touch on lookup, committed with the reader","src/tx.rs: touch_for_read; src/reader.rs: begin"),
  ("default last_used on insert","manifest.sql")],
 [("last_used","milliseconds since the epoch","manifest.sql: keys")],
 ["Value::last_used, Handle::list_items"], None)

prop("C19", "Data and hole regions tile a sparse file",
 "For every sparse file, walking its data and hole regions yields adjacent, alternating regions that cover the file from its start to its end exactly once.",
 ["inputs"],
 "All layouts of data and holes in a file.",
 "One test looks at a two-block file.",
 ["src/sys/seekhole/mod.rs","src/sys/seekhole/unix.rs"],
 [("alternating SEEK_DATA / SEEK_HOLE","src/sys/seekhole/mod.rs: Iter::next")],
 [], ["sys::seekhole::file_regions"], None)

prop("C20", "Go handles stay valid while in use",
 "In the Go binding, closing a handle while other goroutines use it lets their calls finish on a valid handle and makes later calls return an error instead of using a freed one.",
 ["schedules"],
 "All interleavings of Close with other calls from any number of goroutines.",
 "One Go test opens and closes a handle from one goroutine, and the Go module's dependencies are not available here.",
 ["go/handle.go","go/rc.go","go/writer.go","go/go-possum.go"],
 [("reference-counted C handle","go/rc.go; go/handle.go: withHandle")],
 [], ["go Handle methods"], None)

prop("C21", "The command-line tool reads, writes and punches exactly",
 "While other processes use the directory, write-file stores exactly a file's bytes under its name, read-key prints exactly the value stored under a key and fails if there is none, and list-keys prints every key with the prefix once. print-missing-holes reports exactly the parts between the stored values of a file, up to its last value, that still occupy disk space, leaving out those without a whole block unless fragments are asked for. punch-missing-holes gives back every whole block in those parts that is not in use, and never changes a stored value, a snapshot still held or a write being prepared.",
 ["histories","schedules","inputs","configurations"],
 "Every layout of values, gaps and existing holes that some history of writes, deletes, abandoned writes and reclaim passes leaves, and every interleaving of the tool's commands with writers, snapshot readers and reclaimers of other processes, and their deaths.",
 "The tool has no tests.",
 ["src/main.rs","src/sys/seekhole/mod.rs","src/tx.rs","src/lib.rs","src/walk.rs"],
 [("gaps between the stored values minus the file's holes","src/main.rs: missing_holes_pure"),
  ("whole blocks only, and an exclusive lock on what is punched","src/main.rs: PunchMissingHoles"),
  ("the values of a file in order of offset","src/tx.rs: file_values")],
 [], ["standard output and exit code of possum database DIR write-file|read-key|list-keys|print-missing-holes|punch-missing-holes"], None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
