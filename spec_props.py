prop("C01", "Messages between tasks: exactly once, in order",
  "Every message one task sends to another is received exactly once, with the content it had when it was sent. Messages of one sender to one receiver arrive in the order they were sent, whatever the queue capacity and however many senders compete.",
  ["schedules", "inputs"], "Every interleaving of senders, receivers and pollers, every number of tasks and messages, every queue capacity, spurious poller wake ups and stalled threads.",
  "The unit tests send a handful of messages between two tasks under the one schedule the host happens to produce; lost wake ups and ring wrap-around need particular interleavings.",
  ["amelie/runtime/base/task.h", "amelie/runtime/base/bus.h", "amelie/runtime/base/ring.h", "amelie/runtime/base/mailbox.h"],
  [("ring positions", "slots claimed and published by producers, consumed by the owner", "amelie/runtime/base/ring.h"), ("sleep flag", "owner is about to block in the poller", "amelie/runtime/base/bus.h")],
  [("multi-producer ring and wake-up event", "amelie/runtime/base/bus.h"), ("mailbox delivery to the waiting coroutine", "amelie/runtime/base/task.h")],
  ["received messages of each task", "memory left after shutdown"],
  binary="rt_msg", note="Seeded search over preemptive interleavings at memory-access granularity of the real task, bus and ring code; assumes sequential consistency.")
prop("C02", "Remote calls: executed once, caller waits, error delivered",
  "A call to another task is executed exactly once by the task it was sent to, and the caller does not get control back before the callee has finished with the arguments, even when the caller is cancelled or its clean-up code makes another call. The result or the error text raised by the callee is what the caller sees, for single calls, nested calls and sets of calls.",
  ["schedules", "histories"], "Every interleaving of callers, callees and cancellations, every nesting and every mix of failing calls.",
  "The unit test makes a few successful calls; cancellation in the middle of a call and during clean-up is never sampled.",
  ["amelie/runtime/base/rpc.h", "amelie/runtime/base/rpc_set.h", "amelie/runtime/base/event.h", "amelie/runtime/base/throw.h"],
  [("call completion event", "set by the callee when the request is finished", "amelie/runtime/base/rpc.h")],
  [("cancellation is paused while a call is outstanding", "amelie/runtime/base/rpc.h")],
  ["executed calls, results and errors seen by the callers"],
  binary="rt_msg", note="Seeded search with cancellations at arbitrary points; argument memory is checked by the simulator's shadow memory.")
prop("C03", "Sleeps, timers and timed waits: never early, never lost",
  "A sleep or timed wait without a signal ends no earlier than its deadline and no later than the task can run after it; a timed wait that was signalled before its deadline is reported as signalled, and one that was not is reported as timed out. Timers fire in deadline order, exactly once per arming, stopped timers never fire, and periodic local-time formatting follows the clock.",
  ["schedules", "inputs"], "Every set of concurrent sleeps, timed waits, timer arms and stops, every order in which signals and deadlines race, and every stall of a task.",
  "The unit tests sleep a few milliseconds in one coroutine and accept any duration; races of a signal with the deadline and of timers with each other are not sampled.",
  ["amelie/runtime/base/wait.h", "amelie/runtime/base/task.c", "amelie/runtime/base/timer_mgr.h", "amelie/runtime/base/event.h"],
  [("timer list", "armed timers ordered by deadline", "amelie/runtime/base/timer_mgr.h"), ("cached time", "time used for deadlines", "amelie/runtime/base/task.c")],
  [("deadline computation and time update of the main loop", "amelie/runtime/base/task.c"), ("timer on the waiting event", "amelie/runtime/base/wait.h")],
  ["return values and simulated duration of the waits", "timer callbacks"],
  binary="rt_time", note="Virtual clock: a discrete-event simulation in which time passes only by decision of the simulator, so early, late and missing wake ups are decided exactly (2 ms tolerance).")
prop("C04", "Coroutines: cancellation and clean-up",
  "A cancelled coroutine stops at its next waiting point, never in the middle of a section that asked not to be cancelled, and runs each of its registered clean-up actions exactly once in reverse order, also when one of them fails or waits. A coroutine that waits for others gets control back exactly once after they ended, no wake-up is lost or delivered to a finished or reused coroutine, and nothing is left allocated.",
  ["schedules", "histories"], "Every sequence of spawn, wait, signal, cancel, pause, error and join, at every interleaving of the coroutines and of signals from other tasks.",
  "The unit tests cancel coroutines in about ten fixed situations; combinations of cancellation with errors in clean-up, joins, reuse of coroutine stacks and cross-task signals are not sampled.",
  ["amelie/runtime/base/coroutine.h", "amelie/runtime/base/coroutine_mgr.h", "amelie/runtime/base/wait.h", "amelie/runtime/base/throw.h", "amelie/runtime/base/exception.h", "amelie/runtime/base/event.h"],
  [("cancellation flags", "pending cancel and pause nesting", "amelie/runtime/base/coroutine.h"), ("defer chain", "registered clean-up actions", "amelie/runtime/base/exception.h")],
  [("cancellation points in waits", "amelie/runtime/base/wait.h"), ("exit event and coroutine cache", "amelie/runtime/base/coroutine_mgr.h")],
  ["which clean-up actions ran, how often, in which order", "errors seen by waiters", "memory after shutdown"],
  binary="rt_coro", note="Seeded search over generated coroutine programs with cancellations and failures at arbitrary points against a small reference interpreter of each program.")
prop("C05", "Buffers are recycled without sharing or loss",
  "A buffer obtained from the pools is owned by one holder until it is released: its bytes never change under the holder, whichever tasks obtain, grow, hand over and release buffers concurrently. After everything is released the pools account for every buffer and nothing is leaked.",
  ["schedules", "inputs"], "Every interleaving of tasks that obtain, append to, hand over and release buffers, all sizes, and releases by a task other than the one that obtained the buffer.",
  "The unit tests use buffers from one coroutine; corruption by double hand-out needs concurrent use and reuse.",
  ["amelie/runtime/base/buf.h", "amelie/runtime/base/buf_mgr.h", "amelie/runtime/base/buf_cache.h", "amelie/runtime/base/arena.h"],
  [("free lists", "cached buffers of the task and the process", "amelie/runtime/base/buf_mgr.h")],
  [("spinlock and per-task cache", "amelie/runtime/base/buf_cache.h")],
  ["contents of the buffers held", "pool statistics", "memory after shutdown"],
  binary="rt_coro", note="Seeded search; the simulator's shadow memory reports any use of released memory, the reference model compares contents.")
prop("C06", "Background jobs: run once, awaited, drained on stop",
  "Every job given to the worker pool runs exactly once, its caller continues only after it ended and sees its result or its error text. Stopping the pool waits for the jobs already accepted and always ends.",
  ["schedules", "histories"], "Every number of workers, callers and jobs, every interleaving, failing jobs, cancelled callers and stops at any moment.",
  "No unit test runs jobs at all; lost wake-ups between the queue and its workers need particular interleavings.",
  ["amelie/runtime/lib/job.h", "amelie/runtime/lib/job_mgr.c", "amelie/runtime/lib/job_mgr.h", "amelie/runtime/base/cond_var.h"],
  [("job queue", "accepted jobs not started", "amelie/runtime/lib/job_mgr.c")],
  [("queue mutex and condition variable", "amelie/runtime/lib/job_mgr.c")],
  ["executions of each job", "results seen by the callers", "end of the pool"],
  binary="rt_coro", note="Seeded search with spurious wake-ups, stalls and cancellations; a run that makes no progress is reported as a deadlock.")
prop("C07", "Relation locks: exclusion, fairness, no lost waiters",
  "Two holders of locks on one relation never conflict, a request waits only while a conflicting lock is held or an earlier conflicting request waits, and every release lets the next eligible waiters in. Cancelling a waiter or a holder, releasing everything at once and re-entrant locking leave no lock and no waiter behind.",
  ["schedules", "histories"], "Every interleaving of lock, unlock, re-entrant and multi-relation lock requests of several tasks in all modes, with waiters and holders cancelled at any moment.",
  "No stable test covers waiting for a relation lock from several tasks or cancelling a waiter.",
  ["amelie/runtime/runtime/lock_mgr.h", "amelie/runtime/runtime/lock.h", "amelie/runtime/runtime/global.h", "amelie/runtime/runtime/relation.h"],
  [("lock and wait queues of a relation", "granted and waiting locks", "amelie/runtime/runtime/lock_mgr.h")],
  [("compatibility matrix and wake-up of the queue", "amelie/runtime/runtime/lock_mgr.h"), ("release on unwinding", "amelie/runtime/runtime/global.h")],
  ["locks held at the same moment", "order of grants", "locks left after everything ended"],
  binary="rt_lock", note="Seeded search; invariants are checked at every grant against a model of the requests in progress; a lost waiter shows as a deadlock or as a lock left.")
prop("C08", "WAL: acknowledged writes survive a crash, as a gapless prefix",
  "After a process kill or a power failure at any moment, recovery replays a gapless prefix of the log in the order the lsns were given out: every acknowledged write after a process kill, and every write acknowledged with sync on write, or before an explicit or completed sync, after a power failure. No record comes back partially, twice, changed or after a record that was lost, and writing continues with the next lsn.",
  ["crash-points", "schedules", "histories"], "Every crash point inside writes, rotation, sync, truncation, garbage collection and recovery itself, repeated crashes, every order in which unsynced data reaches the disk (lost, torn, partial), every concurrent writer interleaving and every setting of file size, worker, checksums and sync options.",
  "Unit tests have no WAL test among the stable ones; crash points and lost unsynced data cannot be produced without controlling the disk.",
  ["amelie/db/wal/wal.c", "amelie/db/wal/wal.h", "amelie/db/wal/wal_file.h", "amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_worker.c", "amelie/db/wal/wal_mgr.c", "amelie/db/transaction/record.h", "amelie/db/transaction/write.h"],
  [("WAL files and their records", "lsn, size, checksum, commands", "amelie/db/transaction/record.h"), ("lsn of the system", "last lsn given out", "amelie/runtime/runtime/state.h")],
  [("write, rotation, sync and truncate under the WAL lock", "amelie/db/wal/wal.c"), ("sync of files and directory", "amelie/db/wal/wal_worker.c"), ("scan of the log on start", "amelie/db/wal/wal_mgr.c")],
  ["records replayed after restart against the history of acknowledged writes", "lsn after recovery", "lsns of later writes"],
  binary="db_wal", note="Seeded search over crash points and disk states; up to several lives per run; the replay loop follows db/recover.c (which does not compile at this commit), the reference model is the history of acknowledged writes.")
prop("C09", "WAL: a failed write leaves no trace",
  "When writing to the log fails (full disk, I/O error, short write), the caller gets an error, the lsn is not consumed and the record is never replayed or streamed; writes reported as successful are never affected and the log keeps working once the fault is over.",
  ["fault-schedules", "schedules"], "Every placement of I/O errors, short writes, interrupted calls and full disks in the writes, syncs, creations and truncations of the log, alone and combined with concurrent writers and rotation.",
  "Errors of the file system cannot be produced at chosen calls in a unit test, and no existing test tries.",
  ["amelie/db/wal/wal.c", "amelie/db/wal/wal_file.h", "amelie/runtime/os/file.h", "amelie/runtime/os/vfs.c"],
  [("current file and its size", "end of the log", "amelie/db/wal/wal_file.h")],
  [("truncate back to the previous size", "amelie/db/wal/wal.c"), ("partial write loop", "amelie/runtime/os/vfs.c")],
  ["result of each write", "records found by recovery and by cursors", "lsns"],
  binary="db_wal", note="Seeded search with error injection per call; after an error only the failed operation may have no effect, everything else is compared with the model.")
prop("C10", "WAL cursors stream every committed record once; needed files stay",
  "A cursor opened at any lsn delivers every committed record from there on exactly once, in lsn order and unchanged, across rotations, waits for new records and reopenings, and never an uncommitted or rolled back one. Garbage collection never removes a file that a slot, a snapshot in progress or the checkpoint still needs, and removes the others.",
  ["schedules", "histories"], "Every interleaving of cursors with writers, rotation, garbage collection and snapshots, every starting lsn, and I/O errors during reads and writes.",
  "Readers racing with the end of the log, rotation and garbage collection need interleavings no test controls; the existing tests do not read while writing.",
  ["amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal_cursor.h", "amelie/db/wal/wal_slot.h", "amelie/db/wal/wal.c", "amelie/runtime/lib/id_mgr.h"],
  [("slots", "lsn each consumer still needs", "amelie/db/wal/wal_slot.h"), ("list of files", "ids of existing WAL files", "amelie/runtime/lib/id_mgr.h")],
  [("read up to the committed lsn, step to the next file", "amelie/db/wal/wal_cursor.c"), ("garbage collection by the smallest slot", "amelie/db/wal/wal.c")],
  ["records delivered to each consumer", "files of the directory", "files listed by a snapshot"],
  binary="db_wal", note="Seeded search with up to two consumers, garbage collection and snapshots running while up to three tasks write.")
prop("C11", "WAL: damage is detected, truncation cuts exactly at the lsn",
  "Damaged or cut-off log data is never replayed as valid: with checksums on, recovery replays only records that were written, or reports an error, whatever bytes changed, and never crashes or reads outside its buffers. Truncating the log to an lsn keeps exactly the records up to that lsn and the log continues from there.",
  ["fault-schedules", "inputs"], "Every byte of every WAL file flipped or lost, every truncation lsn, every combination of file size and record sizes.",
  "Unit tests would have to enumerate corruptions of on-disk bytes; none does.",
  ["amelie/db/wal/wal_cursor.c", "amelie/db/wal/wal.c", "amelie/db/transaction/record.h"],
  [("record header", "checksum, size, number of commands", "amelie/db/transaction/record.h")],
  [("validation of a record", "amelie/db/transaction/record.h"), ("truncate", "amelie/db/wal/wal.c")],
  ["records replayed from a damaged log", "records left after truncation", "memory accesses"],
  binary="db_wal", note="Seeded search; damage is injected into the simulated disk between lives; shadow memory reports reads outside buffers.")
prop("C12", "WAL worker: synced in time, shuts down cleanly",
  "With the WAL worker or periodic sync configured, everything written reaches the disk within the configured interval plus a bounded delay once faults stop, rotations happen without loss, and no request to the worker is dropped. An orderly shutdown always ends, leaves everything on disk and leaks nothing.",
  ["schedules", "histories"], "Every interleaving of writers, the worker, the periodic sync and shutdown, stalls of any thread, and errors of sync and creation.",
  "A lost wake-up of the worker or a missed sync only shows after a power failure or a particular interleaving with shutdown.",
  ["amelie/db/wal/wal_worker.c", "amelie/db/wal/wal_worker.h", "amelie/db/wal/wal_periodic.c", "amelie/db/wal/wal_mgr.c"],
  [("worker events", "sync and create requests not served yet", "amelie/db/wal/wal_worker.h")],
  [("worker loop", "amelie/db/wal/wal_worker.c"), ("periodic sync", "amelie/db/wal/wal_periodic.c")],
  ["synced size of each file on the simulated disk", "end of the shutdown", "memory after shutdown"],
  binary="db_wal", note="Seeded search; bounded liveness: simulated time limits start when faults stop.")
prop("C13", "Tables: indexes and rows always match the history of changes",
  "After any sequence of inserts, upserts, updates, deletes, bulk changes and truncates every read of a table - lookup of present and absent keys, ordered and reverse-bounded scans, scans over several partitions - returns exactly the rows that the history leaves, each once and with its content, in key order for ordered indexes, through every index. A unique key is never stored twice, a failed statement changes nothing, and no memory is lost or touched after release.",
  ["inputs", "histories"], "Every sequence of operations, every key type and distribution, every index kind and combination, growth through rehashing and page splits while cursors are open, every number of partitions.",
  "The unit tests insert ascending integers into one partition; rehashing in progress, page boundaries, string keys, deleted slots and several partitions interact only in particular histories.",
  ["amelie/db/index/hash_store.h", "amelie/db/index/hash.h", "amelie/db/index/tree.c", "amelie/db/index/tree_iterator.h", "amelie/db/index/index_hash_merge.h", "amelie/db/index/index_tree_merge.h", "amelie/db/heap/heap.c", "amelie/db/part/part_op.c", "amelie/db/part/cursor.c"],
  [("hash stores", "current and previous table during rehashing", "amelie/db/index/hash.h"), ("tree pages", "sorted pages of keys", "amelie/db/index/tree.c"), ("heap pages and free lists", "memory of the rows", "amelie/db/heap/heap.c")],
  [("insert, update, delete with index maintenance", "amelie/db/part/part_op.c"), ("merge of several partitions", "amelie/db/index/index_tree_merge.h")],
  ["rows returned by lookups and scans", "rows counted by the heap", "memory after closing the table"],
  binary="db_part", note="Seeded search over operation histories with coroutine and job interleavings against a map from key to row; the simulator's shadow memory reports misuse of memory. Execution of SQL is not part of it.")
prop("C14", "Transactions: atomic across partitions, aborts leave no trace",
  "Transactions whose changes touch several partitions become visible in all of them or in none: what committed before the others' abort stays, an aborted transaction restores every row, index entry and the heap as they were, whatever was pending with it, in whatever order and however late each partition learns about decisions. The set of commands handed to the log is exactly that of the committed transactions, and replaying it in order rebuilds the same table.",
  ["histories", "schedules"], "Every set of concurrent transactions in flight in each partition, every point at which some commit and the others abort, every delay until partitions apply decisions, every mix of operations including truncate.",
  "A unit test runs one transaction at a time; pending transactions on the same rows with decisions learnt late need particular histories.",
  ["amelie/db/transaction/tr_list.h", "amelie/db/transaction/commit.c", "amelie/db/transaction/track.h", "amelie/db/transaction/log.h", "amelie/db/transaction/write_log.h", "amelie/db/part/part_op.c", "amelie/db/part/part.c"],
  [("pending transactions of a partition", "prepared and undecided, in order", "amelie/db/transaction/tr_list.h"), ("log of a transaction", "row versions to restore", "amelie/db/transaction/log.h")],
  [("commit by prefix, abort by suffix", "amelie/db/transaction/track.h"), ("restore of previous rows", "amelie/db/part/part_op.c")],
  ["rows after each decision", "logged commands", "table rebuilt by replaying them"],
  binary="db_part", note="Seeded search over histories; the coordinator follows vm/executor: decisions are prefixes of the order of arrival. The oracle keeps every version of each row.")
prop("C15", "Checkpoints: recovery equals all committed changes at any crash",
  "Whatever the moment of a crash or failing disk operation during checkpoints, table creation or clean-up, recovery from the newest complete image of each partition plus the log gives exactly the committed rows, with every hash range owned by one partition. A checkpoint running beside writers contains precisely the committed state it is labelled with, a failed one changes nothing, and files of unfinished checkpoints are removed while needed ones stay.",
  ["crash-points", "schedules", "fault-schedules"], "Every crash point in writing, syncing, renaming and removing images, process kills and power failures with any subset of unsynced data, disk errors and full disks, every interleaving of the snapshot with transactions, repeated crashes.",
  "No test crashes the process; the state of the disk after a power failure and writers racing with the snapshot cannot be produced without controlling disk and schedule.",
  ["amelie/db/part/part_mgr_recover.c", "amelie/db/part/part_mgr.c", "amelie/db/heap/heap.c", "amelie/db/heap/heap_file.c", "amelie/db/storage/id.h", "amelie/db/storage/basefile.h", "amelie/db/storage/volume.h"],
  [("heap and its shadow", "rows of the snapshot and rows changed since", "amelie/db/heap/heap.c"), ("files of a volume", "complete and unfinished images", "amelie/db/storage/id.h")],
  [("recovery of a partition directory", "amelie/db/part/part_mgr_recover.c"), ("atomic publication by rename", "amelie/db/heap/heap_file.c")],
  ["rows after recovery and replay", "owners of the hash ranges", "files left on the simulated disk", "rows during and after a checkpoint"],
  binary="db_part", note="Seeded search, up to three lives per run; the order of checkpoint steps and the service file follow db/service (which does not compile at this commit); the log is an ideal list.")
prop("C16", "Damaged partition images are rejected, never misread",
  "A partition image in which any byte changed or whose end is missing is either rejected with an error when it is opened, or gives exactly the rows that were written. It never crashes the process or makes it read or write outside its memory, compressed or not.",
  ["fault-schedules", "inputs"], "Every byte of every image flipped or cut, every page and row size, compression on and off.",
  "A unit test would have to enumerate corruptions of on-disk bytes; none does.",
  ["amelie/db/heap/heap_file.c", "amelie/db/heap/heap_index.c", "amelie/db/heap/page_mgr.h", "amelie/runtime/lib/codec_compression.c", "amelie/db/storage/encoder.h"],
  [("page headers of an image", "sizes and checksum", "amelie/db/heap/heap_file.c")],
  [("validation while reading an image", "amelie/db/heap/heap_file.c"), ("decompression", "amelie/runtime/lib/codec_compression.c")],
  ["error or rows when opening", "memory accesses"],
  binary="db_part", note="Seeded search with storage checksums on; damage is injected into the simulated disk; shadow memory reports accesses outside allocations.")
prop("C17", "Identity values are never handed out twice",
  "An identity value generated for one row is never generated again for another, whatever sessions generate values while partitions insert explicit ids, and never one of the ids already inserted before. After recovery generation continues above every id of the recovered rows; ids that cannot advance the sequence, such as negative ones, do not disturb it.",
  ["schedules", "inputs", "crash-points"], "Every interleaving of sessions generating values with partitions applying rows with explicit ids, all id values including negative and extreme ones, and crashes before recovery.",
  "The race between generating and synchronising a value is a few instructions wide and needs a particular interleaving.",
  ["amelie/db/row/sequence.h", "amelie/db/part/part_op.c", "amelie/db/part/part_mgr.c"],
  [("sequence of the table", "next identity value", "amelie/db/row/sequence.h")],
  [("atomic increment against synchronisation with inserted rows", "amelie/db/row/sequence.h")],
  ["values generated by all sessions", "next value after recovery"],
  binary="db_part", note="Seeded search with interleavings at the granularity of single memory accesses.")
prop("C19", "DDL: statements do what they say, undone ones leave no trace",
  "After any sequence of DDL statements the catalog holds exactly the storages, databases, tables, columns, indexes, tiers and functions, with their properties, that the accepted statements left; names match regardless of case, IF EXISTS and IF NOT EXISTS never fail, dependent objects are protected or removed by CASCADE, and a refused or aborted statement changes nothing, on disk neither. Rows and indexes of altered tables stay correct, and dropped objects release their memory, storages and files.",
  ["inputs", "histories"], "Every sequence of statements with every option, aborts after execution, names in any case and with any characters, several storages with and without external directories, and rows changed in between.",
  "Unit tests run single statements that succeed; undo, reuse of names, several storages and tiers and the combination of statements are not sampled.",
  ["amelie/db/catalog/catalog.c", "amelie/db/catalog/table_mgr.c", "amelie/db/catalog/table_mgr_alter.c", "amelie/db/catalog/table_tier.c", "amelie/db/catalog/table_index.c", "amelie/db/catalog/cascade.c", "amelie/db/catalog/database_mgr.c", "amelie/db/catalog/udf_mgr.c", "amelie/db/storage/storage_mgr.c", "amelie/db/transaction/relation_mgr.c"],
  [("relations of the catalog", "objects by name", "amelie/db/transaction/relation_mgr.h"), ("volumes of a table", "directories and references to storages", "amelie/db/storage/volume_mgr.h")],
  [("undo of DDL through the log of the transaction", "amelie/db/transaction/relation_mgr.c"), ("cascade and dependencies", "amelie/db/catalog/cascade.c")],
  ["every object of the catalog and its properties", "rows through every index", "directories of the simulated disk", "references to storages", "memory after closing"],
  binary="db_cat", note="Seeded search over statement histories against a model of the catalog; statements enter as the encoded operations the parser produces (the parser and the executor do not compile at this commit).")
prop("C20", "The catalog and its tables survive crashes and disk errors",
  "Whatever the moment of a crash or failing disk operation - during DDL, writing the catalog file, checkpoints, backups or the start itself - the next start succeeds and finds exactly the catalog and rows of all statements acknowledged before, plus at most the one in progress, whole. A start that fails on a disk error destroys nothing, identity values continue above those given, and a backup lists every file, which stay unchanged until it is released.",
  ["crash-points", "fault-schedules", "histories"], "Every crash point including during recovery, process kills and power failures with any subset of unsynced data, errors of every disk operation, repeated crashes, DDL mixed with rows and checkpoints.",
  "No test crashes the process or fails a disk operation; which statements the catalog file, the images and the log hold relative to each other depends on the crash point.",
  ["amelie/db/catalog/catalog_file.c", "amelie/db/catalog/catalog_snapshot.c", "amelie/db/catalog/catalog.c", "amelie/db/catalog/table_config.h", "amelie/db/part/part_mgr_recover.c", "amelie/db/tier/tier.c", "amelie/db/storage/volume.h", "amelie/db/wal/wal.c"],
  [("catalog.json", "all objects and the log position they include", "amelie/db/catalog/catalog_file.c"), ("log of DDL statements", "statements after that position", "amelie/db/wal/wal.c")],
  [("atomic replacement of the catalog file", "amelie/db/catalog/catalog_file.c"), ("replay of statements", "amelie/db/catalog/catalog.c"), ("restore of objects", "amelie/db/catalog/catalog_file.c")],
  ["catalog and rows after each restart", "identity values after each restart", "files of a backup", "files left on the simulated disk"],
  binary="db_cat", note="Seeded search, up to four lives per run; the order of checkpoint steps and recovery follow db/service and db/db, which do not compile at this commit.")
prop("C21", "Users, replication settings and options survive; counters are unique",
  "After any crash or failing disk operation the next start finds every acknowledged change of users and replication settings and at most the one in progress, whole, and the options of the first start unchanged; a change that fails leaves the users in memory as they were. Names and secrets of any text come back unchanged and secrets are only listed on request. Transaction and log counters never give one value twice and are never behind a value they were told to follow.",
  ["crash-points", "fault-schedules", "schedules", "inputs"], "Every crash point of every change and of the start, process kills and power failures with any subset of unsynced data, errors of every disk operation, all texts, every interleaving of tasks that use the counters.",
  "No test crashes the process or fails a disk operation, and the counters are only used from one task.",
  ["amelie/runtime/runtime/state.c", "amelie/runtime/runtime/config.c", "amelie/runtime/runtime/opts.c", "amelie/runtime/runtime/opt.h", "amelie/server/user/user_mgr.c", "amelie/server/user/user_cache.h"],
  [("state.json", "users, replication role and peers", "amelie/runtime/runtime/state.c"), ("config.json", "options of the first start", "amelie/runtime/runtime/config.c"), ("psn and lsn", "counters shared by all tasks", "amelie/runtime/runtime/state.h")],
  [("replacement of the state file", "amelie/runtime/runtime/state.c"), ("update of users in memory and on disk", "amelie/server/user/user_mgr.c"), ("atomic increment and follow", "amelie/runtime/runtime/opt.h")],
  ["users, settings and options after each restart", "users after each failed change", "values given by the counters"],
  binary="srv_auth", note="Seeded search, up to four lives per run; the order of start follows system/system.c, which does not compile at this commit.")
prop("C22", "A token is accepted exactly when it is valid now",
  "A request is authenticated exactly when its token is unaltered, names an existing user, is signed with that user's current secret and has not expired. A change of users that reached a task takes effect on its next request, whatever it accepted or cached before. Malformed, altered or expired tokens, clock jumps and earlier errors never change that, crash the task or leak memory.",
  ["schedules", "inputs", "histories"], "Every sequence of user changes, issued, forged, altered and expired tokens, every interleaving of tasks that authenticate, and jumps of the clock.",
  "The tests check one token of one user; what the cache of accepted tokens does after user changes, expiry and altered tokens with a known signature depends on the history.",
  ["amelie/server/auth/auth.c", "amelie/server/auth/auth_cache.c", "amelie/server/auth/jwt.c", "amelie/runtime/lib/base64url.c", "amelie/server/user/user_cache.h"],
  [("cache of accepted tokens", "per task, with user and expiry", "amelie/server/auth/auth_cache.c"), ("users of the task", "copy made on each change", "amelie/server/auth/auth.c")],
  [("validation order: header, claims, user, signature", "amelie/server/auth/auth.c"), ("reset on user changes", "amelie/server/auth/auth.c")],
  ["result of each authentication", "memory after shutdown"],
  binary="srv_auth", note="Seeded search; tokens are issued by the repository's code and forged by the scenario with OpenSSL directly; each token is handed over in an allocation of its exact size.")
prop("C23", "SQL transactions are strictly serializable and all or nothing",
  "Whatever clients execute at the same time, the acknowledged transactions have an order that respects real time in which each one alone gives the reply that was sent. A transaction that reports an error leaves no trace, also when others executed over its changes, and a valid one fails only for a reason of its own or because of such an abort. Every request is answered, and a shutdown releases everything.",
  ["schedules", "inputs", "histories"], "Every set of concurrent multi-statement transactions over partitioned tables, on any number of frontends and backends, with administration at the same time, and every interleaving of their tasks.",
  "The tests of the repository run one session at a time; group commit, cascading aborts, the order of partitions and direct reads of other partitions depend on how tasks interleave.",
  ["amelie/system/session/session.c", "amelie/vm/executor/commit.c", "amelie/vm/executor/executor.h", "amelie/system/backend/pod.c", "amelie/db/transaction/track.h", "amelie/runtime/runtime/lock_mgr.h"],
  [("prepared transactions of a partition", "executed, not yet committed or undone", "amelie/db/transaction/track.h"), ("consensus", "commit and abort ids of a partition", "amelie/vm/executor/batch.h"), ("locks of relations", "access of the running programs", "amelie/runtime/runtime/lock_mgr.h")],
  [("group commit", "amelie/vm/executor/commit.c"), ("order of transactions per partition", "amelie/vm/executor/dtr_queue.h"), ("undo on the backend", "amelie/system/backend/pod.c")],
  ["reply of every request", "table contents after the clients", "memory after shutdown"],
  binary="sys_sql", note="Seeded search over the whole database in one process (parser, compiler, VM, sessions, executor, backends, log); db/service, which does not compile at this commit, is a stand-in.")
prop("C24", "The database recovers every acknowledged transaction and no part of others",
  "After a crash at any moment, of a start, a checkpoint, a log rotation or the recovery itself, the database starts again and holds the effect of every acknowledged transaction and statement. Of those without an answer each is there completely or not at all, in an order that explains all replies before and after. A power failure leaves at most the end of the log to be cut by the operator at the position the server reports.",
  ["crash points", "schedules", "histories"], "Every crash point of up to four lives in a row (process kills; power failures with lost and torn writes when syncing is on), every interleaving of clients, checkpoints, TRUNCATE and other statements with it.",
  "The tests stop the server in an orderly way; what a crash leaves depends on which of the writes of log, partition files, catalog and configuration were made, and only whole histories show a lost or half-done transaction.",
  ["amelie/db/db/recover.c", "amelie/db/db/db.c", "amelie/system/system/system.c", "amelie/system/system/repo.c", "amelie/db/wal/wal.c", "amelie/db/catalog/catalog.c"],
  [("log", "records of transactions and statements", "amelie/db/wal/wal.c"), ("lsn of a partition file", "what the file includes", "amelie/db/heap/heap.c"), ("lsn of the catalog file", "statements not replayed", "amelie/db/catalog/catalog.c")],
  [("replay", "amelie/db/db/recover.c"), ("first start", "amelie/system/system/repo.c"), ("cut of the log", "amelie/db/wal/wal.c")],
  ["result of each start", "tables read after each start and at the end of each life", "replies of all clients"],
  binary="sys_sql", note="Seeded search over the whole database and up to three crashes per run; checkpoints run in a stand-in of db/service that follows its sources.")
prop("C25", "Disk errors fail the statement they hit and nothing else",
  "When writes, syncs, renames, removals, opens or reads of the disk fail or the disk is full, a transaction or statement reports an error and has no effect, now and after a restart, or succeeds and stays. The database keeps serving, and once the disk works again every statement succeeds. A crash in between changes nothing of it.",
  ["faults", "schedules", "histories"], "Every sequence of disk errors during group commits, statements, log rotations and checkpoints, every interleaving of clients, up to four lives with crashes.",
  "The tests never meet a disk error; whether a failed group commit is undone for all of its transactions and in the log depends on the place of the error and on what executes at the same time.",
  ["amelie/vm/executor/commit.c", "amelie/vm/executor/batch.h", "amelie/system/session/session.c", "amelie/db/wal/wal.c", "amelie/db/catalog/catalog.c"],
  [("batch", "transactions of one group commit", "amelie/vm/executor/batch.h"), ("log of changes of a statement", "undo of catalog changes", "amelie/db/transaction/log.h"), ("current log file", "records that are acknowledged", "amelie/db/wal/wal.c")],
  [("abort of a group", "amelie/vm/executor/batch.h"), ("undo of a failed log write", "amelie/db/wal/wal.c"), ("undo of a statement", "amelie/system/session/session.c")],
  ["reply of every request", "tables while errors happen, after them and after restarts"],
  binary="sys_sql", note="Seeded search over the whole database; either writes and syncs or other calls of the disk fail in a life, since the log that cannot undo a failed write stops the process by design.")
prop("C26", "Replicas follow the primary, never diverge and never go back",
  "What a replica shows is at any time the result of a prefix of the primary's committed transactions and statements, each applied once and as a whole; it never goes back, and it refuses writes of its own clients. Once connections are stable, every replica reaches the position of the primary within bounded time with identical tables and relations, whatever resets, partitions, restarts and kills came before. A replica that has caught up and is promoted keeps everything acknowledged.",
  ["schedules", "faults", "histories", "crash points"], "Every interleaving of clients, streaming and replay, every sequence of cut, delayed and overlapping connections, restarts of either side, process kills, changes of roles.",
  "The tests have one short scenario on a working connection; whether a record is lost, repeated or seen in part depends on where connections break and on which locks replay and readers meet.",
  ["amelie/sync/repl/streamer.c", "amelie/sync/repl/primary.c", "amelie/sync/repl/repl.c", "amelie/sync/repl/replica_mgr.c", "amelie/system/session/session_replay.c", "amelie/system/backend/replay.c"],
  [("lsn of the replica", "position of the last record applied", "amelie/runtime/runtime/state.h"), ("slot of the replica", "log the primary must keep", "amelie/db/wal/wal_slot.h"), ("role", "who accepts writes", "amelie/sync/repl/repl.c")],
  [("streaming of the log", "amelie/sync/repl/streamer.c"), ("checks of a request", "amelie/sync/repl/primary.c"), ("replay under locks", "amelie/system/session/session_replay.c")],
  ["reads of replicas while running", "tables, relations and lsn of all nodes after catching up", "replies of all clients", "memory after shutdown"],
  binary="sys_repl", note="Seeded search over two or three whole databases in one process, connected by the simulated network; db/service is a stand-in; process kills only, since all nodes share one simulated machine.")
prop("C27", "Statements that change definitions are atomic, isolated and durable",
  "Every statement that changes definitions (tables, columns, indexes, functions, databases, storages) takes effect completely or, when it reports an error, not at all, on what it names and nothing else; rows keep their values and later statements follow the new definition. This holds for statements of several clients at the same time, with checkpoints, disk errors, crashes and restarts. The server always starts again with exactly the acknowledged definitions and rows; a statement in flight at a crash is there completely or not.",
  ["schedules", "faults", "crash points", "inputs"], "Every sequence of definitions and changes of rows of several clients, every interleaving with readers and checkpoints, disk errors, and up to four lives with process kills and power failures.",
  "The tests change definitions one at a time in a fresh server; what the log, the catalog file and the partition files hold of them relative to each other depends on the order of checkpoints and on the crash point.",
  ["amelie/db/catalog/catalog.c", "amelie/db/catalog/table_mgr_alter.c", "amelie/db/catalog/catalog_file.c", "amelie/db/db/recover.c", "amelie/db/part/part.c", "amelie/system/session/session.c", "amelie/db/wal/wal.c"],
  [("catalog.json", "definitions and the log position they include", "amelie/db/catalog/catalog_file.c"), ("log", "statements and rows after it", "amelie/db/wal/wal.c"), ("columns and indexes of partitions", "definitions in use by programs", "amelie/db/part/part.c")],
  [("execution of a statement with its undo", "amelie/db/catalog/catalog.c"), ("replay of statements and rows", "amelie/db/db/recover.c"), ("locks of relations", "amelie/runtime/runtime/lock_mgr.h")],
  ["reply of every statement", "rows and definitions of each client's tables", "tables as seen by other clients", "result of each start", "memory after shutdown"],
  binary="sys_ddl", note="Seeded search over the whole database, up to four lives per run; db/service, which does not compile at this commit, is a stand-in that follows its sources.")
