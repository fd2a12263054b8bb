DL = "crates/sail-delta-lake/src/"
prop("D01", "A Delta commit is written once, whole, and never over another one",
     """Each version of a Delta table is created by a write that fails if that version already exists. A commit is reported as successful only after the write of that version succeeded; when the version was
     taken by another writer the commit goes on only after conflict checking against every version in between, with the next version, and at most a bounded number of times. Other errors are returned, and a
     failed commit does not leave its temporary entry behind. Each written commit holds the caller's actions, with the commit info first.""",
     "schedules fault_sequences inputs", "all interleavings of writers and failures of the store at any step",
     "Tests run one writer against a store that does not fail; a lost update needs two writers racing between the read of the log and the write.",
     [DL + "transaction/mod.rs", DL + "physical_plan/commit_exec.rs"],
     [("commit loop and log store", DL + "transaction/mod.rs"), ("commit operator", DL + "physical_plan/commit_exec.rs")],
     "write-mode and must-pass analysis over MIR (typestate of the commit attempt, error polarity of every return)")
prop("D02", "Delta commits that conflict with concurrent commits are rejected",
     """A commit based on an older version is rejected if a commit made since then upgraded the protocol, changed the metadata, removed a file it read or removes, added files matching what it read (under the isolation level
     in force), or advanced the transaction of the same application it depends on. The checks look at every commit in between, and a commit that could not be read fails the transaction instead of counting as empty.""",
     "schedules inputs", "all pairs of transactions and all numbers of commits in between",
     "Tests sample a few pairs of operations; each conflict rule has to hold for every action combination and isolation level.",
     [DL + "transaction/conflict_checker.rs", DL + "transaction/mod.rs"],
     [("conflict checker", DL + "transaction/conflict_checker.rs")],
     "reachability under assumed action contents over MIR (each winning action kind must reach its error) and error polarity of the summary of every intermediate commit")
prop("D03", "Delta log clean-up deletes only what no retained version needs",
     """Log clean-up deletes only log files strictly before a checkpoint that is at or before the latest commit that is both older than the retention and known to the snapshot; without such a checkpoint nothing is deleted.
     Before anything is deleted the boundary checkpoint is made readable and every checkpoint that is kept was inspected for its sidecars; a failure on the way deletes nothing. Sidecars go only when no kept checkpoint
     refers to them and they are at least a day old. Clean-up runs only after this commit wrote a checkpoint, with the table's own retention.""",
     "inputs histories fault_sequences", "all log histories, retentions and failures of the store",
     "What may be deleted depends on the whole history of the log; tests use a handful of histories.",
     [DL + "delta_log/cleanup.rs"], [("log clean-up", DL + "delta_log/cleanup.rs")],
     "guard analysis at deletion sites (reachability under assumed version and age comparisons) and must-pass order over MIR")
prop("D04", "A Delta checkpoint or log compaction holds exactly the replayed state",
     """A checkpoint of a version is written from the replay of every commit up to that version, holds every live file, every tombstone within the retention, protocol, metadata, transactions within their retention and domains, and is
     published (last-checkpoint hint) only after all of its files were written and closed without an error. Fields of each action survive the way into a checkpoint row and back. A log compaction keeps the tombstones and removed
     domains of its range, because it is replayed on top of an older state, and a hint of an older checkpoint never replaces a newer one.""",
     "inputs histories fault_sequences", "all table histories, checkpoint policies and failures of the store",
     "A lost action shows only when a table is read back through a checkpoint that was taken at an unlucky version.",
     [DL + "checkpoint/mod.rs", DL + "delta_log/segment.rs"],
     [("checkpoint writer and reader", DL + "checkpoint/mod.rs")],
     "field-by-field value tracing and guard analysis over MIR, with error polarity of every write step")
prop("D05", "Replaying a Delta log keeps the newest action of every file",
     """When the log is replayed for a scan, per file path (and deletion vector) the action of the newest commit decides: a file whose newest action is an add is returned with the fields of that add, one whose newest action
     is a remove is not. Every row of every log file is looked at, an error of reading one fails the scan, and the path keys of adds and removes are formed the same way, so that encodings of a path do not hide a remove.""",
     "inputs histories", "all log histories, batch boundaries and partitionings of the replay",
     "The outcome depends on the order, batch boundaries and partitions in which actions of one path arrive; tests replay short histories.",
     [DL + "physical_plan/log_replay_exec.rs", DL + "delta_log/replay.rs", DL + "checkpoint/mod.rs"],
     [("replay operator", DL + "physical_plan/log_replay_exec.rs"), ("replay of actions", DL + "delta_log/replay.rs")],
     "effect tables and decision tables per action kind over MIR, field-by-field value tracing, exhaustion of every input loop")
prop("D06", "A Delta table version is read from exactly its log segment",
     """A version of a table is read from the newest complete checkpoint at or below it, plus every commit after that checkpoint up to it, and nothing else: no log file newer than the requested version, no part of a multi-part
     checkpoint taken for a whole one, no hint of another version. Missing commits are an error. A log compaction replaces exactly the commits it covers, two that overlap are not both used, and commits recorded in the catalog win
     over those in the log. A checksum file stands in only when it is of the same version and complete.""",
     "inputs histories fault_sequences", "all contents of the log directory",
     "The choice depends on which checkpoints, compactions, checksums and hints exist; tests list a few combinations.",
     [DL + "delta_log/segment.rs", DL + "delta_log/segment_files.rs", DL + "delta_log/listing.rs", DL + "physical_plan/planner/log_segment.rs"],
     [("segment resolution", DL + "delta_log/segment.rs"), ("planner segment", DL + "physical_plan/planner/log_segment.rs"), ("log listing", DL + "delta_log/listing.rs")],
     "guard analysis over MIR: whether a log file survives into the segment under every assumed order of its version and the bounds")
prop("D07", "Delta tables are read and written only as far as their protocol is understood",
     """A table whose protocol has a version or a feature that this system does not have for readers is not read, and one it does not have for readers or writers is not written; a protocol whose versions and feature lists contradict
     each other is refused. Types and actions that need a feature (timestamps without time zone, variants, shredding, deletion vectors, domain metadata, change data, row tracking) are committed only to tables that have it. No
     operation but a restore or a file system check removes data from an append-only table. The checks run on the protocol and metadata that hold after the commit, on exactly the actions that are written, before they are written.""",
     "inputs histories", "all protocols, schemas, table properties and contents of a commit",
     "Versions, two feature lists, properties, schema and actions combine freely; tests try a few protocols.",
     [DL + "transaction/protocol.rs", DL + "transaction/mod.rs", DL + "snapshot/mod.rs"],
     [("protocol checker", DL + "transaction/protocol.rs"), ("commit checks", DL + "transaction/mod.rs"), ("read checks", DL + "snapshot/mod.rs")],
     "reachability of acceptance over MIR under assumed versions, feature lists and action kinds (decision table per gate, each with its non-vacuity case), and must-pass order before every write")
