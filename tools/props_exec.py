EX = "crates/sail-execution/src/"
prop("X01", "A task attempt that has ended never changes its outcome",
     """Once an attempt of a distributed task has been recorded as succeeded, failed or cancelled, no later report, timeout or clean-up changes
     that outcome, and the recorded progress of an attempt never moves backwards. The scheduler only asks for a task to be cancelled while its attempt has not ended.""",
     "schedules fault_sequences", "all orders, repetitions and losses of status reports and clean-ups for every attempt",
     "Tests feed a few report orders; the property is about every order of reports from workers, probes and clean-up.",
     [EX + "driver/job_scheduler/state.rs", EX + "driver/job_scheduler/core.rs"],
     [("merge of a reported state into the recorded one", EX + "driver/job_scheduler/state.rs"), ("guarded writes to attempt states", EX + "driver/job_scheduler/core.rs")],
     "decision-table extraction from MIR plus write-site guard analysis (interprocedural dataflow)",
     "All 36 combinations of recorded and reported state are decided; every write to an attempt state reachable from the scheduler's entry points is covered.")
prop("X02", "Tasks run only when their inputs are complete, within the attempt limit",
     """A group of tasks is handed out only when every group it depends on has succeeded, it has not itself succeeded, no group of the job has failed for good and none of its
     tasks has a live attempt. A group fails only when its latest attempt failed or was cancelled with the configured attempt limit reached, and succeeds only when the latest attempt of
     every task succeeded; a job finishes only when every group succeeded, fails only when a group failed, and a job that is no longer running is never scheduled again.""",
     "schedules fault_sequences programs", "all query plans (region graphs), task failures and report orders",
     "Tests run small jobs without failures in interesting places; the guards must hold for every region graph and failure history.",
     [EX + "driver/job_scheduler/core.rs", EX + "driver/job_scheduler/state.rs"],
     [("scheduling of task regions and region/job state updates", EX + "driver/job_scheduler/core.rs")],
     "interprocedural guard and typestate analysis over MIR (must-hold facts at effect sites, reachability under negated guards)",
     "Loop and iterator guards are lifted to universally quantified facts; every schedule, attempt-creation and state-write site is covered.")
prop("X03", "Intermediate data is kept until every consumer finished; clean-up is complete",
     """While a job runs, the intermediate data of a stage is released only after every task of every stage that reads it has succeeded, never for a stage without readers, and only once. Cleaning up a
     job cancels every attempt that has not ended, closes every open stage and releases all data of the job. A job that succeeded, failed or was cancelled keeps that final state, and
     cleaning up a job whose tasks all finished leaves it succeeded.""",
     "schedules fault_sequences programs", "all jobs, failure histories and moments of clean-up",
     "Depends on which consumer attempts are alive when the release is decided; tests only see the happy order.",
     [EX + "driver/job_scheduler/core.rs"], [("stage release, job clean-up and stop", EX + "driver/job_scheduler/core.rs")],
     "interprocedural guard analysis and must-event analysis over MIR")
prop("X04", "Stale, lost and idle reports are handled once and only when they apply",
     """A task status report that is not newer than the last one seen for that attempt changes nothing, and a newer one is recorded with the state it reports, releasing the slot and re-evaluating the job when the task ended.
     A worker is declared lost only when no heartbeat arrived since the probe was armed, and then every task it was running is failed before its slots are forgotten. A worker is
     stopped for idleness only when it runs nothing, owns no live stream and was not updated since, and a task times out only while still unassigned with no worker on its way.""",
     "schedules fault_sequences", "all interleavings of reports, heartbeats and probes",
     "Races between probes, heartbeats and reports are timing dependent and never occur in unit tests.",
     [EX + "driver/actor/handler.rs", EX + "driver/task_assigner/core.rs", EX + "driver/worker_pool/core.rs"],
     [("message handlers of the driver", EX + "driver/actor/handler.rs")],
     "reachability under assumed comparison outcomes and event-order (typestate) analysis over MIR")
prop("X06", "Data between tasks arrives complete and in order, or the reader gets an error",
     """The output of a task is committed only after its input ended without an error and every write was accepted; otherwise it is aborted with the cause and the task fails. Every batch goes to the
     channel it was partitioned for and to every reader still present, in order. A reader of an in-memory, worker-local or storage stream sees a normal end of data only if the writer
     committed; if the writer failed, was cancelled or vanished, or the backend reports an error, the reader gets an error instead. Stored streams are read back file by file in the order written, under the key of exactly that attempt and channel.""",
     "schedules fault_sequences inputs", "all data, numbers of channels and replicas, and points at which a task, reader or backend fails",
     "Whether an end of stream is genuine depends on when a task dies; tests do not kill tasks between two batches.",
     [EX + "plan/shuffle_write.rs", EX + "stream_manager/local.rs", EX + "stream_service/client.rs"],
     [("shuffle write", EX + "plan/shuffle_write.rs"), ("in-memory and storage streams", EX + "stream_manager/local.rs")],
     "event-order (typestate) and reachability analysis over MIR, with error/success polarity of every return",
     "Covers the executors' write loop, the channel writers, the in-memory replicas and the storage stream reader and writer.")
prop("X07", "A job's result holds each task's output once and ends only when complete",
     """The result stream of a job takes the output of a task attempt only if no other attempt of the same job, stage, partition and channel has produced rows, whether that stream is still open or has ended; outputs that differ in
     any of these are never confused, and older attempts without rows are silenced. Each attempt's output is added at most once, and only for attempts that run or succeeded. The stream fails with the cause when the job fails,
     ends only after the driver stopped adding streams and all of them ended, and the job is cleaned up when it does or when the consumer leaves.""",
     "schedules fault_sequences", "all orders of task retries, stream ends and rows",
     "Duplicates or losses need a retry that races with the delivery of rows.",
     [EX + "driver/output.rs", EX + "driver/job_scheduler/core.rs"],
     [("job output stream", EX + "driver/output.rs"), ("output extension", EX + "driver/job_scheduler/core.rs")],
     "reachability under assumed key equality and row counts, plus must-event analysis over MIR")
prop("X05", "A plan sent to a worker is rebuilt there as the same plan",
     """Every physical operator, scalar, aggregate, window and streaming function and custom expression that the plan codec of a cluster can encode is decoded on the worker as one of the same type. Every setting
     and input is put back where it was taken from: none is dropped, replaced by a default or a constant, or exchanged with another, and every variant of a mode or kind is decoded as the same variant.
     A function that is sent by its name alone has no settings, and its name gives a function of the same type.""",
     "inputs programs", "all plans, functions and settings that the codec accepts",
     "A setting that is lost on the way to a worker changes results in a cluster only; tests round-trip about 50 of some 250 kinds, mostly with default settings.",
     [EX + "proto/codec.rs", EX + "../proto/sail/plan/physical.proto"],
     [("plan codec of workers", EX + "proto/codec.rs")],
     "field-to-field provenance analysis over MIR of encoder and decoder, composed with constructors and accessors of every type; variant maps composed to the identity",
     "For each message kind built by the encoder, the fields of the value each part reads are compared with the fields that the decoder, under the assumption of that kind, fills from that part.")
