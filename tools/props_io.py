"""properties of object stores"""
OS = "crates/sail-object-store/src/"
prop("O01", "Object store layers pass every operation through unchanged",
     """The runtime, logging and lazy layers around an object store perform each operation as that same operation of the wrapped store, once, with the same arguments, and return its result, metadata and data or its error unchanged;
     listings and reads moved to another task yield every item in order; multipart uploads hand over their parts in the order they were put, and their completion or abort. A lazy store that cannot be set up fails its operations
     and listings. A URL gets the store registered or made for its scheme and authority; a store registered for a session is used for that session and URL only.""",
     "inputs schedules", "all operations, arguments, results, errors and interleavings of tasks and uploads",
     "A wrong layer corrupts large uploads, loses an option such as 'create only', cuts a listing short or mixes up credentials, and only on remote stores, which the tests do not have.",
     [OS + "layers/runtime.rs", OS + "layers/logging.rs", OS + "layers/lazy.rs", OS + "registry.rs"],
     [("layers", OS + "layers/"), ("registry of stores", OS + "registry.rs")],
     "provenance of every argument and result through futures, tasks and closures over MIR, typestate of the operation (exactly once) and of every item handed between tasks, decision tables of errors and session keys")
TE = "crates/sail-telemetry/src/execution/"
prop("T01", "Tracing a plan does not change what it returns",
     """A physical plan wrapped for tracing runs each wrapped operator once per call, for the partition and in the context it was asked for, and hands on every batch, error and the end of its stream as they come, whether or not
     spans and metrics are reported; its schema, properties, statistics and metrics are those of the operator. Wrapping, replacing its child and resetting it keep the operator that is wrapped.""",
     "inputs schedules", "all plans, partitions, batches, errors, metrics settings and times at which metrics are reported",
     "Every query of a cluster runs through these wrappers; an item lost when a metric happens to be due, or an error taken for the end, is a wrong result that no test of operators sees.",
     [TE + "physical_plan.rs"],
     [("traced plan and stream", TE + "physical_plan.rs")],
     "provenance of the stream, items and arguments over MIR, exactly-once typestate of execute and poll, decision table of the polled item (Ok, Err, end, pending) against the answer")
