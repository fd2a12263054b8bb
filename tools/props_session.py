SC = "crates/sail-spark-connect/src/"
prop("S01", "Spark Connect responses are delivered completely and in order",
     """A query operation sends its schema and then every batch of its plan, in order; a command collects every batch and sends its result. A reattachable operation ends with a completion message, sent only after its plan has ended
     without an error; an error is sent to the client and the operation is then failed, never complete. Every output of a reattachable operation is kept before it is sent, until the client says it has received it. A client that
     reattaches, at whatever point it was lost, gets the outputs after the last one it has received, each once and in order, before any new one; if one of them is no longer kept it gets an error. One task at a time runs an
     operation, and pausing, completion and failure never lose what was kept. An unknown or not reattachable operation cannot be reattached to.""",
     "schedules histories", "all interleavings of execution, disconnection, reattachment and release, and all sizes of results",
     "Losing a response needs a client that disconnects between two particular steps of a running operation; no test reattaches, and clients hide the difference between a complete and a cut-off result.",
     [SC + "executor.rs", SC + "service/plan_executor.rs", SC + "session.rs"],
     [("operations", SC + "executor.rs"), ("responses", SC + "service/plan_executor.rs")],
     "typestate of outputs (produced, kept, sent) and of operation states over MIR, with case analysis of every state and step")
prop("S02", "A session lives until idle or deleted; interrupts stop exactly what they name",
     """A session is created once for an id; later requests for the id get that same session while it runs, and an error once it was deleted or has failed: it is never revived or replaced. Every request gets an answer. A session is
     removed as idle only while it runs and nothing happened in it after the time for which it was probed; each request for a session renews its activity and schedules a probe after the configured timeout. Removing a session stops
     its jobs before their checkpoints are cleaned up, and leaves it deleted. Interrupting all operations, those with a tag, or one operation removes exactly the operations that match from the session, stops each of them, and returns
     their ids.""",
     "schedules histories", "all interleavings of requests, probes, deletions and interrupts",
     "Removing a session that is in use needs a probe that races with a request; tests create one session, never leave it idle and rarely interrupt.",
     ["crates/sail-session/src/session_manager/actor/handler.rs", "crates/sail-common-datafusion/src/session/activity.rs", SC + "session.rs", SC + "service/plan_executor.rs"],
     [("session manager", "crates/sail-session/src/session_manager/actor/handler.rs"), ("interrupts", SC + "session.rs")],
     "case analysis of the session states and typestate of its events over MIR")
