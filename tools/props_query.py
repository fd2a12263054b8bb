PP = "crates/sail-physical-plan/src/"
LP = "crates/sail-logical-plan/src/"
prop("Q01", "Physical operators keep their settings, inputs and partitions",
     """An operator made for a logical node has that node's settings and inputs. When the optimizer or the distributed planner rebuilds an operator with new children it keeps every setting and puts each child where the old one was.
     Partition i of an operator reads partition i of its inputs; an operator that reads one partition only requires its input to have one, one that matches rows by key requires all rows of a key together, and one that says
     it keeps the order of its input reads one input partition in order.""",
     "inputs configurations", "all operators of the workspace, plans, optimizer rewrites and partition counts",
     "Lost settings show only for a plan that an optimizer rule rebuilds, and wrong partitions only for inputs that have more than one; tests mostly run small single-partition inputs.",
     ["crates/sail-session/src/planner.rs", PP + "lib.rs", "crates/sail-physical-optimizer/src/lib.rs"],
     [("extension planner", "crates/sail-session/src/planner.rs"), ("operators", PP)],
     "field-by-field value tracing through constructors over MIR for every ExecutionPlan implementation, and partition argument tracing")
prop("Q02", "Logical nodes keep their settings and inputs under rewriting",
     """A logical node rebuilt by the optimizer takes the new inputs and expressions, in order, and keeps every other setting. It lists all inputs and expressions it has, asks for every column it needs, and lets filters and limits
     pass only where they do not change its result. Two nodes, functions or physical expressions are equal only if all of their settings are, so that the optimizer merges only equal ones, and equal ones hash equally.""",
     "inputs configurations", "all logical nodes, functions and expressions of the workspace, under all optimizer rewrites",
     "Whether a rule rebuilds, prunes or merges a node depends on the plan around it; each node type times each rule is out of reach of tests.",
     [LP + "lib.rs", "crates/sail-plan/src/lib.rs", "crates/sail-function/src/lib.rs"],
     [("logical nodes", LP), ("functions", "crates/sail-function/src/")],
     "field-by-field value tracing through rebuilding over MIR for every logical node, and comparison coverage of hand-written equality")
prop("Q03", "An error of an input is never taken for its end",
     """When an input stream of an operator, a commit or a writer reports an error, the code that reads the stream returns the error or passes it on. It never ends as though the input had ended there, and it never
     goes on with the next item as though the failed one had not been there. Only deletions of left-over files, which go on with the next file, are exempt.""",
     "inputs crash-points", "all bodies of the workspace that read a stream item by item, for an error at any item",
     "A dropped error shows only when an input fails half way, which tests hardly inject; the outcome is a wrong answer or a committed part of a write instead of a failure.",
     [PP + "lib.rs", "crates/sail-delta-lake/src/physical_plan/mod.rs", "crates/sail-iceberg/src/physical_plan/mod.rs", "crates/sail-execution/src/task_runner/monitor.rs"],
     [("operators", PP), ("Delta plans", "crates/sail-delta-lake/src/physical_plan/"), ("Iceberg plans", "crates/sail-iceberg/src/physical_plan/")],
     "typestate of the error of each awaited or polled stream item over MIR (read, then returned or forwarded), with the item assumed to be an error")
prop("Q04", "Sail's own operators deliver every row of their input exactly once",
     """Coalescing reads every input partition in exactly one output partition; round-robin repartitioning sends every row to exactly one output; the partitions of range() together are exactly its values; limit and offset
     over a stream skip and return exactly the asked number of rows; show() shows the first rows up to its limit; barrier operators read all of their preconditions before their result;
     monotonically_increasing_id and spark_partition_id give every row the value of its position and partition.""",
     "inputs", "all partition counts, batch sizes, bounds and steps",
     "Off-by-one errors at batch and partition boundaries depend on counts and sizes that tests do not sweep; large bounds overflow.",
     [PP + "coalesce.rs", PP + "repartition.rs", PP + "range.rs", PP + "monotonic_id.rs", PP + "streaming/limit.rs", PP + "show_string.rs", PP + "barrier.rs", LP + "range.rs"],
     [("partition arithmetic", PP + "coalesce.rs"), ("round robin", PP + "repartition.rs"), ("ranges", LP + "range.rs")],
     "polynomial normal form of the index arithmetic on every path over MIR (adjacency, first and last bounds, counts) and case analysis of counters")
prop("M01", "MERGE applies the first matching clause to each row of its kind, once",
     """MERGE INTO joins target and source in full on the whole ON condition (null keys never match), sorts rows into matched, not matched by source and not matched by target by where they are present, and applies to each the first
     clause of that kind whose condition is true (null is not true): values and operation are those of that clause. Target rows no clause is for keep their values; source rows no clause is for are not inserted. A second match of
     a target row is refused unless nothing depends on it. The files and rows to be replaced are those of all clauses. Writers write the rows marked as written and delete those marked as deleted, whichever way the table is written.""",
     "inputs", "all MERGE statements, sources and targets",
     "The clause combinations, null conditions and duplicates multiply; tests use a few clauses each and sources without duplicates or nulls.",
     [LP + "merge.rs", PP + "merge_cardinality_check.rs", "crates/sail-delta-lake/src/physical_plan/writer_exec.rs", "crates/sail-iceberg/src/physical_plan/merge_row_projection.rs"],
     [("expansion", LP + "merge.rs"), ("cardinality check", PP + "merge_cardinality_check.rs"), ("Iceberg rows", "crates/sail-iceberg/src/physical_plan/merge_row_projection.rs")],
     "interpretation of the built plan expressions as truth tables over row presence, decision tables of the operation codes and case analysis of the cardinality check over MIR")
