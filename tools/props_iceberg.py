IP = "crates/sail-iceberg/src/"
prop("I01", "Iceberg commits never replace, lose or fork a version of the table",
     """A metadata version of an Iceberg table is only ever created, never overwritten. A commit or a change of table properties reports success only when its version was created and no other writer has the same version, or when the
     table's catalog accepted it; otherwise it starts again from the newest metadata or fails. The newest metadata is the listed file with the highest version. On every attempt the requirements of the change - for a row-level change
     the snapshot its rows were read from - are validated against the metadata it builds on before anything is written. Tables a catalog manages are changed only through the catalog, whose answer is taken as it is.""",
     "schedules crash-points histories", "all interleavings of committing writers, answers of catalogs and object stores, and failures at any call",
     "Lost or forked versions need two writers in a narrow window, or a failing store or catalog call between two steps; the tests commit alone.",
     [IP + "physical_plan/commit/commit_exec.rs", IP + "table_format.rs", IP + "utils/metadata_loader.rs", IP + "operations/bootstrap.rs"],
     [("commit", IP + "physical_plan/commit/commit_exec.rs"), ("property changes", IP + "table_format.rs"), ("catalog commits", IP + "catalog_support/")],
     "typestate of metadata writes, validations and attempts on every path of the commit over MIR, with the answers of stores and catalogs assumed one by one; decision tables of requirements, answers and commit modes")
prop("I02", "A failed Iceberg commit leaves no files behind and removes none in use",
     """When a commit fails before its metadata can have been written, the data files of its writers and the manifests made for its snapshot are removed. They are kept when the commit may have happened: when its metadata was written,
     when a conflicted metadata file could not be removed, and when the answer of the catalog is unknown. The files of a commit that succeeded are never removed.""",
     "crash-points", "a failure at any call of a commit, bootstrap or catalog update",
     "Removing the files of a commit that happened destroys the table, yet it shows only when a call fails after the write; leftovers do not show in any query.",
     [IP + "physical_plan/commit/commit_exec.rs", IP + "operations/snapshot.rs", IP + "operations/bootstrap.rs"],
     [("clean-up", IP + "physical_plan/commit/commit_exec.rs"), ("manifests", IP + "operations/"), ("first snapshot", IP + "operations/bootstrap.rs")],
     "typestate of the may-have-happened flag and of recorded paths at every error return of the commit over MIR")
prop("I03", "An Iceberg snapshot holds exactly the files it should, under consistent ids",
     """An append or row-level change keeps every manifest of the snapshot it builds on, an overwrite keeps none; every data and delete file of the change is listed in one new manifest of its kind and partition spec. The snapshot, the
     manifests it adds and the main branch carry one new snapshot id, and the sequence number after the table's last. Metadata that is written has the snapshot in its list and log and as the current one, and logs the metadata it replaces.
     Delete files are added only to format versions that have them.""",
     "inputs histories", "all changes, partition specs, format versions and earlier snapshots",
     "A dropped manifest or wrong id shows only for tables with several specs, delete files or earlier snapshots, often only to another engine; tests look at few tables.",
     [IP + "operations/snapshot.rs", IP + "operations/action.rs", IP + "operations/bootstrap.rs", IP + "physical_plan/commit/commit_exec.rs"],
     [("snapshots", IP + "operations/"), ("metadata", IP + "physical_plan/commit/commit_exec.rs")],
     "typestate of each manifest and file from the change to the manifest list over MIR, value tracing of ids and sequence numbers, decision tables of kinds and formats")
prop("I04", "Iceberg scans return no deleted row and lose no other",
     """Every live entry of every delete manifest of the snapshot is taken into account, with its own or its manifest's sequence number. Position deletes apply to the data files of their path or partition that are not newer,
     equality deletes to those of their partition, or of the table where their spec is unpartitioned, that are older. A scan drops a row exactly if an applicable delete names its file and position or holds its key; positions count
     the rows of the whole file in their order. Filters, projections and limits take effect after the deletes. Deletes that are not supported fail the scan.""",
     "inputs histories", "all delete files, manifests, sequence numbers, partitions, batches and positions",
     "A deleted row returns only for a particular mix of delete kinds, sequence numbers, partition specs, batch boundaries or limits; tests have few delete files, most of them written by the same engine.",
     [IP + "datasource/provider.rs", IP + "spec/delete_index.rs", IP + "physical_plan/delete_apply_exec.rs"],
     [("scans", IP + "datasource/provider.rs"), ("index of deletes", IP + "spec/delete_index.rs"), ("applying deletes", IP + "physical_plan/delete_apply_exec.rs")],
     "decision tables of applicability over relations of sequence numbers, typestate of every delete file, data file and row from manifest to mask over MIR, normal forms of row positions, provenance of the filters and limits of each branch of the scan")

prop("I05", "Iceberg scans skip only data files without matching rows",
     """A scan leaves out a manifest or data file only if a condition that every row of the result must satisfy - a column (not an expression on one) compared with literals by =, IN, <, <=, > or >=, possibly below AND - excludes its
     partition bounds, partition value or column statistics; a partition spec, transform, bound, value, count or type that is missing or not known excludes nothing. A filter is taken over from the query as exact only if it is an
     equality or IN list of literals on a column that every partition spec of the table partitions by itself, of a type whose partition values compare exactly; scans that read metadata as data or add file and row columns take
     over none. Exact filters are still applied to the rows where deletes are. A limit skips files only once those before them hold more rows. The statistics of a column are its own, and unknown where a file lacks them.""",
     "inputs histories", "all filters, partition specs and their evolution, transforms, types, manifests, bounds, values and statistics",
     "A wrong skip is a missing row: it takes a bound exactly at a literal, a partition spec that was evolved, a file without statistics or a particular type; tests compare a few filters on small tables with complete statistics.",
     [IP + "datasource/provider.rs", IP + "datasource/pruning.rs"],
     [("pruning", IP + "datasource/pruning.rs"), ("filters and statistics", IP + "datasource/provider.rs")],
     "decision tables of every comparison over relations and missing values, of literal and column types and of filter classification over MIR; provenance of columns, literals, bounds and partition fields; typestate of every listed data file")
