"""properties of catalogs"""
MC = "crates/sail-catalog-memory/src/"
prop("C02", "A memory catalog statement changes just what it names, or nothing",
     """Creating a database, table or view that exists keeps it (IF NOT EXISTS), replaces it (OR REPLACE) or fails, as the statement says; one that does not exist is created, and stored as the statement describes it, except that REPLACE
     needs one. Dropping removes the named object; if there is none it fails unless IF EXISTS; a database with tables or views is dropped only with CASCADE. Reads give what is stored, lists all of it. Setting properties with a previous
     metadata location fails unless that is the current one; unsetting removes the named properties. Check and change are one step for other statements, and a statement that fails changes nothing.""",
     "inputs schedules histories", "all statements, modes, earlier states of the catalog and interleavings of sessions",
     "A wrong mode, a change in two steps or a half-done statement shows only for particular earlier states or concurrent sessions; tests run single statements one after another.",
     [MC + "provider.rs", MC + "managed_table.rs"],
     [("statements", MC + "provider.rs"), ("conditional updates", MC + "managed_table.rs")],
     "decision tables of every statement over modes and existence over MIR, provenance of names and stored options, typestate of accesses (one step) and of changes before errors")
