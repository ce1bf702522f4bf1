"""Which binaries, in which build configuration, decide each property."""
RUNS, TECH, LEVEL, NOTE, NOT_CLAIMED = {}, {}, {}, {}, {}

def prop(id, runs, tech, note, level="exploration"):
    RUNS[id] = [dict(zip(("config", "bin"), r)) if isinstance(r, tuple) else r for r in runs]
    TECH[id], NOTE[id], LEVEL[id] = tech, note, level

prop("C01", [("plain", "c01")], "model-based testing: random probe histories against a linear-scan model",
     "Random lists, storage forms and probe histories; lists up to a few thousand annotations.")
prop("C02", [("plain", "c02")], "property-based testing: random query trees against a naive set evaluator",
     "Trees to depth 4 over lists of up to 60 annotations; all probe kinds.")
prop("C03", [("asan", "c03")], "property-based and grammar fuzzing under sanitizers: print/parse round trips, naive evaluation, damaged input",
     "Query and infix texts of bounded nesting; two listed findings excluded by construction.")
prop("C04", [("plain", "c04")], "differential property-based testing: optimised against plain evaluation on the same probe history",
     "Query shapes biased to those the optimizer rewrites, plus random trees.")
prop("C05", [("plain", "c05")], "property-based testing against a naive minimal-interval reduction, with random merge groupings",
     "Batches of up to about 100 entries over up to 6 lists; exclusions applied in the final step.")
prop("C06", [("asan", "c06")], "property-based round-trip testing under sanitizers with exactly sized buffers",
     "Inputs to 200 kB and lists to a few thousand entries.")
prop("C07", [("asan", "c07")], "property-based testing under sanitizers against reference tokenizers; metamorphic relations on malformed text",
     "Texts of up to a few hundred bytes; every Unicode code point swept.")
prop("C08", [("asan", "c08")], "property-based testing against a reference of the fixed mapping; round trips through recipes and reopened indexes",
     "Stacks of up to three wrappers; strings to 60 bytes.")
prop("C09", [("asan", "c09")], "property-based round trips, grammar fuzzing and model-based testing of parameter histories, under sanitizers",
     "Configurations nested to depth 4, histories of up to 15 steps.")
prop("C10", [("asan", "c10")], "model-based property testing of stored JSON documents, and fuzzing of the translator, under sanitizers",
     "Documents nested to depth 5 with up to 14 elements per level.")
prop("C15", [("plain", "c15")], "model-based property testing: random merge and conversion schedules against a reference model of the content",
     "Up to 6 transactions per case and 8 storage steps; one listed finding excluded by construction.")
prop("C16", [("plain", "c16"), {"config": "ndebug", "bin": "c16", "quick_args": ["--scale", "0.4"]}], "crash and fault injection at file-system operations under random transaction histories, against a reference model of committed content",
     "Histories of up to 3 sessions of up to 12 transactions; process stops only, no loss of written data.", "fault_enumeration")
prop("C13", [("plain", "c13")], "stateful model-based property testing: random histories of readers and writers against a model of snapshots",
     "Histories of up to 100 steps over up to 5 handles; thread timing of the merger is sampled, not controlled.")
prop("C14", [("plain", "c14")], "stateful model-based property testing: random histories with erasures against a model of what is hidden",
     "Histories of up to 100 steps; one listed finding excluded by construction.")
prop("C17", [("plain", "c17")], "crash and fault injection at file-system operations under random histories of joint commits, against a reference model",
     "Up to 4 clones of one index per joint commit; over different indexes only the effect after return is decided.", "fault_enumeration")
prop("C18", [("plain", "c18")], "crash and fault injection at file-system operations of random merges, with side files cut short, against a reference model",
     "Merges of 2 to 4 files of up to about 20 tokens (now and then 1700) each, interrupted up to 4 times.", "fault_enumeration")
prop("C20", [("plain", "c20"), ("asan", "c20")], "model-based testing of histories against a flat string, and crash injection at file-system operations, also under sanitizers",
     "Contents up to 400 kB, blocks of 1 byte to 64 kB.", "fault_enumeration")
prop("C11", [("asan", "c11")], "model-based property testing of built indexes against a flat text and naive lists, under sanitizers",
     "Up to 20 steps of up to 3000 tokens (now and then a megabyte).")
prop("C12", [("plain", "c12"), ("asan", "c12")], "stateful model-based property testing and crash and fault injection at file-system operations, also under sanitizers",
     "Histories of up to 5 transactions of up to 10 steps; process stops only.", "fault_enumeration")
prop("C30", [("plain", "c30")], "differential and model-based property testing: one content in every engine, random queries against a naive evaluator",
     "Contents of up to 15 texts and annotations (now and then over a thousand tokens), 6 query trees each.")
prop("C28", [("asan", "c28"), {"config": "tsan", "bin": "c28", "quick_args": ["--scale", "0.3"], "args": ["--only", "threads"]}], "property-based testing against an independent reference of the algorithm, under sanitizers",
     "Words of up to about 45 letters; threads sampled.")
prop("C23", [("asan", "c23")], "property-based testing against definitions in extended precision, and exhaustive search over judgements for the effectiveness difference, under sanitizers",
     "Rankings of up to 60 documents; the exhaustive part up to 10.")
prop("C27", [("asan", "c27")], "property-based testing of computed statistics against direct counting, under sanitizers",
     "Collections of up to 25 documents of up to about 80 words; a few of more than 65536 items.")
prop("C24", [("asan", "c24"), {"config": "tsan", "bin": "c24", "quick_args": ["--only", "parallel,batch", "--scale", "0.5"], "args": ["--only", "parallel,batch"]}], "property-based testing against the scoring formulas evaluated over every document, and differential testing of parallel, batch and pipeline variants, under sanitizers",
     "Collections of up to 25 documents of up to about 80 words; passage ranking over up to some hundred containers; threads sampled.")
prop("C25", [("plain", "c25"), {"config": "asan", "bin": "c25", "quick_args": ["--scale", "0.3"]}], "model-based property testing of ingested files against an independent reader of them, and crash and fault injection at file-system operations, also under sanitizers",
     "Files of up to 12 lines, a few of more than 65536; up to 4 files per index; process stops only.", "fault_enumeration")
prop("C26", [("plain", "c26"), {"config": "tsan", "bin": "c26", "quick_args": ["--only", "ingest", "--scale", "0.2"], "args": ["--only", "ingest"]}], "model-based property testing of ingested documents, malformed input at every position, and crash and fault injection at file-system operations, also under a race detector",
     "Files of up to 25 documents nested to depth 3, up to 4 files per index; process stops only; threads sampled.", "fault_enumeration")
prop("C29", [("asan", "c29")], "property-based round trips, structured fuzzing of spellings and damage, and model-based histories of foraging against direct counting, under sanitizers",
     "Strings of up to about 20 characters; indexes of up to 15 documents.")
prop("C22", [("plain", "c22"), {"config": "tsan", "bin": "c22", "quick_args": ["--scale", "0.3"]}], "stateful property testing of concurrent histories under injected delays, judged afterwards against a reference model of which transactions each snapshot may show; also under a race detector",
     "Up to 8 threads and about 120 transactions per case; thread schedules are sampled.")
prop("C21", [("asan", "c21"), {"config": "tsan", "bin": "c21", "quick_args": ["--only", "threads"], "args": ["--only", "threads"]}], "model-based property testing of file histories against a map from names to bytes, under sanitizers; threads also under a race detector",
     "Files of up to 700 kB; compressed files are read in sequence only.")
prop("C19", [("asan", "c19")], "structured fuzzing of index files and configurations (cuts, altered fields, junk) with refusal, unchanged files and exact content as oracle, under sanitizers",
     "Files of up to 3 random shards; payload bytes are not altered.", "fault_enumeration")
prop("C32", [{"config": "plain", "bin": "c32", "apps": ["ssr-server"]}], "stateful model-based property testing of the search server over the wire, against the ranking formula and the stored text, with malformed requests and clients that leave early",
     "One to three burrows of up to 13 documents, up to 27 requests per history; one client at a time.")
prop("C31", [{"config": "plain", "bin": "c31", "apps": ["fiver2hazel", "merge-hazels", "meadowlark", "forage", "set", "containers", "rank", "jsonl", "simple", "tf-df", "tf-idf"]}], "model-based and differential property testing of the tools run as programs, with files cut short by a size limit",
     "Indexes of up to about 10 transactions or 15 documents; a tenth of the command lines are malformed.")
