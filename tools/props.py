"""Which monitored workloads decide which property, and how much of them quick and thorough run."""


def R(variant, harness, mode, quick, thorough, **kw):
    d = dict(variant=variant, harness=harness, mode=mode, quick=quick, thorough=thorough)
    d.update(kw)
    return d


PROPS = {
    "C01": {
        "runs": [R("asan", "h_crash", "crash", 160, 8000), R("asan", "h_crash", "ondisk", 100, 4000)],
        "rule": "seeded random histories of one writer (and readers that commit) on a recording directory that knows what has been synced; at random operations the possible "
                "directories after a power cut are built (nothing unsynced, everything, any mixture of lost, torn, zeroed and stale files) and reopened: the newest acknowledged commit "
                "or the one in progress must be there with exactly its content, a new writer must go on from it; on disk, the bytes of every file of an acknowledged commit are compared with "
                "what was fsynced (interposed system calls); non-trivial: distinct crash images or contents",
        "technique": "runtime monitoring: crash images reconstructed from the recorded file operations and fsync calls, checked against the recorded history, under address and undefined behaviour sanitizers",
        "note": "Exploration. Crash model: a sync makes durable the synced file's bytes and name and all removals before it; everything else may be lost, torn or stale.",
        "must_observe": ["crash_images", "images_with_new_commit", "images_with_old_commit", "writers_after_crash", "kept_commits_checked", "durable_files", "fsyncs"],
    },
    "C02": {
        "runs": [R("asan", "h_crash", "faults", 320, 14000), R("asan", "h_crash", "ondisk", 120, 5000)],
        "rule": "seeded random histories of one writer with injected failures of every kind of file operation (once, from then on, now and then, disk full) and failing system calls with short "
                "writes on real directories; after every failed call the committed content must be intact on disk, and what a later successful commit contains must be explained by the history; "
                "non-trivial: distinct contents compared",
        "technique": "runtime monitoring with fault injection: recorded histories checked against a model of what may survive, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories and fault points.",
        "must_observe": ["failed_write", "failed_create", "failed_sync", "failed_disk_full", "settled_after_failure", "disk_checks", "syscall_faults", "failed_calls"],
    },
    "C05": {
        "runs": [R("asan", "h_postings", "inverted", 400, 16000)],
        "rule": "documents with hand-made token streams (increments, offsets, payloads, long and odd terms, cut fields, omitted norms and positions) indexed with random settings, flushed, merged and "
                "reopened; terms, postings, payloads, norms, vectors, stored fields and skips are all compared with a reference inverted index; non-trivial: distinct contents compared",
        "technique": "runtime monitoring: the index written from recorded token streams compared with a reference inverted index, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random documents.",
        "must_observe": ["content_checks", "skips", "term_seeks", "payloads_read", "vector_checks", "stored_checks", "optimized"],
    },
    "C26": {
        "runs": [R("asan", "h_crash", "damage", 190, 8000)],
        "rule": "committed indexes damaged in every way (each byte and length of segments_N swept, bits, truncation, zeros, removed files, garbage segments.gen): an open must either refuse with an exception, "
                "fall back to an older intact commit or show exactly the committed content, without a memory error; CheckIndex must report damage and its repair must leave exactly the undamaged segments; "
                "non-trivial: distinct damaged indexes",
        "technique": "runtime monitoring: mutation of committed files with a content oracle, under address and undefined behaviour sanitizers",
        "note": "Exploration; segments files are protected by a checksum, other files only by what CheckIndex reads.",
        "must_observe": ["refused", "fell_back", "repairs", "gen_damaged", "full_sweeps", "checkindex_damaged"],
    },
    "C03": {
        "runs": [R("asan", "h_index", "history", 300, 12000)],
        "rule": "seeded random histories of one writer (all operations, random writer settings, three directory kinds, failing documents), the committed or "
                "near-real-time content dumped and compared with a sequential model after every commit; non-trivial: a distinct index content that was compared",
        "technique": "runtime monitoring: recorded writer histories checked against a sequential model, under address and undefined behaviour sanitizers",
        "note": "Exploration: every explored history agreed with the model; histories, settings and documents are seeded random.",
        "must_observe": ["content_checks", "op_update", "op_addIndexes", "op_rollback", "op_delete_query"],
    },
    "C04": {
        "runs": [R("asan", "h_snap", "snapshot", 260, 12000)],
        "rule": "seeded random histories of one writer with readers taken, cloned and reopened at random points (committed, near-real-time, read-write, terms index "
                "divisor) and held; each one is dumped again and again and compared with the model content of the moment it was opened; non-trivial: distinct (content, kind of reader) pairs",
        "technique": "runtime monitoring: every reader of a recorded history is compared with the model state it must show, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories, single-threaded apart from background merges.",
        "must_observe": ["snapshot_checks", "reopens", "clones", "iscurrent_checks"],
    },
    "C09": {
        "runs": [R("asan", "h_commit", "lifecycle", 360, 14000)],
        "rule": "seeded random histories of one writer on a recording directory, under deletion policies that keep all, some or only the last commit, snapshots, "
                "held readers, foreign files and failing documents; every create and delete is checked online against the files of the kept commits, their bytes are "
                "rehashed, every kept commit is opened and compared, and the final listing must be exactly the files of the kept commits; non-trivial: distinct final directories",
        "technique": "runtime monitoring: online checker over the recorded file operations of the index directory, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories on a directory with POSIX semantics (open files can be deleted).",
        "must_observe": ["ledger_checks", "final_listings", "kept_checks", "snapshots", "files_deleted", "op_rollback", "opens_at_commit"],
    },
    "C24": {
        "runs": [R("asan", "h_commit", "twophase", 420, 16000)],
        "rule": "seeded random histories of prepareCommit, commit with and without user data, rollback, close, failing commits (injected write and sync failures), "
                "writers opened at old commits and commits through readers; after every call the newest commit, its content, user data, version and the list of commits are compared "
                "with a model; non-trivial: distinct contents compared",
        "technique": "runtime monitoring: recorded commit histories checked against a sequential model of commits, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories.",
        "must_observe": ["disk_checks", "list_checks", "commits_landed", "prepares", "failed_commits", "op_rollback", "opens_at_commit"],
    },
    "C25": {
        "runs": [R("asan", "h_snap", "readerops", 260, 12000)],
        "rule": "seeded random histories of deletes, undeletes, norm changes, clones, reopens, commits and closes through several readers of one index, with writers in between; "
                "after every step each open reader is compared with its own model; refused operations must be refused with the right exception; non-trivial: distinct contents compared",
        "technique": "runtime monitoring: recorded reader histories checked against a sequential model of readers, locks and commits, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories.",
        "must_observe": ["content_checks", "refused_stale", "refused_lock", "survival_checks", "op_undelete", "op_setnorm"],
    },
    "C29": {
        "runs": [R("asan", "h_commit", "merging", 420, 16000)],
        "rule": "seeded random histories with both log merge policies wrapped by a monitor that checks every selected merge (adjacent, distinct, eligible, within the factor); "
                "content is compared with the model after optimize, expungeDeletes, commits and settled merges, with the bounds on the number of segments; non-trivial: distinct contents compared",
        "technique": "runtime monitoring: online checker of every merge a policy selects plus content comparison with a sequential model, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random histories, serial and concurrent merge scheduler.",
        "must_observe": ["merges_selected", "optimize_merges", "expunge_merges", "settled_checks", "content_checks"],
    },
    "C13": {
        "runs": [R("asan", "h_search", "matches", 800, 20000)],
        "rule": "random documents (stacked and gapped tokens, several fields, numeric values, deletions, random segmentation) and random query trees over every query and filter kind; each query is "
                "evaluated on every live document by an independent reference that works on the recorded tokens, and compared with the hits of TopDocs, in-order and out-of-order collectors, "
                "nextDoc/advance/mixed scorers, filters, the rewritten query, a clone; the caller's query must not change; non-trivial: distinct (query, hit set) with hits",
        "technique": "runtime monitoring: hits of generated queries compared with a reference evaluation of the query's definition on recorded documents, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random queries. Sloppy phrases over stacked tokens are not generated (their definition is not documented).",
        "must_observe": ["hit_sets", "hits_checked", "out_of_order", "queries", "max_segments", "large_indexes"],
    },
    "C14": {
        "runs": [R("asan", "h_search", "scores", 560, 14000)],
        "rule": "as C13, with the score of every hit compared with the similarity formula computed by the reference, and with explain, the in-order and out-of-order collectors, nextDoc/advance/mixed "
                "scorers and filtered searches; explain must agree with (non-)matching; maxScore must be the maximum; non-trivial: distinct (query, hit set) with hits",
        "technique": "runtime monitoring: scores and explanations of generated queries compared with a reference of the documented formula, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random queries; relative tolerance 1e-4 between formula and score. Queries whose documented formula leaves the score open (overlapping span matches) are compared between "
                "ways of collecting and explain only.",
        "must_observe": ["scores_checked", "explanations", "out_of_order", "queries"],
    },
    "C15": {
        "runs": [R("asan", "h_search2", "sorting", 500, 16000)],
        "rule": "random queries, filters, sorts over one to four keys of every type (field caches of all kinds, custom comparators, locale, score, document) and result sizes, collected by every search entry "
                "point and collector (paged, out of order, filling fields, tracking scores, positive only, time limited, multi-segment): the hits must be exactly the prefix of the full ordering; "
                "non-trivial: distinct (query, sort) with hits",
        "technique": "runtime monitoring: result lists compared with the sorted list of all matches of the same execution, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random corpora, queries and sorts.",
        "must_observe": ["top_lists", "cut_lists", "pages", "values_checked", "multi_key_sorts", "out_of_order"],
    },
    "C30": {
        "runs": [R("asan", "h_search2", "cursors", 350, 12000)],
        "rule": "every kind of cursor (term docs, positions, all docs, doc id sets, scorers, spans, term enumerations, filtered ones, single and composite readers) is driven by random interleavings of "
                "next, skip, seek and bulk reads and compared, step by step, with the full list a second cursor enumerates; non-trivial: distinct walks",
        "technique": "runtime monitoring: step-by-step comparison of random cursor walks with a linear enumeration, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random walks.",
        "must_observe": ["cursor_steps", "postings_steps", "bulk_reads", "alldocs_steps", "span_steps", "term_steps", "scorer_queries", "filter_sets"],
    },
    "C16": {
        "runs": [R("asan", "h_multi", "composite", 240, 12000)],
        "rule": "the same documents as one index and as random trees of MultiReader, ParallelReader, FilterIndexReader, MultiSearcher and ParallelMultiSearcher over parts of it: content, terms, frequencies, "
                "hits, scores, explanations, sorted results and field names must be equal, also after deletions, norms and undeletes made through the composite, clones, commits and reopens; "
                "non-trivial: distinct queries with hits",
        "technique": "runtime monitoring: composite and single-index executions compared, under address and undefined behaviour sanitizers",
        "note": "Exploration. Queries over MultiSearcher are ones that are rewritten alike in every index (see the known finding).",
        "must_observe": ["reader_comparisons", "queries", "explanations", "sorted_lists", "deletes_through_composite", "norms_through_composite", "commits_through_composite", "snapshots", "clones"],
    },
    "C21": {
        "runs": [R("asan", "h_multi", "caches", 420, 16000)],
        "rule": "long-lived cached filters (all deletion modes, span filters), field caches of all types and sorts by them are used with readers that are reopened, cloned, deleted from, undeleted, closed and "
                "purged in random order, and must answer exactly what the documents visible to each reader say; the LRU cache and the filter manager against models; non-trivial: distinct filter results",
        "technique": "runtime monitoring: cached answers compared with a reference computed from the documents each reader must see, under address and undefined behaviour sanitizers",
        "note": "Exploration. Filters cached without regard to deletions are used with readers in the order of their deletions only (see the known finding).",
        "must_observe": ["cached_filter_checks", "field_arrays", "cached_sorts", "span_results", "undeletes", "reader_deletes", "readers", "clones", "lru_operations", "managed_filters", "purges"],
    },
    "C11": {
        "runs": [R("asan", "h_store", "dirs", 400, 16000)],
        "rule": "seeded random sequences of creates, writes of every encoding, output seeks, copies, reads, seeks, clones, buffer size changes, deletes, touches, listings and closes on RAM, SimpleFS, MMap, "
                "NIOFS-style, FileSwitch directories, copies of directories and compound files, each compared operation by operation with byte arrays; non-trivial: distinct file contents",
        "technique": "runtime monitoring: every directory operation compared with a byte array model, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random operation sequences; files up to some 100 kB.",
        "must_observe": ["reads", "seeks", "clones", "compound_files", "copied_files", "output_seeks", "refusals", "buffer_sizes", "growing_files", "full_reads"],
    },
    "C12": {
        "runs": [R("asan", "h_store", "encodings", 400, 20000)],
        "rule": "seeded random values (boundaries of every length included) written and read with every encoding of IndexOutput/IndexInput, garbage read as encoded values, texts with every kind of code point and damaged "
                "byte sequences through the UTF conversions and readers, compression, Base64, base-n numbers, small doubles; non-trivial: distinct values",
        "technique": "runtime monitoring: round trips and reference encoders compared with the real ones, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random values.",
        "must_observe": ["typed_values", "garbage_values", "texts", "damaged_texts", "reader_calls", "packed", "numbers", "damaged_compressions"],
    },
    "C06": {
        "runs": [R("asan", "h_threads", "writers", 130, 8000)],
        "rule": "several threads add, update, delete, commit, optimize, refresh and roll back on one writer with random settings, schedulers and delays injected in directory operations; each operation's start and "
                "acknowledgement are recorded, and every near-real-time reader, commit and the final index is compared with what these intervals allow: each acknowledged document exactly once, none half "
                "replaced, nothing acknowledged before the snapshot missing; CheckIndex on every final index; non-trivial: distinct final contents",
        "technique": "runtime monitoring: histories of concurrent operations checked offline against the intervals of their acknowledgements, under address and undefined behaviour sanitizers with injected delays",
        "note": "Exploration of the schedules that random delays and 8 cores give; seeded, but schedules differ between runs.",
        "must_observe": ["acknowledged_ops_checked", "updates_atomic", "full_contents", "snapshots", "threads"],
    },
    "C17": {
        "runs": [R("asan", "h_sets", "numeric", 400, 30000)],
        "rule": "random and boundary values of every numeric type through prefix coding at every shift, sortable conversions, number tools and date tools of every resolution: decode, order and rounding; ranges split at "
                "every precision step: sub-ranges disjoint and covering, on sampled and boundary values; numeric range queries, filters and cached filters over indexed values, open and closed, empty and "
                "extreme bounds, at random precision steps and rewrite methods, against a scan of the values; non-trivial: distinct range results",
        "technique": "runtime monitoring: encoders and range searches compared with arithmetic on the values, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random and boundary values. The sign of a zero bound is not judged.",
        "must_observe": ["dates_coded", "numeric_streams", "ranges_partial", "ranges_searched", "ranges_split", "values_coded"],
    },
    "C20": {
        "runs": [R("asan", "h_sets", "sets", 600, 40000)],
        "rule": "random sequences of operations around word boundaries and growth on BitVector (with persistence in both forms), BitSet, OpenBitSet, OpenBitSetDISI, SortedVIntList, filtered and doc id bit sets, "
                "PriorityQueue, ScorerDocQueue, collections and maps, each compared with a mathematical set, multiset or array; iterators walked by random nextDoc and advance; non-trivial: distinct sets",
        "technique": "runtime monitoring: operations on sets and queues compared with models step by step, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random sequences; sets up to some thousands of bits.",
        "must_observe": ["advances", "bitset_checks", "bitvector_ops", "bitvectors_read", "collection_ops", "iterator_steps", "openbitset_checks", "queue_ops", "scorer_queue_ops", "sparse_bitvectors", "vint_lists"],
    },
    "C28": {
        "runs": [R("asan", h, m, q, t, seed_offset=1000) for h, m, q, t in [
            ("h_index", "history", 30, 1500), ("h_snap", "readerops", 30, 1500), ("h_commit", "merging", 20, 1000), ("h_commit", "lifecycle", 20, 1000), ("h_postings", "inverted", 50, 2500),
            ("h_search", "matches", 60, 3000), ("h_search", "scores", 40, 2000), ("h_search2", "sorting", 50, 2500), ("h_search2", "cursors", 40, 2000), ("h_multi", "composite", 25, 1200),
            ("h_multi", "caches", 40, 2000), ("h_store", "dirs", 50, 2500), ("h_store", "encodings", 50, 2500), ("h_sets", "sets", 80, 4000), ("h_sets", "numeric", 50, 2500),
            ("h_threads", "sharing", 16, 800), ("h_crash", "faults", 30, 1500)]],
        "only_keys": r"(asan|ubsan|terminate|exit|assert|exception\.(std|unknown|other))",
        "rule": "a part of every workload of the other properties with other seeds, watched for reports of the sanitizers, failed internal assertions (BOOST_ASSERT and libstdc++ container assertions are on), exceptions "
                "that are not library exceptions, and abnormal ends; what else these workloads report is left to its property; non-trivial: distinct states of all workloads",
        "technique": "runtime monitoring: address and undefined behaviour sanitizers, container and library assertions over all workloads",
        "note": "Exploration. Signed overflow and shifts of negative numbers are not judged (the code base relies on two's complement).",
        "must_observe": ["queries", "content_checks", "cursor_steps", "typed_values", "openbitset_ops", "field_arrays", "failed_write"],
    },
    "C10": {
        "runs": [R("asan", "h_locks", "locks", 110, 6000)],
        "rule": "random commands (obtain, obtain with timeout, release, isLocked, clearLock, dropping the lock object, opening writers and modifying readers, SIGKILL of a process) are given to several processes with several "
                "directory objects, lock objects and names (links, relative paths) for the same index, with native and simple locks in the index or in a common place, and every answer is compared with a model of who "
                "holds the lock; processes and threads that compete freely are watched by a second exclusion (O_EXCL, atomic); single-instance locks against a model and by threads; non-trivial: distinct command sequences",
        "technique": "runtime monitoring: answers of several processes compared with a model of the holder, and mutual exclusion watched by an independent exclusion under stress, under address sanitizer",
        "note": "Exploration of seeded random commands and of the schedules that competing processes take.",
        "must_observe": ["lock_operations", "refused_across_processes", "refused_in_process", "killed_holders", "refused_releases", "cleared", "race_holders", "single_operations", "writers_refused", "readers_refused", "readers_holding"],
    },
    "C18": {
        "runs": [R("asan", "h_qp", "parser", 100, 6000)],
        "rule": "texts written from randomly built query trees (terms with escapes, phrases with slop, prefixes, wildcards, fuzzies, ranges, groups, fields, boosts, both operators and their spellings, any "
                "blanks) parsed under random parser settings and compared with the tree; printed queries parsed again; escaped texts parsed as themselves; random and damaged texts either parsed or refused with "
                "the declared error; non-trivial: distinct texts",
        "technique": "runtime monitoring: query parser compared with the tree each text was written from, round trips and refusals, under address and undefined behaviour sanitizers",
        "note": "Exploration of seeded random texts. Blanks inside range brackets separate the words; an escaped leading star counts as a leading wildcard (as in Java).",
        "must_observe": ["booleans", "boosts", "escaped_texts", "faithful_queries", "field_queries", "fuzzies", "groups", "parsed", "phrases", "prefixes", "ranges", "refused", "round_trips", "wildcards"],
    },
}

NOT_APPLICABLE = {
}
