"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["src/valori/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/valori/" + w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": "src/valori/" + w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "Memory storage behaves as an isolated map",
  "After any sequence of store, overwrite, update, retrieve, delete, list and count operations the in-memory storage holds exactly the last vector and metadata stored under each identifier that has not been deleted. Arrays and metadata (also nested) handed in or handed out never alias stored data: changing them afterwards changes nothing in the store. Operations on unknown identifiers report failure and change nothing, an operation that fails with an error changes nothing either, and every operation before initialisation is refused.",
  "inputs histories", "all operation sequences, identifiers, vectors and metadata", "tests store and fetch one or two fixed vectors and never mutate what they passed in or got back",
  ["storage/memory.py", "storage/base.py"], [("MemoryStorage", "storage/memory.py")], [("vectors, metadata", "id -> stored copies", "storage/memory.py")], ["retrieve_vector", "list_vectors", "get_stats"])
p("C02", "Disk storage behaves as a map for arbitrary identifiers",
  "For any set of identifiers (whatever characters they contain) the disk storage behaves as a map: each identifier returns the vector and metadata last stored under it, two different identifiers never share an entry, listing returns exactly the stored identifiers, and deleting, updating or overwriting one leaves all others as they were. No identifier makes it read or write outside its data directory.",
  "inputs histories", "all identifiers over an alphabet with path, dot, percent, and separator characters; all operation sequences", "tests use one or two well-behaved identifiers",
  ["storage/disk.py"], [("DiskStorage file naming", "storage/disk.py")], [("vector and metadata files", "one pair per identifier", "storage/disk.py")], ["retrieve_vector", "list_vectors", "file system"])
p("C03", "Disk and hybrid storage survive close and reopen",
  "Closing a disk or hybrid storage and reopening it on the same directory yields exactly the entries present before, with equal vectors and metadata and the right count, for any history of stores, updates and deletes and however many reopen cycles. Closing does not lose entries that were only held in memory or had been moved between tiers.",
  "histories inputs", "all operation and reopen sequences within the bounds", "tests reopen once after storing one vector",
  ["storage/disk.py", "storage/hybrid.py"], [("close / initialize", "storage/disk.py"), ("flush on close", "storage/hybrid.py")], (), ["retrieve_vector after reopen"])
p("C04", "Hybrid storage is one coherent map with bounded memory",
  "For any operation sequence and any memory limit the hybrid storage returns for each identifier the last stored vector and metadata, never a stale copy from the other tier, and each identifier is listed and counted exactly once. Entries held in memory never exceed the configured memory limit (which may be 0), and deleting an identifier removes it from both tiers.",
  "histories inputs configurations", "all sequences of store, overwrite, retrieve, delete and memory limits 0..n", "tests exercise a single limit and never overwrite an entry that has moved between tiers",
  ["storage/hybrid.py"], [("eviction and promotion", "storage/hybrid.py")], [("memory tier / disk tier", "where an entry lives", "storage/hybrid.py")], ["retrieve_vector", "list_vectors", "get_stats"])
p("C05", "Disk storage survives a crash at any write",
  "If the process dies at any point during a store, overwrite, update or delete, reopening the disk storage succeeds, every identifier not involved in the interrupted operation is intact, and the identifier involved is either absent (not after an overwrite) or has a complete vector and metadata that were stored under it; a new or deleted identifier never comes back with its metadata lost or foreign. Later operations on the reopened storage work as usual.",
  "crash_points histories inputs", "every file-system step of every operation, with torn final writes", "no test interrupts an operation",
  ["storage/disk.py"], [("write order", "storage/disk.py")], (), ["reopened storage"])
p("C06", "Saved state is restored exactly",
  "Saving vectors with identifiers (strings, integers of any size, or both mixed), metadata (possibly empty or nested) and index state with either persistence manager and loading them, in the same or a fresh manager, returns the same vectors, identifiers, metadata and state in the same order, whatever the path's suffix. A path that was never saved loads nothing instead of inventing data; a save that fails leaves the previous content in place.",
  "inputs histories", "all states, vectors, identifiers, metadata and file-name shapes within the bounds", "tests round-trip one fixed array with a .npz path",
  ["persistence/tensor.py", "persistence/incremental.py"], [("save/load vectors", "persistence/tensor.py"), ("save/load vectors", "persistence/incremental.py")], (), ["load_state", "load_vectors"])
p("C07", "Incremental persistence always recovers the latest complete state",
  "However saves, checkpoints and restarts interleave, incremental persistence loads the most recently saved state. If the process dies at any point inside a save, the next load after restart succeeds and returns either the state being saved or the one before it, and later saves are again the ones recovered.",
  "histories crash_points configurations", "all sequences of saves and restarts, all checkpoint intervals, every crash point", "tests save twice without a restart or crash",
  ["persistence/incremental.py"], [("checkpoint numbering and cleanup", "persistence/incremental.py")], [("operation count, checkpoint files", "recovery point", "persistence/incremental.py")], ["load_state after restart"])
p("C08", "Flat index returns the exact nearest vectors",
  "For every set of stored vectors, query and k, the flat index returns exactly min(k, live) distinct live vectors, sorted by distance, with true distances under the configured metric (cosine or Euclidean) and the stored metadata, and no vector left out is nearer than one returned. This still holds after any inserts, deletes, updates and after reopening the index on the same storage.",
  "inputs histories configurations", "all real vectors and queries, every k, histories of insert, delete, update, reopen", "tests check a handful of random vectors and only that some result comes back",
  ["indices/flat.py"], [("FlatIndex.search", "indices/flat.py")], [("vector cache and ids", "what is searched", "indices/flat.py")], ["search"])
p("C09", "HNSW index search is sound and never loses the whole index",
  "For every random level assignment, insertion order and deletion history, an HNSW search returns distinct live vectors only, at most k of them, sorted by their true distance, and is never empty while at least one vector is live and k is positive. When the index has never held more vectors than its neighbour limit, the results are the exact nearest ones.",
  "inputs histories configurations", "all random level draws, all vectors, insert/delete/update/search histories", "levels are random, so tests see one or two graphs out of many",
  ["indices/hnsw.py"], [("layer search and neighbour selection", "indices/hnsw.py")], [("graph, entry point", "navigable graph", "indices/hnsw.py")], ["search"])
p("C10", "IVF index keeps every vector in one cluster and searches soundly",
  "For every clustering the trainer may produce, every live vector belongs to exactly one cluster and no deleted vector to any. Search returns distinct live vectors sorted by true distance with at most k results, and when the number of probes covers all clusters the result is the exact top k.",
  "inputs histories configurations", "all cluster assignments, vectors, probe counts and histories", "tests run one clustering produced by a fixed seed",
  ["indices/ivf.py"], [("cluster assignment and probing", "indices/ivf.py")], [("inverted lists, centroids", "partition of live ids", "indices/ivf.py")], ["search", "get_stats"])
p("C11", "LSH index finds stored vectors and respects its threshold",
  "For every choice of random projections, searching the LSH index with a stored vector returns that vector unless k others are at least as close, provided its similarity passes the threshold; all results are distinct live vectors, sorted, at most k, with true similarity not below the threshold (the configured one, or the one passed to the call, zero included), which only filters: every candidate passing it is returned. Clearing or initialising again loses or hides nothing that is still counted.",
  "inputs histories configurations", "all random hyperplanes, vectors, tables and hash sizes within the bounds", "tests use one seed and check only that a list is returned",
  ["indices/lsh.py"], [("hashing and candidate ranking", "indices/lsh.py")], [("hash tables", "bucket -> vectors", "indices/lsh.py")], ["search"])
p("C12", "Annoy index wrapper returns only live, correctly identified vectors",
  "Over any history of insert, build, delete, update, clear and search, the Annoy index returns distinct live identifiers with the metadata and distance belonging to that identifier's current vector, sorted and at most k; a removed vector never comes back and updates take effect.",
  "histories inputs configurations", "all operation histories and vectors within the bounds, with the approximate library taken as exact", "tests insert once and search once",
  ["indices/annoy.py"], [("rebuild and id mapping", "indices/annoy.py")], [("id map, item vectors", "Annoy item number -> id", "indices/annoy.py")], ["search"])
p("C13", "Every index tracks inserts, deletes and updates exactly",
  "For every index type, after any history of inserts, deletes and updates the reported vector count equals the number of live vectors, delete and update report success exactly for live identifiers, operations on unknown or already deleted identifiers change nothing, and every identifier returned by insert is new.",
  "histories inputs configurations", "all histories over all five index types and arbitrary unknown identifiers", "tests delete one existing identifier per index",
  ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "client.py"], [("insert/delete/update", "indices/base.py")], [("vector count", "live vectors", "indices/base.py")], ["get_stats", "delete", "update"])
p("C14", "A database reopened on existing storage finds its vectors",
  "When a flat, HNSW or IVF index is initialised (also repeatedly) on a storage that already holds vectors, exactly those vectors are counted, found by search with their metadata, and can be deleted and updated; deletes made through the index before the reopen stay deleted.",
  "histories inputs configurations", "all index types, storage contents and histories before the reopen", "tests never reopen an index on populated storage except in one flow",
  ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "client.py"], [("initialize loads existing vectors", "indices/flat.py"), ("initialize", "indices/hnsw.py"), ("initialize", "indices/ivf.py")], (), ["search after reopen"])
p("C15", "Malformed input is refused without corrupting the index",
  "A rejected insert, update or search (wrong number of dimensions, wrong width, NaN or infinite components) raises a library error or reports failure and leaves the index and its storage exactly as they were: same count and same search results for valid queries. A valid request never fails because of an earlier rejected one.",
  "inputs histories", "all malformed shapes at every position of a history, for every index type", "tests try one malformed call on a fresh index and do not look at the state afterwards",
  ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"], [("argument checks", "indices/base.py")], (), ["search", "get_stats"])
p("C16", "Database lifecycle is enforced",
  "Before initialisation and after closing, every database operation is refused with a library error and touches neither index nor storage; initialise and close may be repeated in any order, and a closed and reinitialised database works again without leftovers. Index, storage, quantizer, processor and persistence components refuse use before initialisation in the same way.",
  "histories configurations", "all orders of initialise, close and operations, for every component type", "tests call one operation before initialisation",
  ["client.py", "base.py"], [("initialisation guard", "client.py")], [("initialised flag", "lifecycle state", "client.py")], ["all public methods"])
p("C17", "Scalar quantizer stays within half a step",
  "For every training set, bit width 1..16 and vector inside the trained range, quantize followed by dequantize returns each component within half a quantisation step (up to floating-point rounding), codes lie within 0..2^bits-1, values outside the range of a varying dimension are clamped, and quantisation is monotone in each component. Constant dimensions are restored exactly, vectors of another width than the training set are refused, and a refused training changes nothing.",
  "inputs configurations", "all training sets, vectors, bit widths 1..16 within the bounds", "tests check one random data set at 8 bits with a loose tolerance",
  ["quantization/scalar.py"], [("train/quantize/dequantize", "quantization/scalar.py")], [("min, max, scale", "trained range", "quantization/scalar.py")], ["quantize", "dequantize"])
p("C18", "Product quantizer assigns each part to its nearest codeword",
  "For every training set and clustering, each sub-vector is encoded as the index of a nearest codeword of its sub-space, dequantize returns precisely the concatenation of those codewords with the input's shape, and quantising a dequantised vector restores the same decoded vector. A refused training leaves the quantizer as it was, and vectors of another width are refused.",
  "inputs configurations", "all codebooks, vectors, sub-space counts within the bounds", "tests check shapes only",
  ["quantization/product.py"], [("codebooks", "quantization/product.py")], [("codebooks", "codewords per sub-space", "quantization/product.py")], ["quantize", "dequantize"])
p("C19", "SAQ quantizer encodes within its bit budget and decodes consistently",
  "For every training set and configuration the adaptive quantizer uses no more segments than configured, than dimensions, or than bits in its budget, allocates at least one bit to every segment and no more bits than its budget in total, covers every dimension exactly once, produces codes inside each segment's bit range, and decodes any code to a finite vector of the original shape inside the trained range; compression statistics agree with the allocated bits. A refused training leaves the quantizer as it was.",
  "inputs configurations", "all training data, bit budgets and segment counts within the bounds", "tests run a few fixed random configurations",
  ["quantization/saq.py"], [("segmentation, bit allocation, code adjustment", "quantization/saq.py")], [("segments, bits", "bit allocation", "quantization/saq.py")], ["quantize", "dequantize"])
p("C20", "Distance and similarity functions obey their laws",
  "For all vectors, Euclidean, Manhattan, Chebyshev and Hamming distances are non-negative, symmetric, zero for equal vectors and satisfy the triangle inequality and their definitions; cosine similarity is symmetric, lies in [-1, 1], is 1 for positively scaled copies and 0 when a vector is zero; Jaccard similarity, dot product and normalisation match their definitions; batch and pairwise forms agree with the one-pair forms entry by entry. Mismatched shapes are refused and arguments are never changed.",
  "inputs", "all real vectors within the bounds", "tests check two or three fixed vector pairs",
  ["utils/similarity.py", "utils/helpers.py"], [("distance functions", "utils/similarity.py")], (), ["return values"])
p("C21", "Validators accept exactly what they document",
  "Each validator accepts every value that satisfies its documented conditions (types by isinstance, ranges for integers and floats) and rejects every other value with a library error, whatever its type, shape or special floating-point value; it never modifies its argument and returns nothing but what it documents.",
  "inputs configurations", "all scalars, shapes, strings and nested configurations within the bounds, with NaN and infinities", "tests try one good and one bad example per validator",
  ["utils/validation.py"], [("validate_*", "utils/validation.py")], (), ["return value or raised error"])
p("C22", "Chunking processor covers the text within its size limits",
  "For every text and every chunk size and overlap, chunking terminates; fixed-size and sliding-window chunks are no longer than the chunk size, a semantic chunk exceeds it only for one paragraph that is itself too long (plus the overlap); every chunk is non-empty and is the piece of the text its positions delimit, the chunks in order cover every non-blank character, every chunk reaches further into the text than the one before it, neighbouring chunks share the configured overlap (blank stretches may be skipped; a semantic chunk follows without overlap on one no longer than it), and a fixed-size chunk that is not full ends at a separator.",
  "inputs configurations", "all texts over a small alphabet with sentence, paragraph and whitespace characters up to the stated length; all sizes and overlaps", "tests chunk one English paragraph",
  ["processors/chunking.py"], [("chunking strategies", "processors/chunking.py")], (), ["processed chunks"])
p("C23", "Text cleaning delivers what it promises for every text",
  "For every text and option set, the cleaned text contains no tag (also not one formed by decoding entities or normalising fullwidth brackets), no repeated or surrounding whitespace, no special, compatibility or capital characters and no stop words when the corresponding option is on; cleaning text without entities again changes nothing, other letters and digits are kept in order, and stop words are removed even where the nltk corpus is not installed. The original document and its metadata are left unmodified.",
  "inputs configurations", "all texts over an alphabet of tag, entity, whitespace, special and fullwidth characters; every option set", "tests clean one string per option",
  ["processors/cleaning.py"], [("cleaning steps", "processors/cleaning.py")], (), ["cleaned text"])
p("C24", "Embedding cache never changes results",
  "The vector returned for a text depends only on the text and the configuration, not on what was embedded before, on cache hits, on batching or on what callers do with returned vectors; with normalisation on, every non-zero embedding has unit length and zero ones stay zero; an empty text gives a zero vector of the model's dimension, and batch processing returns one result per input in order and counts each text once. Reading statistics changes nothing.",
  "inputs histories configurations", "all texts, embedding values, call histories and batch splits", "tests embed each text once",
  ["processors/embedding.py"], [("cache and normalisation", "processors/embedding.py")], [("embedding cache", "text -> vector", "processors/embedding.py")], ["process", "batch_process"])
p("C25", "Pipelines run every configured stage on every document",
  "A document pipeline applies its enabled stages in the order cleaning, chunking, embedding, each once, picks the highest-priority registered parser that supports the file's extension (in any case), reports one outcome per document in order, and a document that fails never affects the outcome of the others. Every parser enabled in the configuration whose library is installed is available, a parser asked for by name is used, and an unsupported file is refused with a library error.",
  "inputs configurations fault_sequences histories", "all stage selections, file extensions, batch sizes and failing positions", "tests run one pipeline on one text file",
  ["processors/pipeline.py", "parsers/registry.py"], [("stage chain", "processors/pipeline.py"), ("parser selection", "parsers/registry.py")], (), ["process", "batch_process"])
p("C26", "Batch manager inserts every vector exactly once under any schedule",
  "For every batch size, worker schedule and set of failing batches, bulk insertion stores each vector of a successful batch exactly once with its own metadata, also when workers insert into the same database at the same time, returns identifiers in input order, and its processed and failed counts for the operation add up to the number of items, whatever the callbacks do. Bulk search returns each query's results at that query's position. Batch sizes below 1 are refused.",
  "schedules inputs fault_sequences configurations", "all execution and completion orders of the worker pool, batch sizes and failing batches within the bounds", "tests run one schedule and compare only lengths",
  ["utils/batch_manager.py"], [("batch_insert, parallel_batch_insert, batch_search", "utils/batch_manager.py")], [("processed/failed counters", "progress", "utils/batch_manager.py")], ["returned ids", "stored vectors", "get_stats"])
p("C27", "Every documented configuration builds the component it names",
  "For every supported type name and option value the factories build the component of that type with those options in effect and refuse unknown names with an error; every named preset and template and every recommendation resolves to a configuration that the factories accept, a database filled from texts can be searched at once, and building or merging configurations never alters presets, templates or caller dictionaries.",
  "inputs configurations histories", "all type names, preset names, recommendation inputs and option overrides", "tests build a few combinations and never call the recommendation entry points with defaults",
  ["factory.py", "configs.py"], [("factory functions", "factory.py"), ("presets and recommendations", "configs.py")], (), ["created components", "returned configurations"])
p("C28", "Vector files round-trip and duplicates are found exactly",
  "Vectors and JSON-representable metadata saved to any supported file format (under a path with that format's suffix) load back equal, also when empty; duplicate search puts every vector into at most one group, and each group is a first vector with exactly the later ungrouped vectors whose similarity to it reaches the threshold.",
  "inputs configurations", "all small matrices, metadata values, formats and thresholds", "tests round-trip one random matrix",
  ["utils/helpers.py"], [("save/load vectors, find_duplicates", "utils/helpers.py")], (), ["return values", "files"])
p("C29", "Decorators do not change what they wrap",
  "A function wrapped by the timing, memory or debugging decorators, or run inside the profiler, is called exactly once per call, with the same arguments, returns the same result and propagates the same exception, whatever it does and whether or not psutil is installed; the wrapper keeps its name and documentation.",
  "inputs fault_sequences", "all results and all exception types, including import errors raised by the wrapped function", "tests wrap a function that succeeds",
  ["utils/debugging.py", "utils/logging.py", "utils/helpers.py"], [("decorators", "utils/debugging.py")], (), ["calls, results, exceptions"])
p("C30", "Storage operations are linearizable under threads",
  "When several threads store, update, retrieve, delete and list on one storage (memory, disk or hybrid), every operation completes without error or deadlock and the results and the final content (also after reopening a disk or hybrid storage) are those of some sequential order of the operations; a vector and its metadata are always from the same store call.",
  "schedules inputs", "all interleavings of two threads at statement granularity, with a bounded number of preemptions", "no test uses threads on a storage",
  ["storage/memory.py", "storage/disk.py", "storage/hybrid.py"], [("locks, if any", "storage/memory.py")], (), ["results of concurrent operations"])
p("C31", "Document parsers split text without loss, overflow or runaway chunks",
  "For every extracted text and every chunk size of at least 1 and non-negative overlap, each parser terminates, emits non-empty chunks no longer than its chunk size (Docling: chunks end as soon as they reach it) that together contain every non-blank character of the text in order, numbers them consecutively, emits no chunk that only repeats the end of the previous one, lets neighbouring chunks share the configured overlap (blank stretches may be skipped), and ends a chunk early only at one of its breaks. Page, paragraph, table and slide texts keep their order and their own metadata.",
  "inputs configurations", "all texts over a small alphabet up to the stated length, all sizes and overlaps", "tests parse a few fixed files much shorter than one chunk",
  ["parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py", "parsers/docling_parser.py"], [("chunking loops", "parsers/text_parser.py")], (), ["chunks"])
p("C32", "Vector statistics and monitoring report true values",
  "For every set of vectors the analysis helpers return the true count, dimension, mean, deviation, extreme values, norms, sparsity, pair counts and numbers of bad, constant and zero vectors and terminate without error, including single, zero and identical vectors; query, profiling, progress and resource monitors report counts and totals equal to what was recorded; the index inspector agrees with the index it inspects.",
  "inputs histories", "all small matrices and recorded histories", "tests look at the presence of keys in the report",
  ["utils/debugging.py", "utils/helpers.py", "utils/logging.py"], [("analysis helpers", "utils/debugging.py")], (), ["returned reports"])
p("C33", "Normalisation and similarity matrices are correct for all vectors",
  "Normalising (l2, l1, max, min-max) gives unit norm under its method for every non-zero vector and leaves zero vectors zero, preserving direction (min-max: maps onto 0..1), and never changes its input; similarity matrices (cosine, Euclidean, dot) are square, symmetric, have the correct diagonal and agree entry by entry with the pairwise definitions; unknown methods are refused.",
  "inputs configurations", "all small real matrices, every method and metric", "tests check one fixed matrix",
  ["utils/helpers.py", "utils/similarity.py"], [("normalize_vectors, compute_similarity_matrix", "utils/helpers.py")], (), ["return values"])

p("C34", "A database shared by threads behaves as if they took turns",
  "When several threads insert, search, update, delete, read statistics and close one database (any index kind), every operation completes, or is refused with a library error once the database is closed, without deadlock, and the results, the statistics and the content found afterwards are those the same database gives to one thread that performs the operations in some order (operations that did not overlap keep theirs); no vector, identifier or metadata is lost, doubled or mixed up.",
  "schedules inputs histories", "all interleavings of two threads at statement granularity, with a bounded number of preemptions, every pair of operations, every index kind", "no test uses threads on a database",
  ["client.py", "indices"], [("database operations", "client.py")], (), ["results of concurrent operations", "content afterwards"])

p("C35", "Statistics report what is there, and reading them changes nothing",
  "After any history of operations the statistics of every storage, index, quantizer, persistence manager and text processor report the true numbers of vectors, bytes on disk, files, saves, loads, logged operations, checkpoints, vectors per cluster and bucket, chunks, documents and characters, the true dimension, value ranges and compression, and the configured options. Reading them changes nothing, nor does changing the dictionary that was returned, and a component that is not initialised counts nothing.",
  "histories configurations", "all histories of a few operations on each component, with symbolic vectors and texts", "tests read the statistics of a component once, after a fixed history",
  ["storage", "indices", "quantization", "persistence", "processors", "client.py"], [("get_stats of each component", "client.py")], (), ["returned statistics"])

p("C36", "A database keeps its own copies: what callers pass in or get back is theirs",
  "Inserting, updating, deleting, searching, saving, training, quantizing and dequantizing leave their arguments (arrays, lists and nested metadata) as they were. Whatever the caller does afterwards to an array, list, metadata or state it passed in, or to an array, identifier list, metadata, search result, statistic, code or state it was given, no later search, retrieval, load or quantization shows it: each reports the vectors, metadata and states as they were when stored, for every index kind over every storage backend, every persistence manager and every quantizer.",
  "histories aliasing", "all histories of a few operations after each of which the caller overwrites everything it holds, with symbolic vectors and nested metadata", "tests never touch an argument or a result again after the call",
  ["indices", "storage", "persistence", "quantization", "client.py"], [("insert, update, search of each index", "indices/flat.py"), ("store_vector, retrieve_vector", "storage/memory.py")], (), ["aliasing of metadata and arrays"])

LEVEL_NOTE = ("Bounded: every path of the real source within the stated sizes is executed symbolically and each assertion is decided by Z3 for all "
              "values on that path; counterexamples and sampled paths are replayed on the real code. Assumes exact real arithmetic (floating-point "
              "rounding is outside), and the library models listed in the evidence assumptions.")
NOT_YET = {}
NOTES = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NOT_YET:
            checks.append({"property": i, "quick_cmd": "python3-vt engine/run.py %s --tier quick" % i,
                           "thorough_cmd": "python3-vt engine/run.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "symbolic execution of the real Python source with Z3 (all paths within bounds), counterexamples replayed on the real code",
                           "level": "model_checking", "level_note": NOTES.get(i, LEVEL_NOTE)})
        else:
            na.append({"property": i, "reason": NOT_YET.get(i, "The check for this property is still being built; nothing is claimed yet.")})
    m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3, numpy\" && /opt/venv/bin/python -c \"import numpy, sklearn, annoy\"",
         "checks": checks, "not_applicable": na,
         "notes": "Engine: engine/ (symbolic executor), checks/cNN.py (one harness per property); see DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties", len(checks), "checks")


main()
