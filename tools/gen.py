"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/gen.py` rewrites both (claims = properties whose
check file exists)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/dbzero/"
P = []


def p(id, title, statement, over, text, why, files, mech, tech, note, observe=("Python API",), hook=None, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=[f if f.startswith("dbzero/") else S + f for f in files],
                               mechanism=[dict(name=n, where=(w if w.startswith("dbzero/") else S + w)) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook), _t=tech, _n=note, _l=level, _na=na))


p("C01", "Commits are atomic and durable across a crash at any point",
  "Once a commit (explicit, by close, or automatic) has returned, its state survives a crash of the process or machine at any later moment; whatever the moment of the crash, opening the prefix again yields exactly the state of one commit, never older than the last one acknowledged, never a mixture, and the prefix stays usable for further work.",
  "crash_points histories configurations", "every prefix of the file writes of a random history, with the last write torn and, after the last fsync, with any unsynchronised writes lost",
  "tests never stop the writer between two file writes; they cover a handful of orderly closes.",
  ["core/storage/BDevStorage.cpp", "core/storage/BlockIOStream.cpp", "core/storage/DRAM_IOStream.cpp", "core/storage/Page_IO.cpp", "core/storage/Diff_IO.cpp", "core/storage/CFile.cpp"],
  [("two-phase flush: data pages and indexes written before the meta/change log chunk that makes the state visible", "core/storage/BDevStorage.cpp"), ("checksummed log chunks", "core/storage/BlockIOStream.cpp")],
  "recording file-write monitor (LD_PRELOAD) + crash-image replay against the history's commit oracle",
  "crash images of every write boundary (sampled in quick), torn and lost-unsynced variants, each reopened by a fresh process and compared with the committed states", ("file writes and fsyncs of the process", "reopened state"))
p("C02", "Committed state survives close and is what any other process reads",
  "After commit or close, opening the prefix again (in the same or in another process) yields exactly the objects, attribute values, collections, tags and index content that the writer last had, for every history of operations, commits and cache configurations. Objects and collections held across commits and cache purges keep acting on the same stored state.",
  "histories programs configurations", "random histories over memo objects, collections, tags, indexes and references with commits, cache clears and reopens, over slab sizes and page steps",
  "tests check a few fixed objects; combinations of relocation, caching, held handles and commits are unsampled.",
  ["workspace/Workspace.cpp", "workspace/Fixture.cpp", "workspace/GC0.cpp", "object_model/object/ObjectImplBase.cpp", "core/memory/PrefixCache.cpp", "core/vspace/vtypeless.cpp"],
  [("commit/detach of live instances", "workspace/GC0.cpp"), ("copy-on-write page locks", "core/memory/PrefixCache.cpp")],
  "runtime differential monitor: random object-graph histories mirrored in a Python model, compared live, after reopen and from another process",
  "160 histories of 60-300 operations per quick run; full state dump compared")
p("C03", "Snapshots are immutable views of exactly one committed state",
  "A snapshot taken at (or for) a committed state keeps returning exactly that state's objects, collections, tags, index and query results for as long as it is open, whatever is written, deleted, committed, evicted or dropped later; every retained historic state can be opened by its number.",
  "histories schedules", "random histories, snapshots opened at random states (latest and historic), re-read at random later moments",
  "tests take one snapshot and make one change.",
  ["workspace/WorkspaceView.cpp", "core/memory/PrefixViewImpl.cpp", "bindings/python/PySnapshot.cpp", "core/storage/SparseIndexQuery.cpp", "core/storage/DiffIndex.cpp"],
  [("page versions looked up by state number", "core/storage/SparseIndexQuery.cpp"), ("read-only prefix views", "core/memory/PrefixViewImpl.cpp")],
  "online monitor: every open snapshot is re-dumped and compared with the model copy of its state", "dumps of latest and historic snapshots in random later moments")
p("C04", "Atomic blocks apply all their changes or none",
  "If an atomic block ends normally all its changes are visible together and become durable with the next commit; if it is cancelled or left by an exception, the state (attributes, collections, tags, indexes, queries, created and deleted objects) is exactly as before the block and the objects held stay usable. No commit - automatic or by another thread - and no other process ever observes a part of a block.",
  "histories schedules programs", "random operation sequences inside atomic blocks ended normally, by cancel or by exceptions at random points, interleaved with autocommit",
  "tests roll back a handful of single operations.",
  ["workspace/AtomicContext.cpp", "workspace/GC0.cpp", "core/memory/PrefixImpl.cpp", "object_model/tags/TagIndex.cpp", "dbzero/dbzero/atomic.py"],
  [("atomic context with copy-on-write locks merged or discarded", "workspace/AtomicContext.cpp"), ("revert of volatile instances", "workspace/GC0.cpp")],
  "runtime differential monitor: model copied at block entry, full state compared after every outcome", "random blocks, three outcomes, state dumps live, after commit and after reopen")
p("C05", "Persistent collections behave like the Python ones they stand for",
  "For every sequence of operations, the persistent list, dict, set, tuple and byte array return the same results, raise the same kind of error and hold the same content, order and length as the built-in Python type (for the operations they offer), across commits and cache purges.",
  "inputs histories", "random sequences of every offered method with mixed, equal-but-different-type, negative, out-of-range and nested arguments",
  "tests check single calls with fixed small arguments.",
  ["object_model/list/List.cpp", "object_model/dict/Dict.cpp", "object_model/set/Set.cpp", "object_model/tuple/Tuple.cpp", "object_model/bytes/ByteArray.cpp", "bindings/python/collections/PySet.cpp", "bindings/python/collections/PyDict.cpp", "bindings/python/collections/PyList.cpp"],
  [("storage vector / hash index of typed items", "object_model/dict/Dict.cpp"), ("morphing indexes", "core/collections/b_index/mb_index.hpp")],
  "runtime differential testing against Python's own types as the oracle", "300 histories per quick run, every result and the content compared")
p("C06", "Tag queries equal the set algebra of the tags assigned",
  "For every history of tagging, untagging, object creation and deletion, a query by types, tags, OR-lists, negations and nested queries returns exactly the objects that the set algebra over the current tag assignments gives - each once - and its length, truth, slices and iteration agree.",
  "histories inputs", "random tag histories (with commits, in-transaction reads and large tag populations) and random query expressions",
  "tests run a few fixed queries on tens of objects.",
  ["object_model/tags/TagIndex.cpp", "core/collections/full_text/FT_BaseIndex.cpp", "core/collections/full_text/FT_ANDIterator.cpp", "core/collections/full_text/FT_ORXIterator.cpp", "core/collections/full_text/FT_ANDNOTIterator.cpp", "object_model/tags/ObjectIterable.cpp"],
  [("inverted index per tag with batched updates", "object_model/tags/TagIndex.cpp"), ("iterator algebra", "core/collections/full_text/FT_ORXIterator.cpp")],
  "runtime differential monitor: set-algebra model of the tags evaluated on every query", "random expressions over random histories, small and large populations")
p("C07", "Index selections and sorts equal the ordering of their keys",
  "For every history of add/remove on an index (with duplicate, negative, extreme and absent keys of any supported key type), range selection returns exactly the objects with a key in the range, sorting returns each object of the sorted query in key order with absent keys where requested, and the length counts the entries.",
  "histories inputs", "random key types, key distributions, bounds and combinations with tag queries",
  "tests use a handful of keys and bounds.",
  ["object_model/index/Index.cpp", "core/collections/range_tree/RangeTree.hpp", "core/collections/range_tree/RangeTree.hpp"],
  [("range tree of bounded blocks", "core/collections/range_tree/RangeTree.hpp")],
  "runtime differential monitor against a sorted-list model", "random histories, all bounds kinds, sort and range combined with tags")
p("C08", "Objects live exactly as long as something refers to them",
  "An object stays readable as long as a stored collection, attribute, tag, index, singleton or a language variable refers to it; once nothing refers to it, it is gone after the next commit (queries, existence tests and identifiers no longer find it), and so is everything only it referred to. The reported reference count equals the number of stored references.",
  "histories", "random graphs with references created and dropped through every kind of container",
  "tests drop single objects.",
  ["workspace/GC0.cpp", "object_model/value/Member.cpp", "object_model/LangCache.cpp", "object_model/ObjectBase.hpp", "object_model/object/ObjectImplBase.cpp"],
  [("reference counts kept by containers", "object_model/value/Member.cpp"), ("dropping at release or at open", "workspace/GC0.cpp")],
  "online monitor: reachability and reference counts of a graph model compared with exists/fetch/getrefcount", "random graph histories")
p("C09", "Allocations never overlap and freed space is reusable",
  "For every sequence of allocations and frees, live allocations are disjoint, lie inside the allocator's range, keep their size, and freeing everything makes the space available again; the same holds after the allocator is persisted and reopened.",
  "histories inputs configurations", "random allocation/free sequences at every allocator layer",
  "tests allocate fixed sizes in fixed orders.",
  ["core/crdt/CRDT_Allocator.cpp", "core/memory/SlabAllocator.cpp", "core/memory/SlabManager.cpp", "core/memory/MetaAllocator.cpp", "core/memory/SlotAllocator.cpp"],
  [("coalescing allocation trees", "core/crdt/CRDT_Allocator.cpp"), ("slab catalogue", "core/memory/MetaAllocator.cpp")],
  "C++ harness under AddressSanitizer/UBSan with an interval-map monitor over every alloc/free", "random sequences per layer, interval oracle")
p("C10", "Readers in other processes only see committed states, in order",
  "While one process writes, any number of processes reading the prefix see at every moment exactly one committed state, never an earlier one than they saw before, and see the last committed state within bounded time once writing stops; with several prefixes the same holds for each.",
  "schedules histories", "a writer committing random histories while readers in other processes dump and refresh at random moments",
  "tests use one reader and wait for it.",
  ["workspace/Workspace.cpp", "core/storage/BDevStorage.cpp", "workspace/FixtureThreads.cpp", "core/memory/PrefixImpl.cpp", "workspace/Fixture.cpp"],
  [("refresh from the change logs", "core/storage/BDevStorage.cpp"), ("refresh thread", "workspace/FixtureThreads.cpp")],
  "multi-process monitor: every reader dump must equal one logged committed state, monotonically", "writer plus readers with random delays")
p("C11", "A prefix has at most one writer at a time",
  "While a process has a prefix open for writing, no other process can open it for writing, whatever the timing; once it closes or dies (even killed) another can, and finds the committed state.",
  "schedules fault_sequences", "processes racing to open, increment, close or be killed",
  "tests try one blocked open.",
  ["workspace/Workspace.cpp", "core/storage/BDevStorage.cpp", "workspace/PrefixCatalog.cpp", "core/utils/FlagSet.hpp"],
  [("lock file", "core/storage/BDevStorage.cpp")],
  "multi-process monitor: ownership intervals checked for mutual exclusion, counter conservation under kills", "racing processes with kills")
p("C12", "Cache size affects speed only, and the caches stay bounded",
  "Every result and stored state is independent of the cache size, of purges and of eviction timing; the memory held by the page cache follows its configured limit, also when the limit is changed at run time.",
  "configurations histories", "the same history under tiny, changing and huge caches",
  "tests use the default cache, where nothing is evicted.",
  ["core/memory/CacheRecycler.cpp", "core/memory/PrefixCache.cpp", "object_model/LangCache.cpp", "core/memory/DirtyCache.cpp", "workspace/Workspace.cpp"],
  [("recycler with eviction", "core/memory/CacheRecycler.cpp")],
  "metamorphic runtime monitor: same history under different cache configurations must give equal transcripts; reported size checked against capacity", "transcripts under cache configurations")
p("C13", "Copying a prefix yields an equal, independent prefix",
  "A copy of a prefix made while it is in use opens to exactly the state committed when it was made (with the same objects, tags and indexes), can be written on, and stays independent of the original in both directions.",
  "histories configurations", "copies at random moments of random histories, with random page step sizes, then diverging histories",
  "tests copy simple prefixes.",
  ["core/storage/copy_prefix.cpp", "core/storage/BDevStorage.cpp", "core/storage/Page_IO.cpp"],
  [("page-wise copy of the storage", "core/storage/copy_prefix.cpp")],
  "runtime monitor: dump of the copy (same and other process) compared with the model of the copied state", "copies of random histories")
p("C14", "Prefixes are isolated from one another",
  "Operations on one prefix never change what another holds: objects, tags, indexes, singletons, state numbers, files and open snapshots of the others stay as they were, and closing or dropping one leaves the others usable.",
  "histories configurations", "interleaved random histories on several prefixes, with closing, dropping and reopening",
  "tests use two prefixes with one object each.",
  ["workspace/Workspace.cpp", "workspace/PrefixCatalog.cpp", "workspace/Fixture.cpp", "object_model/LangCache.cpp", "workspace/WorkspaceView.cpp"],
  [("fixture catalogue per workspace", "workspace/Workspace.cpp")],
  "online monitor: one model per prefix, all dumped after operations on any", "2-4 prefixes per history")
p("C15", "Every supported value reads back equal and of the same kind",
  "Any supported value (numbers, text, bytes, dates, times, time zones, decimals, enums, identifiers, None, booleans, nested collections, types, memo objects) stored as an attribute, list item, dict key or value, set element or tuple item reads back equal and of the same kind, now and in any later process; values it cannot represent exactly are refused with an error, never altered.",
  "inputs", "random and boundary values of every type in every position",
  "tests store a couple of samples of each type.",
  ["object_model/value/Member.cpp", "bindings/python/types/DateTime.cpp", "bindings/python/types/PyDecimal.cpp", "object_model/value/TypeUtils.cpp", "object_model/value/XValue.cpp"],
  [("typed 64-bit encodings", "object_model/value/Member.cpp")],
  "runtime round-trip monitor with Python's equality and type as the oracle", "thousands of generated values per run, live and from another process")
p("C16", "Hashes, dict keys and set members are stable across processes",
  "The hash of a value depends only on the value: equal values (also across types that compare equal when supported) hash the same in any process under any hash randomisation, so keys and members stored by one process are found by every other.",
  "inputs configurations", "random values of every hashable kind hashed and looked up in processes with different hash seeds",
  "tests hash a few values in one process.",
  ["bindings/python/PyHash.cpp", "core/serialization/hash.cpp", "object_model/tuple/Tuple.cpp", "object_model/enum/EnumValue.cpp"],
  [("content hashing", "bindings/python/PyHash.cpp")],
  "cross-process runtime monitor: hashes and lookups under different PYTHONHASHSEED compared", "random values, three hash seeds")
p("C17", "Concurrent use from several threads is linearizable",
  "Any mix of operations, queries, atomic blocks, commits and snapshots issued from several threads, with automatic commits running, neither crashes, hangs nor loses updates: the outcome equals some order of the operations, and every committed state a snapshot shows is one of the states in between.",
  "schedules", "threads with random operations, random switch intervals and injected delays, autocommit on",
  "tests have a few threads doing fixed work.",
  ["workspace/FixtureThreads.cpp", "workspace/AtomicContext.cpp", "workspace/Fixture.cpp", "core/threading/ProgressiveMutex.cpp", "workspace/Workspace.cpp"],
  [("fixture lock shared with the autocommit thread", "workspace/Fixture.cpp")],
  "stress monitor with conservation and per-thread order oracles over recorded operations", "threads under random switch intervals and autocommit")
p("C18", "No input makes the engine corrupt memory or crash the process",
  "Whatever arguments the public functions get (wrong types, extreme values, stale or foreign objects, malformed serialized data, corrupt or truncated files), they either work or raise a Python exception; they never read or write outside their memory, run into undefined behaviour or end the process, and the database stays usable afterwards.",
  "inputs fault_sequences", "random public calls with hostile arguments and corrupted byte strings and files under address and undefined-behaviour sanitizers",
  "tests pass well-formed arguments and run uninstrumented.",
  ["bindings/python/PyAPI.cpp", "bindings/python/PyInternalAPI.cpp", "object_model/tags/ObjectIterable.cpp", "core/serialization/Serializable.cpp", "core/storage/BlockIOStream.cpp"],
  [("argument checks and exception translation", "bindings/python/PyInternalAPI.cpp")],
  "AddressSanitizer + UBSan build of the extension under hostile-call fuzzing", "random call sequences with hostile arguments")
p("C19", "Object identity and identifiers are stable and unique",
  "Every live object has one identifier, different from that of every other object ever created in the workspace; fetching by it - now, after commits, cache purges and in later processes - yields that object and no other, also after its storage has been reused, and fetching the identifier of a deleted object fails.",
  "histories", "random create/delete/recreate histories with fetches by old and new identifiers",
  "tests fetch a fresh object.",
  ["bindings/python/PyInternalAPI.cpp", "bindings/python/types/PyObjectId.cpp", "core/memory/Address.cpp", "core/memory/SlabAllocator.cpp", "core/utils/base32.cpp"],
  [("address plus instance id", "core/memory/Address.hpp"), ("base-32 encoding", "core/utils/base32.cpp")],
  "online monitor: identifier table of every object ever created, checked against fetch/exists", "create/delete/reuse histories")
p("C20", "State numbers grow with commits and tell the truth about change",
  "A prefix's state number never decreases and grows exactly when a commit had changes; the numbers reported by a locked section for the prefixes it changed are the ones at which these changes are visible, and waiting for a state returns true exactly when that state is reached.",
  "histories schedules", "random histories of changing and non-changing transactions, locked sections and waits",
  "tests check one increment.",
  ["workspace/Workspace.cpp", "core/memory/PrefixImpl.cpp", "bindings/python/PyLocked.cpp", "dbzero/dbzero/locked.py"],
  [("state number advanced by commit", "core/memory/PrefixImpl.cpp")],
  "online trace monitor over (operation, state number) events", "histories with all commit forms")
p("C21", "Equivalent ways of evaluating a query agree",
  "Splitting a query by tags partitions it, filtering equals filtering the result, a query serialized and deserialized (also in another process or snapshot) returns the same objects, and slices, length, truth and repeated iteration of a query agree with its full result.",
  "inputs histories", "random queries (tags, types, index ranges, sorts, splits, filters) evaluated in several equivalent ways",
  "tests serialize and split a few fixed queries.",
  ["object_model/tags/ObjectIterable.cpp", "object_model/tags/SplitIterator.cpp", "core/collections/full_text/FT_Iterator.hpp", "core/collections/full_text/CartesianProduct.cpp", "bindings/python/PyAPI.cpp"],
  [("iterator serialization", "core/collections/full_text/FT_Serialization.hpp")],
  "metamorphic runtime monitor over equivalent evaluations", "random queries")
p("C22", "Classes evolve without losing data",
  "When a class gains, loses, reorders, retypes or renames attributes (also from another process with a different definition of the class), stored attributes keep their values under their names, renamed ones are found under the new name only, and the reported schema lists the attributes with the types they have.",
  "programs histories", "random sequences of class versions, each writing and reading objects of all versions",
  "tests change one attribute once.",
  ["object_model/class/Class.cpp", "object_model/class/ClassFactory.cpp", "object_model/class/Schema.cpp", "object_model/object/Object.cpp", "bindings/python/MemoTypeDecoration.cpp"],
  [("field catalogue by name", "object_model/class/Class.cpp"), ("field type statistics", "object_model/class/Schema.cpp")],
  "runtime differential monitor over processes with generated class versions", "sequences of class versions")
p("C23", "Change queries between snapshots report exactly what changed",
  "For any two snapshots and any query, the objects reported as new and deleted are exactly those the query finds only in the later and only in the earlier one (recreated objects in reused storage being different objects), those reported as modified with a comparison are exactly those in both whose attributes differ, with both versions as they were, and without a comparison every changed or touched object is among them and none that is not in both.",
  "histories", "random histories between random pairs of snapshots",
  "tests change one object.",
  ["object_model/tags/TagIndex.cpp", "bindings/python/PySnapshot.cpp", "dbzero/dbzero/select.py", "dbzero/dbzero/compare.py"],
  [("difference of tag queries over two snapshots", "dbzero/dbzero/select.py")],
  "online monitor: set difference of the model states of both snapshots", "random pairs of snapshots")
p("C24", "Weak references never keep objects alive and never mislead",
  "A weak reference or weak set member resolves to its object while the object lives and is reported expired once it is gone - also when its storage has been reused, and in later processes; it never adds to the reference count.",
  "histories", "random histories of weak proxies and weak sets over objects deleted and recreated",
  "tests delete one object.",
  ["object_model/set/WeakSet.cpp", "object_model/value/Member.cpp", "bindings/python/PyWeakProxy.cpp", "bindings/python/collections/PyWeakSet.cpp"],
  [("unique address with instance id", "core/memory/Address.hpp")],
  "online monitor against a liveness model", "create/delete/reuse histories")
p("C25", "Storage returns every page version exactly as written",
  "For every sequence of page writes (full or as differences), transactions and reopenings, reading a page at any state returns exactly the bytes written by the last write at or before that state.",
  "histories inputs configurations", "random sequences of page writes, diff writes, flushes and reopens over page and step sizes",
  "tests write a few pages.",
  ["core/storage/BDevStorage.cpp", "core/storage/Diff_IO.cpp", "core/storage/SparsePair.cpp", "core/storage/DiffIndex.cpp", "core/storage/SparseIndex.cpp", "core/memory/diff_utils.cpp"],
  [("sparse index of page versions and diff chains", "core/storage/SparseIndexQuery.cpp")],
  "C++ harness with a versioned byte-array model as monitor, under sanitizers", "random storage histories, all versions re-read")
p("C26", "Storage-backed containers behave like the standard ones",
  "For every sequence of operations, the engine's persistent vector, sorted vector, index, morphing index, tree, map, bitset and limited matrix hold the same elements in the same order as the standard container they stand for, also after commit and reopening, without invalid memory access.",
  "histories inputs", "random operation sequences on each container including bulk operations over block boundaries",
  "tests insert fixed sequences.",
  ["core/collections/b_index/v_bindex.hpp", "core/collections/b_index/mb_index.hpp", "core/collections/vector/v_bvector.hpp", "core/collections/vector/v_sorted_vector.hpp", "core/collections/sgtree/v_sgtree.hpp", "core/collections/SGB_Tree/SGB_Tree.hpp"],
  [("block-wise sorted storage", "core/collections/b_index/v_bindex.hpp")],
  "C++ harness: model-based testing against std containers under AddressSanitizer/UBSan", "random sequences per container")
p("C27", "Reading never changes stored data",
  "A process that opens prefixes read-only, takes snapshots, queries, fetches and closes leaves every stored file byte for byte as it was, cannot change any object, and a writing process that only reads does not create a new state.",
  "programs histories", "random read-only programs over random databases, with attempted writes",
  "tests check that one assignment fails.",
  ["workspace/Workspace.cpp", "core/storage/BDevStorage.cpp", "core/storage/CFile.cpp", "workspace/Fixture.cpp", "core/memory/PrefixViewImpl.cpp"],
  [("access flags", "core/memory/AccessOptions.hpp")],
  "runtime monitor: file digests and state dumps before and after read-only programs", "random read-only programs incl. attempted writes")
p("C28", "Incremental group-by equals recomputation",
  "Repeated group-by over a changing set of objects returns at each snapshot exactly the groups and aggregates that recomputing from scratch gives, for every history of changes between evaluations.",
  "histories", "random histories with group-by evaluated at random snapshots, by tags and by functions",
  "tests evaluate two steps.",
  ["dbzero/dbzero/fast_query.py", "object_model/tags/TagIndex.cpp", "object_model/tags/ObjectIterable.cpp"],
  [("delta between snapshots applied to a cached result", "dbzero/dbzero/fast_query.py")],
  "metamorphic runtime monitor: incremental result compared with a recomputation and with the model", "random histories")


NA = {
    "C09": "no check of its own: the technique applies (interval monitor over alloc/free) but was not built in the time; overlapping allocations show as state differences in C02/C04/C05/C08/C12",
    "C15": "not built: values with a time zone and some Decimals are known not to round-trip (DESIGN.md); the other values are compared by every state dump of C02-C05",
    "C17": "not built: the stress harness for several language threads was not finished; threads against automatic commits appear only in C01 and C10",
    "C18": "not built: the sanitizer variants exist (lib/build.py) and run the directed cases, but a hostile-argument workload quiet on the unchanged tree was not finished",
    "C21": "not built in the time; C06 compares iteration, length, slices and containment of each query with one model",
    "C22": "not built in the time: needs one process per class version",
    "C26": "not built in the time: the containers are exercised through the collections and indexes of C05-C08 and C25 only",
    "C28": "not built in the time: rests on the change queries of C23, which are checked",
}


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for q in P:
        c = q["id"].lower()
        if q["_na"]:
            na.append(dict(property=q["id"], reason=q["_na"]))
        elif os.path.exists(V + f"/checks/{c}.py"):
            checks.append(dict(property=q["id"], quick_cmd=f"VERIF_TIER=quick python3 checks/{c}.py", thorough_cmd=f"VERIF_TIER=thorough python3 checks/{c}.py",
                               technique=q["_t"], level=q["_l"], level_note=q["_n"]))
        else:
            na.append(dict(property=q["id"], reason=NA[q["id"]]))
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook")]
    m = dict(version=1, setup_cmd="python3 lib/setup.py", hooks=dict(guard="DBZ_VERIF_HOOKS", enable="-DDBZ_VERIF_HOOKS=1 (lib/build.py adds it to every build it makes)", source_commits=hooks),
             checks=checks, not_applicable=na, notes="DESIGN.md describes every check; known_findings.txt lists recorded findings and fixes.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    for q in P:
        for f in q["anchors"]["files"] + [x["where"] for x in q["anchors"]["mechanism"]]:
            if not os.path.exists("/repo/" + f): print(q["id"], "no such file", f)
    import sys
    print(len(checks), "claimed;", len(na), "not")


main()
