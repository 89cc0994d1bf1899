import json
P=[]
def p(id,title,stmt,over,text,why,files,mech):
    assert len(title)<=80
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=", ".join(files[:3]))])))
IX="c/src/index.c"; FS="c/src/fs_store.c"; ST="c/src/store.c"; RS="c/src/ram_store.c"; CI="c/src/compound_io.c"; IND="c/src/ind.c"
p("C01","A crash leaves the last acknowledged commit, or the one in flight, whole",
 "If the process using an on-disk index is killed at any instant, the next process to open the index succeeds and finds exactly the documents, terms, positions, term vectors and norms of one consistent point in the writer's sequence of operations. That point is never earlier than the last commit, deletion, optimize or close that had been acknowledged, and never includes anything that had not been requested.",
 ["crash_points","histories","configurations"],
 "every sequence of add/delete/commit/optimize/reader-delete/norm-change operations, every buffering/merging/compound-file configuration, and every instant (between or inside file-system calls, including torn writes) at which the process dies",
 "the unit tests never kill a process; they only reopen an index that was closed cleanly, with a handful of fixed documents",
 [IX,FS,ST,CI],"segment files are written first, then a new generation of the segment list, then the generation pointer; only then are superseded files removed")
p("C02","After crashes an index can be recovered, extended and crashed again",
 "After any number of crashes, including crashes while recovering, the index can be opened for writing once the dead process's lock is cleared, and everything then added, deleted, committed, merged or optimized behaves exactly as if the interrupted operations had never been started. Left-over files of interrupted operations never leak into results, never make a later commit fail, and merely opening and closing a writer never loses committed data.",
 ["crash_points","histories","fault_sequences"],
 "every history of work, crash, recovery, more work, repeated; crash points inside recovery itself included",
 "no test leaves partial files behind; the file deleter is only tested on hand-made directory listings",
 [IX,FS,CI],"generation fallback when reading the segment list; the file deleter collecting unreferenced files; segment naming counters")
p("C03","A storage failure is reported and never corrupts the committed index",
 "When the operating system fails an operation (no space, I/O error, short write or read, too many open files, failing close), the call that needed it reports an error or completes correctly; it never reports success while having lost or changed data, and never brings the process down. The index on disk stays openable and holds one consistent point in the sequence of operations, no earlier than the last acknowledged commit, and once the fault is gone a new process can continue from there.",
 ["fault_sequences","histories","configurations"],
 "every operation sequence and every placement of one or more failing or short system calls in it",
 "no test injects a failing system call; the error paths of flush, merge, compound-file creation and commit are never executed",
 [IX,FS,ST,CI,"c/src/except.c"],"error codes of the file-system calls are turned into exceptions that unwind through the indexing code")
p("C04","An open reader keeps seeing exactly the commit it was opened on",
 "From opening to closing, a reader or searcher presents the same documents, stored fields, terms, postings, term vectors, norms and search results, whatever is added, deleted, committed, merged, optimized or re-created meanwhile by writers in its own process or in others.",
 ["schedules","histories","configurations"],
 "every interleaving of a reader's calls with any writer activity in other processes or threads, every merge/compound configuration, file-system and in-memory stores",
 "tests open a reader, change the index in the same thread, and check a document count or two; no interleaving within an operation and no file deletion under an open reader is exercised",
 [IX,FS,RS,CI],"readers hold their files open; deletions and norms are versioned files; merged segments' files are only unlinked")
p("C05","Opening a reader during commits succeeds and yields one current commit",
 "Opening a reader while another process is committing, merging, optimizing or deleting always succeeds, and the reader presents exactly one committed point: one that was current at some moment between the start and the end of the call, hence never older than the last commit acknowledged before the call began.",
 ["schedules","histories"],
 "every interleaving of the opening calls with the file-system calls of the committing process, including slow and stalled readers",
 "tests never open a reader while a writer is running; the retry loop over segment-list generations is never taken",
 [IX,FS],"segment-list generation discovery by directory listing and pointer file, with retry when files vanish underneath")
p("C06","Only one writer at a time, and nobody can take its lock away",
 "At any moment at most one writer or modifying reader holds an index for writing: while one does, every other attempt in any process or thread fails with a lock error and changes nothing. The holder keeps its exclusivity until it closes, commits (for a reader), or dies, no matter which other handles on the same directory are opened, fail to open, are inspected for locks, or are closed.",
 ["schedules","histories"],
 "every interleaving of processes and threads opening, failing to open, inspecting and closing writers, readers, stores and locks on the same index",
 "tests use one process; the lock tests take and release one lock object and never have a bystander close its store or fail to acquire",
 [FS,RS,ST,IX],"exclusive creation of a lock file per store directory; in-memory lock files for memory stores")
p("C07","Locks are released and every call ends: no deadlock, no endless wait",
 "Once the holder of the write lock has closed, committed or failed to open, and no fault is active, another process can acquire it; waiting for a lock is bounded in time and then reported. Every call returns, with a result or an error, in a bounded number of steps, including calls made on a handle after an earlier call on it failed.",
 ["schedules","fault_sequences","histories"],
 "every schedule of contenders and every placement of errors (lock held, stale reader, bad argument, failing file operation) before further calls and the final close",
 "tests do not run contenders concurrently and never use a handle again after an error",
 [FS,IX,IND,ST,RS],"lock retry loop with sleep; mutex acquisition and release around operations that can raise")
p("C08","A stale reader never overwrites newer commits and knows it is stale",
 "A reader's report that it shows the latest version is true exactly when no change has been committed since it was opened. An attempt to delete or change norms through a reader that is not current is refused and changes nothing, so no committed change is ever lost by being overwritten from an older view, whatever the system clock does.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of readers and writers committing, every re-creation of the index, and every clock behaviour including standing still and jumping backwards",
 "tests check one stale reader in one thread with the real clock advancing normally",
 [IX],"version counter of the segment list, seeded from the clock, compared with the version on disk")
p("C09","The shared Index object behaves as if its calls ran one at a time",
 "When several threads share one Index object, every result of its thread-safe operations (adding, deleting by id, term, number or query, optimizing, counting, fetching documents) and its final contents equal those of some one-at-a-time execution consistent with real-time order; every added document appears exactly once and with its own content. With several Index objects on one directory that flush automatically, the same holds for adding documents, deleting them by id, optimizing, counting and fetching, except that an operation may report a lock or out-of-date error, and then changes nothing.",
 ["schedules","histories"],
 "every interleaving, down to single memory accesses, of any number of threads' operations on one Index, with and without automatic flushing and unique keys",
 "the only threading test is disabled because it crashes, samples whatever schedules the machine gives, and asserts nothing about results",
 [IND,IX,"c/src/except.c"],"one mutex around reader/writer switching inside the Index object")
p("C10","Threads with handles of their own never disturb one another",
 "Threads of one process that each use their own writers, readers, searchers and query parsers, on different indexes or on the same one, obtain exactly the results and errors they would obtain alone: no crash, no foreign data, no kind of error that belongs to another thread, no lost handle. (The text of an error message is kept in one process-wide buffer and is not covered.)",
 ["schedules","histories"],
 "every interleaving, down to single memory accesses, of threads sharing only process-wide state",
 "tests are single-threaded apart from the disabled threading test; shared tables and buffers are never contended",
 [FS,"c/src/symbol.c","c/src/hash.c","c/src/except.c","c/src/global.c","c/src/q_parser.c",IX,ST],"process-wide tables (open stores, interned names, free lists, exception contexts) guarded by mutexes")
p("C11","Buffering, merging and file layout never change an index's contents",
 "After any sequence of additions, deletions, updates, norm changes, commits, merges, optimizes and reopenings, the index presents exactly the documents that were added and not deleted, in order of addition, with exactly their stored values, terms, frequencies, positions, offsets, term vectors and norms. This is independent of buffer sizes, merge factor, index and skip intervals, compound files and the number of segments.",
 ["histories","configurations","inputs"],
 "every operation history, every configuration and every document content within the documented limits",
 "tests compare a few fixed documents under the default and one or two other configurations; boundary-crossing postings, skip data, deletions across merges and dynamic fields are sampled once or not at all",
 [IX,"c/src/mempool.c","c/src/bitvector.c","c/src/document.c",ST,CI,"c/src/term_vectors.c"],"in-memory postings are inverted, flushed into segments and merged by document-number remapping")
p("C12","Search results equal evaluating the query on each live document",
 "For any query built from terms, booleans, phrases, prefixes, wildcards, ranges, fuzzy terms, multi-terms, spans, and these within constant-score and filtered queries or with filters, a search returns exactly the live documents of the reader's snapshot that match, each once, with the true total, in the requested sort order (by document number or by integer, float or string field, in either direction), and any page of results is that slice of the whole. This holds for every history of commits, deletions and merges, any number of segments, and for several indexes searched together.",
 ["histories","configurations","inputs"],
 "every index history and segment layout and every query over it",
 "search tests run a fixed list of queries over one small static index, in one segment or a fixed split, never after a random history of deletions and merges",
 ["c/src/search.c","c/src/q_boolean.c","c/src/q_phrase.c","c/src/q_span.c","c/src/q_range.c","c/src/q_multi_term.c","c/src/q_wildcard.c","c/src/q_prefix.c","c/src/q_fuzzy.c","c/src/filter.c","c/src/sort.c","c/src/field_index.c",IX],"scorers skip and intersect posting lists per segment; multi-segment readers renumber documents")
p("C13","File clean-up removes exactly the files no longer needed",
 "Clean-up never removes a file that the current commit needs, nor any file in the directory that is not named like an index file (a name beginning with 'segments', or with an extension frq, prx, fdx, fdt, tfx, tix, tis, del, gen, cfs, fN or sN) or a lock (.lck). After every acknowledged commit, optimize or close by a writer, after every commit of changes made through a reader, and after a writer has been opened following any crash or failure, the directory holds no index files other than those of the current commit, so abandoned and superseded files never accumulate.",
 ["histories","crash_points","configurations"],
 "every operation history and configuration, every crash point before the recovery, and arbitrary foreign files in the directory",
 "the deleter is tested on one hand-made listing; no test looks at the directory after merges with deletions and norm changes or after a crash",
 [IX,FS],"files are matched by name pattern and segment reference, queued and deleted after the commit that supersedes them")
p("C14","Closing gives back every file handle, on failures and retries too",
 "After every enumerator, reader, writer and store of a process has been closed, the process holds no open files or directories from them, no matter which calls failed or were internally retried along the way; a failing call that opens a reader or writer leaves no handle behind, and what other failing calls (adding, deleting, committing, merging, adding indexes, copying, reading) had opened is given back at the latest when the objects they were made on are closed; closing never closes a handle that belongs to something else. (A search that a read error interrupts half-way is not covered, nor is the search by which adding to an Index with several key fields finds the document to replace.)",
 ["schedules","fault_sequences","histories"],
 "every history of opens, reads, failed opens and closes, with files vanishing under an open because of concurrent commits and with failing system calls",
 "tests never count descriptors; leaks only occur on paths where an open is retried or fails half-way",
 [IX,FS,CI,ST],"streams own descriptors, clones share them by reference count, exception handlers release partially built readers")
p("C15","An in-memory index behaves exactly like one on disk",
 "Any sequence of operations on a memory store gives the same results and errors as on a file-system store, including snapshots held by open readers while files are replaced or removed; copying an index between stores preserves its contents exactly, and later changes to one never show in the other.",
 ["histories","configurations","inputs"],
 "every operation history on both kinds of store, with readers held open across commits, and every copy point",
 "store tests run the same fixed script on both stores but never compare whole indexes, and never hold readers open across merges in a memory store",
 [RS,ST,FS,IX],"memory files with reference counts emulate unlinked-but-open files")
p("C16","With a unique key, the Index holds one document per key: the latest",
 "When an Index has a key, after any sequence of additions, deletions, flushes, optimizes, closings and reopenings there is at most one document per key value, it is the one added last, and no document with another key is affected (a key value being the single value, of up to 254 bytes, of each key field). A crash leaves this true of what was committed.",
 ["histories","configurations"],
 "every sequence of keyed additions and deletions, single- and multi-field keys, automatic flushing on and off, buffered and flushed predecessors",
 "tests add a few keyed documents in one fixed order",
 [IND,IX],"adding first deletes by key through the open writer or reader, switching between them")
p("C17","Adding other indexes appends exactly their live documents",
 "Adding any set of readers of other indexes that are current when they are added appends exactly the documents those readers show, in order, with all stored fields, terms, positions, term vectors and norms, and leaves the source indexes untouched; documents deleted in a source stay deleted. The result survives further additions, deletions, merges, optimizes and crashes like any other content.",
 ["histories","configurations","inputs","crash_points"],
 "every pair of histories for target and sources, field sets that overlap in different orders, compound or plain layouts, deletions pending or committed in the source",
 "one test adds three static readers without deletions",
 [IX],"segment files are copied with field numbers remapped, then merged")
p("C18","What is written to a store stream is exactly what is read back",
 "For any sequence of writes, seeks and typed values of any size, the file read back, sequentially or by seeking, through any number of clones or through a compound file, yields exactly the bytes and values written; reading past the end or a failing device is reported as an error and never returned as data.",
 ["inputs","histories","fault_sequences"],
 "every sequence of typed and raw writes, seeks and overwrites across buffer boundaries, every read pattern and clone interleaving, with short or failing reads and writes injected",
 "stream tests write one fixed sequence of values and read it once in order",
 [ST,FS,RS,CI],"fixed-size buffers with absolute positions in front of the file, clones sharing the file, sub-streams at offsets in a compound file")
p("C19","Relevance scores do not depend on how the index came about",
 "For any query, a search over an index with no deletions outstanding gives each hit the score, up to rounding, that it has in an index to which the same documents (with the same norm changes) were added at once: whatever was committed, buffered, merged, optimized, deleted and merged away or reopened before, however many segments there are, whatever the file layout, and equally for one reader over several indexes. In particular document frequencies, document counts, term frequencies and norms enter the score as those of the whole index, and hits with equal documents score equally.",
 ["histories","configurations","inputs"],
 "every index history, segment layout and configuration and every query over it, readers over several indexes included",
 "score tests compute a few scores on one static index in one layout; no test compares the scores of the same documents indexed in different ways",
 ["c/src/similarity.c","c/src/search.c",IX,"c/src/q_term.c","c/src/q_boolean.c","c/src/q_phrase.c","c/src/q_multi_term.c","c/src/q_span.c"],"weights are computed from document frequencies over all segments, scorers multiply by term frequency and the norm byte of the document's segment")
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
