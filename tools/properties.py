import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=observe,hook_needed=hook)))
p("C01","A file stream is an array with a cursor, compressed or not",
 "A typed file stream, compressed or not, behaves as a growable array with one cursor and a block of user data: every read, backward read, append, seek, saved position, truncate, close and reopen gives exactly what the array gives. Operations the array does not allow (reading past either end, overwriting inside a compressed stream, seeking to the middle of it) fail with the documented exception and change nothing.",
 ["histories","configurations"],"every history of stream operations up to a depth, over item sizes, block sizes, open flags and several streams at once",
 "The unit tests run a few hand-written scripts with fixed sizes; defects sit at combinations (a position saved at a block border, then a truncate, then a backward read) that only enumeration of histories reaches.",
 ["tpie/file_stream.h","tpie/file_stream_base.cpp","tpie/compressed/stream.h","tpie/compressed/stream_base.cpp","tpie/compressed/buffer.cpp"],
 [("block buffering, cursor and dirty-block logic","tpie/compressed/stream_base.cpp"),("cached read/write counters","tpie/compressed/stream.h file_stream::read/write/uncache_*"),("block headers and trailers","tpie/compressed/thread.cpp")],
 [("cursor","item offset of the next read/write","file_stream_base"),("block buffer","items of the current block and whether they are dirty","compressed_stream_base")],
 ["file_stream<T> public API","raw bytes of the closed file via a reopened stream"])
p("C02","Uncompressed streams and multi-cursor files agree with an array",
 "An uncompressed stream, and every cursor opened on one shared random-access file, reads and writes the same array: what one cursor wrote, any other cursor reads, at every offset and after every seek, truncate, array read/write and reopen. Size, offset and end-of-stream always agree with that array.",
 ["histories","configurations"],"every operation history up to a depth over one stream or two cursors on one file, block sizes of a few items, both seek bases, all access modes",
 "The tests use at most one long sequential script per feature; interactions such as a truncate under a second cursor or reading at the end and then writing are not sampled.",
 ["tpie/uncompressed_stream.h","tpie/file.h","tpie/file_base.h","tpie/file_base.cpp","tpie/stream_crtp.h","tpie/stream_crtp.inl","tpie/file_base_crtp.inl"],
 [("block sharing between cursors","tpie/file_base.cpp get_block/free_block"),("lazy block switching","tpie/stream_crtp.inl update_block/update_vars"),("size tracking","tpie/stream_crtp.h write/seek/truncate")],
 [],["uncompressed_stream<T>, file<T>, file<T>::stream public API"])
p("C03","Streams give the same result under every schedule of the I/O thread",
 "What a program observes through its compressed streams never depends on how the background I/O thread is scheduled, including spurious wake-ups: every operation returns the same values as in a sequential execution, finishes, and never deadlocks. After the library is shut down all written data is on disk.",
 ["schedules","histories"],"all interleavings of the user thread(s) with the I/O thread up to a preemption bound, for every short history",
 "A test run sees one schedule per execution; the windows (a read request while the same block is being written) are microseconds wide.",
 ["tpie/compressed/thread.cpp","tpie/compressed/thread.h","tpie/compressed/request.h","tpie/compressed/request.cpp","tpie/compressed/buffer.cpp","tpie/compressed/stream_base.cpp"],
 [("request queue and completion signalling","tpie/compressed/thread.cpp"),("buffer states and hand-over","tpie/compressed/buffer.h/.cpp"),("response wait loops","tpie/compressed/stream_base.cpp")],
 [],["file_stream<T> API under a controlled scheduler"])
p("C04","After a crash a stream file is rejected or holds its last closed contents",
 "If the process dies at any point while a stream file, serialization stream, stack or block collection is being created, written or closed - before any system call or in the middle of any write of data - then opening the file afterwards either fails with an exception or yields exactly the contents of the last completed close or of the close in progress; it never yields a mix, garbage, a hang or a crash. Files closed earlier, and files only opened for reading since, stay intact and readable. (Process crash: what was written survives; TPIE never calls fsync and claims nothing about power failure. The 72-byte header is written by one write, taken to be atomic.)",
 ["crash_points","histories"],"every prefix of the file-modifying system calls, and torn last writes, of every short history",
 "No existing test kills the process or truncates the sequence of writes; the number of crash points times histories is only reachable by enumeration.",
 ["tpie/file_accessor/stream_accessor_base.inl","tpie/file_accessor/stream_accessor.h","tpie/file_accessor/byte_stream_accessor.h","tpie/stream_header.h","tpie/compressed/stream_base.cpp","tpie/serialization_stream.cpp"],
 [("clean-close flag in the header","tpie/file_accessor/stream_accessor_base.inl write_header/validate_header"),("serialization header flag","tpie/serialization_stream.cpp")],
 [],["bytes on disk after the prefix","the reopened stream"])
p("C05","Every I/O error is reported and never loses data silently",
 "When an operating-system file operation fails, the library call that needed it (or a later call, at the latest the close) reports an error; data acknowledged without any error up to and including close reads back unchanged; after an error, what can still be read is something that was written at that position, never garbage. Short transfers never change any result. Nothing hangs, crashes, retries a failed write in a destructor that must not throw, or leaks descriptors, memory, file counts, temporary space or temporary files, and the library stays usable. A stream that is destroyed instead of closed cannot report; its file is then either complete or rejected as not properly closed.",
 ["fault_sequences","histories","schedules"],"each single (and each pair of) file-system call of every short history of streams, files, stacks, queues, sorters, priority queues, serialization streams, pipelines and block caches failing with an error or transferring less than asked, once or from then on",
 "The tests run on a healthy disk: no error path of the file layer is ever executed.",
 ["tpie/file_accessor/posix.inl","tpie/file_accessor/posix.h","tpie/file_accessor/stream_accessor_base.inl","tpie/compressed/thread.cpp","tpie/serialization_stream.cpp","tpie/tempname.cpp","tpie/file_stream_base.h","tpie/file_base.cpp","tpie/stack.h","tpie/pipelining/merge_sorter.cpp","tpie/serialization_sorter.h","tpie/blocks/block_collection_cache.cpp"],
 [("errno to exception mapping","tpie/file_accessor/posix.inl"),("errors in the I/O thread","tpie/compressed/thread.cpp")],
 [],["return values and exceptions of the stream API under injected faults"])
p("C06","External stacks and queues are LIFO and FIFO",
 "An external stack always pops the most recently pushed remaining item and an external queue always pops the oldest; size, emptiness, top/front/back agree with that at every moment, whatever mix of operations came before and however many blocks it spans, and a named stack keeps its contents across close and reopen.",
 ["histories","configurations"],"every push/pop/top/clear/reopen history up to a depth with blocks of a few items",
 "Tests push a long run and pop it again; they do not enumerate alternations around block borders.",
 ["tpie/stack.h","tpie/queue.h","tpie/internal_queue.h"],
 [("stack on a backwards-read stream","tpie/stack.h"),("two streams plus a centre buffer","tpie/queue.h")],[],["stack<T>, queue<T> public API"])
p("C07","A block collection never mixes up, loses or leaks blocks",
 "A block written under a handle is what a later read of that handle returns, for every order of allocation, write, release and cache eviction and after closing and reopening the collection; two live handles never share space, and released space is reused before the file grows.",
 ["histories","configurations"],"every history of allocate/write/read/free/reopen up to a depth, over cache sizes and block sizes",
 "The existing test runs one random script with a large cache; eviction order and reuse of freed space are not enumerated.",
 ["tpie/blocks/block_collection.h","tpie/blocks/block_collection.cpp","tpie/blocks/block_collection_cache.h","tpie/blocks/block_collection_cache.cpp","tpie/blocks/freespace_collection.h"],
 [("free-space map","tpie/blocks/freespace_collection.h"),("LRU cache with dirty write-back","tpie/blocks/block_collection_cache.cpp")],[],["block_collection and block_collection_cache API"])
p("C08","B-trees are ordered multisets with correct aggregates",
 "A B-tree of any configuration (internal or external, static or dynamic, with or without augmentation, ordered or not, any fan-out) answers size, find, bounds, iteration, insert and erase like an ordered multiset of its values; iterators returned stay consistent with it, augmentations always equal the aggregate over the subtree, and an external tree reopened holds the same values.",
 ["histories","configurations"],"every insert/erase/lookup history up to a depth on small key sets with minimal fan-out, every bulk-load size, for each tree configuration",
 "Tests use default fan-outs and one random script, so splits, fuses and shares at every position with minimal nodes, and duplicates, are not covered.",
 ["tpie/btree/btree.h","tpie/btree/btree_builder.h","tpie/btree/node.h","tpie/btree/internal_store.h","tpie/btree/external_store.h","tpie/btree/external_store_base.cpp","tpie/btree/serialized_store.h","tpie/btree/base.h"],
 [("split/share/fuse","tpie/btree/btree.h"),("bottom-up bulk loading","tpie/btree/btree_builder.h"),("augmentation path update","tpie/btree/btree.h augment_path")],[],["btree<...> and btree_builder public API"])
p("C09","External sorting returns the sorted permutation within its limits",
 "For every input, every legal memory, run-length and fan-out parameter choice and every way of driving the sorter, the output is the sorted permutation of the input; the sorter can be evacuated between phases, stolen from or interrupted at any allowed point without changing the result, and its temporary files disappear.",
 ["inputs","configurations","histories"],"all key sequences up to a length, all small parameter triples, all evacuation points",
 "Tests sort a few random data sets with few parameter choices; the number of runs, merge depth and remainders is what matters and is only covered by enumeration.",
 ["tpie/pipelining/merge_sorter.h","tpie/pipelining/merge_sorter.cpp","tpie/pipelining/merger.h","tpie/pipelining/sort_parameters.h","tpie/sort.h","tpie/sort_manager.h","tpie/merge_sorted_runs.h","tpie/serialization_sorter.h"],
 [("run formation, k-way merge and fan-out tree","tpie/pipelining/merge_sorter.h"),("parameter derivation","tpie/pipelining/merge_sorter.cpp"),("serialized sorter","tpie/serialization_sorter.h")],[],["merge_sorter, sort(), serialization_sorter API"])
p("C10","The external priority queue always pops a minimum",
 "The external priority queue returns a minimum of the items present on every top and pop, keeps the exact multiset of items, and reports its exact size, whatever interleaving of pushes and pops and however often its internal buffers overflow, merge or refill.",
 ["histories","configurations"],"every push/pop history over small key sets up to a depth, starting from every stage of fill, with tiny buffer parameters",
 "The tests run long random scripts with large buffers; the transitions between buffers and groups occur a handful of times.",
 ["tpie/priority_queue.h","tpie/priority_queue.inl","tpie/pq_overflow_heap.h","tpie/pq_overflow_heap.inl","tpie/pq_merge_heap.h","tpie/pq_merge_heap.inl"],
 [("group/slot merging","tpie/priority_queue.inl"),("overflow heap","tpie/pq_overflow_heap.inl"),("merge heap","tpie/pq_merge_heap.inl")],[],["priority_queue<T> public API"])
p("C11","Serialized data reads back equal, forwards and backwards",
 "Any sequence of serializable values written to a serialization stream reads back equal in order, and, when written reversed, in reverse order, across block borders, reopening and repositioning; sizes and end-of-stream are exact, and reading past the end fails with the documented exception.",
 ["histories","inputs"],"every sequence of small values of mixed types and lengths around the block size, every read/reset/reopen interleaving up to a depth",
 "Tests write a few fixed sequences whose items rarely straddle a block border at each possible offset.",
 ["tpie/serialization_stream.h","tpie/serialization_stream.cpp","tpie/serialization2.h"],
 [("block buffering for writers and readers","tpie/serialization_stream.cpp"),("generic serialize/unserialize","tpie/serialization2.h")],[],["serialization_writer/reader, serialize/unserialize"])
p("C12","In-memory containers agree with their textbook models",
 "Arrays, bit and packed arrays, in-memory stacks, queues, vectors, heaps, merge heaps, disjoint sets and small sorted sets and maps behave as their textbook models on every operation sequence, including copy, move, resize, swap and boundary indices, and their memory_usage() and memory_fits() statements cover what they allocate.",
 ["histories","inputs"],"every operation history up to a depth for each container, capacities 0 to a few words, all packed widths",
 "Tests check one script per container; word boundaries, wrap-around and self-assignment are only hit by enumeration.",
 ["tpie/array.h","tpie/bit_array.h","tpie/packed_array.h","tpie/internal_queue.h","tpie/internal_stack.h","tpie/internal_vector.h","tpie/internal_priority_queue.h","tpie/mergeheap.h","tpie/disjoint_sets.h","tpie/array_view.h","tpie/tiny.h","tpie/util.h","tpie/maybe.h"],
 [("word/bit arithmetic","tpie/packed_array.h"),("ring buffer","tpie/internal_queue.h"),("union by rank","tpie/disjoint_sets.h")],[],["container public APIs"])
p("C13","Parallel sort and the job pool complete under every schedule",
 "Under every thread schedule, the parallel sort returns the sorted permutation of its input, every job that was enqueued runs exactly once before a join on it or on its ancestors returns, and neither joins nor pool shutdown can hang.",
 ["schedules","inputs","configurations"],"all interleavings up to a preemption bound of the pool's workers with the caller, for small inputs and job trees, including worker counts 0 to 2",
 "A test exercises one schedule; the race between the last child finishing and a join starting is never forced.",
 ["tpie/parallel_sort.h","tpie/job.h","tpie/job.cpp"],
 [("job tree counting and condition variables","tpie/job.cpp"),("parallel quicksort partition jobs","tpie/parallel_sort.h")],[],["tpie::parallel_sort, tpie::job"])
p("C14","Parallel pipelines transform every item exactly once under every schedule",
 "A parallel pipeline section delivers the image of every input item exactly once (in input order when order is requested), finishes, and propagates exceptions to the caller, whatever the schedule of its workers, number of workers and buffer sizes.",
 ["schedules","configurations","inputs"],"all interleavings up to a preemption bound for small item counts, 1-2 workers, buffer sizes 1-2, ordered and unordered, workers that drop, duplicate or buffer items or throw",
 "The tests run big inputs on one schedule; hand-over, early termination and exception paths are never forced.",
 ["tpie/pipelining/parallel/base.h","tpie/pipelining/parallel/worker_state.h","tpie/pipelining/parallel/factory.h","tpie/pipelining/parallel/pipes.h","tpie/pipelining/parallel/options.h"],
 [("worker state machine","tpie/pipelining/parallel/base.h"),("producer/consumer hand-over","tpie/pipelining/parallel/base.h")],[],["pipeline output of parallel(...)"])
p("C15","Every pipeline computes the composition of its parts",
 "A pipeline built from the library's push and pull stages produces exactly the list that the composition of the corresponding list functions produces, for every input list and every composition, independent of the memory available and of whether intermediate results are buffered, sorted or reversed.",
 ["programs","inputs","configurations"],"all compositions up to a length of the stock stages, all small input lists, small memory",
 "Tests check each stage in one or two fixed pipelines; combinations across push/pull borders and phases are not enumerated.",
 ["tpie/pipelining/pipeline.h","tpie/pipelining/sort.h","tpie/pipelining/buffer.h","tpie/pipelining/reverse.h","tpie/pipelining/merge.h","tpie/pipelining/std_glue.h","tpie/pipelining/numeric.h","tpie/pipelining/helpers.h","tpie/pipelining/file_stream.h","tpie/pipelining/virtual.h","tpie/pipelining/join.h","tpie/pipelining/split.h","tpie/pipelining/serialization.h","tpie/pipelining/chunker.h","tpie/pipelining/uniq.h"],
 [("stage construction and pushing","tpie/pipelining/pipe_base.h"),("phase splitting stages","tpie/pipelining/sort.h, buffer.h, reverse.h")],[],["output of a pipeline run"])
p("C16","Pipeline stages see a legal lifecycle in a legal phase order",
 "For every acyclic pipeline graph, each stage is prepared, begun, run and ended exactly once in the documented order: producers are begun after and ended before the stages they push to, blocking edges split the graph into phases run in dependency order, and data set up by one stage reaches exactly the stages downstream of it. Graphs that violate the rules are rejected, not run.",
 ["programs","configurations"],"all stage graphs up to a size with push, pull and blocking edges, all placements of forwarded values, memory assignments and exceptions",
 "Tests fix a dozen graphs; ordering errors show only on particular shapes.",
 ["tpie/pipelining/runtime.h","tpie/pipelining/runtime.cpp","tpie/pipelining/node_set.h","tpie/pipelining/node.h","tpie/pipelining/node.cpp","tpie/pipelining/tokens.h","tpie/pipelining/tokens.cpp"],
 [("phase computation and topological orders","tpie/pipelining/runtime.cpp"),("node state machine","tpie/pipelining/node.cpp"),("forwarding","tpie/pipelining/node.h, runtime.cpp")],[],["sequence of stage callbacks"])
p("C17","Memory and file assignment respects minimums, maximums and the limit",
 "Whenever the minimum requirements of the stages of a phase fit into the available memory (or file) budget, each stage gets at least its minimum and at most its maximum and the total stays within the budget; more budget never gives a stage less in total, and leftover budget is only left when every stage is saturated or rounding makes it so.",
 ["configurations","inputs"],"all combinations of small minimums, maximums, fractions and budgets for up to a few stages",
 "The tests check five fixed configurations.",
 ["tpie/pipelining/runtime.cpp","tpie/pipelining/runtime.h","tpie/resources.h","tpie/pipelining/node.h"],
 [("binary search for the assignment factor","tpie/pipelining/runtime.cpp get_factor/assign_resource"),("per-node clamping","tpie/pipelining/runtime.cpp")],[],["node::get_available_memory/files inside a run"])
p("C18","Memory accounting is exact and the limit is enforced",
 "At every moment the accounted memory equals the sum of the sizes of live tracked allocations, an allocation that would go beyond an enforced limit, or that the heap cannot serve, fails with an exception and counts nothing and leaves nothing behind, no data structure is broken or makes up results because of it, and when everything is released the account returns to its former value, whatever operations, failures and concurrent allocations occurred; and data structures that say how much memory they take do not take more.",
 ["fault_sequences","histories","schedules"],"every allocation of every short history failing (limit, heap, constructor), every allocation and every limit of whole algorithms, all sizes up to a bound, all interleavings of threads competing for the last bytes",
 "No test makes an allocation fail at each point, and the leak oracle of the tests is a total at exit.",
 ["tpie/memory.h","tpie/memory.cpp","tpie/resource_manager.h","tpie/resource_manager.cpp"],
 [("atomic usage counter and limit enforcement","tpie/resource_manager.cpp"),("tpie_new/tpie_delete/allocator","tpie/memory.h")],[],["memory_manager::used()"])
p("C19","Open-file counts are exact and temporary files are removed",
 "The open-file account equals the number of file descriptors the library holds through its file accessors, at every point of every history including failed opens; an enforced limit is never exceeded, and an open it refuses creates and truncates nothing. Every temporary file disappears when its owner goes, and the temporary directory with everything in it at shutdown; a temporary file made persistent survives its owner. The temporary-space account equals the recorded sizes of the temporary files written, and the byte counters equal the bytes transferred.",
 ["histories","fault_sequences"],"every open/close/move/reopen/persist history up to a depth, and each system call failing once",
 "Tests check a leak count after a few fixed scripts.",
 ["tpie/file_manager.h","tpie/file_manager.cpp","tpie/file_accessor/posix.inl","tpie/tempname.h","tpie/tempname.cpp","tpie/stats.cpp"],
 [("descriptor accounting at open/close","tpie/file_accessor/posix.inl"),("reference-counted temp file removal","tpie/tempname.cpp")],[],["file_manager::used()","/proc/self/fd","the scratch directory","stats counters"])
p("C20","Progress reporting is monotone and complete",
 "However progress indicators are nested, split and stepped, the progress shown at the root never decreases, never exceeds the maximum, and reaches exactly the maximum when every part is done; what the terminal indicators print never exceeds 100 % and ends there, and every breadcrumb and log group that a part opens is closed when it is done.",
 ["programs","histories"],"all nestings and step patterns up to a size, with all small ranges",
 "Tests check a handful of nestings, each with one stepping pattern.",
 ["tpie/progress_indicator_base.h","tpie/progress_indicator_base.cpp","tpie/progress_indicator_subindicator.h","tpie/progress_indicator_subindicator.cpp","tpie/fractional_progress.h","tpie/fractional_progress.cpp","tpie/progress_indicator_arrow.h"],
 [("sub-range arithmetic","tpie/progress_indicator_subindicator.cpp"),("fraction bookkeeping","tpie/fractional_progress.cpp")],[],["refresh() calls and current/range of the root indicator"])
p("C21","Concurrent parts of the library are free of data races",
 "No execution of the library's concurrent parts (I/O thread, job pool, parallel sort, parallel pipelines, memory accounting) contains two conflicting unsynchronised accesses to the same memory.",
 ["schedules","configurations"],"all interleavings up to a preemption bound of small concurrent programs, every memory access of the instrumented library checked by happens-before",
 "A test run shows only the ordering that happened; a race needs a happens-before argument over every schedule.",
 ["tpie/compressed/thread.cpp","tpie/compressed/stream_base.cpp","tpie/job.cpp","tpie/parallel_sort.h","tpie/pipelining/parallel/base.h","tpie/resource_manager.cpp","tpie/tempname.cpp","tpie/stats.cpp","tpie/tpie_log.cpp"],
 [("mutexes and condition variables","the files above"),("atomic counters","tpie/resource_manager.h, tpie/stats.cpp")],[],["memory accesses of the instrumented build"])
p("C22","The library can be started and stopped any number of times",
 "Every sequence of initialising and shutting down the library, with any choice of subsystems and with work in between, leaves it fully working after each start and leaves no threads, memory, files or descriptors behind after each stop; a start that is refused a thread leaves nothing behind either and can be tried again.",
 ["histories","configurations"],"all start/use/stop sequences up to a depth over the subsystem sets and kinds of work",
 "The test driver initialises the library once per process.",
 ["tpie/tpie.cpp","tpie/tpie.h","tpie/compressed/thread.cpp","tpie/job.cpp","tpie/memory.cpp","tpie/file_manager.cpp"],
 [("subsystem bit mask","tpie/tpie.cpp"),("singleton creation/destruction","per-subsystem init_*/finish_*")],[],["threads, descriptors, memory account and stream results after each cycle"])
p("C23","Damaged or foreign files are rejected, never misread or crashed on",
 "Opening a stream, serialization or serialized B-tree file that is empty, foreign, of another item or block size, cut within its header, or damaged in its magic number, version, sizes or clean-close flag fails with an exception and leaves the file alone. What a file cut short or with junk after its end yields is an error or items that were written, never others. Damage in fields and contents that carry no redundancy (number of items, offset of the last block, capacity for user data, compression flag, item bytes) may yield other items or an error, but never more items forward than were written, and whatever the damage, opening, reading in any direction, seeking, appending and closing never hang, crash, leak descriptors or touch memory out of bounds.",
 ["inputs"],"every truncation length and every single-byte damage (9 or all 255 values) of small valid files of each kind, pairs of damaged header bytes, junk after the end, and every kind of file opened as every other",
 "Tests open only files the library itself just wrote, apart from one or two fixed negative cases.",
 ["tpie/stream_header.h","tpie/file_accessor/stream_accessor_base.inl","tpie/compressed/stream_base.cpp","tpie/compressed/thread.cpp","tpie/compressed/scheme_snappy.cpp","tpie/serialization_stream.cpp","tpie/btree/serialized_store.h","tpie/file_accessor/posix.inl"],
 [("header validation","tpie/file_accessor/stream_accessor_base.inl validate_header"),("block header checks","tpie/compressed/thread.cpp process_read_request"),("short-read detection","tpie/file_accessor/posix.inl")],[],["exceptions and contents of the opened stream"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import os
for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],f)
