"""Which executables decide which property."""

# exe -> source file in harness/ (without .cpp), flavor of the build
EXES = {
    'c01_file_stream': dict(source='c01_file_stream', flavor='plain'),
    'c02_random_access': dict(source='c02_random_access', flavor='plain'),
    'c03_schedules': dict(source='c03_schedules', flavor='plain'),
    'c03_schedules_mt': dict(source='c03_schedules', flavor='mt', flags=['-DMC_RACES']),
    'c04_crash': dict(source='c04_crash', flavor='plain'),
    'c05_faults': dict(source='c05_faults', flavor='plain'),
    'c06_stack_queue': dict(source='c06_stack_queue', flavor='plain'),
    'c07_blocks': dict(source='c07_blocks', flavor='plain'),
    'c08_btree': dict(source='c08_btree', flavor='plain'),
    'c09_sort': dict(source='c09_sort', flavor='plain'),
    'c10_priority_queue': dict(source='c10_priority_queue', flavor='plain'),
    'c11_serialization': dict(source='c11_serialization', flavor='plain'),
    'c12_internal': dict(source='c12_internal', flavor='plain'),
    'c13_jobs': dict(source='c13_jobs', flavor='plain'),
    'c15_pipelines': dict(source='c15_pipelines', flavor='plain'),
    'c16_lifecycle': dict(source='c16_lifecycle', flavor='plain'),
    'c17_assignment': dict(source='c17_assignment', flavor='plain'),
    'c13_jobs_mt': dict(source='c13_jobs', flavor='mt', flags=['-DMC_RACES']),
    'c14_parallel': dict(source='c14_parallel', flavor='plain'),
    'c18_memory': dict(source='c18_memory', flavor='plain'),
    'c18_memory_mt': dict(source='c18_memory', flavor='mt', flags=['-DMC_RACES']),
    'c20_progress': dict(source='c20_progress', flavor='plain'),
    'c23_damage_asan': dict(source='c23_damage', flavor='asan'),
    'c14_parallel_mt': dict(source='c14_parallel', flavor='mt', flags=['-DMC_RACES']),
    'c19_files': dict(source='c19_files', flavor='plain'),
    'c22_restart': dict(source='c22_restart', flavor='plain'),
}

PROPERTIES = {
    'C01': dict(
        exes=['c01_file_stream'],
        technique='exhaustive enumeration of operation histories on the real code against an array model',
        note='All histories of the listed operations up to depth 5 (quick) / 6 (thorough) from an empty file on blocks '
             'of a few items, one to three streams, run on the real streams and I/O thread. Trusts the array model, '
             'the scheduler and the I/O interposition in mc/.'),
    'C02': dict(
        exes=['c02_random_access'],
        technique='exhaustive enumeration of operation histories (several cursors interleaved) on the real code against an array model',
        note='All histories of the listed operations up to the depth each suite states, on uncompressed streams and on '
             'one to three cursors over one file, with blocks of a few items. Trusts the array model.'),
    'C03': dict(
        exes=['c03_schedules'],
        technique='exhaustive enumeration of thread schedules (preemption bounded, happens-before reduced) of operation histories on the real code',
        note='All schedules up to the stated number of preemptions and spurious wake-ups (switches at locks, waits, notifications and '
             'file operations) of all histories of up to 4 operations on streams of one or two items per block, up to three streams '
             'or two user threads. Trusts mc/sched.cpp and the array model.'),
    'C04': dict(
        exes=['c04_crash'],
        technique='exhaustive enumeration of crash points (before every mutating system call, inside every data write) of every history on the real code',
        note='All histories of the stated depth of streams, files, serialization streams, stacks and block collections, every crash '
             'point of each, and every crash point of every schedule with one preemption at smaller depth; each resulting file is '
             'opened and read. Models the death of the process, not power failure. Trusts mc/io.cpp.'),
    'C05': dict(
        exes=['c05_faults'],
        technique='exhaustive fault injection: every (pair of) failing or short system call of every history of the real code',
        note='All histories of up to 4 (thorough 5) stream operations with every single fault, of up to 3 (4) with every pair, '
             'with one preemption at depth 3; whole stacks, queues, sorts, pipelines and block caches likewise. '
             'Failures are injected at the libc boundary (errors EIO/ENOSPC, half and one-byte transfers); mmap and '
             'fsync are not used by TPIE. Trusts mc/io.cpp.'),
    'C06': dict(
        exes=['c06_stack_queue'],
        technique='exhaustive enumeration of push/pop histories on the real code against vector and deque models',
        note='All histories up to the stated depth from every listed starting length, buffers of a few items. Trusts '
             'the reference models.'),
    'C07': dict(
        exes=['c07_blocks'],
        technique='exhaustive enumeration of allocate/read/write/free/reopen histories on the real code against a map model',
        note='All histories up to the stated depth, cache sizes 1 to 3 blocks. Trusts the map model.'),
    'C08': dict(
        exes=['c08_btree'],
        technique='exhaustive enumeration of insert/erase/query histories and build sizes on the real code against a multiset model',
        note='All histories of the stated depth over small key universes for internal, external and serialized trees with '
             'the smallest fanouts, and every build size in the stated ranges. Trusts the multiset model.'),
    'C09': dict(
        exes=['c09_sort'],
        technique='exhaustive enumeration of inputs, parameters and drive/evacuate/drop points on the real sorters against std::sort',
        note='All key sequences to the stated length, every size to a few merge levels, every fan-out/run length/limit and every '
             'evacuation or drop point listed. Memory limits are checked up to one block and 4 KiB. Trusts the permutation check.'),
    'C10': dict(
        exes=['c10_priority_queue'],
        technique='exhaustive enumeration of push/pop histories on the real code against a multiset model',
        note='All push/pop/top histories up to the stated depth from every listed stage of fill, smallest legal buffers '
             '(fan-out 3, 14-item heap). Trusts the multiset model.'),
    'C11': dict(
        exes=['c11_serialization'],
        technique='exhaustive enumeration of value sequences and read/reopen histories on the real code against a list model',
        note='All sequences of the listed value kinds up to the stated length, at the start of a stream and at every listed '
             'distance from the 2 MiB block borders; every header corruption listed. Trusts the list model.'),
    'C12': dict(
        exes=['c12_internal'],
        technique='exhaustive enumeration of operation histories on the real code against textbook models',
        note='All histories up to the stated depth per container, small capacities, every packed width. Trusts the std models.'),
    'C13': dict(
        exes=['c13_jobs'],
        technique='exhaustive enumeration of thread schedules (preemption bounded, happens-before reduced) of the real code under a controlled scheduler',
        note='All schedules up to the stated preemption bound of job forests of up to 3 (4) jobs and parallel sorts of up to 6 '
             'items on 1 to 3 workers, and all inputs of up to 6 (7) items on unpreempted schedules. Trusts mc/sched.cpp.'),
    'C14': dict(
        exes=['c14_parallel'],
        technique='exhaustive enumeration of thread schedules (preemption bounded, happens-before reduced) of real parallel pipelines under a controlled scheduler',
        note='All schedules up to the stated preemption bound of pipelines with one to three workers (also two sections in a row), up to '
             '4 items, buffers of 1 to 3 items, five kinds of workers, both orders, every stage throwing at every point, every thread '
             'creation failing. Trusts mc/sched.cpp and the list image.'),
    'C15': dict(
        exes=['c15_pipelines'],
        technique='exhaustive enumeration of pipeline programs, inputs and memory limits on the real pipelining code against list functions',
        note='Every one of 42 stock stages and stage combinations (sorters, buffers, reversers, maps, filters, forks, splits, merges, virtual '
             'chunks, passive stages, serialization) between each of 10 sources and 8 sinks, every chain of 2 and 3 stages, every pull chain of up '
             'to 2 (3) stages, joined, split and zipped graphs, subpipelines, on every list of up to 2 or 3 small items and some longer ones, with '
             'the minimum memory and more; memory, file accounts and descriptors must return to what they were. Trusts the list functions. '
             'The order in which the sources of one split are served is left unspecified.'),
    'C16': dict(
        exes=['c16_lifecycle'],
        technique='exhaustive enumeration of pipeline graphs on the real pipeline runtime against an order oracle',
        note='All graphs of up to 4 stages with every relation (push, pull, dependency, shared memory, ordering) between them, up to two '
             'relations per pair for 3, all dependency graphs of up to 5 (6) phases, every stage throwing in every callback, forwarding from '
             'every place. A dependency on a stage of the same phase is tolerated by the runtime and left unspecified.'),
    'C17': dict(
        exes=['c17_assignment'],
        technique='exhaustive enumeration of stage demands and budgets on the real pipeline runtime against the inequalities of the property',
        note='All combinations of the listed minimums, maximums, fractions and budgets for 1 to 4 stages of one phase and for up to 3 '
             'phases sharing up to two data structures. Left-over budget is tolerated up to one unit per stage and 2e-6 of the budget.'),
    'C18': dict(
        exes=['c18_memory', 'c18_memory_mt'],
        technique='exhaustive enumeration of allocation histories and of every failing allocation and limit of whole algorithms on the real code, and of the schedules of competing threads',
        note='Histories of up to 3 operations (4 thorough) on up to two objects of 8 kinds with every small limit (enforced, warning, ignored), every failing '
             'heap allocation and throwing constructor; 23 programs over the whole library with each single allocation failing or a limit at each rise of the account; '
             'all sizes up to 200 elements of the containers that promise a size; 2 and 3 threads at an enforced limit under every schedule (preemption bounded where '
             'the threads do several things). A named stack and B-trees run with limits only, not with an exhausted heap. Warnings from several threads at once are left out.'),
    'C19': dict(
        exes=['c19_files'],
        technique='exhaustive enumeration of open/close/move/persist histories, of every file limit and of every single failing system call on the real code',
        note='Histories of up to 4 operations (5 thorough; 3/4 for the kinds with many operations) on two objects of 8 kinds of file, stack and stream; '
             '17 programs over the whole library with each system call failing once and with each file limit; temporary directories and names to depth 5 '
             '(7 thorough); user counters. Observed at every step: descriptors, open-file account, limits, temporary files and their recorded sizes, byte counters. '
             'Left out: freeing a temp_file while a stream is open on it; the std::fstream inside serialized_store; '
             'faults in the destructors of block collections (they terminate, see C05).'),
    'C20': dict(
        exes=['c20_progress'],
        technique='exhaustive enumeration of indicator nestings, step patterns and progress-reporting programs on the real code, watched by a recording root indicator',
        note='Every nesting of subindicators up to two levels (three in part) with ranges 0 to 7 and every stepping with and without time passing '
             '(virtual clock), two parts in turns, ranges up to 2^64-1, subindicators moved while in use, fractions from the database, the terminal '
             'indicators output, tpie::sort, parallel sort under every schedule with one preemption, and pipelines of every stock stage. '
             'Steps before init, a second init without done, and the time predictor (disabled in this configuration) are left out.'),
    'C21': dict(
        exes=['c03_schedules_mt', 'c13_jobs_mt', 'c14_parallel_mt', 'c18_memory_mt'],
        technique='happens-before race detection on every schedule of an exhaustive, preemption bounded enumeration of the real code',
        note='Every memory access of the library and the harness on every explored schedule (preemptions at synchronisation and atomic '
             'operations) is checked with vector clocks: streams with the I/O thread, job pool, parallel sort, parallel pipelines. Accesses made inside '
             'uninstrumented system libraries are only seen through the wrapped memcpy/memmove/memset.'),
    'C22': dict(
        exes=['c22_restart'],
        technique='exhaustive enumeration of start/use/stop histories, of refused thread creations and of schedules on the real code',
        note='Every sequence of two cycles over 136 sets of subsystems and over 15 kinds of work, 3 block sizes and 4 settings (three cycles thorough), each '
             'done twice so that heap blocks left behind show; the subsystems started and stopped one by one in every order their dependencies allow; '
             'each creation of a thread refused; limits on open files; two cycles under every schedule with two preemptions (three thorough). '
             'Work of a subsystem that has not been started, and starting one twice without stopping it, are misuse and left out.'),
    'C23': dict(
        exes=['c23_damage_asan'],
        technique='exhaustive enumeration of damaged files (every cut, every byte) opened and used by the real code under AddressSanitizer',
        note='Every truncation and every one-byte damage (9 values, thorough all 255; pairs of header bytes) of small valid streams, '
             'files, serialization streams and serialized B-trees, read in every direction, appended to, truncated. Out-of-bounds accesses '
             'are detected by AddressSanitizer in the library; snappy, lz4 and zstd themselves are not instrumented.'),
}

# properties that have no check, with the reason
PENDING = {
}

ASSUMPTIONS = [
    'x86-64 Linux, gcc, release configuration of /repo (TPIE_NDEBUG) compiled with -O1',
    'behaviour outside the stated alphabets and bounds is not covered',
]
