#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


I = 'src/internal/'
prop('C01', 'Quiet, fence and barriers complete every outstanding operation',
     'When quiet or fence on the default context returns, and before any routine that implies it (barriers, symmetric and space '
     'allocation and release, lock release, context destruction, finalization) lets other PEs proceed, every put, nonblocking get and '
     'atomic issued earlier by the PE has been completed, whatever memory it targets: the symmetric heap, global data, every attached memory '
     'space and each of its contexts, and whether it went directly or as an active message. On a created context the same '
     'holds for the operations of that context. A record that something is outstanding is dropped only after that something has completed.',
     ['programs', 'histories', 'configurations'],
     'Every sequence of operations on any number of spaces and contexts, every PE count, every run-time choice between the direct and the active-message path.',
     'The tests run two PEs with at most one space and observe values after a barrier; MPI usually delivers early, so a missing completion is invisible in almost every run.',
     [I + 'order_impl.h', I + 'am_impl.h', I + 'coll_impl.h', I + 'lock_impl.h', I + 'mem_impl.c', I + 'space_impl.c'],
     [('window flush driven by per-window tracking flags', I + 'order_impl.h'), ('flush packets acknowledged by every PE with outstanding active messages', I + 'am_impl.h')],
     'path-sensitive typestate simulation over inlined SSA',
     'Sound over all paths of the analysed entry points under the stated MPI semantics; loop coverage is decided by matching induction variables and list cursors.',
     ['return of quiet/fence', 'first collective call of each implying routine'])

prop('C02', 'No issued operation is forgotten before it is complete',
     'Whenever a routine returns while an update it issued (put, nonblocking put, atomic, strided put) or a nonblocking get may still be '
     'incomplete at its target, the record the next quiet, fence or barrier consults says so: the outstanding mark of the window used, '
     'or of the destination PE when the operation went as an active message. Such a mark is cleared only at a point where everything it stands for is '
     'complete.',
     ['programs', 'histories', 'configurations'],
     'Every public routine that issues an operation, every path through it, each run-time choice of the direct and active-message paths.',
     'A missing mark only shows when MPI has not happened to deliver the operation by the time quiet returns.',
     [I + 'rma_impl.h', I + 'amo_impl.h', I + 'strided_impl.h', I + 'rma_am_impl.h', I + 'amo_am_impl.h', I + 'order_impl.h', 'src/include/oshmpi_impl.h'],
     [('per-window outstanding_op marks', 'src/include/oshmpi_impl.h'), ('per-PE outstanding_op_flags of active messages', I + 'am_pre.h')],
     'path-sensitive typestate simulation over inlined SSA (outstanding-operation tokens)',
     'Sound over all paths under the stated MPI completion semantics.', ['return of every put, get, strided and atomic routine'])
prop('C03', 'Buffers are returned, reused or read only when the operation on them has finished locally',
     'When a blocking put, get, strided or atomic routine returns, the caller\'s buffers are no longer in use and fetched data has arrived; no routine, '
     'blocking or not, returns while MPI can still access a variable in its stack frame or an unfinished request it started; no '
     'buffer handed to MPI is overwritten, read as a result or released before the operation on it has finished locally.',
     ['programs', 'schedules', 'configurations'],
     'Every routine that starts an MPI operation, all paths, whatever the timing of the MPI library.',
     'Small messages complete inside the MPI call on one node, so the window in which the defect is visible does not open in the tests.',
     [I + 'rma_impl.h', I + 'amo_impl.h', I + 'strided_impl.h', I + 'rma_am_impl.h', I + 'amo_am_impl.h', I + 'am_progress_impl.h', I + 'am_impl.h'],
     [('ctx_local_complete_impl', 'src/include/oshmpi_impl.h'), ('OSHMPI_am_progress_mpi_waitall and send', I + 'am_progress_impl.h')],
     'path-sensitive typestate simulation over inlined SSA (buffer lifetime tokens)',
     'Sound over all paths under the stated MPI local-completion semantics.', ['return of every communicating routine'])
prop('C04', 'Every atomic routine issues the operation its name and type say, with the caller\'s operands',
     'Each of the atomic routines (compare-swap, swap, set, fetch, add, inc, and, or, xor, fetching or not, nonblocking or not, with or '
     'without context, for every type) issues exactly one operation, of that kind, on the type of the routine with count one, on the PE '
     'given, with the caller\'s value (one for increments) and condition in their places, on the direct path and on the active-message path alike; a fetching '
     'routine returns, or delivers to the caller\'s variable, the value that operation fetched.',
     ['inputs', 'configurations', 'API surface'],
     'All of the more than 400 generated routines, every operand value, both transports.',
     'The tests exercise a few of the type and operation combinations with values for which wrong widths or operations often give the same result.',
     ['src/shmem/amo_std_typed.c.tpl', 'src/shmem/amo_ext_typed.c.tpl', 'src/shmem/amo_bitws_typed.c.tpl', I + 'amo_impl.h', I + 'amo_am_impl.h', I + 'am_impl.c', 'maint/amo_std_typedef.txt'],
     [('OSHMPI_amo_cswap, _fetch, _post dispatch', I + 'amo_impl.h'), ('datatype and operation index tables', I + 'am_impl.c')],
     'path-sensitive simulation with copy propagation through local memory, per generated routine',
     'Decides every routine of the generated API; the arithmetic MPI itself performs is assumed.', ['the MPI call or packet of each atomic routine'])
prop('C05', 'Active-message atomics update the target exactly as requested',
     'The handler of an atomic packet applies to the target cell exactly the operation the packet names, at the width of its '
     'datatype, on the old contents and the packet\'s operand, once; compare-and-swap stores only if the old value equals the condition at full '
     'width; the value sent back is the one the cell held before the update, as one element of the operation\'s type, to the PE the packet came from, with '
     'the packet\'s tag and on the communicator the origin listens on; operations that return nothing send nothing. Every datatype and operation a routine can put in '
     'a packet is supported.',
     ['inputs', 'configurations', 'API surface'],
     'Every pair of datatype and operation any routine of the API can send, every operand and target value.',
     'The handlers are expanded from macros for 14 types and 6 operations; the tests reach few of them and rarely with values that need the full width.',
     [I + 'amo_am_impl.c', I + 'am_pre.h', I + 'am_impl.c'],
     [('OSHMPI_AMO_OP_TYPE_IMPL and the operation switches', I + 'amo_am_impl.c')],
     'path-sensitive simulation of the callbacks per datatype and operation index (partial evaluation of the dispatch)',
     'Sound over all paths of the handlers; atomicity follows from packets being handled one at a time (C07).', ['store to the target', 'MPI_Send of the reply'])

prop('C06', 'Active-message packets, payloads and replies always match up',
     'For every packet a routine sends, each field its handler reads has been set, a handler for its type is registered, and the message '
     'the handler then sends to or receives from the origin has exactly one counterpart posted by the routine, on the same PE, '
     'communicator and tag, before the routine handles packets of other PEs. Those tags never collide with the tag of packets and never exceed the '
     'tag bound of the MPI library, however many packets are sent; with multiple threads they are drawn atomically. Every packet received is handed once to the handler of its type '
     'together with its sender, and the listener is then posted again with the same buffer size, source and tag wildcards; no packet is overwritten or skipped.',
     ['programs', 'histories', 'schedules', 'configurations'],
     'Every routine that sends a packet, every path, any number of earlier packets (tag wrap-around), every interleaving of packets of different PEs.',
     'A wrong tag or a field left unset shows only when two messages are in flight to the same PE, or after as many packets as there are tags.',
     [I + 'am_impl.c', I + 'am_impl.h', I + 'rma_am_impl.h', I + 'rma_am_impl.c', I + 'amo_am_impl.h', I + 'amo_am_impl.c', I + 'am_pre.h'],
     [('packet listener and dispatch', I + 'am_impl.c'), ('OSHMPI_am_get_pkt_ptag', I + 'am_impl.h'), ('handlers', I + 'rma_am_impl.c')],
     'path-sensitive protocol (send/receive matching) simulation over inlined SSA with handler summaries and arithmetic tag bounds',
     'Sound over all paths; the arithmetic of the tag bound is decided symbolically against the MPI_TAG_UB attribute.',
     ['MPI_Isend/Irecv of each packet-sending routine', 'MPI_Test/Irecv of the packet listener'])
prop('C07', 'A PE that waits keeps serving the others',
     'Wherever a routine between initialization and finalization waits for something another PE has to do (a message, a collective, a lock, a change of a variable, a reply), it handles '
     'arriving active-message packets for as long as it waits, unless a progress thread does; it makes no MPI call that blocks until other PEs act '
     'unless those PEs have first met in an operation that does. A test routine that answers "not yet" has handled packets, so that polling it cannot starve the others. Handlers of packets '
     'never wait for, or handle, further packets, so packets take effect one at a time.',
     ['programs', 'schedules', 'configurations'],
     'Every waiting loop and blocking MPI call reachable from every public routine, every path around the loop; every PE count and arrival order.',
     'A missing poll only deadlocks when one PE waits while another one waits for a packet to be handled by it, which the two-PE tests do not arrange.',
     [I + 'am_progress_impl.h', I + 'am_impl.c', I + 'p2p_impl.h', I + 'lock_impl.h', I + 'coll_activeset_impl.h', 'src/shmem/team.c', I + 'space_impl.c'],
     [('nonblocking MPI call plus OSHMPI_am_cb_progress loops', I + 'am_progress_impl.h'), ('progress in wait loops', I + 'p2p_impl.h'), ('coll_presync', I + 'coll_activeset_impl.h')],
     'loop and path analysis over inlined SSA (every cycle of a waiting loop passes a poll; effect rule for blocking calls)',
     'Decides the structure of every loop; that MPI itself progresses inside its calls is assumed.',
     ['every waiting loop', 'every blocking MPI call'])

prop('C08', 'Every remote access reaches the object and offset the caller named',
     'Each put, get, atomic, strided, lock and point-to-point access is made through the window of the symmetric object (heap, global data, attached space) that contains the address '
     'the caller gave, or of the created context the caller passed, at the displacement of that address within the object; with dynamic windows at its address on the PE accessed. An active message names that '
     'object by its handle with the same displacement, and the handler reaches exactly the base of the object with that handle plus the displacement; no two objects '
     'attached during a run share a handle. The windows cover exactly the memory the descriptors say, in units of bytes.',
     ['programs', 'inputs', 'configurations'],
     'Every entry point that accesses remote memory and every handler, every address, any number of spaces attached and detached in any order, both window types.',
     'The tests use few objects, mostly the heap, at equal addresses on all PEs; a boundary, a second space or differing addresses are not exercised.',
     ['src/include/oshmpi_impl.h', I + 'space_impl.c', I + 'setup_impl.c', I + 'rma_impl.h', I + 'rma_am_impl.c', I + 'lock_impl.h'],
     [('OSHMPI_sobj_query_attr_ictx', 'src/include/oshmpi_impl.h'), ('OSHMPI_sobj_trans_vaddr_to_disp and its inverse', 'src/include/oshmpi_impl.h'), ('handle encoding', 'src/include/oshmpi_impl.h')],
     'path-sensitive value-set analysis over inlined SSA (linear forms of displacements, range facts, known bits of handles)',
     'Sound over all paths; the range test covers the first byte of an access, longer accesses across the end of an object are the program\'s error.',
     ['window and displacement of each MPI one-sided call', 'address each packet handler accesses'])

prop('C09', 'Puts and gets move exactly the elements described',
     'Each put and get routine (typed, sized, mem, single-element, nonblocking, with and without context) moves, on every path that returns and exactly once, '
     'the number of elements given, of the size the name of the routine says (one for single-element routines), between the caller\'s local buffer, value or result and the PE given: a put '
     'puts and a get gets, count and datatype describe the same bytes on both sides, the size in an active-message packet is that number of bytes, '
     'and its handler moves exactly that many in the right direction. Nothing is moved only when there are no elements.',
     ['inputs', 'configurations', 'API surface'],
     'All generated put and get routines, every element count, both transports.',
     'The tests use a handful of types and small counts on the direct path; a wrong size on the active-message path of one size class is never run.',
     [I + 'rma_impl.h', I + 'rma_am_impl.h', I + 'rma_am_impl.c', 'src/shmem/rma.c', 'src/shmem/rma_typed.c.tpl', 'src/shmem/rma_sized.c.tpl', 'maint/rma_sizedef.txt'],
     [('OSHMPI_ctx_put/get and their active-message counterparts', I + 'rma_impl.h'), ('generated API variants', 'src/shmem/rma_sized.c.tpl')],
     'path-sensitive value propagation over inlined SSA (linear forms of counts and sizes)',
     'Sound over all paths; element counts are assumed to fit MPI\'s int arguments.', ['MPI_Put, MPI_Get, packet and payload of each put and get routine'])
prop('C10', 'Strided transfers pair element i with element i at the caller\'s strides',
     'Each strided put and get (typed and sized, with and without context) describes on the local side nelems elements of the routine\'s size at the local stride the '
     'caller gave, and on the remote side nelems such elements at the remote stride, on the direct path and in the active-message packet and its handler alike; elements are treated as '
     'contiguous only if the stride is 1. A datatype taken from the cache was made for the same count, stride, element type and extent: lookups compare all of them, and '
     'every entry\'s fields describe the datatype stored in it.',
     ['inputs', 'histories', 'configurations'],
     'All strided routines, every count and pair of strides, every history of earlier strided calls (cache contents), both transports.',
     'The tests use one or two fixed stride pairs; stale cache hits and swapped strides need calls with different parameters in one run.',
     [I + 'rma_impl.h', I + 'strided_impl.h', I + 'rma_am_impl.h', I + 'rma_am_impl.c', 'src/shmem/rma_typed.c.tpl', 'src/shmem/rma_sized.c.tpl'],
     [('OSHMPI_create_strided_dtype', I + 'strided_impl.h'), ('strided datatype cache', I + 'strided_impl.h')],
     'path-sensitive value propagation over inlined SSA (datatype layouts, equalities of cache fields)',
     'Sound over all paths; counts and strides are assumed to fit MPI\'s int arguments.', ['MPI_Put, MPI_Get, MPI_Type_vector, packet and handler of each strided routine'])

prop('C11', 'Collectives run the named operation on the caller\'s data among exactly the PEs named',
     'Every collective (broadcast, collect, fcollect, alltoall, alltoalls, each reduction, barrier and sync; on teams, active sets and the sized legacy forms) performs on every path that '
     'returns exactly one data-moving MPI collective of the kind, with the operation and element type its name says, on the caller\'s buffers, root, element count and strides. It runs '
     'on the communicator of the team given, or for an active set on the world communicator only if the set is the whole world, else on a communicator of exactly the ranks start + i * 2^log, '
     'whether new or cached. The root of a team broadcast also receives the data in its destination, that of an active-set broadcast keeps it unchanged. A collect places the blocks in rank order without gaps: '
     'displacements are the running sums of the exchanged counts, and the equal-size path is taken only when every PE\'s count is equal.',
     ['inputs', 'histories', 'configurations', 'API surface'],
     'Every collective routine and element type, every team and active set, every combination of counts over the PEs, every history of active sets used before.',
     'The tests run two PEs, where most active sets are the world, roots are 0, counts are equal, and cached communicators are rarely looked up among several.',
     [I + 'coll_impl.h', I + 'coll_activeset_impl.h', I + 'am_progress_impl.h', I + 'strided_impl.h', 'src/shmem/team.c', 'src/shmem/coll_typed.c.tpl', 'src/shmem/coll_activeset.c'],
     [('OSHMPI_*_team', I + 'coll_impl.h'), ('coll_acquire_comm and its cache', I + 'coll_activeset_impl.h'), ('alltoalls datatypes', I + 'strided_impl.h')],
     'path-sensitive value propagation over inlined SSA (communicator provenance, linear forms, loop summaries of count and displacement arrays)',
     'Sound over all paths under MPI semantics; counts are assumed to fit int.', ['the MPI collective each routine issues'])

prop('C12', 'Symmetric allocation stays symmetric, synchronized and inside the heap',
     'Each allocation and release routine of the symmetric heap changes the heap exactly once, with the size, count, alignment and pointer of the caller, and does nothing only if the size is zero (a reallocation to zero releases). '
     'An allocation is returned only after a barrier of all PEs that follows it, and memory is released or moved only after a barrier that all PEs enter first. A pointer is released in the '
     'symmetric heap or in the memory space whose range contains it, whichever space that is. No other routine takes memory from the symmetric heap, so equal calls keep the heaps of all PEs equal. '
     'The allocator manages exactly the memory that is remotely accessible and never returns memory beyond it.',
     ['histories', 'inputs', 'configurations'],
     'Every sequence of allocations, reallocations and releases of any sizes (including zero and more than the heap holds), any number of spaces, every PE count.',
     'The tests allocate a few small buffers on two PEs; an early release or a missing barrier shows only if another PE is late, exhaustion is never reached.',
     [I + 'mem_impl.c', 'src/shmem/mem.c', I + 'setup_impl.c', I + 'space_impl.c', I + 'util/mem_pool.c'],
     [('OSHMPI_malloc, free, realloc, align, calloc', I + 'mem_impl.c'), ('creation of the mspace', I + 'setup_impl.c')],
     'path-sensitive typestate simulation over inlined SSA',
     'Sound over all paths; the vendored dlmalloc allocator itself is trusted.', ['calls of the allocator', 'return of the allocation routines'])

prop('C13', 'Distributed locks: mutual exclusion, hand-over and the outcome of a trial',
     'At most one PE holds a lock. shmem_set_lock returns only after its atomic swap into the queue word found the lock free, or after the previous PE in the queue, which it told its identity, has signalled it; '
     'shmem_test_lock takes the lock by one atomic compare-and-swap from the free value, returns 0 exactly when it took it, and otherwise changes nothing; '
     'shmem_clear_lock frees the lock only if no other PE has queued, and otherwise waits until the successor is announced and signals exactly that PE once. '
     'The words of a lock are accessed with atomics at one fixed PE for the queue and at the own PE for the hand-over, the own word is reset and synchronized before others may write it, '
     'no result is used and no call returns before its operations are complete, and all three routines agree on the layout, the identities, the free value and the signal.',
     ['schedules', 'histories', 'configurations'],
     'Any number of PEs that contend for any number of locks, every interleaving of set, test and clear, locks reused any number of times, symmetric addresses that differ between PEs.',
     'The tests run two or three PEs for a few rounds; a lost announcement, a stale signal or a missing flush shows only in a window of a few microseconds.',
     [I + 'lock_impl.h', 'src/shmem/lock.c'],
     [('OSHMPI_set_lock', I + 'lock_impl.h'), ('OSHMPI_clear_lock', I + 'lock_impl.h'), ('OSHMPI_test_lock', I + 'lock_impl.h')],
     'path-sensitive typestate simulation over inlined SSA with constant and copy propagation; conditions evaluated on value classes; cross-routine agreement',
     'Every step of the three routines is compared with the queue protocol on all paths; that the protocol itself excludes is argued in DESIGN.md, not proved mechanically.', ['atomic operations on lock words', 'conditions on results', 'returns', 'constants of the protocol'])

prop('C14', 'Thread safety under SHMEM_THREAD_MULTIPLE',
     'When the library runs with SHMEM_THREAD_MULTIPLE, any routines may be called by several threads at once. Every two accesses to state shared inside the library (heap allocators, memory-space list and pools, contexts, '
     'communicator and datatype caches, active-message engine) of which one writes are made in a common critical section or are atomic; critical sections are balanced on every path, nested in one order, initialised before use, '
     'destroyed at the end and never held while waiting for another PE. Active-message callbacks run one at a time, in the progress thread or in the calling threads but not both; the progress thread starts only after what it reads is set. '
     'A quiet of one thread completes the operations this thread issued, whatever completions other threads perform meanwhile: no record of outstanding operations is cleared by a completion that need not cover it.',
     ['schedules', 'histories'],
     'Every interleaving of any number of threads calling any routines, with and without the asynchronous progress thread.',
     'The test suite is built and run with SHMEM_THREAD_SERIALIZED; data races and lost updates need particular interleavings.',
     [I + 'order_impl.h', I + 'am_impl.c', I + 'am_impl.h', I + 'mem_impl.c', I + 'space_impl.c', I + 'strided_impl.h', I + 'coll_activeset_impl.h'],
     [('critical sections and flags', 'src/include/oshmpi_impl.h'), ('progress', I + 'am_impl.c')],
     'lockset and lock-order analysis: path-sensitive simulation collecting accesses with the critical sections held, pairwise conflict check',
     'Sound over all paths for the state reachable from global variables, global lists and handles; ordering by the program is assumed where OpenSHMEM requires it (see assumptions).',
     ['accesses to shared state', 'critical sections', 'callback calls'])

prop('C17', 'Wait and test decide by the comparison they name',
     'shmem_wait_until returns only after a read of the variable of the calling PE for which the comparison named holds, and does return when the value read satisfies it; shmem_wait likewise with "not equal"; shmem_test returns 1 if the comparison '
     'holds for the value it read and 0 otherwise. This holds for every type and every comparison code on the full range of the type, signed or unsigned as declared. The variable is inspected only by an atomic read of exactly its type, '
     'and every further round of a wait reads it again. (The vector, any, some, all and signal variants are not implemented by the library and not part of this.)',
     ['inputs', 'schedules'],
     'Every wait/test routine, every type, every comparison code, all values of the variable and of the operand, any number of rounds and any remote updates in between.',
     'Tests wait for one or two small values; limits of the types, mixed signs, stale reads and non-atomic reads do not show.',
     [I + 'p2p_impl.h', 'src/shmem/p2p.c', 'src/shmem/p2p_typed.c.tpl', 'maint/p2p_typedef.txt'],
     [('OSHMPI_COMP', I + 'p2p_impl.h'), ('OSHMPI_WAIT_UNTIL, OSHMPI_TEST', I + 'p2p_impl.h')],
     'path-sensitive simulation over inlined SSA collecting the branch conditions on the value read; conditions evaluated on the boundary values of the type',
     'All paths; the conditions found on them are evaluated on representatives (limits, zero, powers of two and neighbours) of both operands, which separates every order relation.', ['reads of the variable', 'returns', 'further rounds'])

prop('C16', 'Teams consist of exactly the PEs named, and handles stand for their team',
     'Every team routine uses the team its handle stands for (the predefined handles for the world and the node team, any other for its own object) and reports an invalid handle. shmem_team_split_strided makes a team exactly when the triplet '
     'describes PEs of the parent, whatever the values, and then exactly of those PEs; shmem_team_split_2d of the rows and columns of the parent; both refuse other arguments on every PE alike without dividing by zero, return the handle to members and '
     'SHMEM_TEAM_INVALID to others. The PEs of a new team are numbered in the order of the parent, and its object records the size, number, group and configuration of its communicator. shmem_team_translate_pe translates from the first team to the second and returns -1 '
     'if there is no such PE. shmem_team_destroy releases exactly the team given. PE number and count are those of the world communicator and nothing changes them or the predefined teams after initialisation; shmem_pe_accessible and shmem_ptr follow them.',
     ['inputs', 'histories'],
     'Every parent team, start, stride, size and xrange, every handle, and every number of PEs.',
     'Tests split the world of two or three PEs once or twice with ordinary arguments.',
     ['src/shmem/team.c', I + 'team_impl.c', I + 'setup_impl.c', 'src/shmem/setup.c'],
     [('OSHMPI_team_split', I + 'team_impl.c'), ('shmem_team_split_strided, shmem_team_split_2d, shmem_team_translate_pe', 'src/shmem/team.c'), ('initialize_mpi', I + 'setup_impl.c')],
     'path-sensitive simulation over inlined SSA with constant and copy propagation through objects; path conditions and colours as terms evaluated on small instances and extremes; write-effect analysis of identity cells',
     'All paths; the arithmetic of a split is decided on all instances of up to five PEs and extreme values, which linear conditions and remainders make representative.', ['handle uses', 'splits', 'results', 'writes of identity cells'])

prop('C18', 'Environment settings and thread level mean what is documented',
     'Whatever the environment: each of SHMEM_VERSION, SHMEM_INFO, SHMEM_DEBUG, OSHMPI_VERBOSE and OSHMPI_ENABLE_MPI_T turns exactly its own setting on or off by the number given and leaves its default if it is unset or empty; SHMEM_SYMMETRIC_SIZE is '
     'a number with the suffix K, M, G or T in either case (powers of 1024), 128 MiB if it is not given, and a negative one is refused; the heap made and the window over it are no smaller than the size asked for. Every word of OSHMPI_AMO_OPS and of OSHMPI_MPI_GPU_FEATURES turns on '
     'its own operation and no other, alone or in a list in any order, "none" and "all"/"any_op" stand for no and all operations; the modes of OSHMPI_AMO_DBG_MODE and OSHMPI_RMA_DBG_MODE are told apart and are automatic otherwise. shmem_init_thread '
     'provides the smallest of the level asked for, the level the library is built for and the level MPI provides, reports it, returns zero exactly if that is no less than was asked for, and reports the same when initialised already; shmem_query_thread reports it.',
     ['inputs'],
     'Every string in every variable (lists of words in any order and number), every level requested and every level MPI provides.',
     'Tests run with one environment and one thread level; words that are prefixes of one another, suffixes, fractional and negative sizes and lower levels provided do not show.',
     [I + 'setup_impl.c', 'src/shmem/setup.c', I + 'mem_impl.c'],
     [('initialize_env, OSHMPI_set_mpi_info_args, set_env_amo_ops', I + 'setup_impl.c'), ('shmem_init_thread, shmem_query_thread', 'src/shmem/setup.c')],
     'path-sensitive simulation over inlined SSA with scalar cells as terms over named inputs (strings compared with literals, parsed numbers, levels) and branch facts narrowing the inputs',
     'All paths; the conditions and values found on them are evaluated on representatives of the inputs (every word, near words, extremes of numbers, all levels).', ['settings stored', 'words of lists', 'heap sizes', 'returns of the initialisation'])

prop('C20', 'All atomics of a run take one path, and MPI atomics only where MPI keeps them atomic',
     'Whether atomics are performed by MPI directly or as active messages is one decision for the whole run, taken at initialisation and never changed: every atomic routine, whatever its operation, type, context, target and calling thread, follows it '
     '(always messages in the debug mode "am", always MPI in "direct", else as decided), so that any two atomics on a variable are atomic with each other. Without a debug mode, MPI is chosen only if the operations declared in OSHMPI_AMO_OPS amount to '
     'one MPI operation, not counting pure fetches; MPI is told that only one operation is used (same_op) only if that is what was declared. Packets are sent only with settings with which the listener for packets has been started.',
     ['inputs', 'histories', 'schedules'],
     'Every atomic routine and argument, every set of declared operations and every combination of modes.',
     'Tests run with all operations declared and one mode; a routine that takes the other path loses updates only in a race with another operation on the same variable.',
     [I + 'amo_impl.h', I + 'setup_impl.c', 'src/include/oshmpi_impl.h', I + 'am_impl.c'],
     [('OSHMPI_ENABLE_DIRECT_AMO_RUNTIME', 'src/include/oshmpi_impl.h'), ('OSHMPI_amo_cswap, OSHMPI_amo_fetch, OSHMPI_amo_post', I + 'amo_impl.h'), ('OSHMPI_set_mpi_info_args', I + 'setup_impl.c')],
     'path-sensitive simulation over inlined SSA with the settings and the declared operations as inputs; the path taken, the decision and the info values as functions of them',
     'All paths and all settings; sets of up to three declared operations and the full set, which separate the classes of operations.', ['operations issued', 'decisions stored', 'info values', 'packets sent'])

prop('C15', 'What is acquired is released once, and initialisation and finalisation are paired',
     'Every communicator, group, datatype, info object, window and piece of memory a routine acquires is, on every path, either released by it or kept in a place from which a later routine releases it; nothing is released twice, while it is kept, or used '
     'after its release; a window is open for access when the routine that makes it returns and closed before it is freed. Initialisation is complete on all PEs before it returns on any, finalisation releases what initialisation acquired only after all '
     'PEs have entered it, in an order that uses nothing already released, and both happen once: a repeated call, or the implicit finalisation of programs begun with start_pes after an explicit one, does nothing. shmem_global_exit ends all PEs with '
     'the status given.',
     ['inputs', 'histories'],
     'Every routine, every path through it, every entry state of initialisation and finalisation.',
     'A leaked or doubly freed handle shows after many calls or not at all, and a race at start-up or shutdown needs a slow PE.',
     [I + 'setup_impl.c', I + 'team_impl.c', I + 'space_impl.c', I + 'coll_activeset_impl.h', I + 'strided_impl.h', I + 'am_impl.c'],
     [('OSHMPI_initialize_thread, finalize_impl', I + 'setup_impl.c'), ('OSHMPI_team_split, OSHMPI_team_destroy', I + 'team_impl.c'), ('coll_acquire_comm', I + 'coll_activeset_impl.h'), ('OSHMPI_create_strided_dtype', I + 'strided_impl.h')],
     'ownership and typestate analysis over inlined SSA: acquired objects with the places that hold them, on all paths; initialisation and finalisation simulated from every entry state and matched',
     'All paths of all routines; structures are matched with their releases by field.', ['acquisitions', 'releases', 'kept objects', 'orders of initialisation and finalisation'])

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in P:
            fp.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks = []
    for p in P:
        if p['technique'] is None:
            continue
        checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': 'python3 vlib/build.py', 'checks': checks,
           'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
           'notes': 'Static analysis only: each check regenerates the sources of /repo, compiles them to LLVM IR and decides its rules on the inlined program; nothing of the library is executed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


main()
