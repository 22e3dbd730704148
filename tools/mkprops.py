import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/shmem/"; I="src/internal/"
p("C01","Remote writes land exactly: right bytes, right PE, nothing else touched",
 "For every write routine (contiguous, strided, single-element, sized, byte, blocking and nonblocking, any element type, any length from zero to beyond what an int counts, any stride, any target PE including self, and any symmetric object), once the write has been completed by a quiet or a barrier the destination elements on the target PE hold the source elements, element by element. No other byte of any symmetric object on any PE changes because of it.",
 ["inputs","programs","schedules","configurations"],"all write routines x types x lengths x strides x target objects (static data, heap, attached space) x transports (direct, active-message, either window type) x delivery orders",
 "The tests write a handful of ints, with one PE pair, one stride and no canaries around the destination; most typed and strided variants, the active-message path and multi-PE mixes are never run.",
 [S+"rma_typed.c.tpl",S+"rma_sized.c.tpl",S+"rma.c",I+"rma_impl.h",I+"rma_am_impl.h",I+"rma_am_impl.c",I+"strided_impl.h","maint/rma_typedef.txt","maint/rma_sizedef.txt"],
 [("address translation to window displacement","src/include/oshmpi_impl.h OSHMPI_sobj_trans_vaddr_to_disp"),("strided datatype construction and cache",I+"strided_impl.h"),("AM put/iput packets and callbacks",I+"rma_am_impl.h, "+I+"rma_am_impl.c")],
 observe=["contents of symmetric memory after quiet/barrier"])
p("C02","Remote reads return the target's current elements and touch nothing else",
 "For every read routine (contiguous, strided, single-element, sized, byte, any element type, length, stride and target), when a blocking read returns, or a nonblocking one has been completed by quiet or barrier, the local buffer holds the target's elements as last established before the read (all writes ordered before it by a completed synchronization are seen). Bytes of the local buffer outside the requested elements, and all remote memory, are unchanged.",
 ["inputs","programs","schedules","configurations"],"all read routines x types x lengths x strides x targets x transports x delivery orders",
 "No test uses get, iget, g or their nonblocking forms at all beyond incidental use; none checks that a read observes a just-completed write under delayed delivery.",
 [S+"rma_typed.c.tpl",S+"rma_sized.c.tpl",I+"rma_impl.h",I+"rma_am_impl.h",I+"rma_am_impl.c",I+"strided_impl.h"],
 [("blocking get waits for local completion",I+"rma_impl.h OSHMPI_ctx_get"),("AM get/iget reply",I+"rma_am_impl.c")],
 observe=["local destination buffers"])
p("C03","Blocking writes let the caller reuse the source buffer on return",
 "When a blocking write (contiguous, strided or single-element) or an atomic update returns, the caller may immediately overwrite its source buffer; the value eventually delivered is the one the buffer held at the call, however late the network reads or delivers it.",
 ["schedules","programs","configurations"],"all points at which the network may read the source buffer after the call returned; both transports; all blocking write routines",
 "On the tested shared-memory transport small messages are copied at once, so a missing local-completion wait is never visible.",
 [I+"rma_impl.h",I+"rma_am_impl.h",I+"amo_impl.h",I+"amo_am_impl.h",S+"rma_typed.c.tpl"],
 [("local completion before return","src/include/oshmpi_impl.h ctx_local_complete_impl"),("waiting for both AM sends",I+"rma_am_impl.h OSHMPI_rma_am_put")],
 observe=["delivered values after the source was overwritten"])
p("C04","Quiet completes every earlier write, atomic and nonblocking read",
 "When quiet returns, every write, atomic update and nonblocking read the caller issued before it on that context, to any PE and any symmetric object, is complete: its effect is visible to every PE, including one that merely learns by other means that quiet returned.",
 ["schedules","programs","histories","configurations"],"all programs mixing puts, iputs, nonblocking ops and atomics to several PEs and objects before quiet, all delivery delays",
 "Tests call quiet with a single outstanding put between two PEs on a transport that delivers in order; the outstanding-operation tracking and per-target flush decisions are never exercised with several targets, objects or transports.",
 [I+"order_impl.h",I+"am_impl.h",I+"rma_impl.h",I+"amo_impl.h",I+"amo_am_impl.h",I+"rma_am_impl.h","src/include/oshmpi_impl.h"],
 [("outstanding-operation tracking","src/include/oshmpi_impl.h OSHMPI_SET_OUTSTANDING_OP"),("window flush + AM flush on quiet",I+"order_impl.h OSHMPI_ctx_quiet"),("per-target AM outstanding flags",I+"am_impl.h OSHMPI_am_flush")],
 state=[("outstanding flags","whether a window/target may have incomplete operations","src/include/oshmpi_impl.h, "+I+"am_pre.h")],
 observe=["third-PE reads after a flag announced the quiet"])
p("C05","Fence orders writes and atomics to the same PE",
 "Writes and atomic updates issued by a PE to a target before a fence take effect at that target before those issued to it after the fence: an observer that sees a later update also sees every earlier one.",
 ["schedules","programs","configurations"],"all programs of writes/atomics split by fences, over direct and active-message transports and different symmetric objects, all delivery orders permitted by the transport",
 "No test uses fence as an ordering primitive; the tested transport happens to deliver in order.",
 [I+"order_impl.h",S+"order.c",I+"am_impl.h"],
 [("flush on fence",I+"order_impl.h OSHMPI_ctx_fence")],
 observe=["target-side polling of a flag written after the fence"])
p("C06","Atomic operations are linearizable with exact value semantics",
 "All atomic operations (fetch, set, swap, compare-and-swap, add, increment, and, or, xor and fetching forms, every supported type) on a symmetric variable take effect one at a time in some order consistent with the invocation/return intervals of fetching operations and the completion points of non-fetching ones; each fetching operation returns the value its predecessors left, in the operand type's arithmetic. Neighbouring bytes are never changed and no update is lost or applied twice.",
 ["schedules","histories","inputs","configurations"],"all concurrent histories of atomics by any number of PEs (and threads) over a variable, all types and operand values, both transports, any allowed atomics configuration",
 "Tests do one uncontended int operation at a time between two PEs; lost updates, wrong type tables and non-atomic paths need concurrency or other types.",
 [I+"amo_impl.h",I+"amo_am_impl.h",I+"amo_am_impl.c",S+"amo_std_typed.c.tpl",S+"amo_ext_typed.c.tpl",S+"amo_bitws_typed.c.tpl","maint/amo_std_typedef.txt",I+"setup_impl.c"],
 [("transport choice that keeps one atomicity domain",I+"setup_impl.c OSHMPI_set_mpi_info_args"),("AM atomics executed by the target's progress",I+"amo_am_impl.c"),("datatype and op tables",I+"am_impl.c")],
 observe=["returned old values, final values"])
p("C07","Barriers synchronize and complete: no early exit, all updates visible",
 "No PE leaves a barrier (all PEs or an active set) before every participant has entered it, and once a participant has left, every write, atomic update and nonblocking operation issued before the barrier by any participant on the default context, to any PE and any symmetric object, is complete and visible.",
 ["schedules","programs","configurations"],"all entry orders, delays and preceding operations (windows, spaces, active-message and direct), all active sets (start, stride, size) and repeated/overlapping sets",
 "The barrier test only runs barriers with no outstanding traffic on two PEs; active sets other than everyone are never used.",
 [I+"coll_impl.h",I+"coll_activeset_impl.h",I+"am_progress_impl.h",S+"coll.c",S+"coll_activeset.c"],
 [("flush before barrier",I+"coll_impl.h OSHMPI_barrier_all"),("active-set communicator creation and cache",I+"coll_activeset_impl.h")],
 observe=["entry/exit history; memory after exit"])
p("C08","Sync and team sync hold every participant until all have arrived",
 "A sync over all PEs, an active set or any team returns success on a member only after every member of that set has entered the same sync, and PEs outside the set are not needed for it to return.",
 ["schedules","programs"],"all entry orders and all teams/active sets, repeated",
 "No test relies on sync between PEs other than with the world team.",
 [S+"coll.c",S+"coll_activeset.c",I+"coll_impl.h",I+"coll_activeset_impl.h"],
 [("team barrier",I+"coll_impl.h OSHMPI_sync_team"),("active-set sync",I+"coll_activeset_impl.h OSHMPI_sync")],
 observe=["entry/exit history, return codes"])
p("C09","Broadcast, collect and all-to-all deliver each block to its place",
 "For every broadcast, collect, fixed-size collect, all-to-all and strided all-to-all (active-set or team form, any type or width, any root, participant set, element counts including unequal ones for collect and totals beyond what an int counts), on return each participant's destination holds exactly the blocks the operation defines, in participant order. Bytes outside those blocks, sources, and non-participants are unchanged.",
 ["inputs","schedules","programs","configurations"],"all participant sets, roots, counts, strides, types, consecutive and overlapping calls, PEs arriving in any order with traffic in flight",
 "No test runs any data collective.",
 [S+"coll_typed.c.tpl",S+"coll_activeset.c",S+"coll.c",I+"coll_impl.h",I+"coll_activeset_impl.h",I+"am_progress_impl.h",I+"strided_impl.h"],
 [("mapping to MPI collectives",I+"coll_impl.h, "+I+"coll_activeset_impl.h"),("unequal counts",I+"coll_impl.h OSHMPI_collect_team")],
 observe=["destination arrays on all PEs"])
p("C10","Reductions combine every participant's contribution exactly once",
 "For every reduction (sum, product, minimum, maximum, and, or, xor; active-set or team form; every supported type; in-place or not), every participant's destination receives the element-wise combination of all participants' source elements, each exactly once. Bytes beyond the reduced elements and non-participants are unchanged.",
 ["inputs","schedules","programs"],"all operations x types x participant sets x counts, in-place or separate, back-to-back reuse of arrays and work arrays",
 "No test runs any reduction.",
 [S+"reduce_minmax_team_typed.c.tpl",S+"reduce_sumprod_team_typed.c.tpl",S+"reduce_bitws_team_typed.c.tpl",S+"reduce_minmax_aset_typed.c.tpl",S+"reduce_sumprod_aset_typed.c.tpl",S+"reduce_bitws_aset_typed.c.tpl",I+"coll_impl.h",I+"coll_activeset_impl.h"],
 [("allreduce over the participant communicator",I+"coll_impl.h OSHMPI_allreduce_team"),("type tables","maint/reduce_*_typedef.txt")],
 observe=["destination arrays on all PEs"])
p("C11","Locks give mutual exclusion and are always eventually granted",
 "At most one PE holds a distributed lock at any time; a test that reports success holds it, a test that reports failure does not and never blocks; and while holders eventually release, every PE waiting in set-lock is eventually granted it, for any mix of set, test and clear by any number of PEs on any number of locks.",
 ["schedules","histories"],"all interleavings of set/test/clear over any PEs and locks, with hand-over messages arbitrarily delayed",
 "No test uses locks.",
 [I+"lock_impl.h",S+"lock.c"],
 [("queue lock on the root word plus per-PE next/signal word",I+"lock_impl.h")],
 state=[("last/next words","tail of the queue; successor and release signal","src/internal/lock_impl.h OSHMPI_lock_s")],
 observe=["acquire/release history"])
p("C12","Updates made while holding a lock are visible to the next holder",
 "Every write and atomic update issued on the default context inside a critical section protected by a distributed lock is complete when the lock is released, so the next PE to acquire the lock observes it.",
 ["schedules","programs","configurations"],"all critical sections updating any symmetric object on any PE, all hand-over orders and delivery delays",
 "No test uses locks; the guarantee fails only when a put is still in flight at release.",
 [I+"lock_impl.h",I+"order_impl.h",S+"lock.c"],
 [("completion before release",I+"lock_impl.h OSHMPI_clear_lock")],
 observe=["reads inside the following critical section"])
p("C13","Point-to-point waits end when, and only when, the condition holds",
 "wait-until returns only if the variable satisfied the comparison, and does return once a remote update makes it hold permanently; test reports the comparison's truth for a value the variable really had and never blocks. This holds for all comparison operators and types (signed and unsigned), whichever kind of remote operation updates the variable.",
 ["schedules","inputs","programs","configurations"],"all comparators x types x values x updating operations (put, atomic, active-message or direct), all delays",
 "One test waits on one int being set once; comparators, types, updates by put, and waits that must serve other PEs' traffic meanwhile are not covered.",
 [I+"p2p_impl.h",S+"p2p_typed.c.tpl",S+"p2p.c"],
 [("poll loop with AM progress",I+"p2p_impl.h OSHMPI_WAIT_UNTIL")],
 observe=["return of wait/test vs update history"])
p("C14","Symmetric heap blocks are symmetric, disjoint, aligned and remotely usable",
 "Any sequence of collective allocate, aligned allocate, zeroed allocate, reallocate and free yields blocks at the same offset on every PE, within the heap, disjoint from all live blocks, with the requested alignment, zeroed when promised, contents preserved up to the smaller size on reallocate, and every byte of every block usable for remote access. Allocation and free synchronize all PEs, so a block is never accessed remotely before it exists everywhere nor after it is freed. A request for zero bytes returns null and a free of null does nothing, both without waiting for other PEs; reallocating a block to zero bytes frees it.",
 ["programs","schedules","configurations"],"all allocation histories including ones that fill the heap to its last page, any configured heap size, both window types",
 "Tests allocate one small block; no history of reuse, alignment or fullness is run.",
 [I+"mem_impl.c",S+"mem.c",I+"setup_impl.c",I+"util/dlmalloc.c","src/include/oshmpi_impl.h"],
 [("same allocator state on all PEs",I+"mem_impl.c"),("registered heap range",I+"setup_impl.c initialize_symm_heap"),("barrier in allocation and free",I+"mem_impl.c")],
 observe=["returned addresses, remote accesses to every block"])
p("C15","Exhaustion fails cleanly and leaves the library usable",
 "When the symmetric heap, a space or the contexts of a space cannot satisfy a request (including element counts and sizes whose product overflows), the call reports failure (null or the documented error code) identically on all PEs, no existing data is corrupted, and after releasing resources requests succeed again.",
 ["programs","fault_sequences","histories"],"all histories of allocation up to and beyond capacity, any sizes including huge ones, followed by frees; failures of the underlying address-space mapping",
 "No test reaches a capacity limit.",
 [I+"mem_impl.c",I+"space_impl.c",I+"util/mem_pool.c",I+"util/symm_mem.c","src/shmemx/space.c"],
 [("pool search and null return",I+"util/mem_pool.c"),("context table",I+"space_impl.c OSHMPI_space_create_ctx")],
 observe=["return values and surviving contents"])
p("C16","Memory spaces: blocks are symmetric, disjoint, remotely usable until detach",
 "Blocks allocated from attached memory spaces are disjoint, inside their space, at equal offsets on all PEs, aligned and zeroed as requested, and usable by all one-sided, atomic and synchronization operations exactly like heap memory, with any number of spaces created, attached, detached and destroyed in any order. Freeing returns them to their space.",
 ["programs","schedules","configurations"],"all create/attach/allocate/free/detach/destroy histories over several spaces, interleaved with traffic and default-context synchronization",
 "Tests use at most two spaces with one block each, no reuse, no interleaving with other synchronization.",
 [I+"space_impl.c","src/shmemx/space.c",I+"util/mem_pool.c","src/include/oshmpi_impl.h"],
 [("object lookup by address","src/include/oshmpi_impl.h OSHMPI_sobj_query_attr_ictx"),("object handle translation at AM target","src/include/oshmpi_impl.h OSHMPI_sobj_trans_disp_to_vaddr"),("chunk pool",I+"util/mem_pool.c")],
 observe=["addresses; data through spaces"])
p("C17","Space contexts: their quiet and fence complete their own operations",
 "Operations issued on a context created from a space act on that space; a quiet (fence) on that context completes (orders) every write, atomic update and nonblocking operation issued on it, whichever transport carried them, and contexts are handed out exclusively until destroyed.",
 ["schedules","programs","configurations"],"all programs interleaving several contexts of several spaces with the default context, all delays and transports",
 "The only context test quiets a direct put; atomics on contexts and the active-message transport are not exercised.",
 [I+"order_impl.h",I+"space_impl.c",I+"ctx_impl.c",I+"amo_impl.h",S+"context.c"],
 [("per-context windows",I+"space_impl.c"),("context quiet",I+"order_impl.h OSHMPI_ctx_quiet")],
 observe=["memory after context quiet; context handles"])
p("C18","Teams: membership, numbering and translation are exact and consistent",
 "Splitting any team (strided or 2-D) gives every member of the new team a valid handle, everyone else the invalid handle, with members numbered in split order; team sizes, own numbers, and number translation between any two teams agree on all PEs with that definition. The world team contains all PEs and the shared team exactly the PEs that share memory with the caller.",
 ["inputs","programs","configurations","schedules"],"all (start, stride, size) and 2-D splits, nested to any depth, destroyed and recreated, on any node topology",
 "The test does one strided and one 2-D split on two PEs of one node.",
 [S+"team.c",I+"team_impl.c",I+"setup_impl.c"],
 [("colour/key split",I+"team_impl.c OSHMPI_team_split"),("selection rule",S+"team.c shmem_team_split_strided")],
 observe=["team queries"])
p("C19","Finalize completes pending communication and waits for every PE",
 "No PE returns from finalize before all PEs have entered it and all communication issued by any PE before it, including operations the issuer never completed explicitly, has taken effect; finalize always terminates, and initialization returns only after every PE has reached it with remote access already working.",
 ["schedules","programs","configurations"],"all programs ending with incomplete writes/atomics to static data or heap, all arrival orders and message delays at start-up and shutdown",
 "Every test completes its own traffic before finalize.",
 [I+"setup_impl.c",I+"am_impl.c",S+"setup.c"],
 [("implicit barrier at finalize",I+"setup_impl.c finalize_impl"),("AM termination handshake",I+"am_impl.c am_cb_progress_end")],
 observe=["static symmetric data after finalize; termination"])
p("C20","Thread level: what is granted is honest and used consistently",
 "Initialization never reports a thread level above what the build and the underlying message layer support, reports success only if the requested level is met, the query agrees, a second initialization changes nothing, and the library itself never calls the message layer from a thread or concurrently in a way the granted level forbids.",
 ["configurations","schedules","fault_sequences"],"all requested levels x build levels x levels granted by the message layer x message layer initialized beforehand or not x progress-thread setting",
 "Tests only run the levels the local MPI grants in full.",
 [I+"setup_impl.c",S+"setup.c",I+"am_impl.c"],
 [("degradation logic",I+"setup_impl.c OSHMPI_initialize_thread"),("global exit",S+"setup.c")],
 observe=["provided level, return code, MPI call discipline"])
p("C21","With multiple threads, each thread's guarantees hold independently",
 "When the multiple-thread level is granted, concurrent calls from different threads of a PE behave as some interleaving of them: no operation, allocation, context or completion of one thread is lost, duplicated or released early because of another, and each thread's own quiet completes that thread's own earlier operations.",
 ["schedules","programs","configurations"],"all interleavings of user threads and the progress thread over all routines allowed to run concurrently",
 "The multiple-thread build is not the tested build and no test creates a thread.",
 [I+"am_impl.h",I+"amo_am_impl.h",I+"rma_am_impl.h",I+"space_impl.c",I+"order_impl.h",I+"util/thread.h",I+"coll_activeset_impl.h","src/include/oshmpi_impl.h"],
 [("critical sections per object","src/include/oshmpi_impl.h OSHMPI_THREAD_ENTER_CS"),("outstanding tracking shared by threads",I+"am_impl.h"),("unique reply tags",I+"am_impl.h OSHMPI_am_get_pkt_ptag")],
 observe=["per-thread histories"])
p("C22","Progress: a PE blocked in the library still serves everyone else",
 "While a PE is inside any blocking library call (barrier, sync, collective, wait, lock, quiet, blocking read or atomic, allocation, team or space creation, finalize), other PEs' writes, reads and atomics that target it complete; no legal program deadlocks or livelocks for any message delays, buffering limits or PE stalls.",
 ["schedules","programs","configurations","fault_sequences"],"all legal programs, all buffering decisions of the message layer (eager or synchronous), delays, slow PEs and progress modes",
 "The tested transport buffers everything and all tests run in lock step on two PEs.",
 [I+"am_progress_impl.h",I+"am_impl.c",I+"coll_activeset_impl.h",I+"coll_impl.h",S+"team.c",I+"team_impl.c",I+"space_impl.c",I+"p2p_impl.h",I+"lock_impl.h"],
 [("nonblocking MPI call plus AM polling",I+"am_progress_impl.h"),("callbacks never wait for progress",I+"rma_am_impl.c")],
 observe=["bounded steps to completion after faults stop"])
p("C23","Long histories do not run out of identifiers or reuse stale state",
 "However many operations a program performs, the library keeps working: internal identifiers are recycled within the message layer's limits without mixing up replies, and internally cached objects (active-set groups, strided layouts) always correspond to the request that uses them; what the library allocates for an operation, a team or a space, in the message layer or in memory, is released again, so that repeating a cycle works any number of times.",
 ["histories","programs","configurations"],"all operation counts past any identifier limit the message layer may legally have; all sequences of distinct and repeated strides, types, counts and active sets",
 "Tests perform a few operations each; identifiers and caches never wrap or collide.",
 [I+"am_impl.h",I+"am_impl.c",I+"strided_impl.h",I+"strided_impl.c",I+"coll_activeset_impl.h"],
 [("packet tag counter",I+"am_impl.h OSHMPI_am_get_pkt_ptag"),("strided datatype cache",I+"strided_impl.h"),("active-set communicator cache",I+"coll_activeset_impl.h")],
 observe=["results after many operations"])
p("C24","Transport, window and address layout choices never change results",
 "The same program yields the same observable results whether operations travel directly or by active messages, with or without operation tracking, strided-layout caching or a progress thread, with separate or a single dynamic window, and whether or not PEs obtained equal addresses, including when mapping memory at the wanted address fails on some PE.",
 ["configurations","fault_sequences","programs","schedules"],"all supported build and run-time configurations x address layouts x failures of address-space reservation on any subset of PEs",
 "The suite runs one configuration on one address layout.",
 [I+"setup_impl.c",I+"util/symm_mem.c","src/include/oshmpi_impl.h",I+"rma_impl.h",I+"amo_impl.h"],
 [("symmetric allocation with retry and fallback",I+"util/symm_mem.c"),("absolute/relative displacement","src/include/oshmpi_impl.h OSHMPI_sobj_trans_vaddr_to_disp")],
 observe=["final memory and results across configurations"])
p("C25","Configuration strings are parsed to the documented values",
 "Every documented environment setting (sizes with suffixes, operation lists, switches) is interpreted as documented for all strings, and malformed ones do not silently change meaning.",
 ["inputs"],"all strings",
 "Tests set no environment variable.",
 [I+"setup_impl.c","src/include/oshmpi_util.h"],
 [("size parsing","src/include/oshmpi_util.h OSHMPIU_str_to_size"),("operation list parsing",I+"setup_impl.c set_env_amo_ops")])
p("C26","Type-generic and C++ interfaces select the routine of the argument type",
 "Each type-generic or C++ entry point calls exactly the typed routine that matches its argument types.",
 ["inputs","programs"],"all generic entry points x argument types",
 "Tests call typed routines only.",
 ["include/shmem.h.in.tpl","include/shmem_rma_typed.h.tpl","include/shmem_amo_std_typed.h.tpl"],
 [("C11 _Generic tables","include/shmem_rma_typed.h.tpl")])
p("C27","Global exit ends the whole job with its status from anywhere",
 "When any PE calls shmem_global_exit(status) at any moment, in particular while the other PEs are blocked in a barrier, collective, wait, lock or finalize and traffic is in flight, the whole job (every PE, not a part of it) ends with exactly that status, without waiting for any other PE; the call does not return and no other PE ends the job on its own.",
 ["schedules","programs","configurations"],"all programs, all moments at which one PE leaves, all states the other PEs may be blocked in, any status",
 "No test calls it: a test that did would end the test.",
 [S+"setup.c",I+"setup_impl.c"],
 [("global exit",I+"setup_impl.c OSHMPI_global_exit"),("non-returning entry",S+"setup.c shmem_global_exit")],
 observe=["termination status and scope; bounded steps to termination"])
p("C28","Accessibility queries follow the life of every symmetric object",
 "At every point of a program, on every PE and about every PE: the accessibility query is true for every byte of static symmetric data, live heap blocks and blocks of attached spaces, false for private memory, for blocks of spaces that are not attached (before attach, after detach) and for PEs that do not exist; a direct-access pointer is non-null only if it reaches that PE's object; PE numbers and counts never change; a context is reported created exactly when a handle is returned.",
 ["histories","programs","configurations"],"all histories of allocate, free, space create, attach, detach and destroy interleaved with queries, any number of spaces, both address layouts",
 "The only query test asks once about one heap block and static data, with no spaces.",
 [S+"setup.c","src/include/oshmpi_impl.h",I+"space_impl.c",S+"context.c"],
 [("range checks over heap, data and attached spaces",S+"setup.c shmem_addr_accessible"),("attach state",I+"space_impl.c")],
 observe=["query results during the history"])
for x in P:
    assert len(x["title"])<=80,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
