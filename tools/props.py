import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['observe_at']=observe or []
    d['anchors']['hook_needed']=None
    P.append(d)

p("C01","Live blocks of the disjoint pool never overlap and never leave their slab",
 "Whatever sequence of allocations and frees ran before, a block handed out from a slab of the disjoint pool was free, lies completely inside that slab's memory, and overlaps no other live block. Freeing a block makes exactly that block available again, and the pool's record of how many blocks of a slab are in use always equals the number really in use. A slab that has a free block is found by the next allocation of its size class, and a full slab is never used again until one of its blocks is freed.",
 ["histories","inputs"],"all reachable states of a size class and its slabs, all block sizes and slab sizes, every operation on them, including failures of the memory provider",
 "Unit tests run a handful of sizes and short alloc/free sequences; they never visit slabs with unusual chunk counts, multi-word bitmaps with arbitrary holes, or provider failures at each point.",
 ["src/pool/pool_disjoint.c","src/pool/pool_disjoint_internal.h"],
 [("chunk bitmap and counters","create_slab, slab_get_chunk, slab_free_chunk, slab_find_first_available_chunk_idx"),("list moves","bucket_get_free_chunk, bucket_free_chunk, bucket_get_avail_slab")],
 [("slab bitmap","set bit = free chunk","slab_t.chunks"),("in-use counter","number of cleared bits","slab_t.num_chunks_allocated")],["umfPoolMalloc","umfPoolFree"])
p("C02","Disjoint pool picks the smallest sufficient size class for every size",
 "For every valid configuration and every request size up to the poolable maximum, the disjoint pool serves the request from an existing size class whose block size is at least the requested size. It picks the smallest such class. The size classes are the powers of two and the midpoints between them, from the configured minimum up to 2 GB, in increasing order without gaps.",
 ["inputs","configurations"],"every request size (64-bit), every minimum bucket size accepted by the pool",
 "Tests probe about ten sizes around the default minimum; an off-by-one at one power of two or midpoint, or at a rarely used minimum bucket size, stays unseen.",
 ["src/pool/pool_disjoint.c"],[("index computation","size_to_idx"),("bucket construction","disjoint_pool_initialize")],
 [("buckets","array of size classes","disjoint_pool_t.buckets")],["umfPoolMalloc","umfPoolMallocUsableSize"])
p("C03","Disjoint pool allocations are large enough and aligned, or fail cleanly",
 "For every size and every power-of-two alignment, a pointer returned by the disjoint pool's plain or aligned allocation is aligned as requested and has at least the requested number of usable bytes inside the block or provider allocation backing it. Requests that cannot be satisfied, including ones whose size plus alignment overflows, return NULL and set the last allocation error, and never return a block that is too small. Zero-size requests return NULL without touching the provider.",
 ["inputs","configurations","fault_sequences"],"all sizes and alignments (64-bit), all pool parameters accepted at creation, provider success and failure",
 "Tests use small alignments and sizes with one provider; wrap-around sizes, alignments beyond the page size and failing providers are hardly sampled.",
 ["src/pool/pool_disjoint.c"],[("size rounding and routing","disjoint_pool_aligned_malloc, disjoint_pool_allocate")],None,["umfPoolMalloc","umfPoolAlignedMalloc","umfPoolGetLastAllocationError"])
p("C04","Disjoint pool returns every freed block to where it came from",
 "Freeing a pointer obtained from a disjoint pool gives the block back to the slab it was cut from when it came from a slab, and otherwise frees exactly the original provider allocation with its original size. The usable size reported for a live pointer never reaches past the end of its block. Freeing NULL succeeds and changes nothing, and a failing provider or an unknown pointer is reported as an error.",
 ["inputs","histories","configurations"],"all live pointers (including over-aligned ones in the middle of a block), all slab and block sizes, all pool parameters",
 "Tests free pointers from a few sizes with default parameters; the routing decision for over-aligned pointers and for size classes larger than the slab minimum is not covered.",
 ["src/pool/pool_disjoint.c"],[("free routing","disjoint_pool_free, disjoint_pool_malloc_usable_size, slab_get_end")],[("known slabs","slab start -> slab","disjoint_pool_t.known_slabs")],["umfPoolFree","umfPoolMallocUsableSize"])
p("C05","Disjoint pool caching respects per-class capacity and shared limits",
 "After any operation, no size class of a disjoint pool keeps more empty slabs than its capacity (one for sub-slab sizes), and the total size of cached empty slabs of all pools sharing a limit never exceeds that limit. The accounted total always equals the real total: taking a slab out of the cache, failing to put it in, and destroying the pool give its share back exactly. A slab that may not be cached is returned to the provider.",
 ["histories","configurations"],"all sequences of pool operations (as one-step invariants), all capacities, limits and sizes",
 "Tests check one or two capacities with short sequences and never combine shared limits with destruction, so accounting drift is invisible.",
 ["src/pool/pool_disjoint.c"],[("pooling decision","bucket_can_pool, bucket_get_avail_slab, bucket_max_pooled_slabs, destroy_bucket")],[("shared total","bytes of empty slabs currently cached","umf_disjoint_pool_shared_limits_t.total_size"),("cached slabs","empty slabs of the class","bucket_t.chunked_slabs_in_pool")],["provider alloc/free calls"])
p("C06","Coarse allocator blocks partition the managed memory",
 "At all times the blocks of the coarse allocator used by the fixed, file and devdax providers are non-empty and do not overlap, and every byte of added memory belongs to exactly one block, free or used. An allocation returns a block that was free, is at least as large as requested and is aligned as requested; splitting, merging and freeing move bytes between blocks without losing or duplicating any. Every free block, and no used block, is found by the search for free memory.",
 ["histories","inputs","fault_sequences"],"all states satisfying the representation invariant around the affected blocks, all sizes, alignments and strategies, internal allocation failures",
 "Tests run random sequences with few blocks and page-multiple sizes; a wrong neighbour or a lost remainder in a rare split/merge shape is not reached.",
 ["src/coarse/coarse.c"],[("block bookkeeping","coarse_alloc, coarse_free, coarse_split, coarse_merge, coarse_add_memory_fixed")],[("all blocks","address-ordered map of blocks","coarse_t.all_blocks"),("free blocks","size-ordered map of free blocks","coarse_t.free_blocks")],["umfMemoryProviderAlloc/Free on fixed, file, devdax providers"])
p("C07","Coarse allocator rejects invalid requests and keeps its statistics exact",
 "Freeing, splitting or merging memory that is not a currently used block, or with a size or position that does not match it, fails with an error and changes nothing. The reported used and total sizes equal the sums over the blocks after every successful operation and are unchanged after a failed one. Unacceptable alignments, impossible sizes and NULL arguments are rejected before any state changes.",
 ["inputs","histories","fault_sequences"],"all pointers, sizes, alignments and block states",
 "Tests cover a few invalid arguments each, on one block layout.",
 ["src/coarse/coarse.c"],[("argument and state checks","coarse_free, coarse_split, coarse_merge, coarse_alloc, coarse_new"),("statistics","coarse_get_stats")],None,["umfMemoryProviderFree","umfMemoryProviderAllocationSplit","umfMemoryProviderAllocationMerge"])
p("C08","The ordered tree of the block allocator keeps its contents and order",
 "The ordered tree used to find memory blocks keeps exactly the inserted, not yet removed elements in strict order. Inserting an element that is already present fails and changes nothing; removing deletes exactly the given element. Searching with any predicate (equal, less, greater and their or-equal forms) returns the element a sorted list would give, or nothing.",
 ["histories","inputs"],"local structure of trees of any size for the relinking steps; all key values and all insertion orders for the bounded whole-tree part",
 "The unit test inserts a few fixed keys; rebalancing cases depend on the whole shape of the tree.",
 ["src/ravl/ravl.c"],[("search tree with rank balancing","ravl_emplace, ravl_remove, ravl_find, rotations")],None,["coarse allocator results"])
p("C09","The address map behaves as an exact sorted map of addresses",
 "The map from addresses to values used for pointer lookup returns, for any sequence of insertions, updates and removals, exactly the value last stored for an address and nothing for addresses not stored. Searches for the nearest stored address at or below, below, at or above, and above a given address return exactly the right neighbour for all 64-bit addresses, including 0 and the maximum. Failed insertions (already present or out of memory) leave the contents unchanged.",
 ["histories","inputs","fault_sequences"],"all 64-bit keys; trees of every reachable shape over a bounded number of keys, every insertion order, allocation failures",
 "The unit tests insert hand-picked and random keys; prefixes that differ in one nibble at each of 16 depths combined with every search direction are not enumerated.",
 ["src/critnib/critnib.c"],[("radix tree","critnib_insert, critnib_remove, critnib_get, critnib_find_le, critnib_find")],None,["critnib_get","critnib_find"])
p("C10","Pointer lookup reports the innermost live allocation containing an address",
 "Looking up any address inside a live tracked allocation reports the base, size and owning pool of the innermost tracked allocation that contains it; looking up any other address reports that nothing was found. Registering an allocation fails when it only partly overlaps existing ones, and a failed registration or removal leaves all lookups unchanged. Removing an allocation makes lookups fall back to the allocation that encloses it.",
 ["inputs","histories"],"all addresses, sizes and nestings up to the supported depth",
 "Tests look up a few addresses of one or two allocations; boundaries, nested pools and stale entries are sampled at a few points.",
 ["src/provider/provider_tracking.c"],[("nested segment map","umfMemoryTrackerAdd, umfMemoryTrackerRemove, umfMemoryTrackerGetAllocInfo, get_most_nested_alloc_segment")],[("segment maps","per-level address map of allocations","umf_memory_tracker_t")],["umfPoolByPtr","umfFree","umfGetIPCHandle"])
p("C11","Operations through a pool's provider are tracked all-or-nothing",
 "Every successful allocation through a pool's memory provider is registered for that pool with exactly its address and size, and every free unregisters it; size, alignment and pointers reach the real provider unchanged. When the real provider fails, or registration fails, the caller gets an error, no registration remains and no memory stays allocated. Splitting and merging keep the registered regions equal to the real ones.",
 ["inputs","fault_sequences"],"all arguments, all result codes of the underlying provider and of registration at each point",
 "Tests hardly inject failures, and those that do use one fixed failure point.",
 ["src/provider/provider_tracking.c"],[("forwarding wrapper","trackingAlloc, trackingFree, trackingAllocationSplit, trackingAllocationMerge, trackingInitialize")],None,["umfMemoryProviderAlloc on the provider seen by a pool"])
p("C12","The internal allocator returns aligned, sufficient blocks and finds them on free",
 "For every size and alignment, the library's internal allocator returns NULL or a pointer aligned as requested with at least the requested number of usable bytes inside the block it obtained. Freeing such a pointer gives back exactly the block it was carved from, with its size, to the same size class or to the operating system. Exhaustion of memory and sizes too large to represent give NULL, never a crash or a short block.",
 ["inputs","fault_sequences"],"all sizes and alignments (64-bit), success and failure of every underlying allocation",
 "Tests use a few small sizes and alignments; failures of the OS allocation and size-class boundaries plus alignment are not enumerated.",
 ["src/base_alloc/base_alloc_global.c"],[("size classes and metadata word","umf_ba_global_aligned_alloc, add_metadata_and_align, get_original_alloc, umf_ba_global_free")],None,["umf_ba_global_alloc","umf_ba_global_free"])
p("C13","Internal chunk pools hand out distinct in-bounds chunks",
 "The internal fixed-size and linear allocators hand out only memory inside regions they obtained from the operating system, aligned to the promised boundary, never twice while still in use, and never overlapping their own bookkeeping. Freed chunks are reused, the set of free plus used chunks always equals the chunks carved from all regions, and destruction returns every region exactly once. Failure to obtain memory returns NULL and leaves the allocator unchanged.",
 ["histories","inputs","fault_sequences"],"all chunk sizes, request sizes and reachable allocator states, OS allocation failure",
 "Tests exercise a few chunk sizes and never a failing OS allocation.",
 ["src/base_alloc/base_alloc.c","src/base_alloc/base_alloc_linear.c"],[("free list and region carving","umf_ba_create, umf_ba_alloc, umf_ba_free, umf_ba_destroy, umf_ba_linear_create, umf_ba_linear_alloc, umf_ba_linear_free, umf_ba_linear_destroy")],None,["umf_ba_alloc","umf_ba_linear_alloc"])
p("C14","Memory provider calls validate arguments and reach the backend unchanged",
 "Every memory provider operation with a NULL handle or other invalid argument documented as rejected returns the invalid-argument error without calling the backend. Every other call invokes exactly the matching backend operation once, with the arguments unchanged, and returns its result. The last failed provider is updated to this provider exactly when one of the operations documented to do so fails.",
 ["inputs"],"all arguments and backend results for every operation",
 "Tests cover one or two argument combinations per call.",
 ["src/memory_provider.c"],[("validation and dispatch","umfMemoryProvider* functions")],None,["backend callbacks","umfGetLastFailedMemoryProvider"])
p("C15","A provider is created only from a complete operation table, or not at all",
 "Creating a memory provider succeeds only when all mandatory operations are given and the optional groups (split with merge; the IPC group) are complete or absent, and then every absent optional operation answers 'not supported'. The caller's table is not modified. When initialization fails its error is returned, nothing stays allocated and the output handle is untouched; destruction finalizes the backend exactly once and releases the handle.",
 ["inputs","configurations","fault_sequences"],"all combinations of present and absent operations, all initialization results, out of memory",
 "Tests drop a few operations one at a time.",
 ["src/memory_provider.c"],[("table validation and defaults","validateOps, assignOpsExtDefaults, assignOpsIpcDefaults, umfMemoryProviderCreate, umfMemoryProviderDestroy")],None,["umfMemoryProviderCreate"])
p("C16","Pool calls reach the right pool implementation and clean up what they own",
 "Every pool operation forwards its arguments unchanged to the operations of the given pool and returns their result; freeing by pointer alone reaches the pool that owns the pointer, and fails without side effects for memory of no pool. Pool creation rejects invalid arguments and flags, wraps the provider for tracking unless disabled, and on failure of any step undoes the earlier ones. Destroying a pool finalizes it once and destroys its provider exactly when the pool owns it.",
 ["inputs","configurations","fault_sequences"],"all flag combinations, all arguments and results of the pool and provider operations, failure of each construction step",
 "Tests use a few flag combinations and almost no failing steps.",
 ["src/memory_pool.c"],[("pool lifecycle and dispatch","umfPoolCreateInternal, umfPoolDestroy, umfFree, umfPoolByPtr, umfPool*")],None,["umfPoolCreate","umfPoolDestroy","umfFree"])
p("C17","An IPC handle describes exactly the allocation and offset it was taken from",
 "A handle obtained for any pointer inside a tracked allocation records the allocation's base, size and process and the pointer's offset in it, and its reported size covers the provider's data. Opening it yields the mapped base plus exactly that offset, and closing an opened pointer closes exactly that mapping. Invalid arguments and failures of any step are reported with nothing leaked or left half-open.",
 ["inputs","fault_sequences"],"all pointers inside an allocation, all offsets and sizes, failure of each step",
 "Tests use the allocation start or one offset, and no failures in the middle.",
 ["src/ipc.c","src/provider/provider_tracking.c"],[("handle construction and opening","umfGetIPCHandle, umfOpenIPCHandle, umfCloseIPCHandle, umfPutIPCHandle, umfPoolGetIPCHandleSize, trackingGetIpcHandle, trackingOpenIpcHandle, trackingCloseIpcHandle")],None,["umfGetIPCHandle","umfOpenIPCHandle"])
p("C18","The cache of opened IPC mappings never drops a mapping in use",
 "A mapping opened through the cache stays open as long as it has been opened more often than closed, and opening the same handle again shares it. Only mappings no longer in use are evicted, the least recently used first, and only when the cache is full; evicting closes exactly the evicted mapping, with its own identity, and no other entry changes. The count of users never drops below zero.",
 ["histories","inputs","fault_sequences"],"all cache states satisfying its invariant, all handles, memory exhaustion",
 "Tests open a handful of handles and do not reach eviction with mixed use counts and providers.",
 ["src/ipc_cache.c","src/provider/provider_tracking.c"],[("reference counts and LRU list","umfIpcOpenedCacheGet, umfIpcHandleMappedCacheRelease")],None,["umfOpenIPCHandle","umfCloseIPCHandle"])
p("C19","OS provider returns correctly aligned mappings and gives everything else back",
 "For every size and alignment accepted by the OS memory provider, a successful allocation returns an address that is a multiple of the alignment and whose requested bytes are all mapped; everything mapped beyond the pages of the request is unmapped again. If mapping, alignment or NUMA binding fails, nothing stays mapped and an error with the proper native error is recorded. Unacceptable alignments are rejected, and freeing unmaps exactly the given region.",
 ["inputs","fault_sequences"],"all sizes, alignments and addresses returned by the system, failure of each system call",
 "Tests use a few alignments and whatever addresses the kernel happens to return, so head and tail trimming is only sampled.",
 ["src/provider/provider_os_memory.c"],[("mapping and trimming","utils_mmap_aligned, os_alloc, os_free")],None,["mmap/munmap calls"])
p("C20","Allocations of an OS shared-memory provider occupy disjoint file ranges",
 "Allocations of an OS provider with shared visibility occupy pairwise disjoint ranges of the backing file within its size limit, also after failed allocations. The IPC data produced for an allocation names exactly the file range it occupies, its protection and visibility, and survives splitting and merging; opening maps exactly that range. Requests that would exceed the limit, including by arithmetic overflow, fail without consuming file space that is in use.",
 ["inputs","histories","fault_sequences"],"all sizes, alignments, file positions and limits, failure of the mapping call",
 "Tests allocate a few page-multiple sizes and compare data at one offset.",
 ["src/provider/provider_os_memory.c"],[("file offset bookkeeping","utils_mmap_aligned, os_allocation_split, os_allocation_merge, os_get_ipc_handle, os_open_ipc_handle")],[("file position","next unused byte of the backing file","os_memory_provider_t.size_fd"),("offset map","allocation -> file offset + 1","os_memory_provider_t.fd_offset_map")],["mmap offset arguments","IPC handle contents"])
p("C21","NUMA binding covers every allocated page with the configured nodes",
 "When an allocation is bound to NUMA nodes, the successive bindings cover the whole page-rounded allocation from start to end, without gaps or overlaps and never beyond it. In interleave mode consecutive parts go to consecutive nodes in cyclic order with the configured part size; in split mode each node receives its weighted share rounded to pages, pages shared by several nodes being bound to all of them. In all other modes the whole allocation is bound at once to the configured node set with the configured policy.",
 ["inputs","configurations"],"all allocation sizes, part sizes, node counts and weights (split mode: bounded number of partitions)",
 "Tests depend on the NUMA hardware present; on most machines they run with one node.",
 ["src/provider/provider_os_memory.c"],[("binding iterator","membindFirst, membindNext, nextBind"),("mode translation","translate_numa_mode, getHwlocMembindFlags, validate_numa_mode")],None,["hwloc_set_area_membind arguments"])
p("C22","File provider allocations are disjoint, in-bounds and truly located",
 "Every allocation the file memory provider cuts from its file lies completely inside a live mapping of the file, is aligned as requested, and occupies file bytes no other live allocation occupies. The offset recorded for it, used in IPC handles, is exactly where its first byte is in the file, and the file is grown before being mapped beyond its end. Failures leave the existing allocations and positions valid.",
 ["inputs","histories","fault_sequences"],"all sizes, alignments, mapping addresses and provider states, failure of growing, mapping or recording",
 "Tests use page-multiple sizes, small alignments and one mapping.",
 ["src/provider/provider_file_memory.c"],[("file range bookkeeping","file_mmap_aligned, file_alloc_aligned, file_alloc_cb, file_allocation_split_cb, file_allocation_merge_cb, file_get_ipc_handle, file_open_ipc_handle")],None,["mmap arguments","IPC handle contents"])
p("C23","Fixed and devdax providers stay inside their memory and identify it exactly",
 "Fixed-memory and devdax providers hand out only memory inside the region given or mapped at creation. IPC data of a devdax allocation names the device, protection and the exact offset and length of the memory, opening it maps the whole pages containing exactly that range, and data for another device is rejected. Creation rejects missing or invalid parameters, never reports success after a failed step, and releases everything on failure.",
 ["inputs","fault_sequences"],"all parameters, pointers and sizes, failure of each creation step",
 "Devdax hardware is absent on test machines, so these paths are mostly not executed at all.",
 ["src/provider/provider_fixed_memory.c","src/provider/provider_devdax_memory.c"],[("creation and IPC data","fixed_initialize, devdax_initialize, devdax_get_ipc_handle, devdax_put_ipc_handle, devdax_open_ipc_handle, devdax_close_ipc_handle")],None,["umfMemoryProviderCreate","IPC handle contents"])
p("C24","Flags, error codes, paths and sizes are translated exactly or rejected",
 "Translation of memory protection, visibility and purge flags to system flags is exact for every valid combination and rejects every invalid one. Address/size alignment helpers return an aligned range that is the tightest one inside (or around) the given range. Paths are copied completely and terminated or rejected, option strings are recognised exactly where they form a complete option, and size thresholds are parsed exactly or rejected.",
 ["inputs"],"all 32-bit flag values, all addresses, sizes and alignments; strings up to a stated length",
 "Tests check single flags and a few strings.",
 ["src/utils/utils_common.c","src/utils/utils_posix_common.c","src/utils/utils_linux_common.c"],[("translation helpers","utils_translate_flags, utils_translate_mem_protection_flags, utils_translate_mem_visibility_flag, utils_translate_purge_advise, utils_align_ptr_up_size_down, utils_align_ptr_down_size_up, utils_copy_path, utils_parse_var, utils_get_size_threshold, utils_errno_to_umf_result")],None,["provider creation results"])
p("C25","A memory space is an ordered set of targets that operations keep intact",
 "A memory space never contains the same target twice or targets of different kinds; adding, removing, cloning, sorting and filtering produce exactly the expected targets in the expected order. The results own their own copies of targets, and every failing operation leaves the space and its targets unchanged and usable, with nothing leaked. Removing or filtering out all targets leaves an empty space.",
 ["inputs","histories","fault_sequences"],"all target values and filter decisions over a bounded number of targets, failure of each internal allocation and target operation",
 "Tests run on the NUMA nodes present (usually one) and inject no failures.",
 ["src/memspace.c","src/memtarget.c","src/memtargets/memtarget_numa.c"],[("set operations","umfMemspaceMemtargetAdd, umfMemspaceMemtargetRemove, umfMemspaceClone, umfMemspaceFilter, umfMemspaceUserFilter, umfMemspaceFilterById, umfMemspaceFilterByCapacity, umfMemspaceSortDesc, umfMemtargetClone, umfMemtargetCompare")],None,["umfMemspaceMemtargetNum","umfMemspaceMemtargetGet"])
p("C26","Control queries reach exactly the named node or fail",
 "A control query calls the handler registered for exactly the named node, with the query's argument and the remaining part of the name where the node is a subtree, and returns its result. Unknown names, names that continue past a leaf, missing arguments and operations the node does not support fail without calling any handler and without crashing. Configuration strings apply each name/value pair in order, and everything allocated for a query is released.",
 ["inputs","fault_sequences"],"all query names up to a stated length over the node tree, all query kinds, out of memory",
 "Tests use the existing node names and one or two misspelled ones.",
 ["src/ctl/ctl.c"],[("name lookup and dispatch","ctl_query, ctl_find_node, ctl_load_config, ctl_arg_integer, ctl_arg_boolean, ctl_arg_string")],None,["umfCtlGet","umfCtlSet","umfCtlExec"])
p("C27","Parameter objects store exactly what was set or stay unchanged",
 "Every setter of a provider or pool parameter object stores exactly the given value, copying strings and arrays so later changes by the caller have no effect, and changes no other parameter. A setter that rejects its argument or runs out of memory returns an error and leaves the object unchanged. New objects hold the documented defaults, and destroying an object releases everything it owns.",
 ["inputs","fault_sequences"],"all parameter values; strings and arrays of bounded length; allocation failure at each point",
 "Tests set one or two values per parameter and inject no allocation failure.",
 ["src/provider/provider_os_memory.c","src/provider/provider_file_memory.c","src/provider/provider_devdax_memory.c","src/provider/provider_fixed_memory.c","src/provider/provider_level_zero.c","src/pool/pool_disjoint.c"],[("parameter API","umf*ParamsCreate, umf*ParamsSet*, umf*ParamsDestroy")],None,["provider and pool creation"])
p("C28","Creating a provider, pool or cache releases everything if any step fails",
 "If any internal step of creating an OS, file or disjoint-pool object fails, creation returns an error (never success), releases every resource acquired so far exactly once, and does not publish the object. Destroying a successfully created object releases every resource creation acquired. This covers memory, locks, maps, file descriptors and mappings.",
 ["fault_sequences","configurations"],"failure of each single acquisition step, all parameters",
 "The tests never make an internal allocation or lock initialisation fail.",
 ["src/provider/provider_os_memory.c","src/provider/provider_file_memory.c","src/pool/pool_disjoint.c","src/provider/provider_tracking.c"],[("error unwinding","os_initialize, os_finalize, file_initialize, file_finalize, disjoint_pool_initialize, disjoint_pool_finalize, umfTrackingMemoryProviderCreate")],None,["umfMemoryProviderCreate","umfPoolCreate"])
p("C29","Locks are always released and shared state changes only under its lock",
 "Every operation that takes a lock releases it exactly once on every path, including all error paths, and never takes a lock it already holds. The bookkeeping of a size class, of the block allocator, of the IPC cache and of file positions is read-modify-written only while its lock is held. No lock is held when control returns to the caller.",
 ["inputs","fault_sequences","schedules"],"all paths of the locking operations, failure of each step under the lock",
 "A missing unlock on an error path needs that error; tests inject almost none.",
 ["src/pool/pool_disjoint.c","src/coarse/coarse.c","src/ipc_cache.c","src/provider/provider_os_memory.c","src/provider/provider_file_memory.c","src/provider/provider_tracking.c","src/critnib/critnib.c"],[("lock pairing","utils_mutex_lock, utils_mutex_unlock call sites")],None,["lock state at return"])
p("C30","NUMA memory targets and policies select exactly the requested nodes",
 "A provider created from a memory space and policy is configured with exactly the nodes of that space, the mode the policy asks for, and its part size or partitions; without a policy it binds to the space's nodes, except that the default space leaves placement to the system. Target queries (capacity, id, kind, comparison, bandwidth, latency) report the node's own data or an error. Failures release everything and create nothing.",
 ["inputs","configurations","fault_sequences"],"all policies, bounded numbers of targets, failure of each step",
 "Tests only see the NUMA nodes of the test machine.",
 ["src/memtargets/memtarget_numa.c","src/mempolicy.c"],[("provider creation from a space","numa_memory_provider_create_from_memspace"),("policy objects","umfMempolicyCreate, umfMempolicySetInterleavePartSize, umfMempolicySetCustomSplitPartitions")],None,["OS provider parameters"])
p("C31","Address map readers see a consistent map while writers change it",
 "A lookup running without locks concurrently with insertions and removals returns a value that was stored for that address at some moment during the lookup, and never reads freed memory.",
 ["schedules"],"all interleavings of readers with one writer",
 "Tests run a few threads for a short time.",
 ["src/critnib/critnib.c"],[("lock-free readers, deferred reuse of nodes","critnib_get, critnib_find_le, alloc_node, free_node")],None,["critnib_get"])
p("C32","Concurrent use of one pool from many threads is linearizable",
 "Any number of threads allocating from and freeing to the same pool observe results that some sequential order of the calls could produce; in particular no block is handed to two threads at once.",
 ["schedules"],"all interleavings",
 "Tests run a few threads for a short time.",
 ["src/pool/pool_disjoint.c","src/coarse/coarse.c","src/provider/provider_tracking.c"],[("per-bucket locks, atomic counters","bucket_lock, critnib mutex")],None,["umfPoolMalloc","umfPoolFree"])
p("C33","Memory shared through IPC shows the same bytes in both processes",
 "Data written through a pointer opened from an IPC handle in another process is visible through the original pointer and the other way round.",
 ["histories"],"all allocations and offsets, across processes",
 "Tests exchange a few buffers.",
 ["src/ipc.c","src/provider/provider_os_memory.c"],[("shared file mappings","os_open_ipc_handle, mmap MAP_SHARED")],None,["memory contents in two processes"])
p("C34","Programs run under the proxy library behave as with the system allocator",
 "With the proxy library preloaded, every allocation function of the C library keeps its documented behaviour, including before initialisation and after shutdown of the library.",
 ["programs","schedules"],"all programs",
 "Tests run a couple of programs.",
 ["src/proxy_lib/proxy_lib.c"],[("interposed malloc family and leak-safe bootstrap allocator","proxy_lib.c")],None,["malloc, free, realloc, ..."])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d)+"\n")
print(len(P))
