#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run after editing; both files are committed."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import props  # noqa: E402

S = "src/umpire/"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f if not f.startswith("src") and not f.startswith("tools") else f for f in files],
                               state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                               mechanism=[dict(name=a, where=(S + b) if not b.startswith("src") and not b.startswith("tools") else b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None), _t=tech, _n=note))


LAY = "TLA+ specification of an allocator layer (spec/Layers.tla); TLC validates recorded traces of the real strategies against it"
LAYN = ("Every recorded call, result, call on the parent and statistic of generated histories over generated strategy stacks is accepted or "
        "rejected by TLC; bounded to the histories run (quick: hundreds, thorough: until the time is used). Trusts the recording parent and TLC.")
TEST = "The existing tests that run here cover only src/umpire/util and src/tpl; the integration tests, where they can be built, sample a few fixed sequences."

prop("C01", "Live allocations are disjoint, inside held memory, and keep their contents",
     "Any two allocations that are live at the same time occupy disjoint byte ranges, each lies wholly inside memory its allocator currently holds, and is at least as long as requested. "
     "Bytes written into a live allocation are still there, unchanged, until it is deallocated, whatever is done with other allocations. No allocator writes outside memory it holds.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "for every allocator or stack of strategies, every configuration of it, every sequence of requests, frees, releases and coalesces, with the parent refusing at any point",
     TEST + " Overlap appears only after particular splits, merges and reuses.",
     ["strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp", "strategy/FixedPool.cpp", "strategy/MixedPool.cpp", "strategy/AlignedAllocator.cpp",
      "strategy/MonotonicAllocationStrategy.cpp", "strategy/SlotPool.cpp", "strategy/mixins/AlignedAllocation.inl", "Allocator.inl"],
     [("chunk splitting and merging", "strategy/QuickPool.cpp"), ("block lists", "strategy/DynamicSizePool.hpp"), ("free list of objects", "strategy/FixedPool.cpp")],
     LAY, LAYN, ["Allocator::allocate / deallocate results, memory contents, calls on the parent"])

prop("C02", "What is taken from the parent goes back exactly once, whole and unused",
     "A strategy returns to its parent only blocks it obtained from it, each at most once, with the size it was obtained with, and never while any part of the block is in use. "
     "When the strategy is destroyed every block it still holds goes back, so nothing leaks.",
     ["histories", "configurations", "fault_sequences"],
     "for every strategy and configuration, every history of calls including release, coalesce, failed construction and destruction, with the parent refusing at any point",
     TEST + " Leaks and double returns do not fail any of them.",
     ["strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp", "strategy/FixedPool.cpp", "strategy/MixedPool.cpp", "strategy/SlotPool.cpp", "strategy/mixins/AlignedAllocation.inl"],
     [("release / do_coalesce / destructors", "strategy/QuickPool.cpp"), ("freeReleasedBlocks", "strategy/DynamicSizePool.hpp"), ("aligned_deallocate", "strategy/mixins/AlignedAllocation.inl")],
     LAY, LAYN, ["calls a strategy makes on its parent"])

prop("C03", "Pools report exactly what they hold",
     "A pool's actual size, releasable size, block counts, largest available block, aligned sizes and their high watermarks always equal what follows from the blocks it holds from its parent and the allocations that are live in them.",
     ["histories", "configurations"],
     "for every pool configuration, after every operation of every history",
     TEST + " They compare a few counters after a few operations.",
     ["strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp", "strategy/DynamicPoolList.cpp", "strategy/FixedPool.cpp", "strategy/MixedPool.cpp"],
     [("counters updated on split, merge, grow, release", "strategy/QuickPool.cpp"), ("totalBytes/releasable counters", "strategy/DynamicSizePool.hpp")],
     LAY, LAYN, ["getActualSize, getReleasableSize, getReleasableBlocks, getTotalBlocks, getLargestAvailableBlock, getAlignedSize, ..."])

prop("C04", "Allocator statistics are exact",
     "After every operation an allocator's current size is the sum of the sizes of its live allocations, its allocation count is their number, and its high watermark is the largest current size there has been. "
     "The same holds for the parent with respect to the blocks its children hold.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "for every allocator, and every history including failures, zero byte requests and reallocations",
     TEST + " A count that drifts on a rare path stays unnoticed.",
     ["strategy/mixins/Inspector.cpp", "strategy/AllocationStrategy.cpp", "Allocator.inl"],
     [("register/deregisterAllocation", "strategy/mixins/Inspector.cpp"), ("allocate_internal/deallocate_internal", "strategy/AllocationStrategy.cpp")],
     LAY, LAYN, ["getCurrentSize, getHighWatermark, getAllocationCount"])

prop("C05", "A pointer is attributed to the allocation that contains it, and only to it",
     "Looking up an address gives the record of the live registered allocation whose range contains it, and reports an unknown pointer exactly when there is none; of several registrations of one address the newest counts, and removal takes the newest. "
     "Records neither move nor change while registered, and size, iteration and printing list each registered allocation exactly once in address order.",
     ["histories", "inputs"],
     "for every set of registered ranges, in every order of insertion and removal, for addresses over the whole address space",
     "The unit tests register a handful of consecutive addresses; the tree below changes shape with the number and the bytes of the keys.",
     ["util/AllocationMap.cpp", "util/AllocationMap.hpp", "util/MemoryMap.inl", "ResourceManager.cpp", "Umpire.cpp"],
     [("doFindRecord", "util/AllocationMap.cpp"), ("RecordList", "util/AllocationMap.cpp"), ("findOrBefore", "util/MemoryMap.inl")],
     "TLA+ specification of the allocation map (spec/Maps.tla); TLC validates recorded traces of the real container against it",
     "Histories over key sets that force every node shape of the tree; addresses enter the specification as ranks, so the whole 64 bit space is sampled. Ranges shadowed by a later nested range are left open.",
     ["AllocationMap::find, findRecord, contains, remove, iteration, print; ResourceManager::getAllocator(ptr), getSize, hasAllocator"])

prop("C06", "The address map is an exact ordered map",
     "The map from addresses to values holds exactly the inserted and not erased keys with their values: insert reports whether the key was new, find and find-or-before give the exact or nearest preceding key or nothing, erase of an absent key is an error, and size and iteration agree with the contents in ascending order. "
     "Cursors advance to the next larger key of the map as it is at that moment, however they were obtained or assigned.",
     ["histories", "inputs"],
     "for every set of non-null 64 bit keys and every sequence of operations and interleaved cursors",
     "The unit tests use three consecutive small keys: a single linear leaf node of the tree.",
     ["util/MemoryMap.hpp", "util/MemoryMap.inl", "src/tpl/umpire/judy/judy.c"],
     [("doInsert, doFindOrBefore, Iterator_::operator++", "util/MemoryMap.inl"), ("node promotion, splitting, stepping, deletion", "src/tpl/umpire/judy/judy.c")],
     "TLA+ specification of the ordered map (spec/Maps.tla); TLC validates recorded traces of the real container against it",
     "Histories over dense, strided, shared-prefix, random and high-bit key sets of up to 300 keys. The null key is outside the domain (it denotes end).",
     ["MemoryMap public API"])

prop("C07", "Internal object pools hand out distinct slots and reuse them",
     "The pool behind the internal records hands out slots that overlap no live slot and keeps their contents, for every object size. It obtains more memory only when every slot it has is in use, accepts every live slot back, and rejects pointers it does not own.",
     ["histories", "inputs"],
     "for every object size, pool size and order of allocation and release",
     "No test frees an object of a full pool or uses objects smaller than a machine word.",
     ["util/FixedMallocPool.cpp"],
     [("free list threaded through the slots", "util/FixedMallocPool.cpp")],
     "TLA+ specification of the slot store (spec/Maps.tla); TLC validates recorded traces of the real pool against it",
     "Histories over 13 object sizes and 7 pool sizes, driven through full and empty; neighbours' contents are compared after every release.",
     ["FixedMallocPool::allocate, deallocate, numPools"])

prop("C08", "A request that fails changes nothing and can be retried",
     "When an allocation or the construction of an allocator fails, because the parent refuses or a limit is reached, the error is reported to the caller and every allocation, statistic and held block is as if the request had not been made. A later request that can be satisfied succeeds.",
     ["fault_sequences", "histories", "configurations"],
     "for every strategy, with the parent refusing any subset of the calls made on it, at any point of any history",
     TEST + " None injects a failure of the parent.",
     ["strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp", "strategy/AllocationStrategy.cpp", "strategy/SizeLimiter.cpp", "strategy/SlotPool.cpp", "strategy/MonotonicAllocationStrategy.cpp", "strategy/FixedPool.cpp"],
     [("release and retry on out of memory", "strategy/QuickPool.cpp"), ("count after success", "strategy/AllocationStrategy.cpp")],
     LAY, LAYN + " The recording parent refuses according to a generated schedule.", ["exceptions, statistics and calls on the parent"])

prop("C09", "Invalid deallocations are rejected without effect",
     "Deallocating a pointer that the allocator does not currently own (never allocated, already freed, inside an allocation, or owned by another allocator) raises an error and changes no allocation, statistic or block; deallocating a null pointer does nothing.",
     ["histories", "inputs"],
     "for every tracked allocator, every history, and every kind of wrong pointer",
     TEST, ["Allocator.inl", "strategy/mixins/Inspector.cpp", "util/AllocationMap.cpp"],
     [("deregisterAllocation restores the record of another owner", "strategy/mixins/Inspector.cpp"), ("remove raises", "util/AllocationMap.cpp")],
     LAY, LAYN, ["exceptions and statistics"])

prop("C10", "Pools grow, release and coalesce as configured, and always terminate",
     "A pool asks its parent for memory only when no free run fits the request, and then for the configured block size or the request, whichever is larger (the initial size at first); release gives back every wholly free block and nothing else; coalescing follows the configured heuristic, replaces free blocks without touching live ones, and no call runs forever. A percentage of 0 means never, one outside 0 to 100 is refused, and parameters left out have their documented defaults.",
     ["histories", "configurations", "fault_sequences"],
     "for every pool configuration and heuristic, every history, with the parent refusing at any point",
     TEST + " They check growth for one configuration at a time.",
     ["strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp", "strategy/DynamicPoolList.cpp", "strategy/PoolCoalesceHeuristic.hpp"],
     [("allocate / do_coalesce / heuristics", "strategy/QuickPool.cpp"), ("alloc / coalesce", "strategy/DynamicSizePool.hpp")],
     LAY, LAYN, ["calls on the parent"])

prop("C13", "Requested alignment is honoured",
     "Every address a pool or aligned allocator hands out is a multiple of its configured alignment, and the memory from there up to the requested size lies within what was obtained from the parent, whatever address the parent returned.",
     ["inputs", "configurations", "histories"],
     "for every alignment (power of two), size and parent address",
     "Tests run on malloc, whose addresses are already 16 byte aligned.",
     ["strategy/mixins/AlignedAllocation.inl", "strategy/AlignedAllocator.cpp", "strategy/QuickPool.cpp", "strategy/DynamicSizePool.hpp"],
     [("aligned_round_up / align_create / align_destroy", "strategy/mixins/AlignedAllocation.inl")],
     LAY, LAYN + " The recording parent returns unaligned addresses.", ["addresses returned"])

prop("C14", "Limits and capacities are exact",
     "A size limiter, monotonic, slot or fixed pool accepts a request exactly when it fits the configured limit or capacity given what is currently live, and what was freed becomes available again to the extent the strategy promises.",
     ["histories", "inputs", "configurations"],
     "for every limit, and every sequence of requests around it, including refused ones",
     TEST, ["strategy/SizeLimiter.cpp", "strategy/MonotonicAllocationStrategy.cpp", "strategy/SlotPool.cpp", "strategy/FixedPool.cpp"],
     [("limit test before the parent is asked", "strategy/SizeLimiter.cpp"), ("slot search", "strategy/SlotPool.cpp")],
     LAY, LAYN, ["acceptance or refusal of requests"])

prop("C23", "Zero byte allocations are distinct and harmless",
     "A request for zero bytes succeeds on every allocator, returns a non-null address different from that of every other live allocation, counts as one allocation of size zero, takes nothing from the parent, and can be deallocated exactly like any other. What is given back is used again: making and freeing them for ever does not grow memory.",
     ["histories", "configurations"],
     "for every allocator, any number of zero byte allocations and any interleaving with others",
     TEST, ["strategy/mixins/AllocateNull.cpp", "strategy/FixedPool.cpp", "resource/NullMemoryResource.cpp", "Allocator.inl"],
     [("allocateNull / deallocateNull", "strategy/mixins/AllocateNull.cpp")],
     LAY, LAYN, ["addresses and statistics"])

RMT = "TLA+ specification of the resource manager (spec/RM.tla); TLC validates recorded traces of the real one against it"
RMN = ("Every call, result and memory content of generated histories on the real ResourceManager is accepted or rejected by TLC; bounded to the "
       "histories run. Host memory only (no GPU here); camp is replaced by a stub with the same interface. Trusts the harness log and TLC.")

prop("C11", "copy and memset touch exactly the addressed bytes or refuse",
     "Copying places the source's bytes at the destination address and changes nothing else; a size of zero means the rest of the source allocation. Setting memory gives exactly the addressed bytes the value; a size of zero means the rest of the allocation. "
     "Whenever the size exceeds what is left of the destination allocation behind the address, or an address belongs to no live allocation, the call is refused and no byte changes. This holds for addresses inside allocations and for the synchronous and asynchronous forms alike.",
     ["inputs", "histories", "configurations"],
     "for every pair of live allocations of any tracked allocators, every offset and size including zero, one too many and huge",
     TEST, ["ResourceManager.cpp", "op/HostCopyOperation.cpp", "op/HostMemsetOperation.cpp", "op/MemoryOperationRegistry.cpp"],
     [("copy, memset: offset and remaining size", "ResourceManager.cpp"), ("memcpy / memset", "op/HostCopyOperation.cpp")],
     RMT, RMN + " Reading beyond the source allocation (size larger than the source but not than the destination) is outside the statement.", ["contents of every live allocation"])

prop("C12", "Reallocation and move keep the data and leave nothing behind",
     "Reallocating keeps the contents up to the smaller of both sizes, makes the new range the only live one, and changes the owner's statistics by exactly the difference; of a null pointer it is an allocation on the given or default allocator, and to size zero it gives a zero byte allocation. "
     "Moving an allocation to another allocator transfers contents and ownership; within the same allocator it returns the same address. An illegal request (offset, foreign allocator, unknown pointer) or one that cannot be satisfied is refused and leaves the original allocation, its contents and all statistics as they were, with nothing leaked.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "for every live allocation of any tracked allocator, every new size and target, in every history",
     TEST, ["ResourceManager.cpp", "op/HostReallocateOperation.cpp", "op/GenericReallocateOperation.cpp"],
     [("reallocate_impl, move", "ResourceManager.cpp"), ("transform", "op/HostReallocateOperation.cpp"), ("transform", "op/GenericReallocateOperation.cpp")],
     RMT, RMN, ["addresses, contents, sizes and statistics"])

prop("C15", "Names, ids, aliases and the default allocator are consistent",
     "Every allocator has its own id and name; a name, alias or id leads to the allocator it was registered for as long as it is registered, resources come into being once on first use, and the listings show exactly what is registered. "
     "A name in use is refused for a new allocator or alias, only an alias of the given allocator can be removed, a failed construction registers nothing, and unknown names and ids are errors. An allocator tells its own kind, name and id. The default allocator is HOST until another is set, and then that one.",
     ["histories", "inputs"],
     "for every sequence of creations, failed creations, lookups, aliasing and default changes",
     TEST, ["ResourceManager.cpp", "ResourceManager.inl", "resource/MemoryResourceRegistry.cpp"],
     [("makeAllocator", "ResourceManager.inl"), ("makeResource, getAllocationStrategy, addAlias, removeAlias", "ResourceManager.cpp")],
     RMT, RMN, ["ResourceManager lookups, listings, isAllocator"])

prop("C22", "The C interface means the same as the C++ interface",
     "Every function of the C interface has the effect and result of the C++ operation it stands for: creating allocators, looking them up, allocating, deallocating, copying, setting, reallocating, moving, querying and releasing; a length-counted name means the same as a terminated one.",
     ["histories", "inputs"],
     "for every history of calls freely mixed from both interfaces",
     TEST, ["interface/c_fortran/wrapResourceManager.cpp", "interface/c_fortran/wrapAllocator.cpp", "interface/c_fortran/wrapUmpire.cpp"],
     [("generated wrappers", "interface/c_fortran/wrapResourceManager.cpp"), ("generated wrappers", "interface/c_fortran/wrapAllocator.cpp")],
     RMT, RMN + " The Fortran layer needs a Fortran compiler and is not exercised.", ["results of umpire_* functions and their effects seen through C++"])

prop("C24", "Typed allocation and the introspection helpers are exact",
     "A typed allocator provides room for exactly the requested number of elements or refuses, whatever the number; the records of an allocator are exactly its live allocations and registered external ranges; overlap and containment of two registered ranges follow their definition; and fragmentation is one minus the largest gap over all gaps, always terminating. A coalesce on request is done exactly for the pools that can and refused for all others, a strategy is found behind an allocator exactly if it is of the asked kind, names are looked up only in shared memory, and host memory is accessible from the host.",
     ["inputs", "histories"],
     "for every element size and count, every set of registered ranges and every layout",
     TEST, ["TypedAllocator.inl", "Umpire.cpp", "util/allocation_statistics.cpp"],
     [("allocate", "TypedAllocator.inl"), ("pointer_overlaps, pointer_contains, get_allocator_records", "Umpire.cpp"), ("relative_fragmentation", "util/allocation_statistics.cpp")],
     RMT, RMN, ["TypedAllocator, get_allocator_records, pointer_overlaps, pointer_contains, relative_fragmentation"])

prop("C16", "Thread-safe parts are linearizable and free of data races",
     "Calls by several threads on thread-safe allocators (whatever they wrap, and whatever several of them have in common), the recording of allocations, and the creation of allocators behave as if each took effect at one moment between its start and its end: "
     "no two live allocations overlap, no record is lost or invented, statistics account for every call, a name is given once and every id once, and the wrapped allocator never sees two calls at the same time. No two threads touch shared state without ordering, and no schedule blocks forever.",
     ["schedules", "histories"],
     "for every number of threads, every interleaving of their calls, and every wrapped strategy",
     "A test sees the schedules the machine happens to produce, and the tests that run here start no threads on allocators.",
     ["strategy/ThreadSafeAllocator.cpp", "strategy/mixins/AllocateNull.cpp", "strategy/mixins/Inspector.cpp", "util/AllocationMap.cpp", "ResourceManager.inl", "ResourceManager.cpp"],
     [("lock around the wrapped allocator", "strategy/ThreadSafeAllocator.cpp"), ("lock of the records", "util/AllocationMap.cpp"), ("lock of the registry", "ResourceManager.inl")],
     "TLA+ specification of atomic calls (spec/Threads.tla); TLC searches a linearization of every recorded concurrent history; schedules are forced by parking threads, races are seen by ThreadSanitizer and are events of the trace",
     "Bounded to 2-4 threads and the schedules that were forced or happened; a history is rejected only when no order of the calls explains it. What is documented as not thread-safe (statistics of a shared HOST allocator, pools without a thread-safe wrapper) is not in the statement.",
     ["results of concurrent calls, calls on the wrapped strategy, final statistics"])

prop("C19", "Each file allocation is one mapped file that lives as long as it",
     "An allocation from the FILE resource is backed by a file of its own in the configured directory, large enough for it; what is written to the memory is what the file holds, no two live allocations share memory or a file, deallocating removes mapping and file, and a request that cannot be served is an error that leaves no file, mapping, descriptor or statistic behind. "
     "When the program ends no file is left, whatever was not freed.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of requests of every size, changing and missing directories, file size limits and exhausted space",
     TEST, ["resource/FileMemoryResource.cpp", "resource/FileMemoryResource.hpp"],
     [("allocate / deallocate / destructor", "resource/FileMemoryResource.cpp")],
     "TLA+ specification of the mapped files (spec/Files.tla); TLC validates recorded traces of the real resource, with the directory, /proc/self/maps and the descriptors observed after every call",
     "Bounded to the histories run; faults are a missing directory, a file size limit and an address space limit. Trusts the harness log and TLC.",
     ["files, mappings, descriptors, contents, statistics"])

prop("C20", "Named shared memory is one block per name in every process",
     "Processes that use the same segment see one block per name at the same offset with the same contents, as long as any of them holds it; blocks never overlap, lie inside the segment and are as large as asked for; a name no longer held leads nowhere and its memory is usable again. "
     "A request is refused only for lack of room or of a name or because the block of that name is smaller, and a refusal changes nothing. Every process has its own exact statistics. A segment that cannot be made is an error that leaves nothing behind for others to wait on.",
     ["histories", "schedules", "inputs", "crash_points"],
     "for every sequence of openings, allocations, lookups, writes, frees and ends of several processes, some of them killed",
     TEST, ["resource/HostSharedMemoryResource.cpp", "resource/HostSharedMemoryResourceImpl.hpp", "resource/HostSharedMemoryResource.hpp"],
     [("allocate, deallocate, find_pointer_from_name, block list in the segment", "resource/HostSharedMemoryResourceImpl.hpp")],
     "TLA+ specification of the segment (spec/Shm.tla); TLC validates traces of several real processes driven through generated histories",
     "Bounded to the histories run, up to four processes whose calls are interleaved at call granularity. Trusts the harness log and TLC.",
     ["offsets, contents and statistics in every process"])

prop("C17", "The event log is a complete and readable record of the calls made",
     "With recording on, the log holds the version, then for every call that took effect exactly one record (a reallocation: its beginning and its end), in the order of the calls, with the allocator, addresses, offsets, sizes, values and names of the call, whatever characters they contain and however large they are. "
     "Every line can be parsed, what is read back from a store is what was put in and a damaged line is an error, the log leaves live exactly what the program left live, and recording does not change the program; with recording off nothing is written.",
     ["histories", "inputs"],
     "for every sequence of calls on every mix of allocators, every name and number in a record",
     TEST, ["event/json_file_store.cpp", "event/event_json.hpp", "event/recorder_factory.cpp", "event/event.hpp", "Allocator.inl", "ResourceManager.cpp", "ResourceManager.inl"],
     [("lines of the log", "event/json_file_store.cpp"), ("records of a call", "Allocator.inl"), ("records of the resource manager", "ResourceManager.cpp")],
     "TLA+ specification of the log a program owes (spec/Events.tla); TLC validates the log the real code wrote against the calls the real program made",
     "Bounded to the programs run. Failed calls may or may not leave a record; time stamps are only required to be there.",
     ["lines of the log file, the events read back from a store"])

prop("C18", "Replaying a recorded log reproduces the allocators of the program",
     "The replay tool accepts every log the library records of the strategies it supports, and replaying one gives, after each operation, allocators with the names, current size, actual size, high watermark and pool blocks they had in the program at that point; a second replay from the compiled form gives the same, and so does a replay after one that broke off at any point. "
     "The comparison tool says two logs are equal exactly when the operations they describe are.",
     ["histories", "inputs"],
     "for every recorded history in which failed calls had no effect",
     TEST, ["tools/replay/ReplayInterpreter.cpp", "tools/replay/ReplayOperationManager.cpp", "tools/replay/ReplayFile.cpp", "tools/replay/replaydiff.cpp", "tools/replay/replay.cpp"],
     [("compilation of the log", "tools/replay/ReplayInterpreter.cpp"), ("execution", "tools/replay/ReplayOperationManager.cpp"), ("compiled form", "tools/replay/ReplayFile.cpp")],
     "TLA+ specification of log and replay (spec/Events.tla); TLC compares the statistics of the real program after every call with those of the real replay tool",
     "Bounded to the programs run; coalescing heuristics and AlignedAllocator are not supported by the tool and not used. DynamicPoolList prefers the lowest of equal free blocks, so it is used where the order of the addresses is determined. One open finding: KNOWN_FINDINGS.txt.",
     ["statistics the replay tool writes after each operation, its table, exit codes of replay and replaydiff"])

prop("C21", "Log, errors and the report at exit say exactly what happened",
     "Everything written to the log and error streams reaches every attached destination byte for byte, in order and once, whatever the bytes are and even if another destination fails, and a flush passes through. "
     "A message is in the log, whole and once, exactly if its level is at or above the configured one (UMPIRE_LOG_LEVEL in any case of letters, Info otherwise, setLoggingMsgLevel). The log goes to one new file of the configured directory and base name, only when UMPIRE_LOG_LEVEL is set, and never overwrites a file that exists. "
     "Every error the library raises is in the log; it is of the kind that tells what went wrong and carries the size and allocator of a request that failed, or the unknown pointer. At exit each allocator that still holds allocations is reported once, with its size and its allocations.",
     ["histories", "inputs", "fault_sequences"],
     "for every sequence of bytes, messages, levels, settings and errors, every set of files already there, every set of allocations left at exit",
     TEST, ["util/OutputBuffer.cpp", "util/Logger.cpp", "util/io.cpp", "util/error.hpp", "util/Macros.hpp", "ResourceManager.cpp", "Allocator.inl"],
     [("OutputBuffer", "util/OutputBuffer.cpp"), ("levels and messages", "util/Logger.cpp"), ("streams and files", "util/io.cpp"), ("errors", "util/error.hpp"), ("report at exit", "ResourceManager.cpp")],
     "TLA+ specification of streams, levels, log file, errors and exit report (spec/Out.tla); TLC validates what real programs wrote and left behind",
     "Bounded to the programs run. Messages of the library's own are judged by level only; allocators on which others are built may report less than they held, because the others give unused blocks back first.",
     ["contents of the log file, standard output and standard error, what() and the details of exceptions"])


prop("C25", "Operations act on the memory's platform, once, on exactly what was asked",
     "A copy, set, reallocation, move or prefetch is carried out by the operation registered for the platforms of the memory concerned, called once, with the addresses, the allocations they belong to, the length, value or device and the context that were asked for; an operation without an asynchronous form serves asynchronous requests with its synchronous one. "
     "Where no such operation is registered, or it fails, the request is refused and no memory is gained or lost. An allocator built on another lies on the same platform and has the same traits. "
     "An advisor or prefetcher exists only if its operation does, and applies it to every allocation that passes through it, once, whole and with its device; if that fails the memory goes back where it came from.",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "for every set of platforms and registered operations, every stack of allocators on them, every address, size, value and failure",
     TEST, ["ResourceManager.cpp", "op/MemoryOperationRegistry.cpp", "op/MemoryOperation.cpp", "op/GenericReallocateOperation.cpp", "strategy/AllocationAdvisor.cpp", "strategy/AllocationPrefetcher.cpp"],
     [("find, registerOperation", "op/MemoryOperationRegistry.cpp"), ("copy, memset, reallocate_impl, move, prefetch", "ResourceManager.cpp"), ("allocate", "strategy/AllocationAdvisor.cpp"), ("allocate", "strategy/AllocationPrefetcher.cpp")],
     "TLA+ specification of platforms, operations and advice (spec/Ops.tla); TLC validates the calls that recording operations and devices in the real registry received",
     "Bounded to the histories run. Devices are strategies of the harness on host memory and the operations record their arguments: the library's CUDA, HIP, SYCL and OpenMP operations cannot be compiled here. Registering an operation twice is left open.",
     ["arguments every registered operation is called with, calls on the devices, statistics of every allocator"])


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            assert os.path.exists("/repo"), "needs /repo"
            for a in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", a)), (p["id"], a)
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=[], not_applicable=[],
             notes="Specifications in spec/*.tla (TLA+, checked with TLC); harnesses in harness/; see DESIGN.md.")
    for p in P:
        if p["id"] in props.DECIDE:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                                    technique=p["_t"], level="model_checking", level_note=p["_n"]))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason="no check yet"))
    assert set(props.DECIDE) <= set(ids), set(props.DECIDE) - set(ids)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")


if __name__ == "__main__":
    main()
