prop('P09', 'Log entries are allocated inside the log, aligned, complete and never twice',
 'Every successful allocation of a log entry hands out 16-byte aligned space wholly inside the log area, large enough for the request, and disjoint from every other entry allocated since the last reset, also when any number of threads or processes allocate at once. The entry header carries exactly the requested category, subcategory and length and is marked incomplete; an allocation that does not fit fails without handing out an entry, and only a circular log wraps around. Status queries, reset, completion and life cycle calls report and change exactly the log state they are documented to.',
 ['inputs', 'schedules', 'histories'], 'all log sizes, cursors, option words, strides and request sizes; any interleaving of other allocators between any two memory accesses',
 'The logger tests use one log size, few entry sizes and a couple of threads; they never reach the edge sizes, a full log at each alignment, or the racing allocator that crosses the end.',
 ['sphlflogger.cpp', 'sphlflogger.h', 'sphlflogentry.h'], [('atomic cursor advance and wrap', 'sphlflogger.cpp: SPHLFLoggerAlloc*'), ('header template', 'sphlflogger.cpp: SPHLFLoggerAlloc*')],
 state=[('log header', 'cursor, bounds, options and stride of one log', 'sphlflogger.cpp: SASLFLoggerHeader')], observe=['SPHLFLoggerAllocTimeStamped', 'SPHLFLoggerAllocStrideTimeStamped', 'SPHLFLoggerFreeSpace'],
 note=NOTE + 'Interference: a rely/guarantee argument over single machine-level accesses under sequential consistency; disjointness of concurrent allocations follows from each cursor change being one atomic addition (checked) by an integer lemma (checked).')
prop('P10', 'Log iteration visits exactly the complete entries, in order, then ends',
 'Iterating over a log visits every complete entry from the oldest to the newest exactly once, with the address, length and remaining size the entry was written with, and then reports the end. It stops at the first incomplete entry and can resume there once that entry is complete, never reads outside the log area and always terminates. On a wrapped circular log the walk starts at the oldest surviving entry and crosses the wrap point once.',
 ['inputs', 'histories'], 'all logs built by any sequence of entries of any permitted lengths, wrapped or not, and every iterator position inside them',
 'The tests iterate freshly written logs of uniform entries; they do not cover unused space behind the last entry, the wrap point for mixed lengths or an iterator resting on the end.',
 ['sphlflogger.cpp', 'sphlflogger.h'], [('iterator step', 'sphlflogger.cpp: SPHLFLoggerIteratorNext'), ('iterator start', 'sphlflogger.cpp: SPHLFLoggerCreateIterator')], observe=['SPHLFLoggerIteratorNext'],
 note=NOTE + 'The whole walk is an induction over the proved step contract; the induction steps are themselves obligations. Iteration concurrent with writers is covered only as resumption at an incomplete entry.')
prop('P12', 'Event entries store and return typed fields without leaving the entry',
 'Every value, structure or string added to a log or queue entry is stored at its natural alignment inside the entry, and reading the fields back in the same order returns exactly the values added. An add or read that does not fit into the remaining space fails and leaves the cursor, the remaining count and memory outside the entry unchanged. The remaining count always equals the space between the cursor and the end of the entry, and completion, category and timestamp accessors report what was written.',
 ['inputs'], 'all entry addresses, cursors, remaining counts, field values, structure sizes and alignments, string lengths',
 'The tests add a few fields to entries with ample space; exhaustion at each alignment, oversize strings and alignment padding at the end are not reached.',
 ['sphlflogentry.h', 'sphlfentry.h'], [('typed add/get', 'sphlflogentry.h'), ('typed add/get', 'sphlfentry.h')], observe=['SPHLFlogEntryAdd*', 'SPHLFEntryAdd*', 'SPHLFEntryGet*'],
 note=NOTE + 'memcpy/strlen/strncpy are used through their standard contracts.')
prop('P16', 'Binary index keys order, compare and convert consistently with their values',
 'Index keys order exactly as the values they were made from: integers numerically, floating point numbers numerically (values with distinct representations, such as -0.0 and 0.0, get distinct keys), and multi-word keys lexicographically by words. Comparison is a total order consistent with equality, copying a key preserves it, and converting a key back returns the value. No key operation reads or writes outside the two keys involved.',
 ['inputs'], 'all pairs of integer, float and double values, and all keys of any permitted length and content',
 'The tests compare a few dozen values; sign and size boundaries, infinities, -0.0 and keys of different lengths are not covered.',
 ['sasindexkey.h'], [('key construction and comparison', 'sasindexkey.h')], observe=['SASIndexKeyCompare', 'SASIndexKeyInit*', 'SASIndexKeyReturn*'],
 note=NOTE + 'Comparison and copy loops carry inferred invariants for every key length.')
prop('P11', 'Producer/consumer queues hand over each entry once, complete and in order',
 'A producer obtains only an entry slot that is wholly inside the queue, aligned, empty and not in use, stamped with exactly the requested category, subcategory and stride, and never the same slot again before a consumer freed it. A consumer obtains only the oldest completed entry and sees it complete; freeing an entry gives back exactly that slot. A full queue refuses allocation and an empty one refuses the consumer, without changing the queue, and neither side disturbs the other at any interleaving. Initialization, reset and status calls leave and report a consistent empty or current queue.',
 ['inputs', 'schedules', 'histories'], 'all queue sizes, strides, positions and request sizes; for the single producer queue any interleaving of the other side between any two memory accesses; for the multi producer queue any number of producers',
 'The queue tests use one stride and one size per queue and a handful of schedules; reuse of dirty memory, the exactly full ring, odd strides and the racing transition at each access are not reached.',
 ['sphsinglepcqueue.cpp', 'sphmultipcqueue.cpp', 'sphdirectpcqueue.h'],
 [('single producer/consumer ring', 'sphsinglepcqueue.cpp: SPHSinglePCQueueAlloc*/GetNext*/FreeNext*'), ('multi producer ring', 'sphmultipcqueue.cpp: SPHMPMCQAlloc*/GetNext*'), ('direct entry accessors', 'sphdirectpcqueue.h')],
 state=[('queue header', 'ring bounds, stride, head and tail', 'sphsinglepcqueue.cpp: SPHPCQueueHeader')], observe=['SPHSinglePCQueueAllocStrideDirect', 'SPHSinglePCQueueGetNextCompleteDirect', 'SPHMultiPCQueueAllocStrideDirect'],
 note=NOTE + 'Rely/guarantee over single accesses under sequential consistency (fences and acquire/release ordering are taken as given). Spin variants are proved for partial correctness under interference.')
prop('P03', 'Heap objects are disjoint, aligned and inside their heap, and freed space is merged and reusable',
 'Every successful allocation from a simple heap returns a 16-byte aligned object of at least the requested size that lies wholly inside the heap, taken entirely out of free space and so disjoint from every other live object and from the heap\'s own header. Allocating and freeing keep the free list sorted, disjoint, merged with its neighbours and inside the heap, and keep the total of free space exactly accounted for: what is allocated leaves it and what is freed returns to it. A request that does not fit, a size that overflows, and a free of something that is not inside the heap fail without changing heap or object; every heap operation on a shared heap runs with the heap\'s lock held and releases it.',
 ['inputs', 'histories'], 'all free lists of any length and content satisfying the list invariant, all sizes and addresses',
 'The tests allocate and free a few dozen objects of ordinary sizes; zero and near-maximum sizes, rejected frees, gaps of every size and merges on both sides at once are not reached.',
 ['freenode.c', 'freenode.h', 'sassimpleheap.cpp', 'sasalloc.cpp'], [('free list', 'freenode.c: freeNode_*'), ('simple heap', 'sassimpleheap.cpp: SASSimpleHeap*')],
 state=[('free list', 'sorted list of free extents in a heap block', 'freenode.c: FreeNode')], observe=['SASSimpleHeapAlloc', 'SASSimpleHeapFree', 'SASSimpleHeapNearAlloc', 'SASSimpleHeapFreeSpace'],
 note=NOTE + 'Lists of any length: a ghost set of nodes with an order relation; loops carry a supplied invariant checked inductively. The heap lock is specified, not verified, here.')
prop('P05', 'Simple stacks and spaces hand out exactly the storage of their block',
 'A simple stack hands out the space at its former top: aligned, wholly inside the block behind the header, and the top moves by exactly the rounded request, so live allocations never overlap; a request that does not fit, however large, fails and changes nothing. A pop is accepted only to an aligned position inside the stack area and moves the top exactly there, and the reported free space is always the distance from the top to the end. A simple space provides at least the requested storage behind its header in one power-of-two block, with handle and address converting both ways. The locked operations do the same with the object\'s lock held and released, near operations act on the stack that owns the given address, and destroying gives back exactly the object\'s block.',
 ['inputs', 'histories'], 'all stack sizes, tops, alignments, request sizes and pop positions',
 'The tests push and pop a few ordinary sizes; sizes near the maximum, unaligned pops and the last bytes of the block are not reached.',
 ['sassimplestack.cpp', 'sassimplespace.cpp'], [('stack top', 'sassimplestack.cpp: SASSimpleStackAllocNoLock/DeallocNoLock'), ('space creation', 'sassimplespace.cpp: SASSimpleSpaceCreate')],
 state=[('stack header', 'start, top, end and alignment of one stack', 'sassimplestack.cpp')], observe=['SASSimpleStackAlloc', 'SASSimpleStackDealloc', 'SASSimpleStackFreeSpace', 'SASSimpleSpaceToAddr'],
 note=NOTE + 'The lock and block allocation are specified here (P14, P02), not verified.')
prop('P08', 'Block headers identify exactly the blocks of their type, and objects find their owning block',
 'Initializing a block leaves a signed header with exactly the requested type, size, base and free space list. The header checks accept a block if and only if its signature is intact and its type (and subtype, where asked) matches; setting the subtype changes nothing else. The owner search returns for any address inside the region the innermost signed block around it, for every power-of-two block size, and nothing for addresses outside. A standard block allocation is rounded to the next standard size, is completely zero, or fails cleanly when storage is exhausted; destroying it gives back exactly the size that was allocated.',
 ['inputs'], 'all header contents, types, block sizes from 512 bytes to 256 MB and addresses',
 'The tests create blocks of a few sizes and types; subtype changes, sizes without a standard class, exhaustion and the last word of a block are not reached.',
 ['sasalloc.cpp', 'sasalloc.h'], [('header checks', 'sasalloc.h: SOMSASCheckBlock*'), ('owner search', 'sasalloc.cpp: SASFindHeader'), ('standard blocks', 'sasalloc.cpp: SASSOMAlloc/SASSOMDestroy')],
 state=[('block header', 'signature, type, size, special pointer', 'sasalloc.h: SASBlockHeader')], observe=['SASFindHeader', 'SASSOMAlloc', 'SOMSASCheckBlockSigAndType'],
 note=NOTE + 'The owner search assumes user data does not imitate a block signature at a smaller block boundary.')
prop('P06', 'Unit vectors hand out and take back exactly the runs of units they report',
 'Allocating from a unit vector takes the first run of free units, at the requested alignment, that is long enough for the size, and marks its last unit where marks are kept; if there is none the call returns -1 at once and changes nothing. Releasing gives back exactly the units up to the mark, only if they are allocated, and removes that mark only; sizes read from the marks, the free space and all rounding helpers agree with the words. With any number of threads allocating and releasing in the same word, a successful allocation owns exactly the units it returns, no unit is ever owned twice or lost, and nobody\'s marks or units are touched by another thread.',
 ['inputs', 'schedules'], 'all words of free units and marks, all sizes of 1 to 64 units, all power-of-two alignments and unit sizes up to 2^40, interference by any number of threads before every access',
 'The tests allocate a few sizes from mostly empty words in one thread; fragmented words, exact fits at the last unit, huge units and races on one word are not reached.',
 ['bitv.c', 'bitv.h', 'bitv_priv.h'], [('first fit search and claim', 'bitv.c: bitv_alloc*, bitv_aligned_alloc*'), ('release by end mark', 'bitv.c: bitv_free_marked, bitv_priv.h: bitv_allocated_size')],
 state=[('unit vector', 'one word of free units and one of end marks', 'bitv.h')], observe=['bitv_alloc_marked', 'bitv_aligned_alloc_marked', 'bitv_free_marked', 'bitv_free_space'],
 note=NOTE + 'Races: rely/guarantee with ghost ownership of units under sequential consistency; termination is proved without interference only.')
prop('P07', 'Lock-free heap objects are whole runs of units inside their heap',
 'A new lock-free heap has exactly its header in use. An allocation returns a run of units just taken from one word of the heap: inside the heap, at least the requested size, aligned to the unit and to the requested alignment, and disjoint from the header and every live object; it fails only if no word of the heap has such a run or the request is illegal (no size, more than 32 units, alignment not a power of two). A free succeeds exactly for an allocated object inside the heap, with matching size where a size is given, and releases exactly that run. Free space is the sum over all words, empty and full report that no object or no unit is left, near operations act on the lock-free heap owning the given address, and only blocks that are lock-free heaps are accepted.',
 ['inputs', 'histories'], 'all heaps of 2 to 4096 words of units of 16 bytes to 1 GB, all contents, sizes, alignments and addresses',
 'The tests use one heap and unit size and ordinary requests; full words in the middle, sizes at the limit, huge units, near operations and wrong sizes are not reached.',
 ['sphlockfreeheap.cpp', 'sphlockfreeheap.h'], [('word search', 'sphlockfreeheap.cpp: SPHLockFreeHeapAlloc*, AlignAlloc*'), ('release', 'sphlockfreeheap.cpp: SPHLockFreeHeapFree*'), ('status', 'sphlockfreeheap.cpp: SPHLockFreeHeapFreeSpace/Empty/Full')],
 state=[('heap header', 'unit size, words of free units, words of end marks', 'sphlockfreeheap.cpp: SPHLockFreeHeapHeader')], observe=['SPHLockFreeHeapAlloc', 'SPHLockFreeHeapAlignAlloc', 'SPHLockFreeHeapFree', 'SPHLockFreeHeapFreeSpace'],
 note=NOTE + 'Uses the unit vector contracts of P06. Requests of exactly 32 units may fail or succeed. Freeing an address inside the header or in the middle of an object is outside the contract.')
prop('P23', 'Log portals route each event to the current logger and lose no logger',
 'A log portal lists loggers in the order they were added, up to its capacity, links each to the portal and to the one before, and refuses a further one without any change. Lookups by index, current logger, current index, number of loggers, emptiness and capacity always agree with that list. An allocation through the portal goes to the current logger, and only when that is full to the next; with any number of threads the current logger only ever moves one step past a logger that is full, and an allocation gives up only at a logger that still has room or at the last one. Iterating a portal visits the loggers in list order, from the first, and never leaves the list.',
 ['inputs', 'schedules', 'histories'], 'all portal sizes, list contents and positions; interference by any number of threads allocating through the portal',
 'The tests add a few loggers to one portal and drive it with a fixed number of threads; a full list, dirty storage, and the race to move on are not reached.',
 ['sphlogportal.cpp', 'sphlogportal.h'], [('logger list', 'sphlogportal.cpp: SPHLogPortalAddLogger'), ('moving on from full loggers', 'sphlogportal.cpp: SPHLogPortalAlloc*'), ('iteration', 'sphlogportal.cpp: SPHLFPortalIteratorNext')],
 state=[('portal header', 'logger list, current logger, number of loggers', 'sphlogportal.cpp: SASLogPortalHeader')], observe=['SPHLogPortalAddLogger', 'SPHLogPortalAllocTimeStamped', 'SPHLogPortalGetLoggerByIndex', 'SPHLFPortalIteratorNext'],
 note=NOTE + 'Logger operations enter through their contracts (P09); loggers are added before other threads use the portal; sequential consistency.')
prop('P01', 'The allocator\'s search trees hold exactly the inserted keys and answer every neighbour query',
 'A tree of long keys holds exactly the keys inserted and not yet removed, each with its value, each once. Searching finds the node (or its link) of a key that is there; the next, equal-or-next and previous searches return the least key above, the least key not below and the greatest key below, or nothing if there is none, for every key including 0 and the largest. Inserting a present key changes nothing and gives back the unused node, and without storage an insertion fails and changes nothing; removing and deleting take out exactly the node of the given link, keep every other key, and deleting gives back exactly that node\'s storage. Totals and depth agree with the tree.',
 ['inputs', 'histories'], 'all trees of any shape and size with any 64-bit keys, every key searched, inserted or removed at any link',
 'The library tests only reach the trees through block allocation with a few sizes; shapes with two subtrees at the removed node, extreme keys and missing storage never occur together.',
 ['ultree.cpp', 'ultree.h'], [('searches', 'ultree.cpp: search*Node'), ('attachment of subtrees on removal', 'ultree.cpp: removeNode, deleteNode'), ('insertion', 'ultree.cpp: insertNode')],
 state=[('tree', 'nodes of key, value, left and right subtree', 'ultree.h: uLongTreeNode')], observe=['uLongTreeNode::searchNextNode', 'uLongTreeNode::insertNode', 'uLongTreeNode::removeNode'],
 note=NOTE + 'The tree is described by a ghost set of nodes with the key interval each is responsible for; insertion and removal preserve it by lemmas that are checked too. An exact search for an absent key may return any node. Node storage enters by the contract of P03.')
prop('P02', 'Region blocks are aligned, disjoint and fully accounted for, and freed blocks merge',
 'The shared region is divided into pages, each of which is always in exactly one of: never used, free, or allocated. A block allocation of a power-of-two size returns a block of that size aligned to it, taken entirely from free or never used pages that are backed by attached storage, and moves exactly those pages to allocated; a request fails without changing the region only when no piece of the free or never used parts is large enough or storage cannot be created. Splitting a larger piece keeps every remaining part free, and a freed block returns exactly its pages and is merged with its free buddy as long as that is possible. Allocation, release and the lists and depths of the region run with the region lock held and release it; the lists of free, used, allocated and uncommitted blocks name exactly the blocks of their tree with their sizes in ascending order. Initialization accounts for every page once; attaching, detaching and removing touch exactly the segments in use, and a fault inside the region attaches the segment that contains it.',
 ['inputs', 'histories'], 'all states of the five region trees satisfying the region invariant, all block sizes and addresses',
 'The tests allocate and free a few blocks in a fresh region; splits above 4 GB, merges over several levels, failed segment creation and exhaustion of each tree are not reached.',
 ['sassim.cpp', 'sasallocpriv.h'], [('buddy split and merge', 'sassim.cpp: p2Alloc, p2Dealloc, p2split'), ('used region', 'sassim.cpp: p2AddUsed, p2RemUsed, p2FindCont'), ('block allocation', 'sassim.cpp: SASBlockAllocNoLock, SASBlockAlloc, SASBlockDealloc'), ('lists', 'sassim.cpp: SASList*'), ('region lock', 'sassim.cpp: seizeSASSem, releaseSASSem')],
 state=[('region trees', 'uncommitted, free, used, region and allocated trees of the anchor block', 'sasanchr.h: SASAnchor_t')], observe=['SASBlockAlloc', 'SASBlockDealloc', 'SASListFreeMem', 'SASListAllocatedRegions'],
 note=NOTE + 'Tree operations enter by the contracts proved for P01; the anchor block is assumed to have room for bookkeeping nodes. Crash consistency and several attached processes are outside.')
prop('P14', 'A user lock admits one writer or several readers and counts every nesting',
 'A lock object is at any time held by at most one writer, or by any number of readers (up to ten threads) and no writer. A thread that holds the write lock may take it again, for reading or writing, and a thread that holds the read lock may take the read lock again; each release gives back exactly one level of the releasing thread\'s own lock, leaves every other holder\'s lock untouched, and only the last level gives the lock up. A reader that does not hold the lock already is never admitted while a writer holds it, has its turn, or waits. A thread sleeps only while the lock is not available to it and counts itself among the waiting while it sleeps; when the lock becomes free a waiting writer is woken, when a writer gives the lock up all waiting readers are woken, and the last reader wakes the writer whose turn it is. While anyone holds or waits for the lock it keeps its address; when nobody does it is free for another address.',
 ['schedules', 'histories'], 'any number of threads and processes interleaving at any point outside the spin lock, all nesting depths, all states of the lock satisfying its invariant',
 'The tests take a few locks with a handful of threads; which thread finds which state between its spin lock sections is left to chance, and most interleavings of release, wakeup and reuse never occur.',
 ['sasulock.cpp', 'sasulock.h'], [('lock invariant', 'sasulock.h: SasUserLock'), ('admission', 'sasulock.cpp: read_lock, write_lock'), ('release and wakeup', 'sasulock.cpp: unlock'), ('spin lock', 'sasulock.h: spin_lock, spin_unlock')],
 state=[('lock object', 'status, waiting counts, writer, reader slots, address', 'sasulock.h: SasUserLock')], observe=['SASLock', 'SASUnlock', 'SasUserLock::read_lock', 'SasUserLock::write_lock', 'SasUserLock::unlock'],
 note=NOTE + 'Rely/guarantee over the spin lock sections (a monitor argument): every section is verified for every state the other threads may have left. At most ten reader threads, no upgrade from read to write, release only by holders; thread ids unique; that a woken thread is scheduled (liveness) is not proved.')
prop('P15', 'Locking an address always reaches the one lock object of that address',
 'Locking and unlocking an address always go to the same slot of the lock table, determined by the address alone, and there to the lock object named by that address. In each slot at most one lock object has a given address: locking uses the object of the address if there is one, otherwise an object that is free, and adds a new one only if none is free; the others stay listed with their addresses. Unlocking releases exactly the lock object of the address, once. The list of a slot is searched and changed only under its own lock, which is released once on every path, when locking only after the lock object has been seized. The requested kind of lock, read or write, is the kind taken. The table is built with 256 slots, each with an empty list of its own; the first process builds it in the lock segment and later ones find it there.',
 ['inputs', 'histories'], 'all addresses except NULL, all list lengths and contents satisfying the list invariant, all positions of the free and matching objects',
 'The tests lock a few addresses that never share a slot; a free object listed before the matching one, or several addresses in one slot, are never reached.',
 ['sasmlock.cpp', 'saslockl.cpp', 'saslock.cpp'], [('slot lists', 'saslockl.cpp: lockNode, unlockNode, add'), ('hash', 'sasmlock.cpp: hash, lock, unlock'), ('table', 'sasmlock.cpp: initHashTable; saslock.cpp: SASLockInit')],
 state=[('lock table', 'slots with lists of lock objects', 'sasmlock.h: SasMasterLock; saslockl.h: SasLockList')], observe=['SASLock', 'SASUnlock'],
 note=NOTE + 'Lock objects enter by the contracts of P14, node storage by P03 (available). Two processes initialising at the same moment are outside.')
