NOTES = "Every check compiles the analysed units from /repo's current working tree to LLVM IR and runs static analyses on it; nothing of /repo is executed. known_findings.json lists the recorded genuine defects."
OLC = ["artolc", "optiql", "btreeolc", "btreeolc_cl"]
ALL = OLC + ["blink", "wormhole", "hot"]
SIM = "path-sensitive typestate dataflow analysis over LLVM IR (inlined per public operation)"
NOTE = "Sound within the abstraction for the listed operations: every control-flow path through each operation, with all helpers inlined, is covered by the abstract states (loops to a fixed point over the abstract domain). Trusts the declared meaning of the lock primitives (which is itself checked by the lock-word property), the C++ front end, and the list of public operations."
F_ART = ["ARTOLC/Tree.cpp", "ARTOLC/N.cpp", "ARTOLC/N4.cpp", "ARTOLC/N16.cpp", "ARTOLC/N48.cpp", "ARTOLC/N256.cpp"]
F_OPT = ["OptiQL/Tree.cpp", "OptiQL/N.cpp", "OptiQL/N.h", "OptiQL/latches/OMCS.h"]
F_BL = ["BLinkTree/b_link_tree.h", "BLinkTree/b_link_node.h"]
F_WH = ["wormhole/wh.c", "wormhole/lib.c"]
F_HOT = ["HOT/include/hot/rowex/HOTRowex.hpp", "HOT/include/hot/rowex/HOTRowexNodeBase.hpp", "HOT/include/hot/rowex/HOTRowexIterator.hpp", "HOT/include/hot/rowex/HOTRowexInsertStackEntry.hpp", "HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp"]
MT = ["masstree", "masstree_r", "masstree_w"]
F_MT = ["MassTree/masstree_get.hh", "MassTree/masstree_insert.hh", "MassTree/masstree_split.hh", "MassTree/masstree_remove.hh", "MassTree/masstree_struct.hh", "MassTree/MassTreeWrapper.h"]
F_BT = ["BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h"]
PROPS = [
 dict(id="C01", title="Every operation returns with its locks balanced",
  statement="Whatever path an index operation takes (success, not found, duplicate, full node, every failed lock attempt or validation), it returns holding none of the node locks it acquired, never releases a lock it does not hold, and never blocks on a lock it already holds. Nothing it leaves behind can make another operation on the same index wait forever for a lock.",
  over=["schedules", "inputs", "histories"], qtext="every control-flow path of every public operation of the concurrent indexes, for all keys, tree shapes and outcomes of lock attempts",
  why="The error and retry paths that forget a lock only run when a lock attempt or validation fails at one particular point; the tests run a handful of single-threaded or lightly contended workloads and never reach most of those edges.",
  files=F_ART + F_OPT + F_BT + F_BL + F_WH + F_HOT + F_MT, mech=[("upgrade / write unlock pairs", "Tree.cpp, N.cpp of ARTOLC and OptiQL"), ("OptLock", "BTreeOLC/BTreeOLC.h")],
  units=ALL + MT, rules=["lock-leak", "unlock-not-held", "double-lock", "lock-context"], obligations=["lock-acquire", "lock-release", "lock-at-exit", "lock-context"],
  technique=SIM + ": lock typestate per node", level_note=NOTE,
  explanation="For each public operation every lock acquisition, release and return reachable in the inlined operation is checked in every abstract state reaching it."),
 dict(id="C02", title="Optimistic reads are validated before their results are used",
  statement="An operation that reads a node without locking it decides nothing lasting from what it read (following a child, returning a result, changing the tree) until it has confirmed that the node did not change since its version was taken, and, when it moves to a child, that the parent did not change before the child's version was taken. The confirmation uses the version of that same node, taken before the read.",
  over=["schedules", "inputs", "histories"], qtext="every interleaving of writers with every optimistic read section of every public operation",
  why="Dropping one validation changes nothing unless a writer changes the node inside a window of a few instructions; example programs and stress tests almost never hit that window.",
  files=F_ART + F_OPT + F_BT + F_MT, mech=[("readLockOrRestart/checkOrRestart/readUnlockOrRestart", "ARTOLC/N.cpp, OptiQL/N.h, BTreeOLC/BTreeOLC.h")],
  units=OLC + MT, rules=["unvalidated-result", "handover-unvalidated", "unvalidated-pointer", "wrong-version", "stale-version", "unversioned-read", "root-not-rechecked"],
  obligations=["validated-at-exit", "validated-pointer", "version-match", "versioned-read", "handover", "root-recheck"],
  technique=SIM + ": version-token taint analysis", level_note=NOTE,
  explanation="Every load from shared node memory, every use of a pointer loaded from a node and every return is checked against the version tokens live on the path."),
 dict(id="C03", title="Nodes visible to others change only under their exclusive lock",
  statement="An operation changes the contents of a node that other threads can reach only while it holds that node's exclusive lock, obtained in the same attempt and, where it upgrades from an optimistic read, against the version under which it made its decision. A freshly built node is completely filled in before it is linked into the index.",
  over=["schedules", "inputs", "histories"], qtext="every store into node memory on every path of every public operation",
  why="A store made without the lock or after publication is only observable when another thread reads or writes the same node at that instant.",
  files=F_ART + F_OPT + F_BT + F_BL + F_WH + F_HOT + F_MT, mech=[("upgradeToWriteLockOrRestart before modification", "Tree.cpp, N.cpp")],
  units=ALL + MT, rules=["unlocked-write", "write-after-publish"], obligations=["exclusive-write"],
  technique=SIM + ": ownership (private / locked / shared) of every written node", level_note=NOTE,
  explanation="Every store, memcpy or atomic write whose target is node memory is classified by field and must hit a locked or still-private node."),
 dict(id="C04", title="Nodes are reclaimed only after they are unlinked and only once",
  statement="A node that is removed from an index is marked dead before or while its lock is released, is unlinked, and is handed to deferred reclamation exactly once; a node still reachable is never handed over. No node that other threads may still be reading is freed directly, and no freed node is used again.",
  over=["schedules", "inputs", "histories"], qtext="every path that replaces, merges or removes a node",
  why="A premature or doubled reclamation corrupts memory only if a concurrent reader still holds the node when it is reused.",
  files=F_ART + F_OPT + F_WH + F_HOT + F_MT, mech=[("writeUnlockObsolete + markNodeForDeletion", "ARTOLC/N.cpp, ARTOLC/Tree.cpp"), ("setObsolete + removeNode", "OptiQL/N.cpp, OptiQL/Tree.cpp")],
  units=["artolc", "optiql", "btreeolc", "btreeolc_cl", "wormhole", "hot"] + MT, modules=["recl"], rules=["replaced-not-obsolete", "obsolete-not-retired", "retire-live", "retire-linked", "double-retire", "free-shared", "double-free", "use-after-free"],
  obligations=["retire", "free", "obsolete-retired"],
  technique=SIM + ": reclamation typestate per node", level_note=NOTE,
  explanation="Every retirement, free and exit is checked against the life-cycle state of the node."),
 dict(id="C05", title="Index nodes are only touched inside a protected read section",
  statement="Every operation that dereferences nodes which other threads may reclaim enters its protection epoch first and stays in it until the last access; an operation that retires nodes leaves the epoch on every path, and leaves it once per entry. An operation that gives up or renews its protection while it waits does not go on using what it looked up before.",
  over=["schedules", "inputs", "histories"], qtext="every node access on every path of the operations of the indexes with epoch- or quiescence-based reclamation",
  why="An access outside the epoch is harmless unless another thread reclaims exactly that node in between.",
  files=F_ART + ["ARTOLC/Epoche.cpp", "ARTOLC/Epoche.h"] + F_WH + F_HOT + F_MT, mech=[("EpocheGuard / EpocheGuardReadonly", "ARTOLC/Epoche.h"), ("qsbr_update/park/resume around leaf locks", "wormhole/wh.c")],
  units=["artolc", "wormhole", "hot"] + MT, modules=["recl"], rules=["epoch-access", "epoch-unbalanced", "epoch-not-left", "stale-table"], obligations=["epoch-access", "epoch-enter", "epoch-exit", "epoch-balance", "stale-table"],
  technique=SIM + ": epoch nesting depth at every node access", level_note=NOTE,
  explanation="The epoch depth is tracked along every path; each node access, entry, exit and return is checked."),
 dict(id="C06", title="Locks and version words follow their protocol",
  statement="A node lock is taken only by one indivisible step from a state in which it is free (and, for versioned locks, live and exactly the version the caller decided on), excluding every other writer and, for reader-writer locks, every reader; a failed attempt leaves no trace. Releasing after exclusive use makes the version differ from every version handed out before and clears or sets exactly the announced marks. A version is handed out, and a validation succeeds, only for an unlocked, live node whose version is the one compared.",
  over=["schedules", "histories"], qtext="every path of every lock, version and latch primitive, from every state of the lock word other threads may leave",
  why="A wrong bit in a lock word (a release that does not advance the version, a lock taken from a stale version, a reader that overlooks a waiting writer) still works in sequential tests and in most concurrent runs.",
  files=["ARTOLC/N.cpp", "ARTOLC/N.h", "BTreeOLC/BTreeOLC.h", "BTreeOLC/BTreeOLC_child_layout.h", "OptiQL/latches/OMCSImpl.h", "OptiQL/latches/OMCS.h", "OptiQL/N.h", "wormhole/lib.c", "BLinkTree/latch.h", "HOT/include/hot/rowex/SpinLock.hpp", "HOT/include/hot/rowex/HOTRowexNodeBase.hpp", "MassTree/nodeversion.hh", "FBTree/control.h"],
  mech=[("lock word transitions", "N.cpp, OMCSImpl.h, lib.c rwlock, nodeversion.hh, control.h")],
  units=[], modules=["locks"], rules=["lock-word"], obligations=[],
  technique="bit-field abstract interpretation of the lock primitives (LLVM IR, all paths; flag bits case-split, counters as symbol+offset) checked against per-primitive transition contracts", level_note="All control-flow paths of each primitive are covered with loops unrolled three (thorough: four) times; every turn of a retry loop starts from fresh, unconstrained snapshots of the word, so further turns add no new states. Counters are assumed not to wrap around.",
  explanation="Each primitive is inlined into a one-line wrapper; every path's transitions of the lock word, its result and its memory orderings are checked against the contract of that primitive."),
 dict(id="C07", title="A failed attempt is abandoned and retried from a fresh state",
  statement="Once taking a version, validating it or upgrading it to a lock has failed, the operation uses nothing from that attempt: it neither continues the traversal, nor changes the tree, nor returns a result, until it has started over. Retrying goes back to a point from which progress is possible, instead of asking the same possibly dead node again.",
  over=["schedules", "histories"], qtext="every failure outcome of every lock attempt and validation in every public operation",
  why="Failure outcomes need a conflicting writer at one specific instruction; the tests seldom produce any.",
  files=F_ART + F_OPT + F_BT, mech=[("needRestart protocol", "Tree.cpp of ARTOLC and OptiQL, BTreeOLC.h")],
  units=OLC + ["masstree", "masstree_r"], rules=["continue-after-failure", "return-after-failure", "spin-on-obsolete"], obligations=["abandon-failed", "no-spin-on-obsolete", "lock-at-exit"],
  technique=SIM + ": failure-state propagation", level_note=NOTE,
  explanation="Each lock attempt and validation is split into success and failure; in the failure states no node may be used and no result returned."),
 dict(id="C08", title="Entries are only added to nodes with room",
  statement="An operation adds an entry to a node only on paths on which it has established, under the version or lock it then writes with, that the node has a free slot; a full node is split or replaced by a larger one first.",
  over=["schedules", "inputs", "histories"], qtext="every insertion into a fixed-capacity node on every path",
  why="Overflow needs a node that is exactly full at the moment of the insertion and, for some paths, a concurrent insertion in between.",
  files=F_ART + F_OPT + F_BT + F_WH + F_MT, mech=[("isFull before insert", "ARTOLC/N.cpp insertGrow/insertAndUnlock, OptiQL/N.cpp, BTreeOLC.h")],
  units=OLC + ["wormhole", "masstree_w"], rules=["insert-when-full"], obligations=["insert-when-full", "need"],
  technique=SIM + ": capacity typestate", level_note=NOTE,
  explanation="Each insertion into a fixed-capacity node needs a dominating not-full fact about the same node under the same version or lock."),
 dict(id="C10", title="Every returned result is a defined value",
  statement="On every path through a public operation the value it returns has been assigned; no operation ever reports an indeterminate answer, for instance for an absent key.",
  over=["inputs", "histories", "schedules"], qtext="every return of every public operation",
  why="An uninitialised result usually happens to hold the expected value in test builds.",
  files=F_ART + F_OPT + F_BT + F_BL + F_WH + F_HOT + F_MT, mech=[("result variables", "lookup/update/remove/insert of each index")],
  units=ALL + MT, rules=["undefined-result"], obligations=["defined-result"],
  technique=SIM + ": definite assignment of results", level_note=NOTE,
  explanation="Each return of a non-void operation is checked in every abstract state for a value that was never assigned."),
 dict(id="C11", title="Child references are checked for absence and leaf tags before use",
  statement="A radix-tree operation treats a child reference as an inner node only after it has established on that path that the reference is neither empty nor a tagged leaf value, and unpacks a tagged value only from a reference known to be one.",
  over=["inputs", "schedules", "histories"], qtext="every use of every child reference read by the radix-tree operations",
  why="Whether an empty slot or a leaf is met at a given branch depends on key sets the examples do not contain, such as keys that run out exactly at a node.",
  files=F_ART + F_OPT + F_HOT, mech=[("null and isLeaf tests after getChild", "ARTOLC/Tree.cpp, OptiQL/Tree.cpp")],
  units=["artolc", "optiql", "hot"], rules=["child-null", "child-leaf"], obligations=["child-check"],
  technique=SIM + ": nullness and tag refinement", level_note=NOTE,
  explanation="Each dereference of or lock request on a pointer read from a child slot is checked for the facts established on the path."),
 dict(id="C12", title="Lock-based indexes read shared nodes only under a lock",
  statement="In the indexes whose readers latch nodes, every read of a field of a node that other threads may be changing is made while the reading operation holds that node's lock, shared or exclusive. A value read before the lock was taken or after it was given up is never used as the node's content.",
  over=["schedules", "inputs", "histories"], qtext="every load from node memory on every path of every public operation of the latch-based indexes",
  why="A read outside the latch returns torn or outdated content only when a writer holds the node at that very moment.",
  files=F_BL + F_WH, mech=[("latch_shared / latch_exclusive before access", "BLinkTree/b_link_tree.h")],
  units=["blink", "wormhole"], rules=["unlocked-read"], obligations=["locked-read"],
  technique=SIM + ": lock state at every read", level_note=NOTE,
  explanation="Every load from node memory that is not declared immutable is checked for a held lock of its node in every abstract state."),
 dict(id="C13", title="Operations cannot wait for each other in a cycle",
  statement="An operation that already holds a node's lock waits for another lock only in the index's global lock order (child before parent and left before right where the index is built that way), and never while it is announced as a reader whose progress others await, so no set of concurrent operations can block one another forever. A split keeps the next level locked until the new separator can no longer be missed.",
  over=["schedules", "histories"], qtext="every blocking lock acquisition on every path of every public operation",
  why="A deadlock needs two or more threads to take the same locks in opposite orders at the same time.",
  files=F_BL + F_WH + F_MT, mech=[("latch order during splits", "BLinkTree/b_link_tree.h")],
  units=["blink", "wormhole"] + MT, rules=["wait-order", "split-handoff", "double-lock"], obligations=["wait-order", "split-handoff", "lock-acquire"],
  technique=SIM + ": lock-order analysis on held-lock sets", level_note=NOTE,
  explanation="At each blocking acquisition the set of held locks is compared with the declared order."),
 dict(id="C16", title="A latched node is used only if it still covers the key",
  statement="After taking a node's latch, an operation establishes that the node still covers the key before it searches or changes the node: by comparing the key with the node's upper bound and moving right, or by comparing the node's version with that of the directory through which it was found. The test is repeated for every node it moves to or latches again.",
  over=["schedules", "inputs", "histories"], qtext="every latch acquisition during descent, ascent and sideways moves",
  why="The node covers a different range only when another thread split it between the read of the reference and the latch.",
  files=F_BL + F_WH, mech=[("move right", "BLinkTree/b_link_tree.h")],
  units=["blink", "wormhole"], rules=["range-not-checked"], obligations=["range-not-checked"],
  technique=SIM + ": range-check typestate per latched node", level_note=NOTE,
  explanation="Each search or modification of a latched node needs a dominating bound check under the same latch."),
 dict(id="C18", title="A lock taken late is confirmed against what was decided before it",
  statement="In the height-optimized trie and in Masstree, whose operations decide what to do from an unlocked descent, every node that is replaced or changed is locked first and, once the locks are held, it is confirmed that each slot, position or parent reference the operation came through is still exactly what it was when the decision was made; otherwise nothing is changed and the operation starts over. The root of the trie is replaced only by comparing it with the value the decision was based on.",
  over=["schedules", "histories"], qtext="every modification of a slot or replacement of a node in insert and upsert",
  why="The window between the unlocked descent and the lock is a few instructions; without a concurrent modification of exactly these slots every order of steps gives the right result.",
  files=F_HOT + F_MT, mech=[("InsertStack::tryLock / isConsistent", "HOT/include/hot/rowex/HOTRowexInsertStack.hpp"), ("upsert leaf replacement", "HOT/include/hot/rowex/HOTRowex.hpp")],
  units=["hot", "masstree_r", "masstree_w"], rules=["slot-not-confirmed", "stale-snapshot", "unlocked-write"], obligations=["slot-not-confirmed", "stale-snapshot", "exclusive-write"],
  technique=SIM + ": confirmation typestate per locked node and slot", level_note=NOTE,
  explanation="Each slot overwritten or node copied must have been confirmed under the lock in every abstract state."),
 dict(id="C14", title="Every item has exactly one owner",
  statement="In the index that copies items in, an item handed to the allocator on behalf of an operation ends up either in the index or is released before the operation returns, whatever fails on the way; an item or node taken out of the index is released exactly once, and never while the index still holds it.",
  over=["inputs", "histories", "schedules"], qtext="every allocation and every removal on every path of the operations of Wormhole, including all allocation failures",
  why="Leaks and double releases sit on paths that need an allocation failure in the middle of a split, or a merge at a particular fill level.",
  files=F_WH, mech=[("mm.in / mm.free pairs, split undo, leaf free after merge", "wormhole/wh.c")],
  units=["wormhole"], rules=["resource-leak", "free-shared", "double-free"], obligations=["owned-at-exit", "free"],
  technique=SIM + ": ownership typestate of items, anchors and leaves", level_note=NOTE,
  explanation="Every allocation and removal creates an owned object; at each return no owned object may be left and each release must be of an owned one."),
 dict(id="C15", title="Directory changes are published in a safe order",
  statement="A structural change of the hash-directory index is applied to the spare copy, versions of all affected leaves are raised, and only then is the copy made visible, all under the structure lock; the old copy is changed, and anything it referenced freed, only after every reader that may still use it has moved on. Both copies receive every change, and a thread waiting for readers has itself moved on.",
  over=["schedules", "histories"], qtext="every split and merge path of Wormhole against every concurrent lookup",
  why="A wrong order is invisible unless a lookup is inside the directory during the few instructions between the two updates.",
  files=F_WH, mech=[("wormhole_split_meta, wormhole_meta_merge", "wormhole/wh.c")],
  units=["wormhole"], modules=["recl"], rules=["table-update", "grace-period", "version-not-raised", "meta-lock"], obligations=["table-update", "grace-period", "version-not-raised", "meta-lock"],
  technique=SIM + ": protocol typestate of the directory copies, versions and grace period", level_note=NOTE,
  explanation="Each step of the publication protocol is checked for the steps that must precede it in every abstract state."),
 dict(id="C17", title="Ordered access to a leaf happens only after it is sorted",
  statement="In the index whose leaves are kept in arrival order and sorted lazily, every ordered search, range deletion, split and iteration step on a leaf is preceded, under the same lock, by bringing the leaf into key order; sorting under a shared lock is done only by the holder of the sort lock.",
  over=["inputs", "schedules", "histories"], qtext="every ordered access to a leaf on every path of the operations and iterators of Wormhole",
  why="An unsorted leaf gives wrong answers only when a key was inserted out of order since the last sort, for instance by another thread just before the lock was taken.",
  files=F_WH, mech=[("wormleaf_sync_sorted, wormhole_iter_leaf_sync_sorted", "wormhole/wh.c")],
  units=["wormhole"], rules=["unsorted-search", "unlocked-write", "lock-leak"], obligations=["unsorted-search"],
  technique=SIM + ": sortedness typestate per locked leaf", level_note=NOTE,
  explanation="Each ordered access needs a preceding sort (or an equality test of the two key counters) under the same lock."),
 dict(id="C19", title="Lock-free readers can notice every change that could mislead them",
  statement="In Masstree, a writer announces in a node's version every change after which a reader working from the old version could be wrong: entries moving to another node, an occupied slot changing its meaning, a slot reused after a removal, an inner node being altered, a node being deleted. The announcement is made under the node's lock before the change becomes visible; a node is announced as splitting when it gives up entries.",
  over=["schedules", "histories"], qtext="every change of a node's contents on every path of upsert, removal and layer collection",
  why="A missing announcement misleads only a reader that took its version before the change and reads after it, and only for particular keys.",
  files=F_MT, mech=[("mark_insert / mark_split / mark_deleted before the change", "MassTree/masstree_insert.hh, masstree_split.hh, masstree_remove.hh")],
  units=["masstree_r", "masstree_w"], rules=["version-not-raised"], obligations=["version-not-raised"],
  technique=SIM + ": announcement typestate per locked node", level_note=NOTE,
  explanation="Each store to a slot, key, mode or link of a node is checked for the announcement that must precede it under the same lock."),

 dict(id="C20", title="Deferred reclamation waits for every earlier reader",
  statement="An object handed to deferred reclamation is released only after every thread that was inside a protected section at the hand-over has left it or announced a later epoch; the decision considers every registered thread. Entering a section announces the current epoch, and a handed-over object is kept and labelled with the epoch current at that moment. The global epoch only advances, and by no more than the announcements allow.",
  over=["schedules", "histories"], qtext="every path of the epoch, quiescence and limbo-list code, for an arbitrary registered reader at an arbitrary place in the list of threads and every value of its announced epoch",
  why="A wrong comparison, a skipped thread or a wrong label frees memory early only if a reader stays in its section across several epoch changes; the tests reclaim little and read concurrently hardly at all.",
  files=["ARTOLC/Epoche.cpp", "ARTOLC/Epoche.h", "HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp", "HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp", "MassTree/kvthread.hh", "MassTree/kvthread.cc", "wormhole/lib.c"],
  mech=[("exitEpocheAndCleanup, markNodeForDeletion", "ARTOLC/Epoche.cpp"), ("enterCriticalSection, attemptToEnterEpoch", "HOT"), ("min_active_epoch, record_rcu, clean_until", "MassTree/kvthread"), ("qsbr_wait, qsbr_register, qsbr_park", "wormhole/lib.c")],
  units=[], modules=["recl"], rules=["reclamation"], obligations=[],
  technique="order-fact dataflow over LLVM IR (possible orderings between epochs, remembered memory cells, an arbitrary witness reader in the list of threads) checked against per-primitive contracts", level_note="Every path of each primitive is covered, loops to a fixed point; the witness reader stands for every registered thread. The hand-over of values between threads (when a store becomes visible) is not part of the model: the announced epochs are compared as read.",
  explanation="At every release, announcement, labelling and epoch change the order facts known on the path must imply the contract for an arbitrary reader."),
 dict(id="N01", title="Concurrent operations take effect atomically",
  statement="Every completed lookup, insertion, update, removal and scan on a concurrent index appears to take effect at one instant between its call and its return, and no insertion, update or removal that reported success is lost.",
  over=["schedules", "histories"], qtext="every concurrent history of public operations",
  why="Only a vanishing share of interleavings is sampled by the examples and stress tests, none of which checks histories.",
  files=F_ART + F_OPT + F_BT + F_BL + F_WH + F_HOT + F_MT, mech=[("the locking and validation protocols of C01-C19", "all concurrent indexes")],
  na="Linearizability relates the values returned in a history to the abstract map and needs the run-time contents of nodes (which slot holds which key); no sound static abstraction in reach decides it. The protocol obligations it rests on (validated reads, exclusive writes, late confirmation, announcements, publication order) are decided one by one as C02, C03, C06, C07, C12, C15, C16, C18 and C19."),
 dict(id="N02", title="Range scans return exactly the interval in order",
  statement="A range scan or iterator returns, in key order and without duplicates, every key of the requested interval that is present throughout the scan, and nothing outside the interval.",
  over=["inputs", "histories", "schedules"], qtext="all key sets, bounds and limits",
  why="Boundary keys, empty intervals and scans across node borders are hardly sampled.",
  files=F_ART + F_OPT + F_BL + F_WH + F_HOT + F_MT, mech=[("lookupRange / scan / iterators", "all ordered indexes")],
  na="Order and completeness depend on the run-time key contents of nodes and on comparison results, which the typestate domain does not represent; only the synchronisation of scans (locks, validation, restart, sortedness of a leaf) is decided, under C02, C07, C12, C16 and C17."),
 dict(id="N03", title="The key found is the key asked for",
  statement="A search compares the complete key, in the index's byte order and for every length and shared prefix, so that an operation acts on exactly the entry whose key equals the one given.",
  over=["inputs"], qtext="all keys, including prefixes of one another, embedded zero bytes and maximal lengths",
  why="The examples use fixed 8-byte integers or a few string shapes.",
  files=F_ART + F_OPT + F_BL + F_WH + F_HOT + F_MT, mech=[("prefix checks, SIMD searches, tag and permutation arithmetic", "all indexes")],
  na="It is a functional property of byte-wise comparison, vectorised search, partial-key extraction and permutation arithmetic over unbounded data; deciding it needs value reasoning (solver or proof), not a dataflow or typestate analysis."),
 dict(id="N04", title="The single-threaded containers behave as ordered maps",
  statement="The STX tree, the Google B-tree and FAST give for every sequence of operations the results of an ordered map, and iterators stay valid as documented.",
  over=["inputs", "histories"], qtext="all operation sequences",
  why="Each is exercised by one example with one insertion pattern.",
  files=["STX/tlx/tlx/container/btree.hpp", "GoogleBTree/btree.h", "FAST/fast64/src/lib.rs"], mech=[("split, merge and rebalance of nodes", "STX/tlx/tlx/container/btree.hpp, GoogleBTree/btree.h")],
  na="Sequential functional correctness over run-time node contents (counts, positions, rebalancing amounts); there is no ordering or typestate discipline whose violation would be the defect."),
 dict(id="N05", title="Retries end",
  statement="An operation that keeps losing to others completes after finitely many retries under a fair scheduler, and waiting writers are not starved by readers.",
  over=["schedules"], qtext="all fair schedules",
  why="Starvation needs an adversarial schedule.",
  files=F_ART + F_OPT + F_BT + F_BL + F_WH + F_HOT + F_MT, mech=[("restart loops and back-off", "all concurrent indexes")],
  na="Liveness under fairness depends on how often other threads change the same nodes, which no static argument bounds (the optimistic indexes are only obstruction-free by design). What static analysis can decide - no deadlock, no wait for a lock left behind, no retry that asks a dead node for ever - is claimed under C01, C07 and C13."),
 dict(id="N06", title="Memory in use stays proportional to the contents",
  statement="Reclamation keeps up: after removals and with all threads passing through quiescent points, the memory held is bounded by the live contents, and destroying an index releases everything.",
  over=["histories", "schedules"], qtext="all histories",
  why="No test measures memory.",
  files=["ARTOLC/Epoche.cpp", "wormhole/wh.c", "HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp", "MassTree/kvthread.cc"], mech=[("epoch advancement and free thresholds", "reclamation modules")],
  na="A bound on retained memory quantifies over run-time counts and the progress of other threads. The per-path part (every removed node retired once, every item owned once) is decided by C04 and C14."),
 dict(id="N07", title="Logged updates survive a crash",
  statement="After a crash the persistent Masstree server recovers, from checkpoints and logs, every update that had been acknowledged as durable and no torn one.",
  over=["crash_points", "fault_sequences"], qtext="every crash point of the logging and checkpointing server",
  why="No test crashes the server.",
  files=["MassTree/log.cc", "MassTree/log.hh", "MassTree/checkpoint.cc", "MassTree/mtd.cc"], mech=[("logset, logreplay", "MassTree/log.cc")],
  na="Recovery correctness relates file contents at arbitrary crash points to epochs chosen at run time by several logger threads; the server is not part of the library wrapper used by this repository, and the ordering of write, fsync and acknowledgement lies in data (epoch numbers in log records), not in control flow."),
 dict(id="N08", title="Parsers and encoders round-trip and reject bad input safely",
  statement="The JSON and msgpack support code of Masstree returns what was encoded for every value, and reports malformed or truncated input without reading outside the buffer.",
  over=["inputs"], qtext="all byte strings",
  why="The unit tests list a handful of documents.",
  files=["MassTree/json.cc", "MassTree/msgpack.cc", "MassTree/string.cc"], mech=[("Json::assign_parse, msgpack::streaming_parser", "MassTree/json.cc, MassTree/msgpack.cc")],
  na="Round trips and bounds of hand-written streaming parsers depend on relations between run-time lengths and pointers; a relational numeric analysis of this C++ is not available here, and a non-relational one would raise false alarms."),
]
