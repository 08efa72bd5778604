#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe_at, hook_needed=hook)))

INS="src/tree/insert.rs"; MOD="src/tree/mod.rs"; NODE="src/tree/node.rs"; FIX="src/tree/fix.rs"
ITER="src/tree/iter.rs"; REF="src/tree/slice_ref.rs"; REC="src/recycle.rs"; COW="src/tree/cow.rs"
CUR="src/cursor.rs"; PAR="src/param.rs"; ENT="src/tree/entry.rs"; RNG="src/range.rs"; SER="src/serde.rs"
TRT="src/public_traits.rs"; MOCK="src/mock.rs"; FZU="fuzz-utils/src/lib.rs"

prop("C01","Insert, get, size and slice count equal a run-sequence model",
 "After any sequence of successful inserts, the tree is observationally the sequence of runs obtained by performing the same inserts on a plain list of runs: size() is the sum of the sizes, number_of_slices() the number of runs, and get(i) for every in-bounds i returns the run covering i with exactly its range, size and value. Every insert shifts all later entries by exactly the inserted size and leaves earlier entries untouched.",
 ["inputs","histories","configurations"],
 "for all insert histories, index types, slice types, feature parameters P and node sizes M",
 "The unit tests run about forty fixed histories with u8/usize and Constant<char>, M=2/3/5; they never sample tall trees, other node sizes, or position-dependent slices.",
 [INS,MOD,NODE,FIX],[("insert_internal / do_insert_full",INS),("position fix-up after insertion",FIX),("get_with_cursor / search_step",MOD)],
 ["return values of size, number_of_slices, get, SliceEntry::{range,size,slice}"])

prop("C02","Iteration yields exactly the overlapping entries, from both ends",
 "For every valid range, iter(range) yields exactly the entries overlapping that range, once each, with their true ranges and values, in increasing order from the front and decreasing order from the back, and any interleaving of next and next_back partitions that same sequence and then keeps returning None. Ranges that start after their end or reach an index at or beyond size() panic, `..0` is empty, and nothing else panics.",
 ["inputs","histories","configurations"],
 "for all trees, all range bound combinations, all interleavings of next/next_back, with and without cursor, in every feature configuration",
 "The tests iterate a few fixed trees mostly forwards; the interleavings of both ends with partial ranges over tall or structurally shared trees are never enumerated.",
 [ITER,MOD,RNG],[("Iter::new bound validation, make_stack, fwd_step/bkwd_step",ITER)],
 ["items returned by Iter::next/next_back, panics of iter"])

prop("C03","Slice split/join protocol and run normalisation",
 "An insertion calls split_at at most once, on the entry strictly containing the index and with an offset strictly inside it; when MAY_JOIN is true it offers each newly adjacent pair to try_join exactly once, left operand immediately before right operand, and when MAY_JOIN is false it never calls try_join. Whatever try_join accepts becomes a single entry whose size is the sum of both and whatever it refuses stays two separate unchanged entries, so no two adjacent joinable entries ever remain.",
 ["inputs","histories","configurations"],
 "for all histories over slice types that join on either, both or neither side, inside or between existing entries and at node boundaries",
 "Tests only use Constant<char>; joins of one half of a split entry, joins with a neighbour stored in an ancestor node and joins whose result overflows a node need position-dependent slice types the tests do not have.",
 [INS,TRT],[("do_insert_full_split_key, do_insert_full_edge_try_join",INS),("Slice contract",TRT)],
 ["arguments and results of every Slice::split_at / try_join call, resulting entries"])

prop("C04","Balanced tree: logarithmic height and logarithmic operation cost",
 "In every reachable tree of n entries with parameter M, all entries can be reached within a height of log_{M+1}((n+1)/2)+1 levels, and get, insert, cursor_to and a single iterator step perform a number of index comparisons and additions bounded by a constant multiple (depending on M only) of the height. number_of_slices() and size() cost no traversal.",
 ["histories","configurations"],
 "for all insert histories (ascending, descending, random, clustered, splitting) and all M",
 "No test measures cost or height, and unbalanced results are still functionally correct.",
 [INS,MOD,NODE,FIX],[("node splitting and bubbling",INS),("binary search per node",MOD),("upward fix-up",FIX)],
 ["number of Index operations per call, lengths of the paths reported through Cursor"])

prop("C05","Cursors are only hints and returned cursors name the right place",
 "Passing any cursor whatsoever - stale, from another tree, truncated, over-long or nonsensical - to get, iter or insert gives the same result and the same later tree as passing none. The path collected from cursor_to, SliceEntry::cursor, SliceRef::cursor and an insertion's returned cursor is the path from the root to the node holding that entry, so all of them agree for the same entry.",
 ["inputs","histories","configurations"],
 "for all histories and all cursor values, including adversarial path components, for each P and M",
 "The tests pass a few freshly produced cursors; a stale hint that is accidentally plausible at an upper level needs tall trees and unrelated paths.",
 [CUR,MOD,INS,ENT,REF],[("search_step hint check",MOD),("CursorBuilder during insertion",INS),("cursor_to_handle",ENT)],
 ["results with vs without cursor, path components seen by a recording Cursor"])

prop("C06","BoundedCursor keeps the top of the path and hints save search work",
 "A BoundedCursor<LEN> fed any path yields back exactly the root-most min(LEN, depth) components of that path in root-to-leaf order, and an empty one yields nothing. Following the exact cursor of the target costs a constant number of index comparisons per level whatever the width of the nodes, so over all entries of a tree get performs at most two comparisons per level more than without a cursor, and strictly fewer where nodes are wide (a dozen subtrees or more), at every level and for iteration and insertion as well.",
 ["inputs","configurations"],
 "for all LEN from 0 to 255, all path lengths and all trees",
 "No test looks inside a BoundedCursor or measures whether the hint was used; a cursor that never helps is functionally invisible.",
 [CUR,MOD],[("BoundedCursor::{prepend_to_path,next}",CUR),("search_step",MOD)],
 ["components produced by into_path, counted index comparisons"])

prop("C07","Slice references follow their slice through every mutation",
 "A SliceRef obtained from insert_ref or make_ref stays valid while its tree lives and, after any later insertions, reports the current range and borrows the current value of the same slice: it moves with shifts and node splits, stays with the left part when its slice is split, and refers to the joined entry when its slice is joined. insert_ref returns a reference to the entry that now contains the inserted slice, and references to different entries never alias one another.",
 ["histories","configurations"],
 "for all histories of inserts, splits and one-sided joins interleaved with creating, cloning and dropping references, for all M",
 "Tests hold one or two references over short fixed histories; reference bookkeeping errors need a node split or join to move a referenced slice at a particular level.",
 [REF,INS,NODE,REC],[("SliceRefStore::{update,suspend,remove,redirect}",REF),("slot recycling",REC),("store updates while moving keys",NODE)],
 ["SliceRef::{is_valid,range,borrow_slice,cursor}, values returned by insert_ref"])

prop("C08","Slice-reference borrow protocol and lifecycle",
 "While any Borrow is alive the tree refuses mutation by panicking and is left unchanged, and works again after the last Borrow is gone; queries on a SliceRef made from inside a mutation report that it cannot be borrowed. User code that runs during a query on a SliceRef (in Index or Cursor callbacks) may create, clone, query and drop references and borrows and may drop the tree, and only mutation is refused there. Dropping the tree while a Borrow is alive keeps the borrowed value readable and runs all destructors exactly when the last Borrow is released; after the tree is dropped every SliceRef reports invalid and unborrowable, and cloning or dropping any SliceRef, valid or not, never panics or corrupts memory.",
 ["histories","fault_sequences"],
 "for all interleavings of creating, cloning, mapping and dropping references and borrows with insertions, re-entrant queries and dropping the tree",
 "Tests cover only the simplest orders; the drop-deferral path and operations on references to dropped trees are not exercised.",
 [REF,INS,MOD],[("BorrowState machine, drop_borrow, SliceRefStore::drop, do_drop",REF)],
 ["can_borrow/is_valid/try_*, panics, destructor ledger, sanitizer reports"])

prop("C09","Copy-on-write clones are independent snapshots",
 "For trees with AllowCow, a clone is observationally equal to its source at the moment of cloning, and every later mutation of any member of a family of clones is invisible to all the others: each member always equals its own history, for all reads (get, iteration in either direction over any range, cursors) and in any drop order.",
 ["histories","configurations"],
 "for all trees of clone, mutate, read and drop operations over arbitrarily many handles",
 "The tests clone once or twice and mutate once; stale parent pointers in shared nodes only matter in multi-level trees mutated through several handles.",
 [COW,NODE,ITER,MOD],[("make_unique / into_child clone-down",NODE),("strong counts",COW),("iteration over nodes with foreign parents",ITER)],
 ["all reads on all handles after each step"])

prop("C10","COW cloning is O(1) and mutation clones only the touched path",
 "Cloning an AllowCow tree clones no stored values regardless of its size, and an insertion clones at most the values in the nodes on the path from the root to the insertion point (at most (height+1) nodes of at most 2M values) and clones nothing when nothing is shared. Structure not on that path remains shared.",
 ["histories","configurations"],
 "for all clone/insert histories and all M",
 "Over-copying is functionally invisible and no test counts clones.",
 [COW,NODE,MOD],[("increase_strong_count_and_clone, make_unique",NODE),("is_unique",COW)],
 ["number of calls to the slice's Clone per operation, addresses of shared values"])

prop("C11","Concurrent COW and shared reads are race-free and isolated",
 "Threads that each own a clone of a common AllowCow tree, or share one tree by reference, may concurrently read, clone, insert into their own clone and drop in any schedule: there is no data race or undefined behaviour, every thread observes exactly its own history, and every stored value is destroyed exactly once after its last owner is gone.",
 ["schedules","histories"],
 "for all thread schedules and interleavings of clone, insert, read and drop over shared nodes",
 "The test-suite is single-threaded; memory-ordering mistakes do not show on x86 without a race detector.",
 [COW,NODE,MOD,PAR],[("AtomicUsize strong count orderings",COW),("make_unique / try_drop",NODE)],
 ["race detector reports (Miri, ThreadSanitizer), per-thread model, destructor ledger"])

prop("C12","Every stored value is dropped exactly once and no memory leaks",
 "Every slice value that enters a tree - by insertion, by splitting or by cloning - is owned by exactly one place at a time: it is neither dropped while still reachable nor dropped twice, and once all trees, references and borrows are gone each one has been dropped exactly once and all memory allocated by the crate has been freed. The number of live values always equals the number of entries while nothing is shared.",
 ["histories","configurations"],
 "for all histories of insert, split, join, clone, ref and drop operations in every configuration",
 "Tests use Copy-like characters, for which double drops, leaks and stale bits are invisible.",
 [NODE,INS,REF,REC,COW],[("do_drop, NodeBox, ManuallyDrop moves",NODE),("InnerStore dealloc",REF)],
 ["token ledger written by the slice type itself, counting global allocator"])

prop("C13","Panics in user callbacks never corrupt memory or other trees",
 "If a user-supplied callback (Slice::split_at/try_join/clone/drop, Index arithmetic or comparison, a Cursor method) panics during any operation and the panic is caught, then afterwards no value is dropped twice, no moved-out or freed value is ever handed out, any other tree (including COW clones of the victim) is fully intact, and later uses of the victim - reads, inserts, clones, drop - either behave or panic. Leaking values is allowed.",
 ["fault_sequences","histories"],
 "for all operations, all callback kinds and all positions k at which the k-th callback panics, followed by arbitrary further use",
 "No test panics inside a callback; the code's `holes` mechanism is only reachable this way.",
 [NODE,INS,FIX,MOD,REF],[("with_slice / holes / panic_invalid_state",NODE),("NodeBox unwinding",MOD)],
 ["token ledger, sanitizer/Miri reports, reads of all trees after the fault"])

prop("C14","Misbehaving Index, Slice or Cursor implementations never cause UB",
 "The traits are safe to implement, so an implementation that violates their documented laws - inconsistent ordering or arithmetic, results that change between calls, joins and splits that lie, cursors with nonsense paths, ranges that change - may cause panics, wrong answers or leaks but never undefined behaviour: no out-of-bounds access, no use of uninitialised or freed memory, no double drop.",
 ["inputs","programs","histories"],
 "for all safe implementations of the public traits and all operation sequences",
 "All tests use lawful implementations.",
 [MOD,INS,FIX,ITER,NODE],[("weak_assert!/weak_unreachable! conditions","src/macros.rs"),("search_step index guarantees",MOD)],
 ["sanitizer/Miri reports, token ledger"])

prop("C15","Ordinary use is free of undefined behaviour in every configuration",
 "No sequence of safe API calls with lawful trait implementations, in any feature configuration and for any node size, executes undefined behaviour: no invalid, dangling, misaligned or uninitialised access, no aliasing violation, no use-after-free. This includes iterators, entries, cursors, references and borrows held across other permitted calls.",
 ["histories","configurations","programs"],
 "for all safe-API histories, P in all three settings, M in 1..=127, both with and without debug assertions",
 "The tests run natively, where undefined behaviour is usually silent.",
 [NODE,INS,FIX,ITER,REF,"src/const_math_hack.rs"],[("NodeHandle borrow types",NODE),("array length arithmetic","src/const_math_hack.rs")],
 ["Miri and AddressSanitizer reports while the model-checked workload runs"])

prop("C16","Refused operations panic and leave the tree untouched",
 "An insert at an index greater than size() or with a size not greater than zero, a get/cursor_to outside 0..size(), a construction with a non-positive size or with M outside 1..=127, and an insert while a slice is borrowed all panic, and such a refused call changes nothing observable about the tree, its references or its clones and leaks or double-drops nothing that was already stored. The boundary cases idx == size() for insert and idx == size()-1 for get succeed.",
 ["inputs","histories","configurations"],
 "for all trees and all refused argument combinations, including indexes below zero for signed index types",
 "Tests check two or three should_panic cases on fresh trees and never look at the tree afterwards.",
 [MOD,INS],[("argument checks at the head of insert_internal and get",INS)],
 ["panic/no panic, full state before and after"])

prop("C17","Only the documented directional arithmetic is relied upon",
 "The tree works for every Index satisfying the documented directional laws, including non-commutative ones such as two-dimensional offsets: positions and sizes reported for every entry, reference and iteration equal the ordered products of the sizes to their left, and no operation combines indexes whose original ranges do not line up.",
 ["inputs","histories","programs"],
 "for all histories over index types whose addition is not commutative",
 "All tests use unsigned integers, for which left and right operations coincide.",
 [TRT,FIX,INS,MOD,ITER,ENT,NODE],[("add_left/add_right/sub_left/sub_right choices",FIX),("SliceEntry::size",ENT)],
 ["ranges and sizes under a non-commutative ordered-group index"])

prop("C18","Serde round trip and malformed input",
 "Serialising a tree produces the sequence of its (size, value) pairs in order with its length announced, so that formats with and without length prefixes can store it, deserialising that sequence gives an observationally equal tree in every feature configuration, and deserialising any other input - truncated, ill-typed, containing a non-positive size, or with sizes whose total the index type cannot represent - returns an error rather than panicking or producing an inconsistent tree.",
 ["inputs","configurations"],
 "for all trees, all configurations and all well-typed or malformed documents",
 "One round-trip test of a small tree exists at most; malformed documents are not tried.",
 [SER],[("Serialize/Deserialize/visit_seq",SER)],
 ["serialised document, deserialisation result"])

prop("C19","Range bound types mean what their mathematical ranges mean",
 "For every range type implementing RangeBounds (by value, by reference and as a bound pair), contains, starts_after_end, is_empty_naive and overlaps_naive agree with the set of values the range denotes, up to the documented exceptions for unbounded sides, and bound conversions preserve the bound.",
 ["inputs"],
 "for all pairs of ranges of all types over a domain, exhaustively for small domains",
 "No tests cover most of the implementations.",
 [RNG],[("RangeBounds provided methods and impls",RNG)],
 ["return values of the RangeBounds methods"])

prop("C20","Cloning a plain tree is a deep, independent, faithful copy",
 "Cloning a NoFeatures tree calls the slice's Clone exactly once per entry and yields a tree with equal size, slice count, entries and height that shares no value with the original: mutating or dropping either never affects the other, and a panic in one of the value clones loses and double-drops nothing.",
 ["histories","fault_sequences","configurations"],
 "for all trees, all M, all later histories on both copies and all points of clone failure",
 "Clone of multi-level plain trees and clone failure are barely tested.",
 [NODE,MOD],[("deep_clone",NODE)],
 ["reads of both trees, clone counts, token ledger"])

prop("C21","Thread-safety markers: only safely sendable trees can cross threads",
 "Safe code can never use or destroy a value on a thread where its type forbids it: RleTree, Iter, SliceEntry, SliceRef and Borrow are Send/Sync only when the stored types' own Send/Sync make every reachable use sound (AllowSliceRefs trees never; AllowCow as for Arc), and they are Send/Sync whenever the documented table says so.",
 ["programs","configurations"],
 "for all combinations of Send/Sync-ness of index and slice types, of P and of handle type",
 "Auto-trait mistakes compile silently and are never observed by tests.",
 [PAR,MOD,ENT,ITER,REF],[("unsafe impl Send/Sync",MOD),("RleTreeIsSend",PAR)],
 ["marker-trait probes and the thread ids recorded by stored values when dropped or read"])

prop("C22","Lifetimes: nothing handed out outlives what it points to",
 "No type-correct safe program, on stable or with the nightly feature, can observe an entry, iterator, borrow or stored value after the data it refers to is gone: an entry or iterator cannot outlive its tree or survive a mutation, a Borrow cannot outlive its SliceRef, and a stored value's destructor never runs after something it borrows has been destroyed.",
 ["programs","configurations"],
 "for all safe client programs (sampled by a corpus of lifetime attack programs) with and without the nightly feature",
 "A missing lifetime or drop-check marker only shows in programs that should have been rejected.",
 [MOD,ENT,ITER,REF,NODE],[("lifetime parameters of handles",ENT),("may_dangle Drop impls",MOD),("SliceRef/Borrow lifetimes",REF)],
 ["whether each attack program is rejected by the compiler or, if accepted, what Miri reports when it runs"])

prop("C23","The shipped mock and fuzz runner agree with the tree",
 "The reference mock exported under the fuzz feature and the command runner built on it accept every command sequence: running any sequence reports no disagreement between mock and tree, and for lawful inputs the mock itself returns the same ranges, values, references and refusals as an independent model of runs.",
 ["histories","inputs"],
 "for all command sequences over all three configurations",
 "The fuzz targets are not run by the tests; only a few minimised sequences are.",
 [MOCK,FZU],[("Mock",MOCK),("RunnerState / BasicCommand / SliceRefCommand",FZU)],
 ["return values of the mock, panics of the runner"])

prop("C24","Draining removes and yields exactly the requested range",
 "drain(range) yields the slices of exactly that range, split at its endpoints, from either end; once the iterator is finished or dropped the range is gone from the tree, later entries have moved down by its size, references to removed slices have become invalid, and every removed value has been handed out or dropped exactly once.",
 ["histories","configurations"],
 "for all trees, ranges and partial consumptions",
 "drain is not implemented (its iterator is todo!()), so no test exists.",
 ["src/tree/drain.rs",MOD],[("Drain","src/tree/drain.rs")],
 ["items yielded by Drain, tree afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
