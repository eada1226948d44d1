#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the file stays valid JSON lines).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=hook)))

SIZE = ("size", "number of live entries, maintained by hand next to the node structure", "src/lib.rs PalmTree")
SEP = ("branch keys", "upper bound of each child; may be stale-high after removals", "src/branch.rs Branch::keys")

prop("C01", "Point operations behave exactly like an ordered map",
 "After any sequence of insertions (plain, recursive, entry-based, extend, collect), removals (by key, lowest, highest, through an entry) and lookups (get, linear get, get_mut, indexing, entry), every operation returns exactly what the same operation on an ordered map returns, and len/is_empty equal the number of live entries. Overwriting an entry keeps the originally stored key and hands back the old value; no legal operation panics or fails to terminate.",
 ["histories", "configurations"],
 "Every finite history of point operations over any totally ordered key type, every node capacity >= 4 and every pointer kind.",
 "The only randomised test uses u8 keys with 64-wide nodes, so it never sees more than one branch level, never calls insert_recursive, remove_lowest/highest, get_linear, indexing or most of the entry API, and cannot leave a gap between separators of different levels.",
 ["src/lib.rs", "src/entry.rs", "src/search.rs", "src/branch.rs", "src/leaf.rs", "src/array.rs"],
 [("descend by upper-bound keys, binary search in leaf", "src/search.rs walk_path/exact_key, src/branch.rs get/get_mut/insert"), ("split on full node, walking up the cursor stack", "src/search.rs PathedPointer::insert/push_last, src/lib.rs split_root"), ("removal deletes emptied nodes upwards", "src/search.rs PathedPointer::remove")],
 ["return value of each call", "len()/is_empty() after each call", "get()/get_linear() of every key and of the gaps between keys"],
 [SIZE, SEP])

prop("C02", "Borrowing iteration yields every entry once, in key order, from both ends",
 "For a tree reached by any history, iterating by reference or by mutable reference yields every live entry exactly once in strictly ascending key order from the front and strictly descending from the back. Any interleaving of front and back steps partitions the entries without loss or repetition, the iterator stays exhausted once exhausted, and a clone of a half-used iterator continues independently from the same position.",
 ["histories", "inputs", "configurations"],
 "Every tree history, every interleaving of next/next_back calls, every node capacity and pointer kind.",
 "Tests iterate freshly loaded trees in one direction only, plus u8 trees of one branch level; no test mixes front and back steps or iterates a multi-level tree after removals.",
 ["src/iter/ref_iter.rs", "src/iter/mut_iter.rs", "src/search.rs", "src/iter/mod.rs"],
 [("two cursors moving towards each other until their keys meet", "src/iter/ref_iter.rs Iter::next/next_back, src/iter/mut_iter.rs"), ("cursor stepping across leaves and branches", "src/search.rs step_forward/step_back/lowest/highest")],
 ["sequence of pairs returned by next/next_back", "results after exhaustion", "results of a cloned iterator"],
 [("left/right cursors", "stack of (branch,index) plus leaf and index", "src/search.rs PathedPointer")])

prop("C03", "Range queries return exactly the entries inside the bounds",
 "For any tree history and any pair of bounds (included, excluded, unbounded on either side; present keys, removed keys, keys in gaps, keys beyond either end), an immutable or mutable range yields exactly the live entries within the bounds, ascending from the front, descending from the back, under any interleaving of the two. It panics if and only if the start exceeds the end or both bounds exclude the same key.",
 ["histories", "inputs", "configurations"],
 "Every history, every bound pair of all nine kinds, every front/back interleaving, every node capacity and pointer kind.",
 "The randomised test only uses start..end, start.. and ..end over u8 keys in one-level trees; inclusive ends and exclusive starts are tested only on one- or two-entry trees, never after removals that leave stale separators.",
 ["src/iter/mod.rs", "src/search.rs", "src/iter/ref_iter.rs", "src/iter/mut_iter.rs"],
 [("bound validation", "src/iter/mod.rs paths_from_range"), ("positioning the two cursors for each bound kind", "src/search.rs key_or_higher/higher_than_key/key_or_lower/lower_than_key")],
 ["sequence of pairs from range()/range_mut()", "whether the call panicked"], [SEP])

prop("C04", "Writes through mutable handles land on exactly the addressed entry",
 "A write through get_mut, mutable indexing, an occupied entry, the reference returned by inserting into or consuming an entry, or any item of a mutable (range) iterator changes the value of exactly the entry it was obtained for, is visible to every later read, and changes nothing else. The references handed out by one mutable iterator are pairwise disjoint, and reads through an entry handle agree with the stored key and value.",
 ["histories", "inputs", "configurations"],
 "Every history, every entry addressed, every interleaving of front and back steps of a mutable iterator, including insertions that split nodes at any number of levels.",
 "No test writes through get_mut, IndexMut, OccupiedEntry::get_mut/into_mut or the reference returned by VacantEntry::insert; mutable iterators are only read.",
 ["src/entry.rs", "src/search.rs", "src/iter/mut_iter.rs", "src/branch.rs", "src/leaf.rs", "src/lib.rs"],
 [("cursor re-pointed at the inserted slot after splits", "src/search.rs PathedPointer::insert"), ("raw-pointer value access", "src/search.rs value_mut/into_entry_mut, src/iter/mut_iter.rs"), ("descent with make_mut", "src/branch.rs get_mut")],
 ["full contents before and after each write", "addresses of the handed-out references"])

prop("C05", "Consuming iteration moves every entry out once, with exact length",
 "Turning a tree into an owning iterator and calling next/next_back in any order yields every live entry exactly once, the front ascending and the back descending; size_hint/len equal the number of entries still to come at every step; once both ends meet it returns nothing for ever. Every call terminates, and dropping it half-used releases the rest.",
 ["histories", "inputs", "configurations"],
 "Every history, every front/back interleaving and every stopping point, every node capacity and pointer kind, handles shared or not.",
 "Only the forward direction on freshly loaded or u8 trees is tested; next_back, mixed use, size_hint and dropping half-way are never exercised.",
 ["src/iter/owned.rs", "src/search.rs", "src/leaf.rs", "src/lib.rs"],
 [("pop_front/pop_back on the leaf under each cursor, stepping over emptied leaves", "src/iter/owned.rs"), ("remaining counter", "src/iter/owned.rs OwnedIter::remaining")],
 ["pairs returned", "size_hint at each step", "results after exhaustion", "CPU time per call"])

prop("C06", "Merging and appending produce the key-wise union with the promised winner",
 "merge_left, append_left and the left merge iterator yield the union of two trees where colliding keys keep the left (own) entry; merge_right, append_right, + and += keep the right (other) entry, whole pairs included. The result is sorted, complete and duplicate-free for any two histories, contents and sizes (including empty and emptied trees), works as a normal tree afterwards, and a borrowed operand of + and += is left unchanged.",
 ["histories", "inputs", "configurations"],
 "Every pair of tree histories and contents with any overlap pattern, every node capacity and pointer kind; borrowed operands may have a different configuration.",
 "No existing test calls any merge, append or addition operation.",
 ["src/lib.rs", "src/iter/merge.rs", "src/iter/owned.rs"],
 [("two-way merge with one-item lookahead and collision skipping", "src/iter/merge.rs"), ("bulk load of the merged stream", "src/lib.rs load")],
 ["contents of the result", "items of the merge iterators", "contents of the borrowed operand afterwards"])

prop("C07", "Bulk loading equals inserting one by one, and rejects bad order in debug builds",
 "Loading any strictly ascending sequence (or converting a BTreeMap) yields a tree that answers every query as the tree built by single insertions of the same pairs, and that can be mutated further like any other. In builds with debug assertions, loading a sequence with an out-of-order or duplicate key at any position panics, and a strictly ascending one never does.",
 ["inputs", "configurations"],
 "Every length (in particular around multiples of node capacities at every level), every key pattern, every position of a defect, every node capacity and pointer kind.",
 "One length (131072) plus u8 maps are loaded; no test feeds an unordered sequence, and later mutation of loaded trees is only sampled at one branch level.",
 ["src/lib.rs"],
 [("leaf filling with a stack of rightmost parents, folded at the end, root trimmed", "src/lib.rs load/push_stack/trim_root"), ("order validation under debug_assertions", "src/lib.rs load")],
 ["contents, lookups and ranges of the loaded tree", "whether load panicked"])

prop("C08", "Clones are independent snapshots for every pointer kind",
 "A clone has the same contents as its original at the moment of cloning, and afterwards no operation on one handle (insertion, removal, entry use, mutable access or iteration, consumption, appending, dropping) changes what any other handle observes, whatever the pointer kind and however clones are chained.",
 ["histories", "configurations"],
 "Every history over any number of handles cloned from one another at any time, every mutator, for the owned, shared and thread-safe shared pointer kinds.",
 "Tests only instantiate the uniquely owned kind and never mutate one handle while reading another; the fuzz target imports the shared kinds but does not use them.",
 ["src/pointer.rs", "src/lib.rs", "src/branch.rs", "src/search.rs", "src/entry.rs", "src/iter/mut_iter.rs", "src/iter/owned.rs"],
 [("copy on write when a handle is about to mutate a shared root", "src/pointer.rs make_mut, src/branch.rs Clone"), ("deep clone for the owned kind", "src/pointer.rs Unique::clone")],
 ["contents of every other handle before and after each operation"],
 [("reference count of the root node", "shared between handles", "src/pointer.rs Shared/SyncShared")])

prop("C09", "Every key and value is handed back or dropped exactly once",
 "Each value moved into a tree is, over any history, either returned to the caller or dropped exactly once - when it is overwritten, removed, its last owning handle is dropped, or an owning iterator that holds it is dropped - never twice and never leaked; the same holds for keys and for the internal copies a tree makes of them. While a tree is alive it holds exactly as many values as it has entries, and dropping everything releases all memory.",
 ["histories", "configurations"],
 "Every history of every operation including partially consumed owning iterators and merge iterators, every node capacity and pointer kind, key and value types with destructors.",
 "Every existing test uses integer keys and values, which have no destructor, so a leak or double drop leaves no trace.",
 ["src/array.rs", "src/branch.rs", "src/branch/node.rs", "src/leaf.rs", "src/pointer.rs", "src/iter/owned.rs", "src/search.rs"],
 [("manual drop of the initialised prefix of each node", "src/leaf.rs Drop, src/branch.rs Drop, src/array.rs"), ("type-erased child pointers unwrapped by the owning branch", "src/branch/node.rs"), ("move between arrays on split/steal", "src/array.rs steal_from, src/leaf.rs split, src/branch.rs split")],
 ["ledger of live instances of instrumented keys and values", "net heap blocks after everything is dropped"])

prop("C10", "Safe use never touches memory it should not",
 "No sequence of safe calls makes the library read or write out of bounds, freed, uninitialised, misaligned or wrongly typed memory or free a block twice, whatever the key and value types (heap-owning, zero-sized, over-aligned, large), node capacities and pointer kind.",
 ["histories", "configurations"],
 "Every history of safe calls with lawful key types, every element layout, every node capacity >= 4 and every pointer kind.",
 "Tests run without any sanitizer, use plain integers (alignment <= 8, no heap) and only the owned pointer kind; silent corruption is invisible to them.",
 ["src/array.rs", "src/leaf.rs", "src/branch.rs", "src/branch/node.rs", "src/pointer.rs", "src/search.rs", "src/iter/owned.rs", "src/iter/mut_iter.rs"],
 [("uninitialised arrays with externally tracked length", "src/array.rs"), ("type-erased pointers", "src/pointer.rs, src/branch/node.rs"), ("unchecked indexing and raw cursors", "src/search.rs, src/leaf.rs")],
 ["AddressSanitizer and LeakSanitizer reports", "Miri reports", "fatal signals"],
 hook="cfg(palmtree_verif) in src/arch.rs: lets the crate compile on the nightly toolchain that Miri needs")

prop("C11", "Thread-safe shared trees are race-free and consistent across threads",
 "When handles of a thread-safe shared tree are cloned to, read, mutated, iterated and dropped by several threads concurrently, or one handle is read by several threads at once, there is no data race, every thread observes exactly its own handle's history, and every value is released exactly once after the last handle is gone.",
 ["schedules", "histories"],
 "Every schedule of any number of threads, each owning clones taken at any time or sharing a reference, over any operations.",
 "No test creates a thread or instantiates the thread-safe kind at all.",
 ["src/pointer.rs", "src/lib.rs", "src/branch.rs"],
 [("atomic reference count with copy on write", "src/pointer.rs SyncShared"), ("Send/Sync promises", "src/pointer.rs unsafe impls")],
 ["ThreadSanitizer and Miri data-race reports", "per-thread results against a per-thread model", "global instance ledger after join"],
 hook="cfg(palmtree_verif) in src/arch.rs, as for C10")

prop("C12", "A tree crosses threads only if its contents may",
 "A tree can be moved to another thread only when its keys and values can (and, for the thread-safe shared kind, only when they can also be shared), can be shared between threads only when its keys and values can, and never when it uses the single-threaded shared kind. Iterators and entry handles are held to the same rule, while trees of ordinary data with the owned and thread-safe kinds can be moved and shared.",
 ["programs", "configurations"],
 "Every safe program, every key/value type and every pointer kind.",
 "Thread-safety promises are never mentioned in a test; a wrong promise compiles silently and only a racing program shows it.",
 ["src/pointer.rs", "src/search.rs", "src/branch/node.rs"],
 [("unsafe impl Send/Sync for the node pointer", "src/pointer.rs Pointer"), ("raw pointers in cursors suppress the auto traits", "src/search.rs")],
 ["runtime probe of the auto traits for a matrix of kinds and contents", "racing witness programs for every wrongly granted promise"])

prop("C13", "A panic in user code never corrupts memory",
 "If a key comparison, a key or value clone, a destructor or a source iterator panics at any point inside any operation, no value is ever dropped twice or used after being dropped, and the affected tree, its clones and iterators can still be used (possibly panicking or missing entries) and dropped without memory errors. Handles other than the one being mutated keep their contents.",
 ["fault_sequences", "histories"],
 "Every operation, every position of the panicking callback within it, every history before it, every pointer kind and node capacity.",
 "No test makes user code panic; the 20-odd unsafe sites that read out values and then call user code are only run on the success path.",
 ["src/array.rs", "src/leaf.rs", "src/branch.rs", "src/search.rs", "src/entry.rs", "src/lib.rs", "src/iter/owned.rs", "src/iter/merge.rs"],
 [("lengths updated only after the slot is consistent", "src/array.rs, src/leaf.rs, src/branch.rs"), ("owned intermediates dropped by unwinding", "src/search.rs insert, src/lib.rs load/split_root")],
 ["instance ledger (double drop, use after drop)", "AddressSanitizer reports", "contents of the other handles"])

prop("C14", "Equality, ordering, hashing and formatting depend only on contents",
 "Two trees with the same entries are equal, compare as equal and hash identically however they were built; otherwise equality is false and ordering is the lexicographic order of their ascending entry sequences, as for ordered maps. Debug output of a tree is the map of its entries in order, and of an iterator the map of the entries still to come; that of an entry names its key and, if occupied, its value.",
 ["histories", "inputs", "configurations"],
 "Every pair of histories and contents (equal, prefix, differing in one key or one value, empty or emptied), every node capacity and pointer kind.",
 "No test compares, orders, hashes or formats two trees.",
 ["src/lib.rs", "src/iter/ref_iter.rs"],
 [("delegation to the ordered entry sequence", "src/lib.rs PartialEq/PartialOrd/Ord/Hash/Debug")],
 ["==, partial_cmp, cmp, hash and Debug results against those of the ordered-map model"])

prop("C15", "Operations cost logarithmically many key comparisons",
 "After any history, one lookup, removal or range positioning performs at most a small constant times log2(number of entries ever inserted) key comparisons whatever the node capacity; so does one insertion on average over a long row of insertions, and none exceeds a small constant times the square of that logarithm (when nodes split on every level); removing the lowest or highest entry, or advancing an iterator, performs at most a constant number. Bulk loading and merging perform at most a constant number of comparisons per entry.",
 ["histories", "configurations"],
 "Every history and node capacity; the explicitly linear lookup is excluded.",
 "Tests check results only; a search that degenerates to a scan or a tree that degenerates to a list returns the same results.",
 ["src/search.rs", "src/leaf.rs", "src/branch.rs", "src/lib.rs"],
 [("binary search in nodes", "src/search.rs find_key*, src/leaf.rs"), ("balanced growth by splitting at the root", "src/lib.rs split_root, src/search.rs insert")],
 ["number of comparisons made by each call, counted in the key type"])

prop("C16", "Copies happen only when a shared tree is about to change",
 "Cloning a tree of either shared kind copies no key and no value, and reading a tree of any kind never copies. A handle that shares nothing with another handle never clones a value in any operation (cloning an owned tree excepted), so at most the first mutation after sharing copies, each value at most once.",
 ["histories", "configurations"],
 "Every history of clones, drops, reads and mutations over all handles, all pointer kinds and node capacities.",
 "Integer values hide clones completely, and the shared kinds are never instantiated.",
 ["src/pointer.rs", "src/branch.rs", "src/leaf.rs", "src/lib.rs"],
 [("reference-counted root and make_mut", "src/pointer.rs"), ("moves between nodes on split", "src/array.rs steal_from")],
 ["number of key and value clones made by each call, counted in the element types"])

prop("C17", "Memory held is bounded by the live contents",
 "A tree grown only by insertions or loading holds a number of heap blocks proportional to entries divided by node capacity; after removals each block it still holds leads to at least one live entry, so blocks never exceed entries times the tree height, and a tree emptied by any route holds at most one block. An empty new tree holds none.",
 ["histories", "configurations"],
 "Every history of insertions and removals (by key, from either end, through entries), every node capacity and pointer kind.",
 "Tests check results only; a tree that keeps emptied nodes or splits far too eagerly answers correctly.",
 ["src/search.rs", "src/branch.rs", "src/leaf.rs", "src/lib.rs"],
 [("emptied nodes removed upwards", "src/search.rs PathedPointer::remove"), ("halving splits", "src/leaf.rs split, src/branch.rs split"), ("packed bulk load", "src/lib.rs load")],
 ["net heap blocks attributable to the tree, counted by the allocator"])

prop("C18", "Node capacities, pointer kind and element layout are unobservable",
 "The same program run on trees that differ only in branch capacity, leaf capacity (even or odd, equal or not), pointer kind or element layout (small, over-aligned, heap-owning) produces the same observable results step by step, at any tree height the memory can hold.",
 ["configurations", "histories"],
 "Every history, every combination of capacities >= 4, pointer kinds and element layouts.",
 "Only the 64/64 owned configuration with u8 or usize elements is ever instantiated.",
 ["src/config.rs", "src/array.rs", "src/leaf.rs", "src/branch.rs", "src/pointer.rs", "src/search.rs"],
 [("split arithmetic on capacity", "src/leaf.rs split, src/branch.rs split, src/array.rs steal_from"), ("layout-independent type erasure", "src/pointer.rs cast_into, src/branch/node.rs"), ("fixed-capacity cursor stack", "src/search.rs PtrPath")],
 ["log of all results of the same program on a set of configurations, compared pairwise"])

prop("C19", "A key type with inconsistent ordering cannot cause memory errors",
 "With a safely written key type whose comparisons are inconsistent (not total, not transitive, changing over time) or whose clones differ from it, or an unordered bulk load in a release build, operations may return wrong entries or panic, but never touch invalid memory, never drop anything twice, and a mutable iterator never hands out two references to the same value.",
 ["inputs", "histories"],
 "Every comparison behaviour expressible in safe code, every history.",
 "All tests use integers.",
 ["src/search.rs", "src/iter/mut_iter.rs", "src/iter/ref_iter.rs", "src/leaf.rs", "src/lib.rs"],
 [("bounds that do not depend on order", "src/search.rs find_key*, src/leaf.rs"), ("cursor meeting test", "src/iter/mut_iter.rs")],
 ["instance ledger", "AddressSanitizer reports", "addresses handed out by one mutable iterator"])

prop("C20", "Node capacities below four are rejected when the program is compiled",
 "A tree configuration with a branch or leaf capacity below four is refused by the compiler, so no running program can contain one.",
 ["programs", "configurations"],
 "Every configuration type a user can write.",
 "A program that must not compile is not something a unit test of this suite runs.",
 ["src/config.rs"],
 [("IsGreater<U3> bound on the associated capacity types", "src/config.rs TreeConfig")],
 ["whether rustc accepts the configuration"])

prop("C21", "Borrow rules keep handles exclusive",
 "A program that keeps a mutable iterator, an entry handle or a reference into a tree alive while mutating or iterating that same tree through another path is refused by the compiler, and references never outlive the tree they point into.",
 ["programs"],
 "Every safe program.",
 "One compile_fail doctest samples one such program.",
 ["src/iter/mut_iter.rs", "src/iter/ref_iter.rs", "src/entry.rs", "src/search.rs"],
 [("lifetime parameters on iterators and entries", "src/iter/*.rs, src/entry.rs")],
 ["whether rustc accepts the program"])

prop("C22", "Work per call grows with the tree's height, whole-tree calls with its entries",
 "After any history, the work a call does (instructions executed, memory asked for) is bounded as follows. len, is_empty, the length of an owning iterator, making an empty tree, cloning a tree of a shared kind and dropping an unmodified such clone take constant work, whatever the tree's size. A lookup, insertion, removal, entry call, end removal, range positioning or the start of an iteration takes work proportional at most to the square of the tree's height times the node capacities, and each step of any iterator at most to the height, never to the number of entries; only the first change of a handle that shares its tree with a clone may copy the whole tree. Loading, cloning an owned tree, dropping, merging, appending, comparing, hashing, printing and iterating over everything take work proportional to the entries and nodes involved.",
 ["histories", "configurations", "sizes"],
 "Every history, size, node capacity and pointer kind; the explicitly linear lookup is excluded.",
 "Tests check results only, on small trees; a call that walks the whole tree, or a loop that starts over for every entry, returns the same results.",
 ["src/lib.rs", "src/search.rs", "src/branch.rs", "src/leaf.rs", "src/pointer.rs", "src/iter/mod.rs", "src/iter/owned.rs", "src/iter/merge.rs"],
 [("entry count kept beside the root", "src/lib.rs"), ("paths kept by cursors so that steps need not start from the root", "src/search.rs"), ("reference-counted root", "src/pointer.rs")],
 ["basic blocks entered by each call, counted by a compiler-inserted probe", "bytes asked of the allocator by each call"])

prop("C23", "Stack use grows with the tree's height, never with its entries",
 "However many entries a tree holds and whatever happened to it before, no call on it, including dropping, cloning, comparing, merging, iterating and consuming it, uses more stack than a constant plus an amount proportional to the tree's height and the size of a node; so no tree is too large to be used or dropped on an ordinary thread.",
 ["histories", "configurations", "sizes"],
 "Every history, size, node capacity and pointer kind.",
 "Recursion per entry, or per empty node passed over, works on the small trees of a test and overflows on large ones.",
 ["src/search.rs", "src/branch.rs", "src/branch/node.rs", "src/lib.rs", "src/iter/mod.rs", "src/iter/owned.rs", "src/iter/merge.rs"],
 [("loops over entries and leaves, recursion over levels only", "src/iter/*.rs, src/branch.rs, src/lib.rs")],
 ["lowest stack address written by each call, by painting the stack beforehand"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
