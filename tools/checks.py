"""What each check runs: builds, how many processes, how long; how crashes and hangs are attributed."""

VARIANT_TEXT = {
    "rel": "optimised, crate's own assertions off, counting allocator on",
    "chk": "optimised, debug assertions and overflow checks on",
    "asan": "AddressSanitizer",
    "tsan": "ThreadSanitizer, standard library instrumented too",
    "cov": "compiler-inserted probe in every basic block, counting allocator on",
    "miri": "Miri (undefined-behaviour interpreter), borrow tracking off",
}

COMMON = [
    "Holds on the executions counted above, not beyond them.",
    "The reference model is std's BTreeMap; key types are lawful unless the check says otherwise.",
]
HIST = ("Each case is a history drawn from VERIF_SEED: building (insertion, loading, appending, collecting, recursive insertion), mutation phases "
        "(fill, drain, thin out, pop, random mix, empty) and then the operations of this property. ")
NONTRIV = ("Counted as distinct and non-trivial: operations of this property on a tree larger than one leaf, distinct by configuration, operation, "
           "arguments, size and extreme keys of the tree.")


def plan(quick, thorough, secs=25, tsecs=600, big=4):
    return dict(quick=dict(workers=quick, secs=secs), thorough=dict(workers=thorough, secs=tsecs, big=big))


FUNC = dict(level="exploration")
RC = plan([("rel", 6), ("chk", 2)], [("rel", 4), ("chk", 3), ("asan", 1)])
R = plan([("rel", 8)], [("rel", 8)])

CHECKS = {
    "C01": dict(FUNC, **RC, rule=HIST + "Every insertion, removal and lookup is compared with an ordered map at once, len and is_empty too. " + NONTRIV,
                assumptions=COMMON),
    "C02": dict(FUNC, **RC, rule=HIST + "Borrowing iterators are stepped from both ends in a drawn pattern and compared with the model step by step, past exhaustion; clones of half-used iterators too. " + NONTRIV,
                assumptions=COMMON),
    "C03": dict(FUNC, **RC, rule=HIST + "Ranges of all nine bound kinds, on keys present, removed, in gaps and beyond the ends, are stepped from both ends and compared with the model; illegal bounds must panic. " + NONTRIV,
                assumptions=COMMON),
    "C04": dict(FUNC, **RC, rule=HIST + "Values are written through every kind of mutable handle, then the whole tree is compared with the model; the addresses handed out by one iterator must differ. " + NONTRIV,
                assumptions=COMMON),
    "C05": dict(FUNC, **RC, rule=HIST + "Owning iterators are stepped from both ends, lengths compared at every step, stopped anywhere. " + NONTRIV,
                assumptions=COMMON),
    "C06": dict(FUNC, **RC, rule=HIST + "Two such trees are merged, appended or added in each of the ways offered, compared with the union and used further. " + NONTRIV,
                assumptions=COMMON),
    "C07": dict(FUNC, **plan([("rel", 4), ("chk", 4)], [("rel", 3), ("chk", 4), ("asan", 1)]),
                rule=HIST + "Loads of ascending sequences are compared with one-by-one insertion before and after further mutation; sequences with one defect must panic in the debug build. " + NONTRIV,
                assumptions=COMMON),
    "C08": dict(FUNC, **plan([("rel", 8)], [("rel", 6), ("asan", 2)]), without="PTMON_NOSHARE", without_text="sharing anything",
                rule=HIST + "Three handles are cloned from one another and used by turns; after every step the contents of all handles not addressed are compared with what they were. " + NONTRIV,
                assumptions=COMMON),
    "C09": dict(FUNC, **R, crash="foreign",
                rule=HIST + "Keys and values carry identities in a ledger of births and deaths; between operations the values alive must be as many as the entries of all handles (shared nodes counted once), at the end none and no heap block. " + NONTRIV,
                assumptions=COMMON + ["Keys and values instrumented with identities behave like any other."]),
    "C10": dict(FUNC, **plan([("asan", 4), ("rel", 1), ("chk", 1), ("miri", 2)], [("asan", 3), ("rel", 1), ("chk", 1), ("miri", 3)], secs=35),
                rule=HIST + "Every public operation on three handles, elements of many layouts, under memory monitors (AddressSanitizer, Miri, identity ledger, alignment checks, compiler-inserted checks); results are not judged. " + NONTRIV,
                assumptions=COMMON + ["Miri's aliasing models are switched off: the crate writes through pointers derived from shared references, which they reject throughout."]),
    "C11": dict(FUNC, **plan([("tsan", 3), ("rel", 2)], [("tsan", 3), ("rel", 2), ("asan", 1), ("miri", 2)], secs=30), threads=True, reruns=4,
                without="PTMON_SEQ", without_text="any concurrency",
                rule="Each case builds a tree, clones it to three threads that run their own random programs compared with their own models, while two more read, clone and drop through a shared reference; drawn delays between calls. In two cases of five the three threads instead take turns in a drawn order over a relaxed counter, with nothing but the tree to synchronise them, so that the last handle changes nodes in place which others have read. Then every handle is dropped and nothing may be alive. Distinct: cases by configuration, programs and delay seed.",
                assumptions=["Schedules are those the machine produced under drawn delays.", "A wrong result that also appears when the same programs run one after another is left to other properties."]),
    "C12": dict(FUNC, **plan([("rel", 2), ("tsan", 2)], [("rel", 2), ("tsan", 4)], secs=10, tsecs=60), crash="foreign", threads=True,
                rule="Every public type x pointer kind x class of key x class of value (movable and/or shareable or neither) is probed for the promises it makes, each compared with the rule; then each promise made about a tree is kept for real by moving it to and reading it from other threads. Distinct: probes, and (probe, tree) pairs actually moved or shared.",
                assumptions=["The probed classes of element types stand for all."]),
    "C13": dict(plan([("rel", 4), ("asan", 4)], [("rel", 3), ("asan", 3), ("miri", 2)], secs=30), level="fault_enumeration",
                rule=HIST + "The last operation is repeated once per callback it makes into user code (comparison, key clone, value clone, destructor, source iterator; up to 48 evenly drawn points), with that callback panicking; then the affected tree is used and dropped. Evaluations are injected panics; distinct by configuration, kind of callback, position, operation and contents.",
                assumptions=COMMON + ["One panic per execution.", "Leaks after a panic are allowed."]),
    "C14": dict(FUNC, **plan([("rel", 8)], [("rel", 7), ("chk", 1)]),
                rule=HIST + "Two such trees, related or not, are compared, ordered, hashed and printed against ordered maps. " + NONTRIV, assumptions=COMMON),
    "C15": dict(FUNC, **R, crash="foreign",
                rule=HIST + "Key comparisons of every call are counted and held against bounds computed from the entries ever inserted n and the capacities B, L. find = levels of half-full branches that n entries need, times lg B + 2, plus lg L + 6, at most 4 lg n + 16. Lookup find, removal find + 4, range positioning 2 find + 8, one insertion 2 find plus a walk down from each level, 64 or more insertions in a row 2 find + 16 each, 8 per removal from an end or iterator step, 8n + 32 per bulk load or merge of n entries. " + NONTRIV,
                assumptions=COMMON + ["The bounds are about twice what the unchanged code was seen to need (worst_observed_against_bound)."]),
    "C16": dict(FUNC, **plan([("rel", 8)], [("rel", 8)]), crash="foreign",
                rule=HIST + "Clones of keys and values are counted per call over three handles whose sharing is tracked. " + NONTRIV, assumptions=COMMON),
    "C17": dict(FUNC, **R, crash="foreign",
                rule=HIST + "Heap blocks held by the library are counted after every step and held against the bounds. " + NONTRIV,
                assumptions=COMMON + ["Blocks are attributed by who asked for them."]),
    "C18": dict(FUNC, **R, crash="solo", configs=15,
                rule=HIST + "The same history is run on two to twelve configurations (capacities, pointer kinds, layouts), one of them in eight on thirteen, some beyond sixteen levels or on nodes of 65536; digests of everything observed must agree at every step. " + NONTRIV,
                assumptions=COMMON),
    "C19": dict(FUNC, **plan([("rel", 2), ("chk", 1), ("asan", 5)], [("rel", 1), ("chk", 1), ("asan", 4), ("miri", 2)], secs=30), hang="foreign",
                rule=HIST + "At some step the key type turns inconsistent in one of eleven ways (orderings constant, inverted, random, changing over time, intransitive, partial ...; clones that are other keys) or a load is unordered; memory monitors judge everything, and the addresses handed out by one mutable iterator must differ. " + NONTRIV,
                assumptions=["Eleven inconsistent behaviours and unordered loads stand for all."]),
    "C22": dict(FUNC, **plan([("cov", 8)], [("cov", 8)]), crash="foreign",
                rule=HIST + "Trees of up to 150000 entries; then 60 to 120 calls of 40 kinds, drawn, with and without a sharing clone alive. A compiler-inserted probe counts the basic blocks each call enters, the allocator the bytes it asks for; both are held against bounds computed from the height that the entries ever inserted can need and the capacities (calls on one place, iterator steps), a constant (len, clones of shared trees, empty trees) or the entries and nodes dealt with (whole-tree calls). Distinct: measured calls on trees larger than one leaf, by configuration, call, size and use.",
                assumptions=COMMON + ["Work is counted in basic blocks entered; block copies by memcpy count once.", "The first change of a handle that shares its tree may copy the tree, once."]),
    "C23": dict(FUNC, **plan([("rel", 5), ("chk", 3)], [("rel", 5), ("chk", 3)]),
                rule=HIST + "Trees of up to 150000 entries; then 60 to 120 calls of 40 kinds, drawn, each with the stack below it painted before and inspected after. The deepest change is held against 32 kB plus an allowance per level and per node held by value. Distinct: measured calls on trees larger than one leaf, by configuration, call, size and use.",
                assumptions=COMMON + ["Stack use is that of the optimised builds measured (with and without debug assertions)."]),
}
