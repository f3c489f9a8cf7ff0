"""The registry of checks: which harness sources decide which property, and how long they generate."""

COMMON = [
    "clang 18, libstdc++ 13, x86-64; the sanitizers' and the engine's verdicts are trusted",
    "generated histories are bounded (about 60 operations per case, capacities up to a few hundred, 70000 for a few cases)",
    "moved-from containers are only destroyed or assigned to; element operations do not throw",
]
CHECKS = {}


def cpp(pid, technique, rule, tus, note, quick_s=22, thorough_s=600, assumptions=(), **kw):
    CHECKS[pid] = dict(
        technique=technique, rule=rule, tus=tus, level="exploration", level_note=note,
        quick_s=quick_s, thorough_s=thorough_s, assumptions=COMMON + list(assumptions), **kw)


def prog(pid, module, technique, rule, note, quick, thorough, assumptions=(), **kw):
    """A check whose inputs are generated programs (gen/pygen.py); quick/thorough = dict(programs, items, seconds)"""
    def go(*a):
        import importlib
        from gen import pygen
        return pygen.run(importlib.import_module("gen." + module), *a)
    CHECKS[pid] = dict(technique=technique, rule=rule, level="exploration", level_note=note, quick=quick, thorough=thorough,
                       run=go, assumptions=COMMON[:1] + list(assumptions), **kw)


def parts(src, n, *defs):
    return [(src, [*defs, f"-DPART={i}"]) for i in range(n)]


HIST = ("each case is one history: a random constructor, then up to 60 random operations with boundary-biased positions, counts "
        "and fill levels; after every operation the whole observable state is compared with the model. Non-trivial: at least "
        "4 operations were applied; distinct: different choice sequences")
MODEL_NOTE = ("Model-based random testing with shrinking, under address and undefined-behaviour sanitizers: no violation in the generated "
              "histories; not a proof. Trusts the std containers used as the model.")

cpp("C01", "stateful model-based property testing against std::vector, ASan/UBSan, choice-stream shrinking", HIST,
    parts("seq_model.cpp", 10, "-DDRV=VecD"), MODEL_NOTE)
cpp("C02", "stateful model-based property testing against std::deque semantics, ASan/UBSan, choice-stream shrinking", HIST,
    parts("seq_model.cpp", 10, "-DDRV=DeqD"), MODEL_NOTE)
cpp("C03", "stateful model-based property testing against a drop-from-the-other-end model, ASan/UBSan, shrinking", HIST,
    parts("seq_model.cpp", 10, "-DDRV=CircD") + [("adp_model.cpp", ["-DQ=1"])], MODEL_NOTE)
cpp("C04", "stateful model-based property testing against std::list semantics, ASan/UBSan, shrinking", HIST,
    parts("seq_model.cpp", 10, "-DDRV=ListD"), MODEL_NOTE)
cpp("C07", "stateful model-based property testing against sorted-vector std::map semantics over comparators and storage layouts, ASan/UBSan, shrinking",
    HIST, parts("assoc_model.cpp", 10, "-DFAM=0") + [("refs.cpp", ["-DFAM=0"])], MODEL_NOTE)
cpp("C08", "stateful model-based property testing against std::set semantics over comparators and storage layouts, ASan/UBSan, shrinking",
    HIST, parts("assoc_model.cpp", 10, "-DFAM=1"), MODEL_NOTE)
cpp("C09", "stateful model-based property testing against std::unordered_map semantics with adversarial hashes, ASan/UBSan, shrinking",
    HIST, parts("assoc_model.cpp", 10, "-DFAM=2") + parts("hash_types.cpp", 2, "-DMAPS=1") + [("refs.cpp", ["-DFAM=2"])], MODEL_NOTE)
cpp("C10", "stateful model-based property testing against std::unordered_set semantics with adversarial hashes, ASan/UBSan, shrinking",
    HIST, parts("assoc_model.cpp", 10, "-DFAM=3") + parts("hash_types.cpp", 2, "-DMAPS=0"), MODEL_NOTE)
cpp("C05", "stateful model-based property testing against std::string, ASan/UBSan, shrinking", HIST, parts("str_model.cpp", 6), MODEL_NOTE)
cpp("C06", "stateful model-based property testing against std::stack and std::queue, ASan/UBSan, shrinking", HIST,
    parts("adp_model.cpp", 4, "-DQ=0"), MODEL_NOTE)
cpp("C11", "stateful model-based property testing against std::map over enumerators, ASan/UBSan, shrinking", HIST,
    parts("enum_model.cpp", 8, "-DFAM=0") + parts("enum_extra.cpp", 3, "-DFAM=0") + [("refs.cpp", ["-DFAM=5"])], MODEL_NOTE)
cpp("C12", "stateful model-based property testing against std::set / std::array over enumerators, ASan/UBSan, shrinking", HIST,
    parts("enum_model.cpp", 4, "-DFAM=1") + parts("enum_extra.cpp", 3, "-DFAM=1"), MODEL_NOTE)

SLOTS = ("each case runs random histories on three objects of one container type, mixed with copy/move construction, copy/move "
         "assignment, self-assignment and swaps between them, and destruction. Non-trivial: at least 4 operations, at least one of them "
         "on whole containers; distinct: different choice sequences")
cpp("C13", "stateful property testing with address-tracked elements (construction/destruction ledger), ASan/UBSan, shrinking", SLOTS,
    parts("generic.cpp", 14, "-DMODE=2"),
    "Random histories with elements that record every construction, use and destruction by address; no violation in the generated histories, not a proof.")
cpp("C14", "stateful model-based property testing over several objects with copies, moves, assignments and swaps, ASan/UBSan, shrinking", SLOTS,
    parts("generic.cpp", 14, "-DMODE=1") + [("refs.cpp", [f"-DFAM={f}"]) for f in (0, 2, 5)], MODEL_NOTE)
cpp("C17", "stateful property testing with byte-level relocation and restoration of the container object, ASan/UBSan, shrinking",
    "each case runs a random history on one container of trivially copyable elements; between operations the object's bytes are moved to "
    "another address (the original overwritten and freed), saved, or an older image is restored. Non-trivial: at least 4 operations, at "
    "least one relocation or restoration", parts("generic.cpp", 14, "-DMODE=4"), MODEL_NOTE)
cpp("C18", "stateful property testing with allocator interposition (operator new, malloc family) and element-address oracle, shrinking", SLOTS,
    parts("generic.cpp", 14, "-DMODE=3"),
    "Random histories with allocation hooks active during every container call; no violation in the generated histories, not a proof.")
cpp("C30", "stateful property testing with concurrent readers, read-only pages and parallel histories, under the thread sanitizer, shrinking",
    "each case drives one container through a random history; in the states reached it is read while its pages are read-only and by two "
    "threads at once, two threads write to different elements of it, and two threads run histories of their own. Non-trivial: at least 4 operations and at least one concurrent phase",
    parts("generic.cpp", 14, "-DMODE=6"),
    "Every read of the library in the generated histories is executed on read-only pages, and concurrently under a happens-before race "
    "detector (which does not depend on the interleaving that occurs); not a proof.",
    tsan=True, flags=["-DPBT_THREADS", "-pthread"])
cpp("C20", "property testing of iterator laws over all positions of containers reached by random histories, and of std algorithms, range adaptors and inserters against the same on std containers, ASan/UBSan, shrinking",
    "each case drives one container through a random history and checks, in the states reached, the laws of its iterators over all "
    "positions and pairs, or applies random std algorithms, range adaptors and inserters to it and to the std counterpart (53 kinds). "
    "Non-trivial: at least 4 operations, or 2 algorithms on at least 2 elements", parts("generic.cpp", 14, "-DMODE=5") + parts("ranges.cpp", 4), MODEL_NOTE)
cpp("C15", "property testing of every reporting operation with a recording checking policy (reference model decides what must be reported), and of the default policies in forked children, ASan/UBSan, shrinking",
    "each case drives one container or adapter to a random state and then makes one call whose arguments may or may not exceed a bound; "
    "whether, what and how much is reported is compared with the model, and the container with its state before the call. Non-trivial: the "
    "call had to be reported, or sat within one of the boundary; distinct: different choice sequences",
    parts("policy.cpp", 10),
    "Generated states and calls with a policy that records the report and leaves the call; default policies run in a forked child that has to die. Not a proof.")
cpp("C21", "stateful property testing of references and iterators recorded before each operation (address and value oracle), ASan/UBSan, shrinking",
    "each case is a random history; before every operation the address of each element is recorded, after it each element the operation "
    "has to leave in place is looked up at that address. Non-trivial: at least 4 operations on a container that held elements",
    parts("stable.cpp", 8), MODEL_NOTE)
cpp("C22", "property testing of comparison, swap and free erase over pairs of containers of different capacities, layouts and histories against std sequences, ASan/UBSan, shrinking",
    "each case builds two or three containers along different random histories, of the same or different capacity, layout and checking "
    "type, and compares every relation with the std counterparts. Non-trivial: the contents are equal and not empty, or share a prefix",
    parts("compare.cpp", 6), MODEL_NOTE)
cpp("C23", "property testing of raw views against the element addresses of the typed container over random histories and element layouts, ASan/UBSan, shrinking",
    "each case drives one container (17 element layouts, capacities 1 to 60, every supported container and storage layout) through a random "
    "history; after every operation an old and a new view are walked and compared with the addresses of the elements. Non-trivial: at least "
    "4 operations", parts("rawview.cpp", 8),
    "Random histories over a fixed set of element sizes, alignments and capacities, exhaustive in position; not a proof. Capacity 0 is left out (the views do not support it).")
cpp("C24", "property testing of comparator-call counts (counting comparator, red-black height bound as oracle) over long structured insert/erase histories, ASan/UBSan, shrinking",
    "each case drives one map or set (capacities 20 to 60000, both node layouts and both storages) through up to 24 phases of insertions, "
    "erasures or replacements in one of 7 patterns (sorted, reversed, random, middle, both ends, cluster, every other), counting comparator "
    "calls of every operation and, after each phase (each operation up to capacity 40), of every lookup over the keys present. Non-trivial: "
    "at least two phases and at least 7 keys", parts("balance.cpp", 8),
    "Random structured histories; the bound is the theoretical worst case of a red-black tree, so a correct tree cannot exceed it. Not a proof.")
cpp("C26", "property testing of the integer helpers against 128-bit / unbounded reference arithmetic, exhaustive over 8-bit operands and boundary-biased over wider types, ASan/UBSan, shrinking",
    "each case draws operands (extremes, values next to them and to zero, small, uniform) for one helper, type combination or range and "
    "compares every result with 128-bit arithmetic or an explicit list of the range's elements. Non-trivial: an operand is within 2 of an "
    "extreme or of another operand, or a range is not empty", parts("arith.cpp", 6),
    "Generated operands over all integer types, 8-bit operands exhaustively; only representable results are compared. Not a proof for wide types.")
cpp("C29", "stateful property testing of rebinding histories of optional references and pair views, and of wrapper values, against std::optional, std::pair and the addresses of the wrapped objects, ASan/UBSan, shrinking",
    "each case is a random history of bindings, assignments, swaps, comparisons and writes through optional references or pair views, or a "
    "random use of a wrapper, visitor or relocation helper. Non-trivial: at least 4 (views: 2) steps, or any use of a value wrapper; "
    "distinct: different choice sequences", parts("small.cpp", 4), MODEL_NOTE)
PROG_NOTE = ("Generated definitions compiled and run against a table of expected results computed outside the library; a sample of definitions, "
             "checked exhaustively in their values. Not a proof.")
prog("C25", "gen_enum", "property testing with generated enum definitions (programs compiled and run), Python model as oracle, item-wise shrinking",
     "each item is a random enum definition (plain, rich, rich without default constructor, lite with a given order; 12 underlying types; "
     "dense, sparse and extreme values in any declaration order; names that are prefixes and case variants of each other) with all its "
     "enumerators, neighbouring values and near-miss names checked. Non-trivial: at least 2 enumerators", PROG_NOTE,
     dict(programs=24, items=14, seconds=40), dict(programs=600, items=14, seconds=600),
     ["plain enumerators lie in magic_enum's range; no enumerator aliases; rich enums do not use the reserved largest value"])
prog("C27", "gen_reflect", "property testing with generated struct definitions (programs compiled and run), expected field tables as oracle, item-wise shrinking",
     "each item is a random struct (nesting to depth 5, arrays, vectors, optionals, bases, up to 128 fields) or a set of field counts up to "
     "1024 for decomposition (1 to 128 always all); names, addresses, types, constness and the whole enter/leave sequence are compared. "
     "Non-trivial: at least 2 fields", PROG_NOTE,
     dict(programs=20, items=12, seconds=40), dict(programs=400, items=14, seconds=700))
prog("C28", "gen_view", "property testing with generated struct and sub-struct definitions (programs compiled and run), compiler layout as oracle, item-wise shrinking",
     "each item is a random struct (nesting to depth 5, up to 4 array dimensions, vectors and optionals in any state) with a random "
     "sub-structure of pointers into it; every path's offset, strides, capacities, type and address for all indices are compared with the "
     "member expressions, and the pointers of filled sub-structures with the members' addresses. Non-trivial: at least 2 fields", PROG_NOTE,
     dict(programs=24, items=6, seconds=35), dict(programs=500, items=8, seconds=700),
     ["a container of containers is filled to capacity before a sub-structure view is taken (the library walks to capacity)"])
prog("C19", "gen_traits", "property testing over generated element types compiled with every container, type-trait implications and behaviour under counting as oracle, item-wise shrinking",
     "each item is an element type: kind of each of the five special members (all 168 sane combinations at least once), default constructor, layout "
     "(const, private, mutable, over-aligned, byte, array members), which copies and moves are noexcept, and a capacity, instantiated in 17 container configurations. Non-trivial: some special member is not "
     "defaulted or the layout is not the plain one",
     "Trait implications are decided by the compiler for each generated type; usability and absence of copies are observed by running. A sample of types, not a proof.",
     dict(programs=48, items=10, seconds=40), dict(programs=1000, items=10, seconds=700),
     ["element types whose copy and move operations agree (no explicitly deleted move next to a copy, no trivial assignment next to non-trivial construction)"])
prog("C16", "gen_consteval", "property testing with generated operation sequences compiled into constant expressions and run at run time, std containers as model, differential, item-wise shrinking",
     "each item is a random sequence of 2 to 32 operations on one of about 700 container configurations (14 containers and adapters, element types including "
     "owning, move-only and nested ones), evaluated in a constant expression, at run time, on the std counterpart, split in two (a constant-"
     "evaluated prefix resumed at run time) and, for structural types, read back from a template argument; digests of all results and "
     "contents are compared. Non-trivial: at least 4 operations", 
     "Random operation sequences; constant evaluation itself rejects undefined behaviour, leaks and double destruction in them. A sample of programs, not a proof.",
     dict(programs=80, items=64, seconds=38), dict(programs=1500, items=96, seconds=700),
     ["hash functions and comparators usable in constant expressions (the default hash of strings is not)"])
