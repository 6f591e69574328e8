NOT = {}
t("C01", GR + "; " + TV, "Every transition of two arrays up to 4 elements/capacity 5 (thorough 5/7), for int, string, move-only, over-aligned and address-aware elements, plus random longer histories validated by TLC; assumes elements are opaque data (no dependence on values).")
t("C02", TV, "Every construction, move, assignment, destruction, allocation and release of edge-covering and random histories is judged by the Lifetime/ArrayTrace specification; bounded shapes, three element kinds.")
t("C03", TV, "Capacity, storage identity, first touched cell and number of reallocations judged by ArrayTrace on edge-covering and random histories.")
t("C04", "TLA+ model transitions x every fault point, executions validated by a TLA+ trace specification", "Every operation from every small shape with the k-th throwing action failing for each k; strong guarantee, no leak, usable afterwards judged by ArrayTrace.")
t("C05", GR + "; " + TV, "Every transition of two lists of up to 3-4 elements with persistent iterators, for several element types, plus random longer histories.")
t("C06", TV + ", with every fault point of every operation", "Node/element lifetimes and allocator calls of edge-covering and random histories, and every operation x every throw point, judged by ListTrace/Lifetime.")
t("C07", "executions validated by a TLA+ trace specification; TLC model of the heap (bag + heap order)", "All small push/pop histories with duplicates under several comparisons, plus long random ones; the heap order and the bag are judged after each operation.")
SP = "TLA+ design model checked with TLC (release/acquire memory); executions under a controlled scheduler and memory model validated by a TLA+ trace specification"
t("C08", SP + "; " + GR, "Every interleaving with at most 2 preemptions and 1 stale load (thorough 3/2) of 12 programs on 10 queue instances, random schedules of random programs, and all sequential fill/ring positions; two threads, one per role.")
t("C09", SP, "The same executions, with and without asserts: every plain access to the queue's memory by two threads must be ordered by the recorded atomics' clocks; each of the four orders is shown necessary in the model.")
t("C10", SP + "; " + GR, "Refusals, availability and promises of every recorded execution, and exact availability at every fill level and ring position of capacities 1..16.")
t("C11", TV + ", with every fault point of every operation", "Element and storage lifetimes at every fill level and ring position of capacities 1..8 including destruction, throwing constructors and allocation, for both storage policies.")
t("C12", GR, "Every view over up to 4-5 cells from every kind of source, and every nested sub-view with static and run-time extents, reads, writes, iterator walks and conversions, for several element sizes; out-of-contract windows are not judged.")
t("C13", GR, "Every transition of two tuples of 1-4 components with values 1..4 through every access path, value category, conversion and concatenation, for copyable, move-only and nested components.")
t("C14", GR, "Every transition of two delegates over 12 kinds of targets and of three delegates over pairs of kinds, for six signatures (references, move-only values, member pointers, no result), in two builds; targets are called at most once or twice between assignments.")
t("C15", TV + ", with every fault point of every operation", "Target and storage lifetimes of edge-covering and random histories over three delegates with small, large, over-aligned and throwing targets, and every operation x throw point (targets and allocation); targets must be copyable.")
t("C16", "programs enumerated by a TLA+ model (TLC), compiled and run; their logs compared with the model's", "All programs of nested blocks, functions, loops and try scopes up to 7 (thorough 8) instructions in the model; a seeded sample of 2400 (thorough 12000) of them compiled and run, with 14 kinds of callables.")
t("C17", GR, "Every transition of two bound objects with 0-3 bound values and up to 3 call arguments of every value category, copyable and move-only values, references, functions and member functions, and the variants with the function as template argument (clang).")
SE = "TLC model of the algorithm; cases enumerated with their results by a TLA+ specification (TLC) and run on the real code"
t("C18", SE, "The block algorithm for every range up to 11 (thorough 18) cells; 50k cases up to 80 elements (thorough 140) and long ones, over 31 element types, guard-page placements, containers and ten SIMD/compiler settings (x86 without AVX-512).")
t("C19", SE, "The block algorithm for every range up to 11 (thorough 18) cells; 2.6k cases up to 150 elements (thorough 270) and long ones with surroundings, over 20 element types, guard-page placements, containers and ten SIMD/compiler settings.")
t("C20", GR, "Every transition of two iterators over sequences of 0, 1 and 3 elements (thorough up to 5) for 52 pairs of iterator types (container iterators, both adaptors over seven kinds of sequence, their combinations and mixed pairs); Array::iterator - const_iterator is not provided; the order of list iterators is not judged.")
t("C21", SE, "Every operation on 15+ probe vectors and all their pairs (about 5000 cases per dimension 1-5, thorough 7), scaled by 1, 2^-3 and 2^33, for ten component types and mixed operand types, in gcc, clang and -O3 builds; only values on which the arithmetic is exact.")
t("C22", SE, "Every operation on probe and basis matrices (all pairs of basis matrices for products, all permutation matrices for determinants; 800-3400 cases per shape) for 15 shapes up to 5x5 (thorough all 25), scaled by 1, 2^-3 and 2^33, for three component types and mixed operand types, in gcc, clang and -O3 builds; only values on which the arithmetic is exact.")
t("C24", SE, "All pairs of basis elements and of 10-20 probe quaternions (3700 cases), scaled by 1, 2^-3 and 2^33, for three component types and mixed operand types in four builds; only values on which the arithmetic is exact.")
t("C23", SE, "Every transform with probe and basis prior matrices, ten rational axes, eight Pythagorean angles and whole turns, all chains of two and three transforms applied to points, and corners and further points of off-centre volumes in both handednesses and both configured defaults (8500 cases), three component types, five builds; results are compared as exact fractions within a small rounding tolerance.")
t("C25", GR, "Every transition of three variables with up to 3 values each (thorough 4), names that are prefixes of each other, odd and long texts, passed as slices and unterminated texts, with the whole environment compared after every step, in three builds.")
t("C26", TV, "Every transition of three library objects over two libraries (thorough three) and long random histories, against a loader that records every call, in two builds; symbol lookups in closed objects are outside the contract.")
t("C27", TV + ", with every fault point of every operation", "All input and target lengths up to 4 (thorough 7) with every fault point, for pointers, scattered and reversed iterators, copied, moved and converted sources, iterator and range forms with sentinels, three allocators, and nested arrays; only constructions of elements throw.")
t("C28", GR, "Every transition of three neighbouring slots for 13 element types (odd sizes, over-aligned, self-referring, overloaded &), seven alignments up to 4096, on the stack, in arrays, as members, static, on the heap and nested, in three builds.")
t("C29", SE, "All values of the 8 and 16 bit types, one and two bit patterns, runs of bits, their complements and all low and high patterns of the wider ones (up to 128 bits), for 21 types in four builds; all 24 combinations of like-forwarding.")
t("C30", "values computed in TLA+ (48-decimal fixed point) judge recorded results (TLC)", "All 32 constants in three precisions within one unit of the last place of values the specification computes from series and checks by defining equations; 2300 results (thorough 15000) of the eleven functions for seven argument types, near poles, multiples of pi/2 and the ends of domains, within four units; direct functions for |x| < 10^6.")
t("C31", "cases enumerated with their results by a TLA+ specification (TLC) and compiled", "200 sets of requested levels (thorough all 1024) in several ways of requesting them, 60 combinations of target flags in gcc and clang as the compilers themselves understand them, and 4400 (thorough more) pairs of masks; x86-64 only.")
t("C32", "cases enumerated with their results by a TLA+ specification (TLC) and compiled", "8000 predicates over 40 base types and 16 enumerations with all qualifications and references, library and home-made tuple-likes with 0-4 elements and one missing piece, 360 allocators and 60 iterators, in gcc and clang.")
t("C33", "import sets and histories enumerated by TLA+ specifications (TLC) and replayed on programs that import", "Every set of up to two (thorough three) imports with a use of each of the 75 names; the histories of C01, C05, C12, C13, C14, C17, C20, C24, C28 and C30 (every fourth in quick runs) on programs that import xme; clang with libstdc++; names the modules do not export are not judged.")
t("C34", "histories enumerated by TLA+ specifications (TLC) and evaluated by the compilers as constant expressions", "The transitions and cases of C01, C07, C12, C13, C16, C17, C18-C24, C27 and C29 (about 3600 histories with 300000 steps; parts of the cases of find, reverse, matrices and long numbers are sampled in quick runs) in gcc or clang (thorough both); LinkedList, Delegate, AlignedData, SPSCQueue and <cmath> cannot be used in C++20 constants.")
t("C35", GR, "Every transition of two arrays of up to 3 (thorough 4) elements over three arenas, with every block and element attributed to its arena, for two element types and allocators with and without their own construct and destroy, in three builds; allocators that propagate.")
t("C36", "cases enumerated with their results by a TLA+ specification (TLC) and compiled", "Seven processors and five platforms as clang's 30 targets, and gcc, with each standard library (as the macros that identify it) and language standard, headers in random orders; 64-bit ARM's place is left open.")
t("C37", "sequences of headers enumerated with the names they offer by a TLA+ specification (TLC), compiled, linked and run", "Each of the 57 headers alone and six (thorough forty) orders of all of them, in gcc and clang, linked into one program each that uses every name; 150 (thorough all 3000) ordered pairs compiled.")
t("C38", GR, "Every transition of lists, arrays (up to 6 and 5 elements), heaps of up to 200 elements under rising, falling and random values (thorough 9, 8, 400), views of up to 9 cells and the queue, with each element on a page of its own that is taken away before the operation; in two builds. Logarithmic means at most two elements and three comparisons per level, and a constant.")
t("C39", "cases enumerated with their possible outcomes by a TLA+ specification (TLC) and run on the real queue stopped after each machine instruction (single-stepping)", "Capacities 2, 4 and 8 (8 sampled in quick runs), every fill level and wrap position, every operation stopped after each of its instructions, up to two (thorough three) operations of the other side there; two element types, both storage policies, gcc and clang; sequentially consistent memory (C09 judges the weaker orders).")
t("C40", "cases enumerated with their permitted outcomes by a TLA+ specification (TLC), compiled and run", "All combinations of 1-3 components, each of which throws in nothing, in only the operation concerned, or in everything else, with each throwing in turn, for 24 operations on pairs, tuples, bound functions, delegates and sequences, in gcc and clang. The heap's comparisons and swaps are taken not to throw.")
t("C41", "cases enumerated with their results by a TLA+ specification (TLC) and run on the real classes", "62 algorithms and views on all sequences of up to 4 (thorough 5) elements of three values and some of 17, 40 and 100, from std, std::ranges and range-v3, for 17 kinds of sequences, numbers and words, in clang and, for numbers, gcc (thorough both for both).")
t("C42", "cases enumerated with their results by a TLA+ specification (TLC) and run on containers of each kind", "All 165 kinds of containers (five iterator categories, three kinds of ends, mutable, constant or both iterations, elements or values, own size), every member, mutable and constant, lengths up to 4 (thorough 7), in gcc and clang, at run time and as constants.")
t("C43", GR, "Every transition of two threads with an object of up to 2 (thorough 3) elements each and a shared constant one, for 13 kinds of objects, each operation of one between operations of the other that nothing orders, under ThreadSanitizer (g++); a control with a real race must be reported in every run.")
