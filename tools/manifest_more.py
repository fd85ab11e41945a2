CHECKS.update({
 "P10": ("explicit-state exploration of clone/insert/drop histories over families of copy-on-write trees", MC, "Every tree of the family is compared with its own list model after every step, by lookup and by iteration from both ends; includes allocators that reuse freed addresses." + COMMON),
 "P11": ("explicit-state exploration; the set of copied slices of every insertion compared with the sharing model", MC, "Clone calls and slice addresses are logged; the nodes on the path come from an independently derived shape." + COMMON),
 "P13": ("explicit-state exploration of histories with an ownership ledger and a checking allocator", MC, "After every step the live slices must be exactly those the trees hold; at the end no block of memory may remain." + COMMON),
 "P14": ("exhaustive fault injection: a panic at every call of user code of every operation at every tree shape, followed by every way of going on", "fault_enumeration", "The harness keeps a ledger of slices by serial number; workers that die are reported with the probe they were running; repeated in a build without debug assertions." + COMMON),
 "P15": ("explicit-state exploration of reference/insertion histories compared with a list model that carries reference identities", MC, "References are checked after every later insertion for range, value, validity and cursor." + COMMON),
 "P16": ("explicit-state exploration of all orders of creating, using and dropping references, borrows and the tree against a reference-state machine", MC, "Actions are enumerated to a bounded depth; the specification is a small state machine over the list model." + COMMON),
 "P17": ("explicit-state exploration with every kind of refused call at every reachable state", MC, "The trees are compared before and after, and used further." + COMMON),
})
CHECKS.update({
 "P18": ("explicit-state exploration of all tree shapes and of all short item sequences with a failing deserializer at every point", MC, "Round trips through an own minimal serializer and through JSON; live slices are counted after every failure." + COMMON),
 "P19": ("exhaustive enumeration of all pairs of ranges over a small domain in every notation against membership by definition", MC, "Six index values suffice for every relative order of four bounds. Exhaustive within the stated bounds; nothing is said about comparison operators that are not total orders."),
 "P20": ("explicit-state exploration of tree shapes with counted index arithmetic, slice callbacks and touched node pages per operation", MC, "Bounds are calibrated as small multiples of width times height; trees of up to several hundred slices in addition to all small shapes; memory pages touched are counted by protecting them." + COMMON),
 "P21": ("explicit-state exploration of all ranges, step orders and early drops on all small shapes against a list model", MC, "Draining is not implemented on this tree (known findings); the check decides that each drain fails in exactly the recorded way or behaves as specified." + COMMON),
 "P22": ("explicit-state exploration of two-thread histories for the demands on values, and exhaustive enumeration of the configurations of marker traits judged by them", MC, "Histories are executed on the real tree by turns; the compiler answers for 548 types. Exhaustive within the stated bounds."),
})
CHECKS.update({
 "P12": ("stateless exploration (loom) of all schedules and permitted atomic reads of the real sources compiled against a modelled std", MC, "The sources of /repo are compiled unchanged with a std whose atomics, fences, allocation and NonNull accesses are modelled; every access to a node is checked for races, uses after free and leaks. Bounded number of threads, operations and preemptions; memory orderings as far as loom models them."),
})
CHECKS.update({
 "P23": ("explicit-state exploration of all short programs over what can be got from a tree: the compiler's verdict on each, and execution of each accepted one, against a lifetime model", MC, "About 150,000 programs in the quick tier are compiled by the stable toolchain and by nightly with the feature `nightly`; accepted ones run with tables of what is still alive. Exhaustive within the stated bounds on events and things got from the tree."),
})
CHECKS.update({
 "P24": ("explicit-state exploration of all operations on all small tree shapes, with every fault of user code at every call, executed in an interpreter (Miri) that checks every memory access", MC, "The program executed is safe code only, linked with the sources of /repo without debug assertions. Stacked Borrows throughout, Tree Borrows for a part; one choice of addresses per execution, which reuses freed ones. Exhaustive within the stated bounds."),
})
