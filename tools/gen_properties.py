#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(obs), hook_needed=hook))

INS = "src/tree/insert.rs"; FIX = "src/tree/fix.rs"; NODE = "src/tree/node.rs"; MOD = "src/tree/mod.rs"
ITER = "src/tree/iter.rs"; REF = "src/tree/slice_ref.rs"; COW = "src/tree/cow.rs"; ENT = "src/tree/entry.rs"
CUR = "src/cursor.rs"

props = [
P("P01", "Insertion behaves like insertion into a plain sequence of runs",
  "After any sequence of insertions into a tree, its slices read in order, with their ranges, sizes and values, are exactly what performing the same insertions on a plain list of runs gives: a run strictly containing the insertion point is split there, the new run goes in (merged with the neighbours it joins with), and everything behind it shifts by its size. The total size and the number of slices always agree with that list.",
  ["histories", "inputs", "configurations"],
  "every sequence of insertions (position at a boundary or inside a run, joining or not with the left/right side, any size), for every minimum node width, with each of the three feature configurations",
  "The unit tests replay about 25 recorded insertion histories; the ways a node split, a bubbled-up key and a size shift can combine over several levels are far more numerous and the fuzzers only sample them.",
  [INS, FIX, NODE, MOD],
  [("search for the insertion point", INS + " find_insertion_point"), ("edge insertion with joins, key splitting, node splitting, bubbling", INS), ("shift of positions behind a change", FIX + " shift_keys, OpUpdateState")],
  [("key positions", "node-relative start of every slice", NODE), ("len", "number of slices", MOD)],
  ["RleTree::insert", "RleTree::iter", "RleTree::size", "RleTree::number_of_slices"]),
P("P02", "The tree stays balanced and its nodes within their width",
  "In every reachable tree all leaves are at the same depth, every node except the root holds at least the configured minimum and at most twice that many slices, an interior node has exactly one more child than slices, and stored sizes and positions are consistent with the slices below them. Hence the height stays logarithmic in the number of slices.",
  ["histories", "configurations"],
  "every sequence of insertions of every kind, for every minimum node width, including trees reached through clones",
  "Balance after a split depends on which of about a dozen split cases is hit at every level; tests visit a few of them for three node widths.",
  [INS, NODE, MOD],
  [("choice of the split point", INS + " do_insert_full_edge_no_join_split, BubbledInsertState::do_upward_step"), ("node split", NODE + " split"), ("self-check", MOD + " validate")],
  [("node length / height / parent index", "shape of the tree", NODE)],
  ["RleTree::cursor_to", "RleTree::validate"]),
P("P03", "Lookup by index returns the slice containing the index",
  "For every index below the total size, looking it up returns the slice that contains it, together with that slice's exact range and size, and never disturbs the tree. Every other index is refused by a panic that leaves the tree untouched.",
  ["inputs", "histories", "configurations"],
  "every index (each boundary, interior and out-of-range one) in every reachable tree shape of every configuration",
  "Tests look up few indexes in few trees; off-by-one errors at one boundary at one depth survive them.",
  [MOD, "src/tree/node.rs", ENT],
  [("search in one node", MOD + " search_step"), ("descent with relative targets", MOD + " get_with_cursor")],
  [], ["RleTree::get", "SliceEntry::range/size/slice"]),
P("P04", "Iterating a range yields exactly the overlapping slices, from both ends",
  "Iterating over any valid range of indexes yields exactly the slices overlapping that range, each once, in order from the front and in reverse order from the back, whatever the mix of front and back steps, and then nothing more. Ranges whose start lies after their end or which reach beyond the tree are refused by a panic as documented, and empty prefixes give an empty iterator.",
  ["inputs", "histories", "configurations"],
  "every pair of bound kinds and positions, every interleaving of front and back steps, every reachable tree shape, including copy-on-write trees sharing nodes",
  "Range bounds, step order and tree shape multiply; the tests run a few dozen hand-picked combinations.",
  [ITER, "src/range.rs"],
  [("double-ended traversal state", ITER + " Iter::new, fwd_step, bkwd_step"), ("range checks", ITER + " Iter::new, src/range.rs")],
  [("traversal stack", "path override for nodes whose parent link points to another tree", ITER)],
  ["RleTree::iter", "Iter::next", "Iter::next_back"]),
P("P05", "Path hints never change any result",
  "Passing any cursor as a hint, whether accurate, stale, too long, too short or taken from another tree, to lookup, iteration or insertion gives exactly the same result as passing none.",
  ["inputs", "histories"],
  "every hint path up to one level longer than the tree over valid and invalid child numbers, with every operation and target position, in every reachable tree shape",
  "Tests almost always pass the empty hint; a wrong hint accepted at one level sends the operation to a wrong place only for specific paths.",
  [CUR, MOD, INS, ITER],
  [("hint validation during descent", MOD + " search_step, get_with_cursor"), ("hint use in insertion", INS + " find_insertion_point")],
  [], ["get_with_cursor", "iter_with_cursor", "insert_with_cursor"]),
P("P06", "Cursors handed out describe the real path to the slice",
  "A cursor obtained from an insertion, from a lookup of an index, from an iteration entry or from a slice reference lists exactly the child numbers on the way from the root to the node that holds the slice. The bounded cursor returns the components it was given, in order from the root, keeping those nearest the root when more are given than fit.",
  ["histories", "inputs", "configurations"],
  "every slice of every reachable tree shape, every insertion (also joining ones), copy-on-write trees with shared nodes, every cursor capacity and path length",
  "Wrong cursors only cost time, so no test that checks results can notice them; the tests compare two cursors with each other in four recorded histories.",
  [CUR, INS, FIX, MOD, ENT, REF],
  [("path built while going up after an insertion", INS + "/" + FIX + " cursor_builder"), ("path from a slice", ENT + " cursor"), ("path by index", MOD + " cursor_to"), ("bounded buffer", CUR + " BoundedCursor")],
  [], ["insert_with_cursor", "cursor_to", "SliceEntry::cursor", "SliceRef::cursor", "BoundedCursor"]),
P("P07", "Joining and splitting follow the documented protocol",
  "Every insertion offers the new slice to each neighbour it touches exactly once, left neighbour first and always with the left part as the receiver, and keeps exactly the joins that succeed; slices that declare they never join are never offered. A slice is split at most once per insertion and only at an offset strictly inside it, so that a tree of equal-value runs never holds two equal neighbours.",
  ["histories", "inputs"],
  "every insertion at every boundary or inner position of every reachable shape, with every combination of joining or not joining on either side",
  "Tests use one slice type with equality joins; missing, doubled or reversed offers are invisible with it or need a particular level difference between the neighbours.",
  [INS, "src/lib.rs", "src/public_traits.rs"],
  [("join on both sides", INS + " do_insert_full_edge_try_join, do_insert_full_split_key"), ("neighbours tracked during descent", INS + " AdjacentKeys")],
  [], ["Slice::try_join", "Slice::split_at"]),
P("P08", "Index types with order-sensitive arithmetic get correct positions",
  "With any index type that obeys the documented laws of directional arithmetic, including ones for which addition is not commutative, every range, size and position the tree reports equals the in-order sum of the slice sizes concerned.",
  ["inputs", "histories"],
  "every sequence of insertions and every query, with a lawful non-commutative index type",
  "All tests use unsigned integers, for which every mix-up of left and right addition or subtraction gives the same number.",
  [FIX, INS, MOD, ENT, ITER, "src/public_traits.rs"],
  [("directional shifts", FIX + " shift_keys"), ("directional sums in search and iteration", MOD + ", " + ITER)],
  [], ["RleTree::get", "RleTree::iter", "SliceEntry::size", "SliceRef::range"]),
P("P09", "Cloning a plain tree gives an independent equal tree",
  "Cloning a tree without features yields a tree with the same slices, shape and sizes; from then on, nothing done to either of the two, including dropping it, is visible in the other.",
  ["histories"],
  "every reachable shape, every later insertion into either copy, and both drop orders",
  "One test clones one small tree and never changes it afterwards.",
  [NODE, MOD], [("recursive copy", NODE + " deep_clone")], [], ["Clone for RleTree<_, _, NoFeatures, _>"]),
P("P10", "Copy-on-write clones never see each other's changes",
  "Whatever sequence of clones, insertions and drops is applied to a family of copy-on-write trees, each tree always reads, by lookup and by iteration from either end, exactly as if it had been a separate full copy from the start.",
  ["histories"],
  "every interleaving of clone, insert (any kind and place) and drop over a family of trees starting from every reachable shape",
  "Four recorded histories exist; stale parent links in shared nodes only matter for particular sequences of forks.",
  [NODE, COW, INS, ITER, MOD],
  [("path copying", NODE + " make_unique, into_child, shallow_clone"), ("tolerance of stale parent links", ITER + " IterStack, " + MOD + " cursor_to")],
  [("parent link of a shared node", "may belong to another tree", NODE)],
  ["Clone for RleTree<_, _, AllowCow, _>", "insert", "get", "iter"]),
P("P11", "Copy-on-write copies only the path to the change",
  "Cloning a copy-on-write tree copies no slice; an insertion into it copies only slices in nodes on the way to the insertion point that are shared with another tree, and none when nothing is shared. All other nodes remain shared between the trees.",
  ["histories"],
  "every insertion after every fork of every reachable shape",
  "Copying too much is invisible to tests that compare contents.",
  [NODE, COW], [("uniqueness test before copying", NODE + " ensure_unique"), ("reference counts", COW)], [], ["Clone::clone of the slice type", "address of the slice behind SliceEntry::slice"]),
P("P12", "Copy-on-write trees are safe to use from several threads at once",
  "When threads concurrently clone, read, change and drop copy-on-write trees that share nodes, in any interleaving and under the memory model's reorderings, every tree reads as if it were a separate copy, no slice is read while another thread changes or frees it, and each slice is freed exactly once.",
  ["schedules"],
  "every interleaving, and every behaviour the ordering of the atomic operations permits, of two or three threads performing one to three operations each on trees sharing nodes",
  "No test uses more than one thread.",
  [COW, NODE], [("atomic reference count", COW + " increment/decrement/is_unique"), ("copy when shared", NODE + " ensure_unique")],
  [("strong count", "number of trees or nodes owning a node", NODE)],
  ["RleTree<_, _, AllowCow, _> across threads"],
  "the atomic counter must be replaceable by a modelled one (cfg-guarded)"),
P("P13", "Every slice is released exactly once and nothing leaks",
  "Over the life of any family of trees, clones, slice references, borrows and iterators, each slice value handed in or cloned is dropped exactly once, either by merging into another or when its last owner goes away, and all memory is returned.",
  ["histories"],
  "every history of insertions, clones, references, borrows and drops in any order of dropping, in every configuration",
  "Tests do not count drops or allocations except in one panic test.",
  [NODE, MOD, REF, INS],
  [("recursive drop", MOD + " Drop, " + NODE + " drop"), ("moves during split and bubbling", NODE + " split, insert_key_and_child"), ("store released by the last of tree, reference and borrow", REF)],
  [], ["Drop of the slice type", "global allocator"]),
P("P14", "A panic in user code never corrupts memory",
  "If any user-supplied operation (join, split, clone, drop, index arithmetic or comparison, cursor method) panics at any point of any tree operation, then no slice is ever dropped twice or read after having been dropped or moved away, now or in any later use or drop of the trees involved, and other trees sharing nodes are unaffected.",
  ["fault_sequences", "histories"],
  "a panic injected at every single call into user code, for every operation kind, in every reachable shape, followed by reads and drops",
  "One test panics in one clone call of one history.",
  [INS, NODE, MOD, FIX],
  [("holes left while a slice is taken out", NODE + " take_value_and_leave_hole, fill_hole, is_hole"), ("owning boxes for nodes under construction", NODE + " NodeBox, SharedNodeBox")],
  [("hole marks", "slots of a node without a value", NODE)],
  ["user callbacks"]),
P("P15", "A slice reference follows its slice through every insertion",
  "A reference to a slice, made at insertion or later, keeps denoting that slice (its left part if the slice is split, the merged slice if it is joined) through every later insertion anywhere in the tree: its range, value, validity and cursor are those of the slice's current place.",
  ["histories"],
  "every subset and creation order of references, every later insertion history over every reachable shape, including trees moved in memory",
  "Four recorded histories hold a handful of references.",
  [REF, NODE, INS, FIX, "src/recycle.rs"],
  [("handle update whenever a slice moves", NODE + " refs arrays, " + REF + " SliceRefStore"), ("locating the new slice across splits", FIX + " TraverseUpdate::apply_to_ref")],
  [("stored handle", "node and position for each reference", REF)],
  ["insert_ref", "SliceEntry::make_ref", "SliceRef::range", "SliceRef::borrow_slice"]),
P("P16", "Slice references and borrows are safe in every order of use and drop",
  "References and borrows may be created, cloned, mapped, used and dropped in any order relative to each other and to the tree: a borrowed slice stays readable until the borrow ends even if the tree is dropped, references answer as invalid once the tree is gone, changing the tree while something is borrowed is refused by a panic that changes nothing, and it is possible again once the last borrow has ended.",
  ["histories"],
  "every sequence of make, clone, borrow, clone-borrow, map, read, insert, drop-reference, drop-borrow and drop-tree operations up to a depth",
  "Tests never clone a reference to a dropped tree, never keep a borrow across a drop, and cover one refused insertion.",
  [REF], [("borrow counting", REF + " BorrowState"), ("hand-over of the tree to the last borrow", REF + " ShouldDrop")],
  [("borrow state", "not borrowed, borrowed n times, mutably borrowed, dropped while borrowed", REF)],
  ["SliceRef", "Borrow", "Drop for RleTree"]),
P("P17", "Refused operations leave everything as it was",
  "An insertion beyond the end or of a non-positive size, a construction with a non-positive size or an unsupported node width, and an insertion that meets an outstanding borrow are refused by a panic; the tree, its clones and its references then read and work exactly as before, and the offered slice is dropped exactly once.",
  ["inputs", "histories"],
  "every refused argument against every reachable shape and configuration, followed by further operations",
  "One test hits one refusal; none continues to use the tree afterwards.",
  [INS, MOD, REF], [("argument checks before any change", INS + " insert_internal, " + MOD + " new")], [], ["RleTree::insert", "RleTree::new", "RleTree::new_empty"]),
P("P18", "Serialized trees read back as equal trees, and bad data is an error",
  "Serializing any tree gives the sequence of its (size, value) pairs in order and deserializing that gives a tree with the same runs. Deserializing any other data gives either a tree holding exactly the listed runs or an error, never a panic or a leak.",
  ["inputs", "configurations"],
  "every reachable tree of each configuration, and every short sequence of items including non-positive sizes, joinable neighbours and a deserializer error at every point",
  "No test serializes anything.",
  ["src/serde.rs", ENT], [("sequence form", "src/serde.rs")], [], ["Serialize", "Deserialize"]),
P("P19", "The range helpers agree with the sets of indexes they denote",
  "For every combination of inclusive, exclusive and missing bounds, containment, emptiness, being inverted and overlap, as reported by the range type, agree with the definition over the set of indexes denoted by the bounds, for owned, borrowed and standard-library ranges alike.",
  ["inputs"],
  "every pair of ranges over a small index domain with every bound kind",
  "One documentation example.",
  ["src/range.rs"], [("bound comparisons", "src/range.rs RangeBounds")], [], ["RangeBounds"]),
P("P20", "Operations cost time logarithmic in the number of slices",
  "Each insertion, lookup, cursor construction, reference query and iteration step performs a number of index comparisons and additions bounded by a constant times node width times tree height, and never touches the slices it does not concern; cloning a copy-on-write tree takes constant time.",
  ["inputs", "histories"],
  "every operation at every position of every reachable shape",
  "Tests do not measure work.",
  [INS, FIX, MOD, NODE, REF], [("relative positions", FIX), ("descent", MOD + " search_step")], [], ["calls to the index type's arithmetic and comparison"]),
P("P21", "Draining a range removes and yields exactly that range",
  "Draining a range yields, from either end, exactly the parts of the slices inside the range, split at its two ends; afterwards, also when the drain is dropped early, the tree holds exactly the rest and nothing leaks.",
  ["inputs", "histories"],
  "every range and every mix of front and back steps on every small tree",
  "No test drains anything.",
  ["src/tree/drain.rs"], [("drain iterator", "src/tree/drain.rs")], [], ["RleTree::drain"]),
P("P22", "Trees cross threads only in configurations where that is sound",
  "A tree is sendable to, or shareable with, another thread exactly when nothing that can then be done with it safely moves, drops or reads a slice or index on a thread where that value's own type forbids it. In particular copy-on-write trees require sendable and shareable values for both, and trees with slice references, references and borrows never cross threads.",
  ["configurations"],
  "every feature configuration and every combination of sendable/shareable index and slice types",
  "No test asks for the marker traits.",
  ["src/param.rs", MOD, REF], [("marker bounds", "src/param.rs RleTreeIsSend")], [], ["Send", "Sync"]),
P("P23", "Safe programs cannot reach slices, or data they borrow, that are gone",
  "Whatever the order in which trees, their entries, iterators, slices, references, borrows and the data that slices or indexes themselves borrow are declared, used, changed, forgotten and dropped, no program the compiler accepts sees or drops a slice after it is gone or lets a slice or index see data that is gone, with and without the `nightly` feature. Programs in which nothing is used after it is gone are accepted: a slice may outlive its entry, a reference the tree, and with `nightly` a tree the data its slices borrow, if they do not look at it when dropped.",
  ["configurations", "histories"],
  "every small program over everything that can be got from a tree, compiled and executed",
  "Tests only contain programs that are accepted, and never let borrowed data end first.",
  [MOD, REF, "src/tree/entry.rs", "src/tree/iter.rs"], [("drop check", MOD + " Drop for RleTree"), ("lifetimes of borrows", REF + " Borrow")], [], ["lifetimes in signatures", "#[may_dangle]"]),
P("P24", "No undefined behaviour, whatever the history and whatever user code does",
  "Whatever sequence of safe calls is made, in builds without debug assertions too, and also when the slices' and indexes' own code panics, compares, adds or joins wrongly, or uses other trees in the middle of an operation, every access to memory goes to live, initialised, properly aligned memory through a pointer that is entitled to it, and no value is created that its type forbids.",
  ["inputs", "histories", "fault_sequences"],
  "every operation on every small tree, and every fault at every call of user code, executed by an interpreter that checks each memory access",
  "Tests pass on undefined behaviour as long as the compiler happens to do what was meant; none run with wrong user code.",
  [NODE, INS, FIX, MOD, REF, "src/tree/iter.rs", "src/const_math_hack.rs", "src/recycle.rs"], [("unsafe accesses to nodes", NODE), ("copy-on-write parents", "src/tree/iter.rs IterStack")], [], ["all safe operations", "Index and Slice implementations"]),
]
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
