prop("L01", "Lists stay a faithful doubly linked sequence that owns its links",
     "Every List operation leaves a chain whose forward and backward links mirror each other, whose head, tail and length agree with it, and whose "
     "elements are exactly those the operation promises in the promised order (insertion at either end, removal of any one element, copy, move, "
     "assignment, clearing), with iterators stepping along that order. Every link is created once, belongs to exactly one list, and is destroyed "
     "and released exactly once to the allocator it came from, before that allocator is gone. A source that is copied is left unchanged; a source that is moved from is left empty.",
     ["inputs", "histories"], "all lists of any length, all positions, all element types with arbitrary special members, both allocator forms",
     "The list test builds one short list of integers with the default allocator and looks at forward iteration; removal of interior links, "
     "backward links, surplus links in assignment, element destruction and allocator pairing for other lengths are never observed.",
     ["containers/list.h", "hal/malloc_object.h"],
     [("pushBack/pushFront/remove/removeBack/removeFront/popBack/popFront", P + "containers/list.h"), ("empty/destroy/destroyLink", P + "containers/list.h"),
      ("copy and move construction and assignment", P + "containers/list.h")],
     "list.py", "shape analysis (list-segment abstract domain with widening) and element typestate over LLVM IR",
     "Proves the stated shape, content, length, lifetime and ownership conditions for lists of every length at each operation's exits, relative to the segment domain.",
     state=[("head, tail, length", "ends and number of links", P + "containers/list.h"), ("next, prev", "links of a node", P + "containers/list.h")])

TR = P + "containers/tree.h"
prop("T01", "Tree insertion and removal keep red-black shape, order and threads",
     "After inserting or removing any node of a binary tree of any shape, child and parent links mirror each other, every path carries the same number of black nodes, "
     "no red node has a red child and the root is black. The in-order sequence is the old one with exactly the operation's own change applied, and the next/previous "
     "threads of every node step along that sequence. Removal hands back the node that left the tree and the node that now follows the removed element.",
     ["inputs", "histories"], "all red-black trees of any size and shape, any node, any element type and ordering",
     "The tree test inserts a few integers and looks at the resulting order; which rebalancing case runs depends on the whole history of colours, and "
     "threads in the backward direction and black heights are never looked at.",
     ["containers/tree.h"], [("rotateLeft/rotateRight", TR), ("repairInserted/repairRemoved", TR), ("BinaryNode::insert/insertUnique/remove", TR)],
     "tree.py", "local shape analysis of threaded red-black trees (lazy materialisation, symbolic black heights, assume-guarantee contracts for recursion) over LLVM IR",
     "Discharged for trees of every size: recursion is cut by the same contract the obligation proves.",
     state=[("parent, left, right", "tree links", TR), ("next, prev", "in-order threads", TR), ("color", "red or black", TR)])
prop("T02", "A binary tree's root, count, nodes and copies always agree",
     "After any operation of a binary tree the root is the top node (or none), the reported number of nodes is the number stored, and the operation's result refers to the element "
     "inserted, found or following the removed one; unique insertion never stores an equal element twice and replacement overwrites the equal one. Every node is created by the "
     "tree's allocator, and destroyed and returned to it exactly once, before that allocator is gone. Copies mirror elements, shape, colours and threads of an unchanged source; "
     "a moved-from tree is left empty.",
     ["inputs", "histories"], "all trees of any size, all elements and keys, both allocator forms, copy/move between any two trees and self-assignment",
     "Tests copy one small integer tree; leaked or doubly released nodes, the root after a rotation at the top, the count after removing the last node and threads of a copy are not observed.",
     ["containers/tree.h", "hal/malloc_object.h"], [("BinaryTree::insert/insertUnique/replace/remove", TR), ("cloneSubtree/destroySubtree", TR), ("copy/move construction and assignment", TR)],
     "tree.py", "shape and typestate analysis over LLVM IR, using the node-level contracts proved for T01/T03",
     None, state=[("root", "top node", TR), ("numNodes", "number of nodes", TR), ("malloc", "allocator of the nodes", TR)])
prop("T03", "Tree searches, extremes, sizes and iterators follow the ordering",
     "Looking up a key returns a node that compares equal, and reports a miss only when the ordering rules out that any node of the tree matches; first/last match, minimum, maximum, root and size are exact. "
     "Incrementing or decrementing an iterator moves to the in-order neighbour and dereferencing it gives that node's element. No lookup changes the tree or its elements.",
     ["inputs"], "all trees of any size, all keys, all orderings",
     "The test looks up a handful of integers in one tree with the natural ordering; direction mistakes for duplicate keys, the node before the first match or backward steps go unseen.",
     ["containers/tree.h"], [("find/findMin/findMax", TR), ("getMin/getMax/getRoot/getTreeSize", TR), ("TreeIteratorBase", TR)],
     "tree.py", "search-path dataflow over a materialised tree fragment with comparison facts, on LLVM IR", None)

SE, MP, PA = P + "containers/set.h", P + "containers/map.h", P + "containers/pair.h"
prop("S01", "Set comparison and set algebra agree with membership",
     "Equality, inclusion and strict inclusion of two sets hold exactly when membership says so, for every two sets including a set and itself. Union, intersection and difference, in place or as "
     "a new set, leave exactly the elements the operation names, return the set they changed, and leave the other operand untouched. No operation reads or releases an element that is already gone.",
     ["inputs"], "all pairs of sets of any size in any interleaving of their elements, and each set with itself",
     "The set test compares a few small integer sets; one set running out first, sets that differ only at one end, empty operands and aliasing operands depend on how the two orders interleave.",
     ["containers/set.h"], [("operator==, <=, >=, <, >", SE), ("operator+=, *=, -=", SE), ("operator+, *, -", SE)],
     "set.py", "abstract interpretation of the merge loops over LLVM IR: sets as ordered sequences materialised along the threads, order facts closed transitively, membership classes of forgotten prefixes", None)
prop("S02", "Set look-ups and updates report and change exactly what matches",
     "Membership queries for one, any or all of several keys are true exactly when the set holds matching elements, and hand out the stored element only on success. Adding elements stores each given "
     "one once and returns the stored element; removing a key removes one matching element, hands it out when asked and reports whether anything was removed. Sizes and iterators describe the stored elements and queries change nothing.",
     ["inputs"], "all sets, all keys, any number of keys", "The test asks for a handful of integers; the order of keys within a query, const variants and handed-out values are not covered.",
     ["containers/set.h"], [("get/any/all", SE), ("set/remove", SE), ("begin/end/getSize", SE)],
     "set.py", "abstract interpretation over LLVM IR with the tree's proved contracts as summaries", None)
prop("M01", "Maps hold one value per key and pairs order by their key",
     "Indexing a map yields the value stored under the key, adding a default value only when the key is absent; inserting overwrites the value of an equal key and otherwise adds the pair; finding, testing, removing and popping act on exactly "
     "the pair whose key matches, hand out its value, and report truthfully whether there was one. Tree shape, root, count, order of keys and ownership of pairs stay correct throughout. Pairs compare by key alone, consistently across all operators.",
     ["inputs", "histories"], "all maps of any size, all keys and values of any type",
     "The map test uses a few keys; values separated from keys on removal of inner nodes, the root after an indexed insertion, moved-from keys and pair lifetimes are not observed.",
     ["containers/map.h", "containers/pair.h"], [("operator[]", MP), ("insert/find/has/remove/pop", MP), ("Pair comparison and FindPair", PA)],
     "map.py", "search-path dataflow and shape/typestate analysis over LLVM IR, with the node-level contracts proved for T01/T03", None)
AR = P + "containers/array.h"
MEMH = P + "generic/generic_platform_memory.h"
prop("A01", "Arrays hold exactly their elements, each alive once",
     "After every Array operation (construction from capacity, buffer, static array, copy or move; assignment; insertion of one or several items at any position, also past the end; "
     "removal and popping of any range; clearing, resetting, growing on access) the positions below the count hold exactly the specified sequence of live elements and no position beyond holds one. "
     "Elements are only constructed in raw storage, only live ones are assigned, read or destroyed, every element is destroyed exactly once, every access stays inside the buffer, capacity never "
     "promises more than the buffer holds, a reset gives the buffer back, and each buffer is returned once to the allocator it came from before that is gone. Iterators, indexing and size queries agree with that sequence. "
     "Preconditions: removal and indexing stay within the count, and an inserted item is not an element of the array itself.",
     ["inputs", "histories"], "all lengths, capacities, positions and item counts; element types with arbitrary special members and plain ones; null and filled buffers; self copy-assignment",
     "Tests use short arrays of integers; positions past the end, growth with non-trivial elements, leaked or doubly destroyed elements, and out-of-range writes are not observed.",
     ["containers/array.h", "hal/malloc_object.h"],
     [("insertAt/insertFirst/insertLast", AR), ("removeAt/removeLast/pop*", AR), ("resizeIfNecessary", AR), ("copy/move construction and assignment", AR)],
     "array.py", "backward reaching-effect analysis per symbolic slot (array dataflow with linear index constraints) over summarised loops of the LLVM IR",
     "Holds for every length and index relative to exact loop summaries; operations whose loops cannot be summarised are reported undecided.",
     state=[("buffer, capacity, count", "storage and number of elements", AR)])
prop("A02", "Memory helpers construct, copy, move and destroy exactly their range",
     "The element helpers default construct, copy construct, copy assign, move and destroy exactly the elements of the given range, in an order that is right for overlapping ranges where overlap is allowed, "
     "with whole elements, never touching a neighbour, for element types with arbitrary special members as well as plain ones; the block copy that may overlap is never used where ranges may overlap.",
     ["inputs"], "all ranges, lengths and relative positions of source and destination; both element kinds",
     "No test calls these helpers directly; overlapping upward moves of non-trivial elements never happen in the tests.",
     ["generic/generic_platform_memory.h", "hal/platform_memory.h"],
     [("constructDefaultElements/constructCopyElements/copyElements/moveElements/destroyElements", MEMH)],
     "array.py", "backward reaching-effect analysis per symbolic slot over summarised loops of the LLVM IR", None)
ST = P + "containers/string.h"
PS = P + "generic/generic_platform_strings.h"
prop("R01", "String edits produce exactly the specified text, terminated in place",
     "Constructing, assigning, appending (characters, C strings, strings, the string itself or a part of it, numbers), formatting, printing over, taking substrings and splicing strings leave exactly the specified "
     "sequence of characters followed by a terminator at the reported length, inside a buffer of sufficient size that belongs to the string. No character outside a buffer is read or written, no text of any length "
     "is cut, numbers are rendered with the conversion of their own type, arrays and lists are printed with every element once and in order (\"[a, b]\", \"[ a-> b ]\"), the source of an edit stays unchanged, and no buffer is lost or released twice. Preconditions: substring and splice ranges lie inside the string.",
     ["inputs", "histories"], "all strings of any length and content, all positions and lengths, sources that are part of the edited string itself",
     "Tests edit short literals; formatted text longer than a fixed buffer, a source that is the string itself, ranges that end at the end, and writes beyond the buffer are not observed.",
     ["containers/string.h", "containers/array.h"],
     [("constructors, appendString, appendFormat, printString, printFormat, format", ST), ("substr, splice", ST), ("operator+=, +, <<=", ST)],
     "strings.py", "backward reaching-effect analysis per symbolic character position over summarised loops of the LLVM IR, with formatted output modelled as an opaque text", None,
     state=[("array", "characters and terminator", ST)])
prop("R02", "String searches, comparisons and case conversions match their definition",
     "Searching for a character, C string or string from any start returns the first position where it occurs, or -1 only when no position matches; finding all occurrences reports each once in order, including overlapping ones; "
     "replacing all replaces each occurrence, going on after the replacement. Comparisons return zero exactly for equal strings and otherwise the difference of the first characters that differ (ignoring case where asked), "
     "stopping at the terminator or the given range; the relational operators agree with that. Case conversions change exactly the letters of the other case. Nothing outside the strings is read and the operands stay unchanged. "
     "Comparisons and patterns treat strings as C strings (no embedded terminator).",
     ["inputs"], "all strings, patterns, start positions and ranges",
     "Tests search and compare a few literals; matches at the last position, overlapping matches, starts past the end, prefixes and letters at the edge of the alphabet are not covered.",
     ["containers/string.h", "generic/generic_platform_strings.h"],
     [("findIndex/findAll/replaceAll", ST), ("cmp/icmp/operators", ST), ("PlatformStrings::cmp/icmp/cmpn/icmpn/getLength", PS), ("toLower/toUpper", ST)],
     "strings.py", "loop-summary dataflow over LLVM IR: positions compared by an arbitrary iteration, coverage of the searched range, equality facts of the characters passed over", None)
OPT = P + "templates/optional.h"
FNC = P + "templates/function.h"
prop("V01", "An Optional holds exactly one live value or none",
     "An Optional reports a value exactly when one is alive inside it, and hands out that value. Construction, copy, move, emplacement, value assignment and reset, from the empty and from the full state, leave the "
     "specified value (or none); values are constructed only where none lives, assigned only where one lives, and each is destroyed exactly once. Operands of a copy keep their value, values given up by the caller are "
     "moved rather than copied, and copies do not share storage. Precondition: the argument of emplace is not the value already held.",
     ["inputs", "histories"], "all value types with arbitrary special members, every operation from both states and self-assignment",
     "The unit test holds integers; double destruction or a lost value only shows with types that own something, in one particular transition between the two states.",
     ["templates/optional.h"], [("constructors, assignments, emplace, reset, destructor", OPT), ("operator*, operator->, hasValue", OPT)],
     "value.py", "typestate analysis of values per storage address, by abstract interpretation of the LLVM IR of every operation from every state",
     "Optional has two states (empty, full with an unknown value); every operation is analysed from each, so every history is covered by induction.",
     state=[("storage", "the value, if any", OPT), ("engaged", "whether a value lives in storage", OPT)])
prop("V02", "A Function owns its own copy of the callable and calls it faithfully",
     "A Function made from a callable (lvalue, rvalue, lambda or plain function) stores its own copy, so the original may go away. Calling it passes the given arguments on to that very object (references as references, values "
     "moved on) and returns its result, keeping the callable's state between calls. Copies hold a separate callable of equal state, moves and assignments transfer it, an empty function stays empty and says so. Each stored callable "
     "is destroyed exactly once and its memory released exactly once, with enough room for the object. Precondition: an empty function is not called.",
     ["inputs", "histories"], "all callable types with arbitrary special members, all signatures of the analysed shapes, every operation from both states and self-assignment",
     "No unit test copies, assigns or outlives a Function's source; sharing or leaking a callable is invisible to plain calls.",
     ["templates/function.h", "hal/malloc_ansi.h"], [("construction, copy, move, assignment, destructor", FNC), ("FunctionStorage::bind/bindCopy/unbind", FNC), ("FunctionCaller::call, invoke", FNC)],
     "value.py", "typestate and ownership analysis by abstract interpretation of the LLVM IR of every operation from every state, virtual calls resolved through constant vtables", None,
     state=[("callable", "the caller, null when empty", FNC), ("heap", "the owned callable", FNC)])
ATM = P + "templates/atomic.h"
UPA = P + "unix/unix_platform_atomics.h"
prop("C01", "Every atomic operation is one indivisible access",
     "Each operation of Atomic and of the platform atomics touches the shared value exactly once, by an indivisible access with at least the requested ordering (sequentially consistent unless relaxed is asked for; exchange at least "
     "acquires). What it stores and what it returns are the specified functions of the one value that access saw: loads return it, stores and assignment set the given value and assignment returns that same value, pre/post increments, "
     "decrements and compound assignments return the new or old value, and pointers move by whole elements.",
     ["schedules", "inputs"], "all interleavings with other accesses, all operand values, signed and unsigned widths of 1 to 8 bytes and pointers to elements of several sizes",
     "Tests run single threaded or sample a few schedules; a second read of the value or a plain access gives the same results until another thread gets in between.",
     ["templates/atomic.h", "unix/unix_platform_atomics.h"], [("AtomicBase::load/store", ATM), ("AtomicArithmetic operators", ATM), ("add/sub/exchange/read/store", UPA)],
     "atomics.py", "effect analysis of the LLVM IR: accesses to the shared location, their kind and ordering, and the value relation between the access and the result",
     "Covers every interleaving because each operation is shown to be a single atomic instruction on the shared value; compare-and-swap loops would be reported undecided.",
     state=[("value", "the shared value", ATM)])
TYH = P + "templates/types.h"
prop("X01", "Type queries and transformations agree with the language",
     "The type traits (pointer, reference, volatile, array, function, integral, trivial/POD/triviality of special members, base-of, same-type) and transformations (removing or adding pointers, references, qualifiers and extents, decay, "
     "conditional and enabling types) give the answer the language itself gives for every combination of qualifiers, references, pointers and arrays; move and forward yield the value category asked for; platform types have their "
     "advertised width and signedness; NonCopyable, NonMovable and Atomic cannot be copied or moved.",
     ["inputs"], "types built from fundamental, class, enum, union, function and member pointer types with every qualifier, reference, pointer and array form",
     "Tests check a handful of types; a missing qualified specialisation silently answers no and picks the wrong overload for that type only.",
     ["templates/types.h", "templates/utility.h", "templates/enable_if.h", "generic/generic_platform.h"], [("traits and transformations", TYH), ("move/forward", P + "templates/utility.h"), ("platform types", P + "generic/generic_platform.h")],
     "typefacts.py", "type-level witnesses: static assertions over the type-checked program against the language's own type relations",
     "Quantifies over a generated grid of types (about 3600 facts), not over all types.")
MPH = P + "hal/malloc_pool.h"
PV = "src/korin/core/private/"
MPC = PV + "hal/malloc_pool.cpp"
MBC = PV + "hal/malloc_binned.cpp"
MAC = PV + "hal/malloc_ansi.cpp"
MOB = P + "hal/malloc_object.h"
prop("P01", "A memory pool hands out exactly its blocks, each to one owner at a time",
     "A pool of n blocks hands out n distinct blocks and then null. Every block lies inside the pool's buffer, is aligned as requested, is large enough, overlaps no block that is still held, and may be overwritten completely by its "
     "owner without disturbing the pool. A released block becomes available again, whatever the order of releases; the number of free blocks, the exhausted flag and block membership are exact. A pool that works in a given buffer "
     "allocates nothing and does not free that buffer, its own buffer is freed once. The pool allocator refuses (null) requests above the block size or alignment, and a refused reallocation leaves the original block alone. "
     "Preconditions: alignments are powers of two, blocks are released once and to their pool, a given buffer is large enough and aligned.",
     ["histories", "inputs"], "every history that acquires to exhaustion, releases in any rotation and acquires again, for pools of 0 to 4 blocks with sizes and alignments of all relations, own and given buffers, system allocation failing",
     "The unit test acquires and releases one nesting order of one pool with 1 KB blocks and looks at the alignment of the first block only; a block handed out twice shows later as corrupted data.",
     ["hal/malloc_pool.h", "src/korin/core/private/hal/malloc_pool.cpp"], [("MemoryPool constructor, acquireBlock, releaseBlock", MPC), ("MemoryPool::hasBlock, getBlockLink", MPH), ("MallocPool::alloc/realloc/free", MPC)],
     "alloc.py", "abstract interpretation of the LLVM IR over symbolic buffer addresses with ownership of byte ranges (typestate per block)",
     "Bounded: pools of up to 4 blocks and histories of the stated shape; block contents, buffer addresses and what the owner writes are unknown.",
     state=[("head", "first free block", MPH), ("numFreeBlocks", "free blocks", MPH), ("buffer", "the pool's memory", MPH)])
prop("P02", "Growing and binned pools never give out a block twice, reuse what was freed and release everything",
     "A growing pool creates a new buffer only when no block is free, so freed blocks are used before it grows; a binned pool serves each size with a block at least that large. Every block handed out lies inside a live buffer, is "
     "aligned as requested, overlaps no held block and none of the allocator's records, and may be overwritten completely. Frees find the right buffer wherever the buffers lie in memory, and hasBlock answers for own and foreign "
     "addresses. Requests above the size or alignment limits and failed system allocations yield null and leave the allocator and its blocks usable. Reallocation keeps the content or answers null. Destruction releases every buffer once.",
     ["histories", "inputs", "faults"], "histories over up to 4 buffers with every choice of freed block or pair, all relative orders of the buffers in memory, every request size of several bin layouts, failing system allocations",
     "The unit tests allocate once or only ever allocate; reuse, the order of buffers in memory, bin limits, failing allocations and destruction are not exercised.",
     ["hal/malloc_pool.h", "hal/malloc_binned.h", "src/korin/core/private/hal/malloc_pool.cpp", "src/korin/core/private/hal/malloc_binned.cpp"],
     [("MallocPooled::createPool/destroyPool", MPH), ("MallocPooled::alloc/free/hasBlock", MPC), ("MallocBinned::alloc/realloc/free", MBC)],
     "alloc.py", "abstract interpretation of the LLVM IR over symbolic buffer addresses with ownership of byte ranges; the order of buffers is an unknown resolved by case split",
     "Bounded: up to 4 buffers of up to 64 blocks and histories of the stated shape.",
     state=[("head", "list of pools, those with free blocks first", MPH), ("root", "pools by address", MPH), ("buckets", "one growing pool per size class", P + "hal/malloc_binned.h")])
prop("P03", "The C allocator and object allocators ask for, copy and free exactly what is needed",
     "The C allocator yields a block of at least the requested size and alignment or null. Its reallocation copies exactly the common part of both blocks, frees the original only after the new block exists, keeps it when the system has no "
     "memory, frees on size zero and allocates on null. Object allocators pass every request to the allocator they were given (or own, or inherited by move, or the global one), with count times the object size and an alignment the "
     "object type accepts, and return its answer. Preconditions: alignments are powers of two, count times size does not overflow.",
     ["inputs", "faults"], "all sizes, alignments and counts, original block present or null, system allocation succeeding or failing",
     "The unit tests use a few sizes, never shrink, never fail, and use a type whose alignment is the default.",
     ["hal/malloc_ansi.h", "hal/malloc_object.h", "src/korin/core/private/hal/malloc_ansi.cpp"], [("MallocAnsi::alloc/realloc/free", MAC), ("MallocObject::alloc/realloc/free", MOB)],
     "alloc.py", "abstract interpretation of the LLVM IR with symbolic sizes; effect trace of system and allocator calls", None)
V2, V3, V4 = P + "math/vec2.h", P + "math/vec3.h", P + "math/vec4.h"
QH, M4, SF = P + "math/quat.h", P + "math/mat4.h", P + "math/simd_float.h"
GPM = P + "generic/generic_platform_math.h"
MCP = PV + "math/math.cpp"
prop("N01", "Vectors compute what the formulas say, component by component",
     "For vectors of 2, 3 and 4 components of every element type: constructors (zero, scalar, components, smaller vectors), indexing and the named components refer to the same values; arithmetic with vectors and scalars, on either "
     "side, acts on each component in the written order and leaves operands alone, also when both operands are the same vector or the scalar is one of its components; compound forms return the vector itself; dot and cross product, "
     "squared size, size and normalisation follow their formulas; comparison masks have one bit per component and the comparison operators hold when all components do; conversions convert each component; the static vectors have "
     "their values.",
     ["inputs"], "all component values including unordered ones, read as real numbers (no rounding) or integers without overflow",
     "Tests check a few small constants; swapped operands, one wrong component, aliasing and other element types go unseen.",
     ["math/vec2.h", "math/vec3.h", "math/vec4.h", "src/korin/core/private/math/math.cpp"], [("Vec2", V2), ("Vec3", V3), ("Vec4", V4), ("static vectors", MCP)],
     "mathlib.py", "abstract interpretation of the LLVM IR over multivariate polynomials with quotients and roots; comparisons by case split", None)
prop("N02", "Quaternions behave as rotations",
     "The default quaternion is the identity. A quaternion built from angle and axis, or from a rotation vector (the null vector included), rotates by that angle about that axis; angle and axis are recovered exactly. "
     "Rotating a vector follows the rotation formula, preserves lengths, angles and orientation; the product is Hamilton's, associative, has the identity as unit, keeps unit length and rotates like the second followed by "
     "the first; the inverse undoes the rotation; axes and directions are the rotated basis vectors.",
     ["inputs"], "all unit quaternions and axes, all vectors, angles from 0 up to 2 pi, in real arithmetic",
     "Tests rotate a few vectors about one axis, where sign and order errors in other components cancel.",
     ["math/quat.h"], [("constructors, getAngleAndAxis, getAngle", QH), ("product, inverse, rotation", QH), ("axes and directions", QH)],
     "mathlib.py", "abstract interpretation of the LLVM IR over multivariate polynomials, compared modulo unit length and sin^2 + cos^2 = 1", None)
prop("N03", "Matrices and packed vectors put each element in its place",
     "Matrix constructors (scalar, values, buffer), copies and all indexing forms agree on row-major placement of all elements and missing values are zero; writes change exactly the addressed element; transposition swaps rows and "
     "columns and twice restores; comparison gives one distinct bit per element and equality holds when all elements are equal. Packed vectors load and store each lane in order, masked stores write exactly the lanes of the mask, "
     "unaligned access accepts any address, arithmetic is lane-wise.",
     ["inputs"], "all element values, all positions", "No test looks at matrices beyond construction or at packed vectors.",
     ["math/mat4.h", "math/simd_float.h"], [("Mat4", M4), ("Vector4<float32>", SF)],
     "mathlib.py", "abstract interpretation of the LLVM IR over unknown elements", None)
prop("N04", "Scalar math helpers are exact",
     "log2 of a positive integer is the position of its highest bit (0 for 0) for every width; alignment yields the multiple of the power of two at or below, respectively the next one strictly above; integer powers multiply the base that "
     "many times, negative exponents give the reciprocal; abs removes the sign; min and max return one of their arguments, beyond none of them, for any number of arguments in any order; the elementary functions are the platform's.",
     ["inputs"], "log2 of all integers of 8 to 64 bits, alignment of all 32 and 64 bit integers to powers of two up to 4096, exponents up to 20, every order of up to 4 arguments",
     "Tests compute one or two values per helper.",
     ["generic/generic_platform_math.h"], [("log2", GPM), ("align2Down/align2Up", GPM), ("pow, abs, min, max", GPM)],
     "mathlib.py", "abstract interpretation of the LLVM IR over polynomials and bit polynomials (GF(2)), case split on comparisons", None)
RX = P + "regex/"
RXC = PV + "regex/regex.cpp"
prop("E01", "Automaton states, links and builders mean what they say",
     "A state is entered for exactly the symbols it stands for, wherever in the text and whatever follows: a symbol state for its symbol, a range for the symbols between its ends (both included), any for every symbol, "
     "an epsilon always, a lambda when its function says so, look-aheads when their sub-automaton does (or does not) accept a prefix of the rest. Consuming states read exactly one symbol and never the end of the text, the others none. "
     "Clones behave the same, are distinct and unlinked. Links and merges are visible from both ends. Every sequence of builder calls (states, groups, branches, skip, jump, repeat, macros) yields an automaton for the corresponding "
     "language, and simplifying an automaton does not change its language. The automaton releases every state once.",
     ["inputs"], "every kind of state with all parameters and all symbols at all positions; builder sequences with unknown symbols; texts of any length",
     "The unit tests build no automaton by hand and run patterns on one or two texts each.",
     ["regex/state.h", "regex/automaton.h"], [("StateBase::addNextState/mergePrevState/mergeNextState, enterState of every state, cloneState", RX + "state.h"), ("AutomatonBuilder, AutomatonOptimizer::removeEpsilons", RX + "automaton.h")],
     "automata.py", "abstract interpretation of the LLVM IR: the automaton is extracted from the abstract memory and compared with a reference by language equivalence", "Builder sequences are a catalogue; each is decided for all symbols and texts of any length.",
     state=[("nextStates, prevStates", "links of a state", RX + "state.h"), ("allocatedStates", "states the automaton owns", RX + "automaton.h"), ("groups", "open groups of a builder", RX + "automaton.h")])
prop("E02", "A pattern compiles to an automaton for exactly its language",
     "For every well-formed pattern the compiled automaton accepts a text exactly when the whole text matches the pattern: literals and escapes, dot, shorthand classes and their negations, sets, ranges and negated sets, word boundaries and "
     "anchors, groups, alternatives (empty ones included), and the quantifiers * + ? {n} {n,} {n,m} applied to the item just before them, nested and stacked. A quantifier with nothing to repeat is ignored; an opening bracket or brace that is "
     "never closed stands for itself. Compilation reads only the pattern and releases what it does not keep.",
     ["inputs"], "a catalogue of patterns covering each construct in each context, all pairs of quantifiers, and generated patterns; letters stand for any letter; texts of any length",
     "The unit tests try about twenty patterns, each on a few texts.",
     ["regex/regex.h", "regex/automaton.h", "regex/state.h", "src/korin/core/private/regex/regex.cpp"], [("Regex::compile", RXC), ("AutomatonBuilder", RX + "automaton.h"), ("states", RX + "state.h")],
     "automata.py", "abstract interpretation of the compiler on partly unknown patterns; the automaton is extracted from the abstract memory and compared with the reference automaton for all texts (product construction)",
     "Decided per pattern for texts of every length; the set of patterns is a catalogue (556 in the quick tier, about 2300 in the thorough one).")
prop("E03", "Running an automaton answers for the whole text, ends, and can be repeated",
     "An executor accepts exactly when some way through the automaton consumes the whole text, also when the automaton has cycles that consume nothing, and always ends. Single steps lead to the same answer, with the state and input of each "
     "step matching; after a reset, half way or at the end, on the same or another text, the answer is that of a fresh run. The free function and the overloads for texts and strings agree. The text is read only up to its end.",
     ["inputs", "histories"], "15 patterns with loops, look-aheads and boundaries, all texts up to 3 symbols, all points of reset", "The unit tests run accept once per pattern object and never step or reset.",
     ["regex/executor.h", "regex/regex.h"], [("Executor::step/reset/execute", RX + "executor.h"), ("accept", RX + "regex.h")],
     "automata.py", "abstract interpretation of the LLVM IR on texts with unknown symbols, case split on what the automaton compares", "Bounded: texts of at most 3 symbols (2 in the quick tier).",
     state=[("visitQueue, seenStates, currVisit", "pending and seen positions", RX + "executor.h")])
prop("E04", "No pattern makes the compiler or executor misbehave",
     "Any sequence of symbols can be compiled and run: unbalanced groups, nesting beyond the limit, unfinished sets, quantifiers and escapes, reversed ranges and symbols outside ASCII cause no access outside an object, no use of a value that was "
     "never set, no endless loop and no leak.",
     ["inputs"], "a catalogue of malformed patterns and generated sequences of metacharacters, texts of at most one unknown symbol", "The unit tests only compile well-formed patterns.",
     ["regex/automaton.h", "src/korin/core/private/regex/regex.cpp"], [("Regex::compile", RXC), ("AutomatonBuilder groups", RX + "automaton.h")],
     "automata.py", "abstract interpretation of the LLVM IR with typestate of every block", "Per pattern of the catalogue; which language a malformed pattern has is not judged, except where E02 says so.")
prop("X02", "The whole interface is usable as declared, in every build",
     "Every public header can be included on its own, in debug and in release builds, with either compiler. Every public member of every template can be used with ordinary element types, const and non-const, lvalue and rvalue, from "
     "user code. Operations that modify an object and are declared to return it return that object, so that they can be chained. Every path of a function that promises a value returns one; no function returns a reference or pointer "
     "to its own locals, reads a local it never set, or calls itself on every path. Every function that is declared and used is defined.",
     ["inputs", "configurations"], "all public headers, both build modes, both compilers; about 100 uses covering each public member with trivial, class and move-only types",
     "Tests instantiate a fraction of the template members, with one compiler in one mode; a member no test names is never even compiled.",
     ["containers/array.h", "containers/string.h", "templates/function.h", "templates/name.h", "algorithm/sort.h", "misc/assert.h"],
     [("every public header", P + "core_types.h"), ("CHECK/ASSERT in debug and release", P + "misc/assert.h"), ("iterator and compound operators", P + "containers/array.h")],
     "wellformed.py", "type checking and flow analyses of the compilers over every header and a witness of uses with access control; symbol resolution",
     "Members are instantiated for the listed element types.")
prop("Q01", "Sorting and partitioning put every element in its place",
     "Quicksort leaves a range ordered by the comparator, argquicksort in addition permutes the arguments exactly as their elements, partition leaves the elements smaller than the pivot first and returns where the others start. "
     "For every range, empty ones included, and any ties, the result is a permutation of the elements: none is lost, duplicated, or left moved-from. Sorting ends, needs only forward iterators, touches nothing outside the range, "
     "and calls the comparator that was passed, without giving it up. The comparators that come with the library answer 1, 0 or -1 as the operands' own > and < do, for numbers, objects and pointers to const objects, or always 0.",
     ["inputs"], "all orders and ties of up to 5 elements (6 in the thorough tier), pointers and forward iterators, comparators passed as objects and temporaries",
     "No unit test sorts anything; the benchmark does not look at the result.",
     ["algorithm/sort.h", "templates/functional.h", "templates/utility.h"], [("ThreeWayCompare, NullCompare", P + "templates/functional.h"), ("Sort::quicksort", P + "algorithm/sort.h"), ("Sort::argquicksort", P + "algorithm/sort.h"), ("Sort::partition", P + "algorithm/sort.h")],
     "sorting.py", "abstract interpretation of the LLVM IR with unknown elements, case split on the comparator's answers closed under a weak order, element typestate", "Bounded in the number of elements, not in their values or order.")
prop("V03", "Tuples, pairs, static arrays and names hold exactly what they were given",
     "A tuple, pair or static array holds each value it was made from in its own place, reachable by position, by first matching type, by name or index, for reading and writing, const or not. Values given up by the caller are "
     "moved in, others are copied and left untouched. Copies are independent and equal, moves and exchange transfer every value without copying, counts are the number of items, every item is constructed and destroyed once. "
     "A name has the characters and length of its literal, buffer or array, and joining any names yields their characters in order.",
     ["inputs"], "all values of the items, every constructor, copy, move, assignment, exchange and accessor, mixed lvalues and rvalues",
     "Tests look at one tuple of trivial values and a few arrays; copies made in place of moves, the wrong overload for non-const objects and items of class type are not observed.",
     ["containers/tuple.h", "containers/pair.h", "templates/array.h", "templates/name.h", "templates/utility.h"],
     [("Tuple", P + "containers/tuple.h"), ("Pair", P + "containers/pair.h"), ("StaticArray, makeStaticArray", P + "templates/array.h"), ("Name, JOIN_NAME", P + "templates/name.h"), ("swap, move, forward", P + "templates/utility.h")],
     "holders.py", "abstract interpretation of the LLVM IR of straight uses with unknown values and element typestate", None)
prop("G01", "What the caller gives away is moved on, never copied",
     "An element, key, value, callable or argument that is handed over as an rvalue reaches its place in a list, array, tree, set, map, pair, tuple, static array, optional or function by moves alone: none of its copy operations run, the "
     "caller's object is moved from, and lvalues handed over in the same call are copied once and left untouched. Moving or exchanging a container or holder, shifting array elements and taking elements out move elements as well; "
     "arguments and callables keep their value category on the way through invoke and Function, so move-only types can be used.",
     ["inputs"], "every insertion, construction, assignment and extraction operation that takes rvalues, with unknown values and mixed lvalues and rvalues",
     "Tests use numbers, for which a copy and a move are the same; a forward that is dropped anywhere on the way still gives the right value.",
     ["containers/list.h", "containers/array.h", "containers/tree.h", "containers/set.h", "containers/map.h", "containers/pair.h", "containers/tuple.h", "templates/optional.h", "templates/function.h", "templates/utility.h"],
     [("List::pushBack, pushFront, createLink", P + "containers/list.h"), ("Array::insertAt, insertNoResize, makeRoom", P + "containers/array.h"), ("BinaryTree::insert, insertUnique, replace, createNode", P + "containers/tree.h"),
      ("Set::set", P + "containers/set.h"), ("Map::operator[], insert", P + "containers/map.h"), ("Optional::emplace", P + "templates/optional.h"), ("invoke, FunctionCaller", P + "templates/function.h"), ("move, forward, swap", P + "templates/utility.h")],
     "moves.py", "abstract interpretation of the LLVM IR of straight uses with unknown values; effect analysis that counts copies per path", None)
