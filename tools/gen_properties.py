#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run; the JSONL is the committed product."""
import json, os
D2, D3 = "src/indices/morton_index_2d.rs", "src/indices/morton_index_3d.rs"
ST, MO, NU, AL, HE = "src/indices/storage.rs", "src/morton.rs", "src/number.rs", "src/align.rs", "src/helper.rs"
IM, ER, DM2, DM3, DMM = "src/indices/mod.rs", "src/error.rs", "src/dimensions/dim_2d.rs", "src/dimensions/dim_3d.rs", "src/dimensions/mod.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
ALLT = "2D and 3D, fixed-depth / static / dynamic storage, every word width (8, 16, 32, 64, 128 bits and usize)"

p("M01", "Cells in, cells out",
  "An index built from a sequence of cells (from a slice or from an array) reports exactly that sequence as its depth, its level-by-level reads and its cell iterator, whatever the index type; fixed-depth types are filled up to their fixed depth with cell zero. A sequence longer than the type's capacity is rejected with the depth-limit error that names that capacity, and nothing shorter or equal is rejected. Default and zeroed construction give all-zero cells at the requested depth, or refuse a depth the type cannot hold.",
  ["inputs"], f"all cell sequences of every length, for all index types ({ALLT})",
  "The tests build one random sequence per type (3D tests only draw octants 0..3) at one or two lengths; they never visit the other lengths, octants 4..7, or the positions where a cell straddles bytes.",
  [D2, D3, ST, IM], [("TryFrom<&[Cell]> / TryFrom<[Cell; N]>", D2+", "+D3), ("bit packing of cells by level", ST), ("CellIter", IM)],
  ["get_cell_at_level", "cells()", "depth()", "TryFrom results"])
p("M02", "Writing one level changes that level and nothing else",
  "After writing a cell at a level below the depth, reading that level gives the written cell, every other level and the depth are unchanged, and the index equals one freshly built from the resulting cells. This holds after any sequence of writes and whatever was stored before.",
  ["inputs", "histories"], f"all index values, levels, old and new cells and all write sequences, for all index types ({ALLT})",
  "Tests write each level once, in order, starting from an all-zero index, so clearing of old bits and neighbouring cells is never observed.",
  [D2, D3, ST, NU], [("set_cell_at_level", D2+", "+D3), ("set_bits on words and byte vectors", NU)], ["set_cell_at_level", "get_cell_at_level", "=="])
p("M03", "Access at or below the depth is always refused",
  "Reading or writing a cell at a level greater than or equal to the index's depth panics, for every index type and every such level however large, in builds with and without debug assertions and overflow checks. The refused call leaves the index unchanged.",
  ["inputs", "configurations"], "all index values, all levels >= depth up to usize::MAX, debug and release builds",
  "Tests try one out-of-range level (depth itself) on one value per type, only for writes and only in the debug build.",
  [D2, D3, MO], [("depth check before unchecked access", D2+", "+D3)], ["get_cell_at_level", "set_cell_at_level"])
p("M04", "Index order is the lexicographic order of cells, ancestors first",
  "Comparing two indices of the same type gives the lexicographic comparison of their cell sequences, in which a node sorts directly before its own descendants. All comparison operators agree with it, so it is a total order.",
  ["inputs"], f"all pairs of indices of the same type, of equal and of different depths ({ALLT})",
  "Tests sort one small random set per type and check a weak condition on neighbours; order between different depths with equal prefixes is not pinned down.",
  [D2, D3], [("Ord / PartialOrd of the storages", D2+", "+D3)], ["cmp", "partial_cmp", "<, <=, >, >=, ==", "max/min"])
p("M05", "Equal means same cells, whatever the history; hashes agree",
  "Two indices of the same type are equal exactly when they have the same cells, no matter by which operations each was produced (building, zeroed or default construction, writes, child/parent/ancestor/descendant steps, inversion, conversion, grid coordinates). Equal indices have equal hashes and compare as equal in order, and unequal ones never compare as equal in order.",
  ["histories", "inputs"], f"all pairs of operation histories leading to indices of one type ({ALLT})",
  "Tests compare an index with one expected value after a single operation; they never compare two different histories that end in the same node, nor hashes.",
  [D2, D3, MO], [("unused bits kept zero and minimal byte count by every operation", D2+", "+D3), ("PartialEq / Hash", D2+", "+D3)], ["==", "hash", "cmp"])
p("M06", "Ancestors are exact prefixes",
  "The ancestor g generations up has exactly the first depth-g cells of the node; parent is the ancestor one generation up and with_depth(d) is the ancestor at depth d (the node itself for its own depth). Asking for more generations than the depth, for a depth larger than the node's, or for the parent of the root yields no result, for every such number however large.",
  ["inputs"], "all nodes of the variable-depth types and all generation counts / target depths up to usize::MAX",
  "Tests use one random node per type with one or two generation counts.",
  [D2, D3, MO], [("ancestor on static and dynamic storage", D2+", "+D3), ("with_depth / parent", MO)], ["ancestor", "parent", "with_depth"])
p("M07", "Descendants append exactly the given cells",
  "The descendant by a list of cells has the node's cells followed by that list, the child by a cell is the descendant by that one cell, and the empty list gives the node itself. No result is given exactly when the new depth exceeds the type's capacity; dynamic indices always succeed.",
  ["inputs"], "all nodes of the variable-depth types and all cell lists, including those that end at and just beyond capacity",
  "Tests extend one random node by one cell or one short list.",
  [D2, D3, MO], [("descendant on static and dynamic storage", D2+", "+D3), ("child", MO)], ["descendant", "child"])
p("M08", "Any operation history follows the same path in the tree",
  "For any sequence of operations (write, child, descendant, parent, ancestor, with_depth, inversion, clone, conversion to another storage kind and back, grid coordinates and back) the index always denotes the node that the same steps reach in the abstract tree, and a step is refused exactly when the abstract step is impossible.",
  ["histories"], "all operation sequences from all start nodes for all variable-depth types",
  "Tests apply one operation to a freshly built index; no test chains operations.",
  [D2, D3, MO, ST], [("all operations of MortonIndex / VariableDepthMortonIndex", D2+", "+D3+", "+MO)], ["cells()", "depth()", "Option results"])
p("M09", "Grid coordinates map to the right node",
  "Building an index from grid coordinates, a grid depth and a cell ordering gives, level by level from the root, the cell that the ordering assigns to the corresponding coordinate bits (most significant first), for every index type, depth and ordering. Coordinate bits beyond the grid depth are ignored. A grid depth above the type's limit is refused (error for static types, panic for dynamic types beyond half the coordinate width), never truncated.",
  ["inputs"], f"all coordinates, grid depths and orderings for all index types ({ALLT})",
  "Tests round-trip one random index at two or three depths per type, and in 3D only with octants 0..3; depths where a partly filled chunk is involved are not visited.",
  [D2, D3, NU, DM2, DM3], [("from_grid_index of the three storages", D2+", "+D3), ("bit-spreading helpers", NU)], ["from_grid_index"])
p("M10", "Nodes map to the right grid coordinates",
  "Converting an index to grid coordinates gives, on every axis, the number whose bits (most significant first) are the axis bits that the ordering assigns to the cells from the root down. The mapping is a bijection between the nodes of one depth and the cells of the grid of that depth: mapping back with the same ordering and depth restores the index.",
  ["inputs"], "all nodes with depth up to the coordinate width, all orderings, all index types",
  "Tests only check the round trip on one random index per type; an error cancelling in both directions or affecting only some depths or octants is not seen.",
  [D2, D3, DM2, DM3], [("to_grid_index", D2+", "+D3), ("QuadrantOrdering / OctantOrdering::to_index", DM2+", "+DM3)], ["to_grid_index"])
p("M11", "The tree and the grid nest",
  "The grid cell of an ancestor contains the grid cell of each of its descendants: the ancestor's coordinates are the descendant's coordinates shifted right by the generation difference. The children of a node tile its grid cell exactly, one child per sub-cell, for every ordering.",
  ["inputs", "histories"], "all ancestor/descendant pairs with depth up to the coordinate width, all orderings, all variable-depth types",
  "No test relates ancestors or children to grid coordinates.",
  [D2, D3, DM2, DM3], [("ancestor/child and to_grid_index agreeing on the level order", D2+", "+D3)], ["to_grid_index", "ancestor", "child"])
p("M12", "All storage kinds and the fast path agree on grid coordinates",
  "For the same coordinates, ordering and depth, the fixed-depth, static and dynamic types of every width give the same cells. The fast 64-bit 3D construction gives exactly the index of the general one for every coordinate value, including values beyond the grid.",
  ["inputs"], "all coordinates (full usize range), all orderings",
  "The fast path is only used in the benchmark and never compared; storage kinds are never compared on coordinates.",
  [D3, D2, NU], [("from_grid_index_fast", D3), ("from_grid_index of each storage", D2+", "+D3)], ["from_grid_index", "from_grid_index_fast"])
p("M13", "Converting between storage kinds keeps the cells",
  "Converting an index between fixed-depth, static and dynamic storage keeps its cells and depth; converting a shallower index to a fixed-depth type fills the remaining levels with cell zero. Conversion from a dynamic index fails, with the depth-limit error naming the capacity, exactly when the index is deeper than the target's capacity, and converting there and back restores the index.",
  ["inputs"], "all index values of all storage kinds and widths; dynamic sources of every depth including beyond capacity",
  "Tests convert one random full-depth index and one that is one (3D) or three (2D) levels short; shorter ones, which leave whole bytes unused, are not visited.",
  [D2, D3, NU], [("From / TryFrom between storages", D2+", "+D3)], ["into()", "try_into()"])
p("M14", "String forms name the node exactly",
  "The concatenated name is one digit per level from the root, the rooted name is the letter r followed by it, and the grid name is the depth and the default-ordering grid coordinates joined by dashes. Different nodes of one type never share a name.",
  ["inputs"], "all index values (grid names: depth up to the coordinate width) for all index types",
  "No unit test covers string conversion; only two examples with one literal each.",
  [D2, D3, MO], [("to_string", D2+", "+D3)], ["to_string"])
p("M15", "Displayed slices list every index once, in order",
  "The displayable form of a slice prints an opening bracket, the chosen name of every index in slice order separated by a comma and a space, and a closing bracket, for slices of any length including empty, and its debug form is the same text. Two displayable slices compare as the underlying slices do.",
  ["inputs"], "all slices of indices up to any length, all naming schemes",
  "No test touches the helper module.", [HE, MO], [("Display / Ord of DisplayableMortonIndexSlice", HE)], ["format!", "==", "cmp"])
p("M16", "Inversion reverses the levels and undoes itself",
  "The inverted index has the same depth and the cells in reverse order, leaves the original untouched and is equal to an index built from the reversed cells; inverting twice gives back the original. This also holds for user-defined index types that rely on the provided implementation.",
  ["inputs", "programs"], "all index values for all index types, and for any user type implementing the trait",
  "Tests invert random indices at random depths (3D: octants 0..3 only).", [MO], [("inverted", MO)], ["inverted"])
p("M17", "Cells and orderings are consistent bijections",
  "Cell numbers and cell values correspond one to one, numbers outside the range are rejected with the out-of-range error, and cells are ordered by number. Every ordering maps the cells of a node one to one onto the corner offsets, the default orderings are XY and XYZ, and an octant ordering's axis shifts describe exactly its cell-to-offset map.",
  ["inputs"], "all cell numbers up to usize::MAX, all cells, all orderings",
  "Existing tests pin the tables for valid octants but not rejection, number round trips, defaults or order.",
  [DM2, DM3, DMM, ER], [("TryFrom<usize> / Into<usize>", DM2+", "+DM3), ("to_index / get_bit_shifts_for_xyz", DM2+", "+DM3)], ["try_from", "index()", "to_index"])
p("M18", "Raw words are read from the most significant bits down",
  "A 3D index built from the raw bits of an index has, at level l, the cell given by the l-th group of three bits counted from the most significant end of the word. It equals (and hashes and compares like) the index built from those cells, for the fixed-depth types and for the static types at the given depth.",
  ["inputs"], "all raw words of valid indices, all depths, all word widths",
  "No test uses the raw constructors.", [D3, ST], [("from_raw_index", D3)], ["from_raw_index"])
p("M19", "Bit ranges of machine words are exact",
  "Reading a bit range of an unsigned word gives exactly those bits shifted down, also for empty and full ranges; writing a value that fits into a range makes the range read back as that value and leaves all other bits unchanged. The usize flavours of both operations agree with the plain ones.",
  ["inputs"], "all words of 8, 16, 32, 64, 128 bits and usize, all ranges within the word, all values that fit",
  "Tests use a handful of literal ranges on u8 and u16 and only all-zero targets.", [NU], [("impl_bits!", NU)], ["get_bits", "set_bits", "get_bits_as_usize", "set_bits_from_usize"])
p("M20", "Bit ranges of byte vectors are exact",
  "Reading a bit range of a byte vector gives exactly those bits, packed from the lowest bit into the smallest number of bytes with the spare bits zero; writing a value into a range makes the range read back as that value and leaves all other bits and the length unchanged. The usize flavours agree with the vector flavours for ranges up to the width of usize.",
  ["inputs"], "all byte vectors, all ranges inside them, all values",
  "Tests use one 4-byte vector and all-zero targets; a range whose last byte is only partly used and then shifted away is not covered.",
  [NU], [("Bits for Vec<u8>", NU)], ["get_bits", "set_bits", "get_bits_as_usize", "set_bits_from_usize"])
p("M21", "Bit spreading places every bit and only those bits",
  "Each bit-spreading helper moves bit i of its documented input bits to position 2i (2i+1 for the variant that puts the zero behind) or 3i, and leaves every other result bit zero. Input bits beyond the documented ones (4 bits for the 8-bit helpers, 8 for the 16-bit one, 21 for the 32-bit one) are ignored.",
  ["inputs"], "all values of the argument types: u8, u16 and u32, with documented bits and with bits beyond them",
  "Tests use runs of low ones, so a mask that drops or smears a bit for mixed inputs is not seen.", [NU], [("add_zero_* / add_two_zeroes_*", NU)], ["return value"])
p("M22", "Word conversions keep the value",
  "Conversions between unsigned widths keep the value modulo the target width; converting a word to its bytes and back is the identity. Reading a word from a byte slice uses the bytes in the given endianness, with missing bytes taken as zero bytes after the given ones and excess bytes ignored.",
  ["inputs"], "all words of all widths, all byte slices of any length, both endiannesses",
  "Almost nothing of this is tested directly.", [NU], [("as_* / from_* / from_u8_slice", NU)], ["as_*", "from_*", "as_u8_slice", "from_u8_slice"])
p("M23", "Alignment gives the smallest multiple not below the value",
  "Aligning a value to a non-zero alignment gives the smallest multiple of the alignment that is not less than the value, whenever that multiple is representable in the type, for all unsigned types. Alignment zero gives the value itself, and aligning an aligned value changes nothing.",
  ["inputs"], "all values and alignments of all six unsigned types whose result is representable",
  "The alignment module has no tests.", [AL], [("Alignable::align_to", AL)], ["align_to"])
p("M24", "Safe operations never cause undefined behaviour",
  "No sequence of safe API calls (and no unsafe bit-range call within bounds) reads or writes outside live memory, reads uninitialised memory, or breaks any other rule of the language, whatever the arguments.",
  ["inputs", "histories"], "all operation sequences and arguments through the safe API",
  "The library uses unchecked access and raw pointer reads internally; tests run without any memory checker.",
  [NU, ST, MO, IM, D2, D3], [("set_vec_u8_bits raw read", NU), ("unchecked cell access behind depth checks", MO+", "+IM)], ["execution under an undefined-behaviour detecting interpreter"])
p("M25", "Results do not depend on the platform",
  "On big-endian and on 32-bit platforms every index type gives the same cells, order, equality, ancestors, descendants, conversions, names and inversions as on 64-bit little-endian ones. Grid coordinates agree wherever the type's maximum depth fits the platform's coordinate width.",
  ["configurations", "inputs"], "big-endian 64-bit, little-endian 32-bit and big-endian 32-bit targets; all index values",
  "Tests only ever run on the developer's little-endian 64-bit machine; the byte-vector tests are compiled out elsewhere.",
  [NU, D2, D3, ST], [("target_endian / target_pointer_width handling", NU+", "+D2+", "+D3)], ["all results on interpreted foreign targets"])
p("M26", "Results do not depend on the build profile",
  "Every operation within its documented domain gives the same result, and every refusal is a refusal, in unoptimised builds with overflow checks and debug assertions and in optimised builds without them.",
  ["configurations", "inputs"], "debug, checked-release and plain release profiles; all index values and operations",
  "Tests run in one profile only.", [D2, D3, NU, MO, ST], [("shift amounts and casts that must not overflow", NU+", "+D2+", "+D3)], ["all results and panics in each profile"])
p("M27", "Cell packing works for any dimensionality",
  "For a user-defined space of any dimensionality from 1 to 8, the generic fixed-depth, static and dynamic storage descriptions report the capacity word-bits divided by dimensionality (dynamic: unlimited), store each level independently of all others, with level zero in the most significant bits of a word, and read back exactly what was written at every level.",
  ["programs", "inputs"], "dimensionalities 1..8, all word widths, all levels and cells",
  "Tests only instantiate the generic storage code for 2D and 3D.", [ST, DMM, NU], [("StorageType for FixedDepthStorage / StaticStorage / DynamicStorage", ST)], ["get_cell_at_level_unchecked", "set_cell_at_level_unchecked", "MAX_LEVELS", "max_depth"])
p("M28", "Operations do not disturb their operands",
  "Queries, navigation, inversion, comparison, formatting and conversion of a copy leave the index they are applied to unchanged, and a clone, also one made onto another index with clone_from, equals its original and is fully independent: changing either leaves the other as it was.",
  ["histories"], "all index values, all operations, all types", "Tests hardly ever look at the operand again after an operation.",
  [D2, D3, MO], [("Clone / Copy, operations returning new values", D2+", "+D3)], ["==, cells() of the operand after the call"])
p("M29", "Sorting nodes gives the depth-first walk of the tree",
  "Sorting any set of nodes of a variable-depth type yields the order of a depth-first walk of the quadtree or octree with children in cell order: each node comes right before its subtree and every subtree is contiguous. Sorted containers find exactly the nodes put in.",
  ["inputs"], "all sets of nodes, in any initial arrangement, for all variable-depth types",
  "Sorting tests check only a weak neighbour condition on random nodes.", [D2, D3], [("Ord / Eq of the storages", D2+", "+D3)], ["sort", "binary_search", "BTreeSet"])
p("M30", "Dynamic indices have no depth limit",
  "A dynamic index of any depth, including depths beyond 255, 65535 and the machine word, keeps all its cells through building, writing, iteration, comparison, hashing, child/descendant/ancestor steps, inversion and naming.",
  ["inputs"], "depths around every power of two up to beyond 2^16 and all positions near byte and power-of-two boundaries",
  "Tests never build a dynamic index deeper than 33.", [D2, D3, ST, NU], [("DynamicStorage bit addressing", ST+", "+NU)], ["all operations on dynamic indices"])
p("M31", "Provided trait methods work for user-defined indices",
  "For any user type that implements the required methods of the index traits over an abstract sequence of cells, the provided parent, child, with_depth and inverted methods behave as on the built-in types, and the library's slice display works with it. The library's own 2D and 3D index types work over user-defined storages.",
  ["programs", "inputs"], "user implementations of the traits, all cell sequences", "Tests only use built-in types, one call each.",
  [MO, HE], [("provided methods of MortonIndex / VariableDepthMortonIndex", MO)], ["parent", "child", "with_depth", "inverted"])
p("M32", "Index order is the Z-order of the grid",
  "For indices of equal depth, comparison agrees with the Z-order (Morton order) of their grid coordinates: the most significant bit in which any coordinate differs decides, and among axes differing in it the one owning the highest bit of the cell number. So the order is monotone in every axis, every aligned power-of-two block of grid cells occupies one contiguous stretch of the sorted indices, and the sorted indices of a whole grid are its Z-curve.",
  ["inputs"], "all pairs of grid cells of equal depth, for all orderings and index types",
  "Tests compare indices of random cells and never relate the order to grid coordinates.", [D2, D3], [("from_grid_index / to_grid_index and Ord", D2+", "+D3)], ["cmp", "from_grid_index", "sort"])
p("M33", "Subtrees are contiguous intervals of the order",
  "For a variable-depth type, the nodes of the subtree below any node are exactly those at least as great as it and less than the next node after its subtree (its next sibling, or the next sibling of its nearest ancestor that has one), so range queries over sorted indices find exactly the subtree; they are also exactly those whose ancestor at the node's depth is the node.",
  ["inputs"], "all pairs of nodes, all depths, all variable-depth types",
  "Tests check neither ranges nor the relation between the order and ancestors.", [D2, D3, MO], [("Ord and ancestor / with_depth", D2+", "+D3+", "+MO)], ["<=", "<", "with_depth"])
p("M34", "Operations commute with conversion between storage kinds",
  "Applying any operation (write, child, descendant, parent, ancestor, with_depth, inversion, passage through the grid) to a static index and converting the result to a dynamic index gives the same as converting first and applying the operation then; only the capacity of the static type makes a difference. Order, equality, names and grid coordinates of fixed-depth, static and dynamic indices of the same cells agree.",
  ["inputs", "histories"], "all nodes, operations and pairs of nodes, all word widths",
  "Tests convert an index and look at its cells only.", [D2, D3], [("From / TryFrom conversions against every operation", D2+", "+D3)], ["conversions", "all operations", "cmp", "to_string"])
p("M35", "Storages work on their own",
  "The storage types, used directly through the Storage and VariableDepthStorage traits without an index around them, keep what is written, report their depth, iterate their cells, compare in tree order, step to ancestors and descendants, refuse what does not fit with the documented error, and carry all their cells in the bits they expose; the MAX_LEVELS constants of the index types are their capacities and MAX_LEVELS_BITMASK has exactly that many low bits set.",
  ["inputs"], "all nodes, all storages and widths, all levels, cells and step sizes",
  "Tests never use a storage except through an index.", [ST, D2, D3], [("Storage / VariableDepthStorage implementations", ST+", "+D2+", "+D3)], ["try_from", "zeroed", "get/set_cell_at_level_unchecked", "bits", "ancestor", "descendant", "MAX_LEVELS"])
p("M36", "Memory: no allocation for fixed and static indices",
  "Fixed-depth and static indices never allocate on the heap, whatever is done with them short of making a dynamic index or a string: the documentation recommends them for exactly this. A fixed-depth index is as large as its word, a static one no larger than two words. A dynamic index holds memory in proportion to its depth (at most twice its cells' bits plus a small constant), through any building, stepping or conversion, and gives all of it back when dropped.",
  ["inputs", "histories"], "all nodes, operations and index types, dynamic indices of any depth",
  "Tests never look at allocations or sizes.", [ST, D2, D3], [("FixedDepth-, Static- and DynamicStorage operations", ST+", "+D2+", "+D3)], ["allocator calls", "size_of", "live bytes"])
p("M37", "Results depend on the operands only",
  "Every operation is a function of its operands: the same operation on equal operands gives the same result whatever was computed before it in the same thread, or in a new thread.",
  ["histories"], "all pairs of computations in sequence, fresh threads",
  "Tests run each computation once.", [D2, D3, MO, NU, HE], [("all operations; no hidden state", "src/")], ["any operation executed repeatedly after any other"])
p("M38", "Index types work over user-defined words",
  "FixedDepthStorage and StaticStorage are generic over FixedStorageType, which any type implementing the public Bits trait (and Copy, Eq, Ord, Default, Debug, Hash) satisfies. For every such unsigned word of a whole number of bytes up to 128 bits - 24, 40, 56, 72 or 112 bits as much as 32 or 64 - the fixed-depth and static indices over it behave exactly like those over the built-in words: capacity is the number of whole cells that fit, cells are read, written, named, compared and hashed by level, operations, conversions and grid coordinates agree with the tree, and everything beyond the capacity is refused.",
  ["inputs", "histories"], "words of 3, 5, 7, 9 and 14 bytes, both dimensions",
  "Tests only use the built-in integers; code that assumes a power-of-two word size or a native cast passes all of them.", [D2, D3, MO, NU, ST], [("everything generic over B: FixedStorageType", "src/indices/")], ["FixedDepthStorage2D/3D<B>, StaticStorage2D/3D<B> with a user-defined B"])
p("M39", "Indices can be shared between threads",
  "Any number of threads may use indices at the same time, the same index or different ones: every operation gives each thread the result it gives when nothing else runs, wherever the threads interrupt each other, and none waits for another for good.",
  ["schedules"], "all pairs of operations on the same or on two indices, all points at which one thread can interrupt the other",
  "No test runs anything concurrently, and a race shows only under particular interleavings.", [D2, D3, MO, NU, HE], [("all operations; no shared mutable state, or a correctly synchronised one", "src/")], ["any operation executed while another one is under way in another thread"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
