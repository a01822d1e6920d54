#!/usr/bin/env python3
"""Source of properties.jsonl (one compact entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))

prop("P01", "Every array layout is a bijection and every accessor agrees on it",
 "For every dimensionality, shape (including zero extents) and storage permutation, multi-index access maps the index space one-to-one onto consecutive storage with the stride order the permutation names, and parenthesis access, chained bracket access, slices, linear indices, the data pointer and iteration all reach the same element for the same multi-index. Copies, const and non-const views, mutable and immutable slices and layout-erased slices report the same extents and strides as the array they came from, and an element written through one is what every other one reads. A slice claims to be contiguous only when its elements occupy one gap-free run of memory, and always when it is dense, non-empty and has a unit-stride dimension. A sequence of indices counts as a permutation exactly when it lists 0 to its length minus one once each.",
 ["configurations", "inputs"],
 "all permutations of 1 to 4 dimensions (5 in thorough), every shape with extents 0..3, every multi-index, every chain of slices",
 "The unit tests fix a few shapes per permutation and are not even built in this environment; a stride or slice error can hide at one permutation, one zero or unit extent or one slicing order.",
 ["src/Array.hpp", "src/ArrayView.hpp", "src/ArraySlice.hpp", "src/indexing.hpp", "src/typeManipulation.hpp"],
 [("stride calculation from permutation", "src/indexing.hpp"), ("slice dimension dropping", "src/ArraySlice.hpp"), ("view adoption of dims/strides", "src/ArrayView.hpp")],
 ["element addresses", "size/stride/linearIndex results", "iteration order"])

prop("P02", "Resizing a multidimensional array gives the right shape and contents",
 "After any sequence of resizes (all extents, a subset of extents, the single resizable dimension, with or without a default value, without initialisation), reserves and clears, an array reports exactly the requested extents, the strides of its layout and a capacity that is no smaller than its size or than a reservation just made and that resizing never lowers. Resizing along the selected default dimension keeps every element whose multi-index still exists, at the same multi-index, and gives every new element the default or the supplied value, in every layout and for every choice of that dimension; a one-dimensional array keeps its prefix. Resizing an array that holds nothing value-initialises every element, or gives it the supplied value.",
 ["histories", "configurations", "inputs"],
 "all histories of resize/reserve/clear operations up to a depth over extents 0..3, for every permutation of up to 3 (4) dimensions and each choice of resizable dimension",
 "Tests resize along one dimension with a handful of shapes in one direction; gap insertion and removal depends on permutation, chosen dimension, previous capacity and history.",
 ["src/Array.hpp", "src/bufferManipulation.hpp", "src/arrayManipulation.hpp"],
 [("default-dimension resize by inserting or erasing strided gaps", "src/Array.hpp"), ("buffer reserve / dynamic reserve", "src/bufferManipulation.hpp")],
 ["size, extents, strides, capacity", "every element after every step"])

prop("P03", "A one-dimensional array behaves like a standard vector",
 "For every history of pushing, popping, inserting (value, range, at any position), erasing, resizing with or without default or value, reserving, clearing, copying and moving, on the heap-backed, device-aware and fixed-capacity buffers, a one-dimensional array has the size, contents and iteration order of a standard vector given the same operations. Its capacity never drops below its size, and reserving within capacity does not move the elements.",
 ["histories", "inputs", "configurations"],
 "all operation histories up to a depth over small sizes and positions, element types with trivial, move-only-cheap and copy-only semantics",
 "Tests run a few long fixed scenarios; off-by-one shifts depend on the combination of size, capacity and position.",
 ["src/Array.hpp", "src/bufferManipulation.hpp", "src/arrayManipulation.hpp", "src/MallocBuffer.hpp", "src/StackBuffer.hpp", "src/ChaiBuffer.hpp"],
 [("emplace/insert/erase shifting", "src/arrayManipulation.hpp"), ("geometric growth", "src/bufferManipulation.hpp")],
 ["size/empty/capacity/begin/end/front/back/operator[]"])

prop("P04", "Elements are constructed and destroyed exactly once and nothing leaks",
 "For every history of operations on any container (including copy, move, self-assignment, clear, resize, compress, and destruction with elements left in), every element object is constructed exactly once and destroyed exactly once, no operation reads or assigns through a destroyed or never-constructed object, and when the last owner is gone every byte of heap memory has been returned exactly once.",
 ["histories", "inputs"],
 "all operation histories up to a depth on each container with instrumented movable and copy-only element types",
 "Lifetimes are unobservable through values of trivial types; only the exact history that leaves a gap or a moved-from element exposes the leak.",
 ["src/arrayManipulation.hpp", "src/bufferManipulation.hpp", "src/MallocBuffer.hpp", "src/Array.hpp", "src/ArrayOfArraysView.hpp", "src/SortedArray.hpp", "src/ArrayOfSets.hpp", "src/CRSMatrix.hpp"],
 [("placement construction/destruction when shifting", "src/arrayManipulation.hpp"), ("buffer free and realloc", "src/MallocBuffer.hpp")],
 ["object address registry", "allocation balance"])

prop("P05", "Owning containers copy deeply, views alias, moves transfer everything",
 "After copy construction or copy assignment between any two states of any owning container (empty, small, large, with spare capacity, moved-from, itself) source and destination compare equal and later mutation of either never shows in the other. After move construction or move assignment the destination has exactly the source's former contents and the source is empty and can be assigned to, or resized for reuse. Any number of view copies alias the same storage: an element written through one is seen through all, and stays valid until the owner reallocates.",
 ["histories", "inputs"],
 "all pairs of source/destination states reachable by short histories, for every owning container, followed by every single mutation of either side",
 "Tests copy one or two hand-built states; aliasing or lost slack shows only for particular source/destination capacity combinations.",
 ["src/Array.hpp", "src/SortedArray.hpp", "src/ArrayOfArrays.hpp", "src/ArrayOfSets.hpp", "src/SparsityPattern.hpp", "src/CRSMatrix.hpp", "src/bufferManipulation.hpp"],
 [("copyInto of buffers", "src/bufferManipulation.hpp"), ("setEqualTo", "src/ArrayOfArraysView.hpp")],
 ["contents of both containers after each step", "data addresses"])

prop("P06", "A sorted array behaves like an ordered set",
 "For every history of single and batch insertions and removals, reservations, clears, copies, moves and view creation, a sorted array holds exactly the distinct values of an ordered set given the same operations, in strictly increasing order. Every insertion and removal returns whether, or how many, elements actually changed, and membership queries (on the container and on its views) agree with the set.",
 ["histories", "inputs"],
 "all histories up to a depth over a small value alphabet, all sorted-unique batches over that alphabet",
 "Tests insert random values; merge corner cases (batch wholly before, after, interleaved, duplicated, at capacity) need exhaustive enumeration.",
 ["src/SortedArray.hpp", "src/SortedArrayView.hpp", "src/sortedArrayManipulation.hpp"],
 [("binary search insertion", "src/sortedArrayManipulation.hpp"), ("batch merge from the back", "src/sortedArrayManipulation.hpp")],
 ["return values", "contents", "contains"])

prop("P07", "Sorting, searching and set algorithms are correct for every input",
 "For every input range, sorting produces an ordered permutation of the input under the given comparator, sorting two ranges together permutes the second exactly as the first, and making a range sorted and unique leaves exactly its distinct values in order. The order/uniqueness predicates, lookup (index of the first element not less than the value), membership test, and single and batch set insertion and removal on raw sorted ranges return what their mathematical definition gives, notify their callbacks of exactly the positions changed, and never touch memory outside the range.",
 ["inputs"],
 "all arrays up to length 7 over small alphabets, all permutations up to length 8, structured families (all runs, organ pipes, killers, duplicates) at every length through the insertion-sort and multi-range thresholds",
 "Tests sort random arrays; threshold and partition corner cases are specific inputs.",
 ["src/sortedArrayManipulation.hpp", "src/sortedArrayManipulationHelpers.hpp"],
 [("hybrid quick/insertion sort with explicit range stack", "src/sortedArrayManipulationHelpers.hpp"), ("dual iterator", "src/sortedArrayManipulationHelpers.hpp")],
 ["output ranges", "callback traces", "return values"])

prop("P08", "An array of arrays behaves like a vector of vectors",
 "For every history of adding, inserting, erasing and resizing inner arrays and of adding, inserting, emplacing and erasing their elements, clearing, copying, moving, building from capacities or a given array of arrays, and converting to views, an array of arrays has the number of inner arrays, their sizes and their contents of a vector of vectors given the same operations.",
 ["histories", "inputs"],
 "all histories up to a depth over 0..3 inner arrays with 0..4 elements, from empty and from pre-populated states with and without slack",
 "Tests run randomised scenarios from few initial states; wrong offsets appear only with particular sizes and slack in neighbouring arrays.",
 ["src/ArrayOfArrays.hpp", "src/ArrayOfArraysView.hpp", "src/arrayManipulation.hpp"],
 [("offsets/sizes bookkeeping", "src/ArrayOfArraysView.hpp"), ("setCapacityOfArray shifting", "src/ArrayOfArraysView.hpp")],
 ["size(), sizeOfArray(), elements"])

prop("P09", "Inner capacity management never disturbs values or neighbours",
 "Inner arrays occupy disjoint storage: operations on one inner array, reserving values or arrays, changing one inner capacity, compressing, and operations through views never change the size or values of any other inner array, and change those of the inner array itself only as documented (truncation when the new capacity is smaller). Every reported inner capacity is at least the inner size, a capacity request is honoured, reserving never lowers a capacity, compression leaves every inner capacity equal to its size with all values kept, total counts equal the sum of the parts, and rebuilding from a list of capacities yields empty inner arrays with exactly those capacities. As many empty inner arrays as the reported capacity leaves room for can be appended without a reallocation. Mutation through a view never reallocates.",
 ["histories", "inputs"],
 "all histories up to a depth of capacity operations and view-level mutations on arrays of arrays, arrays of sets, sparsity patterns and matrices",
 "Neighbour corruption needs a specific layout of slack; tests check aggregated random runs.",
 ["src/ArrayOfArrays.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfSets.hpp", "src/SparsityPattern.hpp", "src/CRSMatrix.hpp"],
 [("setCapacityOfArray / compress / resizeFromCapacities", "src/ArrayOfArraysView.hpp")],
 ["capacities, sizes, values of all inner arrays, data addresses"])

prop("P10", "An array of sets behaves like a vector of ordered sets",
 "For every history of inserting, erasing and appending sets and of inserting and removing single values or sorted batches through the container or its views, plus clear, copy, move, compress and adoption of an array of arrays with or without sorting, every inner set is strictly increasing and equal to the ordered set given the same operations. Insertions and removals return how many values changed and membership queries agree with the reference sets.",
 ["histories", "inputs"],
 "all histories up to a depth over up to 3 sets and a 4-value alphabet",
 "Same as the sorted array, multiplied by the slack of the neighbouring sets.",
 ["src/ArrayOfSets.hpp", "src/ArrayOfSetsView.hpp", "src/sortedArrayManipulation.hpp"],
 [("per-set capacity growth in insert", "src/ArrayOfSets.hpp"), ("assimilate", "src/ArrayOfSets.hpp")],
 ["sizes, contents, return values, contains"])

prop("P11", "A sparsity pattern records exactly the non-zero positions inserted",
 "For every history of inserting and removing non-zero positions singly and in batches, resizing, reserving, setting row capacities, compressing, copying, moving and assembling from row lengths, a sparsity pattern contains exactly the (row, column) positions of a reference set, in increasing column order in every row, with per-row and total counts that agree and all columns below the declared column count. Return values say how many positions changed, and emptiness queries agree with the reference.",
 ["histories", "inputs"],
 "all histories up to a depth over up to 3 rows and 4 columns",
 "Tests run long random fills; the interplay of row capacity, compression and resizing is history-dependent.",
 ["src/SparsityPattern.hpp", "src/SparsityPatternView.hpp"],
 [("row-wise sorted insertion", "src/SparsityPatternView.hpp")],
 ["getColumns, numNonZeros, empty, return values"])

prop("P12", "A compressed-row matrix behaves like a map from positions to values",
 "For every history of inserting and removing non-zeros, setting, zeroing and adding values, resizing, compressing, adopting a sparsity pattern, copying and moving, every stored column keeps its own value and the matrix equals a map from (row, column) to value. All ways of adding to a row (sorted or unsorted columns, by linear, binary or automatic search, atomic or not) give the same result on every row for which they are defined, and views over the pattern, the entries or both show the same data.",
 ["histories", "inputs"],
 "all histories up to a depth over up to 3 rows, 4 columns and small integer values; all column subsets and row lengths across the search-strategy thresholds",
 "Value/column misalignment appears only when columns shift across occupied rows; strategy thresholds are not crossed by small tests.",
 ["src/CRSMatrix.hpp", "src/CRSMatrixView.hpp", "src/SparsityPatternView.hpp"],
 [("callbacks that move entries with columns", "src/CRSMatrixView.hpp"), ("addToRow search variants", "src/CRSMatrixView.hpp")],
 ["getColumns/getEntries per row, return values"])

prop("P13", "Concurrent atomic emplacement loses and duplicates nothing",
 "When any number of threads atomically append elements to inner arrays with enough capacity, in every interleaving each appended element ends up exactly once in its inner array, sizes equal the number appended, elements present before are unchanged and no two threads write the same slot or touch another inner array.",
 ["schedules"],
 "all interleavings of the shared-memory accesses of 2 threads with 2 appends and 3 threads with 1 append (more in thorough) over shared inner arrays",
 "The unit test launches real threads once per run and samples a few interleavings; it is not buildable here.",
 ["src/ArrayOfArraysView.hpp"],
 [("atomic size increment as slot reservation", "src/ArrayOfArraysView.hpp")],
 ["contents and sizes after every interleaving", "data-race monitor"])

prop("P14", "Concurrent atomic accumulation into matrix rows loses no update",
 "When several threads add to rows of the same matrix with an atomic policy, through any of the add variants, in every interleaving every entry ends as its initial value plus the sum of all contributions addressed to it, and nothing else changes.",
 ["schedules"],
 "all interleavings of the shared accesses of 2-3 threads adding overlapping column sets, for the sorted, unsorted linear and unsorted binary variants",
 "Lost updates need a specific interleaving between the read and the write of an addition.",
 ["src/CRSMatrixView.hpp"],
 [("atomic add per entry", "src/CRSMatrixView.hpp")],
 ["entries after every interleaving", "data-race monitor"])

prop("P15", "Threads working on different rows never interfere",
 "When threads insert into, remove from, append to, set or read different inner arrays, sets or rows of one container through views with sufficient capacity, every interleaving gives the result of running the threads one after the other, and no memory location is accessed by two threads with at least one write unless both accesses are atomic.",
 ["schedules"],
 "all pairs of row-local operations on distinct adjacent rows in 2-thread programs, happens-before race detection on every access plus exhaustive interleaving of conflicting accesses",
 "A race between neighbours shows only under a particular interleaving or layout, e.g. when a shared counter or a boundary slot is touched.",
 ["src/ArrayOfArraysView.hpp", "src/ArrayOfSetsView.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrixView.hpp", "src/bufferManipulation.hpp"],
 [("disjoint storage per row", "src/ArrayOfArraysView.hpp")],
 ["happens-before race monitor", "final contents"])

prop("P16", "Bulk parallel operations do not depend on iteration order or overlap",
 "Bulk operations that take an execution policy (building from row capacities, zeroing, setting all values, filling a matrix from a sparsity pattern, copying one matrix's entries into another's structure) give the same result for every iteration order, every partition among workers and every interleaving, equal to the sequential result.",
 ["schedules"],
 "all iteration orders and 2-worker partitions for up to 5 iterations, plus happens-before race detection between iterations",
 "The tests run one thread pool schedule, and the sequential policy hides order dependence.",
 ["src/ArrayOfArraysView.hpp", "src/ArrayOfArrays.hpp", "src/CRSMatrixView.hpp", "src/CRSMatrix.hpp", "src/ArrayView.hpp", "src/SparsityPattern.hpp"],
 [("forall kernels and scans", "src/ArrayOfArraysView.hpp")],
 ["result state per schedule", "race monitor"])

prop("P17", "Checked builds report every invalid access and never a valid one",
 "With bounds checking enabled, every access or modification with an index, position, column or batch outside the documented domain (including negative indices, one-past-the-end, unsorted or duplicate batches, missing columns, over-capacity view insertions and non-contiguous raw access) is reported through the error handler before any memory outside the addressed object is read or written. No operation with valid arguments is ever reported.",
 ["inputs", "histories", "configurations"],
 "every index in [-2, size+2] for every dimension and accessor of every container over all small shapes, all short batches",
 "Death tests cover one or two invalid indices per accessor; a missing or off-by-one check is only visible at the particular index and accessor.",
 ["src/ArrayView.hpp", "src/ArraySlice.hpp", "src/indexing.hpp", "src/ArrayOfArraysView.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrixView.hpp", "src/SortedArrayView.hpp", "src/arrayManipulation.hpp", "src/sortedArrayManipulation.hpp"],
 [("bounds-check macros", "src/indexing.hpp"), ("insert bounds", "src/arrayManipulation.hpp")],
 ["error handler invocations", "memory outside the container"])

prop("P18", "Integer conversion preserves the value or reports an error",
 "Converting an integer from any built-in integer type to any other either returns exactly the same mathematical value or reports an error, and reports an error exactly when the value is not representable in the destination. The limits published for every arithmetic type are those of the type.",
 ["inputs", "configurations"],
 "all ordered pairs of the 8- and 16-bit to 64-bit signed and unsigned types; every value of 8- and 16-bit sources, and all values within a window around every power of two and every type limit for wider ones",
 "The test checks only the extreme values of a few pairs, so mixed-sign conversions of small values are unchecked.",
 ["src/limits.hpp"],
 [("compile-time range comparison and run-time check", "src/limits.hpp")],
 ["returned value", "error handler"])

prop("P19", "Fixed-capacity arrays stay within their buffer and copy by value",
 "An array on a fixed-capacity stack buffer never allocates, holds its elements inside itself, behaves as the heap-backed array for every history that fits the capacity and reports an error instead of growing past it. Copies and views of it are independent by-value copies.",
 ["histories", "inputs"],
 "all operation histories up to a depth with capacities 1..4 and every over-capacity request",
 "Tests exercise only in-capacity use of one or two sizes.",
 ["src/StackBuffer.hpp", "src/Array.hpp", "src/bufferManipulation.hpp"],
 [("capacity check instead of reallocation", "src/StackBuffer.hpp")],
 ["contents, data address, error handler, allocation count"])

prop("P20", "Data seen in any memory space is the last data written in any space",
 "For every sequence of captures of views in host and device contexts, explicit moves with and without touch, writes through mutable views in either space, resizes on the host, copies and nested containers, a read in any space sees the last value written in any space, through every container. A view captured as read-only never invalidates the copies in other spaces, and all allocations in every space are released exactly once with the owner.",
 ["histories", "schedules"],
 "all histories up to a depth of {capture mutable/const view in space s and read/write, move(s, touch), host resize, copy, destroy} over 2 spaces with a mock memory manager that poisons stale and fresh copies",
 "Needs a GPU or managed-memory build; no test of it can be built here and stale-copy bugs depend on the capture history.",
 ["src/ChaiBuffer.hpp", "src/ArrayView.hpp", "src/ArrayOfArraysView.hpp", "src/SortedArrayView.hpp", "src/CRSMatrixView.hpp", "src/bufferManipulation.hpp", "src/umpireInterface.cpp"],
 [("move on copy-construction", "src/ChaiBuffer.hpp"), ("registerTouch", "src/ChaiBuffer.hpp")],
 ["values read in each space", "mock manager's record of touches and frees"])

prop("P21", "Text parsing and printing of arrays are exact",
 "Parsing a text representation accepts exactly the well-formed nested brace lists of the right depth with rectangular shape, producing their extents and values in order, and reports every other string as an error (unbalanced or misplaced braces, ragged rows, wrong depth, missing or extra separators, malformed numbers, trailing garbage) without touching memory outside the array. Printing any container yields the documented nested text of exactly its contents, and a printed array without empty sub-arrays parses back to an equal array.",
 ["inputs"],
 "all token strings up to a length over {open, close, comma, number, space, junk} for 1 to 3 dimensions; all small arrays of each container printed",
 "Tests cover a dozen strings; acceptance of malformed nesting is a language question.",
 ["src/input.hpp", "src/output.hpp"],
 [("brace-level state machine", "src/input.hpp"), ("stream operators", "src/output.hpp")],
 ["parsed extents and values", "error reports", "printed text"])

prop("P22", "Slice helpers visit every element once, and copies land where addressed",
 "Iterating over a slice visits every multi-index exactly once in lexicographic index order whatever the layout, with the values at those indices, and summing a slice equals the sum of its values. Copying between arrays, views and slices of equal shape and layout, whole or addressed by leading indices, transfers exactly the addressed elements and nothing else.",
 ["inputs", "configurations"],
 "all shapes with extents 0..3, all permutations up to 4 dimensions, every pair of leading-index selections",
 "Tests fix one shape per layout.",
 ["src/sliceHelpers.hpp", "src/memcpy.hpp"],
 [("recursive slice traversal", "src/sliceHelpers.hpp"), ("leading-index slicing before copy", "src/memcpy.hpp")],
 ["visit order and values", "destination contents"])

prop("P23", "Tensor operations compute their documented formulas exactly",
 "Every vector, matrix and symmetric-matrix operation (fill, copy, scale, add, subtract, products in all transposition variants, outer products, traces, norms, determinant, transposition, packing and unpacking of symmetric storage, symmetric products) equals its index formula for all sizes, in every memory layout of its arguments and for fixed arrays, slices and arrays alike. It modifies only its destination, reading the old destination value exactly where the operation is documented as accumulating.",
 ["inputs", "configurations"],
 "all sizes 1..4 per dimension, all argument layouts; values enumerated over small integer domains, one position at a time and pairwise, where integer arithmetic is exact and multilinearity makes the basis decisive",
 "Tests use one seeded matrix per size with tolerances.",
 ["src/tensorOps.hpp", "src/genericTensorOps.hpp", "src/fixedSizeSquareMatrixOps.hpp", "src/fixedSizeSquareMatrixOpsImpl.hpp"],
 [("index loops", "src/genericTensorOps.hpp"), ("unrolled 2x2/3x3 formulas", "src/fixedSizeSquareMatrixOpsImpl.hpp")],
 ["destination and source values"])

prop("P24", "Matrix inverses, symmetric eigensystems and normalised vectors satisfy their equations",
 "For every invertible 2x2 or 3x3 matrix, general or symmetric, the inverse operation returns the determinant and a matrix whose product with the original is the identity to rounding, in place or out of place alike, and leaves a separate source unchanged. For every symmetric 2x2 or 3x3 matrix the eigenvalues are returned in ascending order and agree with the true ones, the eigenvectors are the rows, have unit length, are orthogonal and satisfy the eigen-equation, including for repeated and zero eigenvalues and at every scale: all to rounding relative to the largest entry, except that for 3x3 matrices accuracy may degrade to the square root of rounding as two eigenvalues approach each other. Normalising a nonzero vector makes it the unit vector of the same direction and returns its length.",
 ["inputs"],
 "all 2x2 and 3x3 symmetric matrices with small integer entries (and scaled by powers of ten), all invertible general matrices with entries in a small domain",
 "Tests take random matrices, which never have repeated eigenvalues or zero off-diagonals.",
 ["src/fixedSizeSquareMatrixOpsImpl.hpp", "src/fixedSizeSquareMatrixOps.hpp"],
 [("closed-form eigenvalues and rank-revealing eigenvectors", "src/fixedSizeSquareMatrixOpsImpl.hpp")],
 ["returned values against residual bounds"])

prop("P25", "Error macros fire exactly on their condition and reach the handler",
 "Every error, assertion, exception and warning macro fires exactly when the condition in its name holds for its operands, evaluates each operand exactly once when it does not fire, reports the message, the operand values and the location through the configured error handler, the thrown exception or the output stream, and does nothing otherwise. Assertion variants are active exactly in debug builds.",
 ["inputs", "configurations"],
 "every macro, every pair of operands in {-1,0,1,2} in int, unsigned and double, in debug and release configurations",
 "Macros are used by tests only on the firing side and for some comparison operators.",
 ["src/Macros.hpp", "src/system.cpp"],
 [("comparison macros", "src/Macros.hpp"), ("error handler", "src/system.cpp")],
 ["handler calls, exceptions, output text, evaluation counts"])

prop("P26", "Signal handling and floating-point traps are set and restored exactly",
 "For every sequence of setting, replacing and resetting the fatal-signal handler and the error handler, signals go to the handler last set, and after a reset to the disposition that was there before the first set. For every nesting of enabling, disabling and scoped disabling of floating-point exceptions, the enabled set is what the last call says, the calls return the previous set, and leaving a scope restores the set as it was on entry.",
 ["histories", "fault_sequences"],
 "all histories up to a depth over two handlers, all fatal signals, reset; all nestings of enable/disable/guards over the five exception kinds",
 "Tests install a handler once per process.",
 ["src/system.cpp", "src/system.hpp"],
 [("saved initial dispositions", "src/system.cpp"), ("scope guard", "src/system.hpp")],
 ["signal dispositions", "fegetexcept", "delivered handler"])

prop("P27", "Diagnostics helpers produce correct text",
 "Byte counts are rendered with one decimal in the largest of KB, MB and GB that keeps the number at least one (KB below that), complete for every size. Demangling returns the readable type or function name, for every type including nested templates, and returns unmangled text unchanged. A stack trace lists the active functions, innermost first, each with the file and line of the call where that was asked for, addr2line is enabled and the program has debug information, and leaves no process or open file behind. Debugger descriptions name the same types, bounds and addresses as the objects they describe and stay within their buffer. With the memory manager's callbacks enabled, each transfer of a buffer between memory spaces is logged on one line with its size, the space it goes to, the type of the container and the name the container was last given (also after reallocations), and nothing else is logged; memory spaces print as their names.",
 ["inputs"],
 "every size around each unit boundary and each decimal width, a grammar of nested types to a depth, all small arrays in the debugger description, all histories of naming, captures, moves and reallocations of every container to a depth",
 "Tests check none of the boundaries.",
 ["src/system.cpp", "src/system.hpp", "src/totalview/tv_data_display.c", "src/totalview/tv_helpers.hpp", "src/ChaiBuffer.hpp", "src/bufferManipulation.hpp"],
 [("transfer log", "src/ChaiBuffer.hpp"), ("unit selection", "src/system.cpp"), ("demangle", "src/system.cpp")],
 ["returned strings"])

prop("P28", "Math helpers return the mathematically correct value for every input",
 "The arithmetic helpers (min, max, abs, square, square root and its inverse, trigonometric and inverse trigonometric functions, joint sine-cosine, exponential, logarithm) return for every argument and every supported arithmetic type the correctly typed value of the function within the accuracy of the standard library, including signed zeros, infinities, not-a-number, denormals and the limits of integer types. The approximations written for half-precision types are accurate to half precision.",
 ["inputs"],
 "every value of a 16-bit pattern sweep of float, all special values and pairs of them in double, all 8- and 16-bit integers and pairs of them",
 "Tests check a few dozen ordinary arguments.",
 ["src/math.hpp"],
 [("overloads per type", "src/math.hpp")],
 ["returned values and types"])

prop("P29", "Converting and nested views show the same data as the owner",
 "A view converted to another element constness, to a nested view type for containers of containers, or reinterpreted to a different element type of dividing size shows exactly the same bytes at the matching indices, with the extent of the unit-stride dimension scaled, never copies, and rejects conversions that do not divide. Nested containers behave element-wise as the same operations on independent containers, at every nesting depth.",
 ["inputs", "histories", "configurations"],
 "every layout of 1 to 3 dimensions, unit-stride extents 0..8 and others 0..3, every spare capacity 0..3, eight pairs of element types (ratios 2, 3, 4, 8 in both directions); every small shape of arrays of arrays, sorted arrays, arrays of arrays, arrays of sets, patterns and matrices; all histories up to a depth on arrays of arrays and on arrays of arrays of arrays",
 "Tests convert a single shape.",
 ["src/ArrayView.hpp", "src/typeManipulation.hpp", "src/indexing.hpp", "src/bufferManipulation.hpp"],
 [("type-converting constructor", "src/ArrayView.hpp"), ("nested view type deduction", "src/typeManipulation.hpp")],
 ["bytes, extents and strides of the converted view"])

prop("P30", "Containers shared with Python show the same data on both sides and respect the access level",
 "A container exposed to Python is shared, not copied: the NumPy arrays made from it (whole arrays, sorted arrays, the rows of arrays of arrays and of sets, the columns and entries of a matrix, the SciPy matrix of a compressed matrix) show its memory with its type, shape and strides, so that every change made on either side is visible on the other. Values can be written from Python only with the modifiable or resizeable access level, sizes changed only with the resizeable one, sorted values and columns are never writable, and an operation the level forbids raises and changes nothing. Every permitted operation (resizing, insertion, removal, erasure, deletion, compression, addition to a row) has the effect and result of the C++ one whatever the order of the values given, out-of-range positions raise, and every object and the wrapper itself are released once.",
 ["histories", "access levels", "argument values"],
 "all histories up to a depth of Python-side and C++-side operations under each access level, from empty and filled containers, arrays of 1 to 3 dimensions in permuted layouts",
 "The Python tests need a build that does not exist here; they run one script per class, mostly at the resizeable level.",
 ["src/python"],
 [("wrapping of memory as NumPy arrays", "src/python/numpyHelpers.cpp"), ("access levels", "src/python/PyArray.cpp"), ("changes of sets", "src/python/PySortedArray.hpp"), ("changes of rows", "src/python/PyArrayOfArrays.hpp"), ("changes of matrices", "src/python/PyCRSMatrix.hpp")],
 ["values, shapes, strides, types and writability on both sides, raised exceptions, results, memory released"])

prop("P31", "Python arguments are converted safely or refused without effect, and errors and references are passed on exactly",
 "An argument that stands for values is accepted exactly when NumPy can cast it safely to the type of the container (a contiguous, writable array, a scalar or a sequence of at most one dimension always; others may be refused), and then has the values NumPy gives it; everything else raises. Calls with the wrong number or kinds of arguments, positions that are out of range, unknown subscripts and access levels, and objects that wrap nothing raise a Python exception, never crash, and leave the container as it was. Every arithmetic type maps to its NumPy type and back, and constant scalars are read-only; a type without a counterpart raises a TypeError; strings arrive byte for byte or raise if they are not UTF-8. A callback gets its arguments by reference, an exception it raises arrives in C++ as a PythonError with the Python exception still set, and no reference to an object is lost or released twice.",
 ["inputs", "argument types", "histories of references"],
 "every argument of a pool of about 150 for every values parameter of every container of 12 element types, every combination of a pool of 18 objects for every parameter list, all strings of up to 3 symbols, all histories of two references up to a depth",
 "The Python tests need a build that does not exist here, and try few invalid arguments.",
 ["src/python"],
 [("conversion of values", "src/python/numpyHelpers.cpp"), ("callbacks", "src/python/PyFunc.cpp"), ("references and strings", "src/python/pythonHelpers.cpp"), ("module", "src/python/python.cpp")],
 ["raised exceptions and their types, contents before and after, reference counts, memory released"])

prop("P32", "Filling a container sets every element and nothing else",
 "Zeroing an array or a matrix, setting all its values to one value, and setting the values of an array from a view of equal shape and layout give every element (every stored entry of a matrix) exactly that value, whatever the shape, layout, element type, index type, spare capacity and kind of view used. They change no memory past the last element of an array, no extent, column, row size, capacity or offset, and nothing in the source. A source of another shape or layout is reported and nothing is written.",
 ["inputs", "configurations"],
 "all shapes with extents 0..3 in all layouts of up to 4 dimensions, all sparsity patterns of a few rows and columns, sizes around every limit of the index type, every fill through every kind of view",
 "Tests fill one shape per container with a wide index type and look at the elements only.",
 ["src/ArrayView.hpp", "src/CRSMatrixView.hpp", "src/umpireInterface.cpp"],
 [("memset over the buffer", "src/ArrayView.hpp"), ("memset over the entries", "src/CRSMatrixView.hpp"), ("element-wise fill", "src/ArrayView.hpp")],
 ["every element, the memory after it, and the structure"])

prop("P33", "Every buffer does the same under the buffer operations",
 "For every history of the buffer operations (emplace, insert, pop, erase, resize with or without a value, reserve, set capacity, free, copy into) on the heap-backed, device-aware and fixed-capacity buffers, a buffer and the size its user keeps represent the same sequence as a vector given the same operations. A request that fits neither moves the values nor changes the capacity, a capacity that is set is the one reported, and values cut off by a smaller capacity are released. Copies of heap-backed and device-aware buffers share the values, copies of fixed-capacity buffers do not; a buffer that was moved from or freed is empty and holds no memory. Positions and sizes that are impossible are reported when bounds checks are on, erasing what is not there always, and so is every request beyond a fixed capacity, each without any effect on the values.",
 ["histories", "configurations"],
 "histories of up to 5 (thorough: 6) operations on two buffers at once, values int, bytes, strings, tracked movable and copy-only elements",
 "Tests check each operation once per buffer type from a few sizes; the containers above never reach some buffer states (copies, moves onto a used buffer, capacities below the size).",
 ["src/bufferManipulation.hpp", "src/MallocBuffer.hpp", "src/StackBuffer.hpp", "src/ChaiBuffer.hpp", "src/arrayManipulation.hpp"],
 [("moves leave an empty buffer", "src/MallocBuffer.hpp"), ("growth before every insertion", "src/bufferManipulation.hpp"), ("reallocation moves what fits", "src/ChaiBuffer.hpp"), ("capacity check", "src/StackBuffer.hpp")],
 ["values, sizes, capacities and addresses after each operation, lifetimes and memory released, errors reported"])

prop("P34", "Concurrent readers and independent users never interfere",
 "Threads that only read one container, directly or through views of it and copies of those views, and threads that use containers, sorting, parsing, printing, tensor operations or system functions on data of their own, each get the results they would get running alone, under every schedule. No such thread touches a location that another one writes (there is no hidden shared state such as a cached position or a static work space), and readers leave the container as it was.",
 ["schedules"],
 "all pairs (and triples) of the operations of each container type by 2 (3) threads on shared containers of up to three shapes, and of library operations on data of the threads' own",
 "The tests run readers in a single thread, and a race shows in a test run only when the schedule happens to hit it.",
 ["src/Array.hpp", "src/ArrayView.hpp", "src/SortedArrayView.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfSetsView.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrixView.hpp", "src/sortedArrayManipulation.hpp", "src/tensorOps.hpp", "src/input.hpp", "src/output.hpp", "src/system.cpp"],
 [("lookup keeps no position between calls", "src/sortedArrayManipulation.hpp"), ("work space on the stack", "src/fixedSizeSquareMatrixOpsImpl.hpp"), ("copying a view doesn't touch what it shows", "src/MallocBuffer.hpp")],
 ["each thread's results compared with running alone, a happens-before check of every memory access, the container before and after"])

prop("P35", "Work within the room a container has moves nothing, and growth is amortised",
 "An operation that needs no more room than a container (or inner array, set or row) reports or was given by reserving, whatever the history before it (adding values, removing, shrinking, clearing, appending empty parts, asking again for room it has), allocates nothing and leaves the values of the parts it does not remove where they were, so pointers into the container stay valid. Reading, looking up, iterating and creating or copying views allocate nothing, and moving a container there and back keeps every value at its address. Adding n values one at a time, at the end, in front, in the middle, in any part, needs a number of reallocations that is at most logarithmic in the number of values, and appending them copies or moves on the order of n values, plus a logarithmic number of moves of what lies behind them.",
 ["histories", "inputs"],
 "histories of up to 4 (thorough: 5) operations from three states of each container; 2000 to 8000 (thorough: 6000 to 30000) single additions to containers of up to 6 parts in 2 to 10 patterns",
 "Tests look at the values, which are right however often they are moved; that pointers survive and that growth is not quadratic shows only when addresses, allocations and moves are counted over whole histories.",
 ["src/bufferManipulation.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfArrays.hpp", "src/ArrayOfSets.hpp", "src/SparsityPattern.hpp", "src/CRSMatrix.hpp", "src/SortedArray.hpp", "src/Array.hpp"],
 [("dynamicReserve doubles", "src/bufferManipulation.hpp"), ("a full inner array gets twice its size", "src/ArrayOfArrays.hpp"), ("values are reallocated only when they don't fit", "src/ArrayOfArraysView.hpp")],
 ["allocations and addresses before and after each operation, allocations and moves counted over long runs against a logarithmic bound"])

prop("P36", "The debugger shows the values the containers hold",
 "With the pretty printers of scripts/gdb-printers.py, which GDB finds by itself once the source directory is trusted and searched, GDB summarises every buffer with its capacity, every array, view and slice with all its extents, and every array of arrays, array of sets, sparsity pattern, matrix and view of one with the number of its inner arrays, for every element, index and buffer type and every shape, also empty ones. The values shown are exactly the ones the object holds, in the nesting of its dimensions: all of a buffer, all of an array, view or slice with the default layout, and of each inner array its values in use and nothing of the spare room behind them. The members of the object remain visible, and showing an object never fails.",
 ["configurations", "inputs"],
 "all shapes with extents up to 5 (1-d), 3 (2-d) and 2 (3-d, 4-d), all slices by their first index, all sequences of up to 3 sizes up to 3 with and without spare room, on MallocBuffer, StackBuffer and ChaiBuffer",
 "No test runs the printers: they depend on the names and types of private members, which no compiler checks.",
 ["scripts/gdb-printers.py", "src/ArraySlice.hpp", "src/ArrayView.hpp", "src/ArrayOfArraysView.hpp"],
 [("printers", "scripts/gdb-printers.py"), ("the section that names the script", "src/ArraySlice.hpp")],
 ["summary, contents and printed text of each object in a real GDB session"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
