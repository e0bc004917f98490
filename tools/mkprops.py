#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Field arithmetic is exact for every supported field",
  "For every irreducible polynomial f of degree 2 to 16, the field object built from f multiplies any two elements to exactly their product modulo f, and inverts every non-zero element exactly, through every multiplication path it offers (tables, arithmetic, 16-bit scalar tables). Building or freeing one field never changes what another one computes.",
  ["inputs", "configurations"], "every field of degree 2..16 (8,798 minimal polynomials), all pairs of elements (all pairs for small degrees, all elements against a basis and structured sets for large ones), every entry of the precomputed tables",
  "Tests use only the first polynomial of each degree and check a few products; a wrong table entry or reduction for another polynomial or another operand is never seen.",
  ["src/gf2e.c", "src/gf2e.h", "src/gf2x.h"], [("gf2e_init", "src/gf2e.c"), ("_gf2e_mul_arith/_gf2e_mul_table", "src/gf2e.h"), ("gf2e_t16_init", "src/gf2e.h"), ("gf2e_inv", "src/gf2e.h")],
  ["return values of gf2e_mul, ff->mul, ff->inv, gf2e_inv", "table returned by gf2e_t16_init", "ff->pow_gen, ff->red"],
  [("red", "reductors indexed by the high part of a product", "gf2e_struct"), ("_mul", "product table for degree <= 8", "gf2e_struct")])
p("C02", "GF(2)[x] word arithmetic and the list of irreducible polynomials are exact",
  "Polynomial multiplication, division, remainder, degree and modular inversion on machine words return the exact polynomial result for every operand in their documented domain. The published table of irreducible polynomials lists, for every degree 1 to 16, exactly all irreducible polynomials of that degree, once each, ascending, preceded by their number.",
  ["inputs"], "all operand pairs up to 8 bits, all degree bounds 1..32, structured operands up to 64 bits; every entry of the 17 tables against a sieve",
  "Tests multiply a handful of polynomials; no test looks at the table of irreducible polynomials beyond its first entry per degree.",
  ["src/gf2x.h", "src/gf2e.c"], [("gf2x_mul/div/mod/divmod/invmod/deg", "src/gf2x.h"), ("irreducible_polynomials", "src/gf2e.c")], ["return values", "irreducible_polynomials[1..16]"])
p("C03", "Reading, writing and adding one element touches exactly that element",
  "In packed and in sliced matrices of any shape and field, including windows into larger matrices, reading element (i,j) returns exactly the last value stored there, and writing or adding at (i,j) changes exactly that element: every other element, all padding and everything outside a window stays as it was.",
  ["inputs", "histories"], "all fields degrees 2..16, all positions of matrices across every word boundary, all (small field) or structured values, windows at every legal offset kind, all write/add sequences up to a small depth",
  "Tests write at random positions of a few shapes and hardly use windows; corrupted neighbours or padding at one specific word offset stay unnoticed.",
  ["src/mzed.h", "src/mzd_slice.h", "src/mzd_poly.h"], [("mzed_read_elem/write_elem/add_elem", "src/mzed.h"), ("mzd_slice_read_elem/write_elem/add_elem", "src/mzd_slice.h")], ["all bits of the backing store after each call"])
p("C04", "Packed and sliced representations convert into each other without loss",
  "Converting a packed matrix to sliced form, or a sliced matrix to packed form, yields exactly the same element at every position, for every shape, field and value, into a fresh matrix or into an existing one of any previous content, and into or out of windows. The source, all padding and everything outside a destination window stay unchanged.",
  ["inputs"], "all degrees 2..16; every column count across several words of either representation; single-bit basis matrices covering every (column, coefficient) pair, dense patterns, dirty destinations and windows",
  "Tests use about ten shapes and random content and one dirty-destination case; the word-by-word scatter/gather code has a separate branch per column remainder.",
  ["src/conversion.c", "src/conversion_slice8.c", "src/conversion_slice16.c", "src/conversion_cling8.c", "src/conversion_cling16.c", "src/conversion.h"],
  [("mzed_slice, _mzed_slice2/4/8/16", "src/conversion*.c"), ("mzed_cling, _mzed_cling2/4/8/16", "src/conversion*.c")], ["all bits of source and destination"])
p("C05", "Packed row and column operations are exact and confined",
  "Scaling a row, adding a row or a multiple of a row (from any start column on), swapping and copying rows, and swapping columns of packed matrices produce exactly the mathematical result. Columns before the start column, other rows, padding and anything outside a window are unchanged.",
  ["inputs"], "all degrees 2..16, every start column and every column count across several words, all scalars (small fields) or a covering set, aliased and distinct source/target, own storage and windows",
  "The code is unrolled per start offset, per trailing remainder and per storage width (thousands of combinations); tests touch few of them, with random scalars.",
  ["src/mzed.c", "src/mzed.h"], [("mzed_add_multiple_of_row", "src/mzed.c"), ("mzed_rescale_row, mzed_add_row, mzed_row_swap, mzed_col_swap", "src/mzed.h")], ["all bits of the operands after the call"])
p("C06", "Sliced row and column operations are exact and confined",
  "Scaling a row from a start column, adding, swapping and copying rows, and swapping columns (in all rows or in a row range) of sliced matrices produce exactly the mathematical result on every coefficient plane. Everything else - other rows and columns, padding, surroundings of a window - is unchanged.",
  ["inputs"], "all degrees 2..16, every start column / column pair / row range of shapes across word boundaries, covering sets of scalars, own storage and windows",
  "Existing tests reach these only through decompositions on random matrices.",
  ["src/mzd_slice.h", "src/conversion.h"], [("mzd_slice_rescale_row", "src/conversion.h"), ("mzd_slice_row_add, _row_swap, _copy_row, _col_swap, _col_swap_in_rows", "src/mzd_slice.h")], ["all bits of the operands after the call"])
p("C07", "Structural operations reproduce exactly the selected elements",
  "Copying, taking submatrices and windows, concatenating, stacking, setting to a scalar matrix, comparing, testing for zero and finding the first zero row give exactly the element-wise result for every shape and field, in packed, sliced and coefficient-matrix polynomial form. Targets may be fresh or hold old data; sources and surroundings of windows stay unchanged; writes through a window are writes to its parent.",
  ["inputs"], "all degrees, all shapes and all sub-rectangles across word boundaries up to the stated sizes, dirty targets, windows",
  "Tests use fixed shapes; comparison is trusted as the test oracle itself, so a comparison that misses a difference hides every other bug.",
  ["src/mzed.h", "src/mzed.c", "src/mzd_slice.h", "src/mzd_slice.c", "src/mzd_poly.h", "src/mzd_ptr.h"], [("mzed_copy/submatrix/concat/stack/init_window/set_ui/cmp/is_zero/first_zero_row", "src/mzed.h, src/mzed.c"), ("mzd_slice_* counterparts", "src/mzd_slice.h"), ("mzd_poly_cmp, mzd_poly_copy-like helpers", "src/mzd_poly.h")], ["all bits of results and sources; integer results"])
p("C08", "Matrix addition and scalar multiplication are exact",
  "Adding two matrices and multiplying a matrix by a scalar give the exact element-wise result in packed and sliced form, for every shape, field and scalar, into a fresh matrix, an existing matrix of any content, or (for addition, and for packed scalar multiplication) one of the operands. Large matrices, which take a different code path, behave exactly like small ones.",
  ["inputs"], "all degrees; shapes across word boundaries and across the size switch of scalar multiplication; all scalars of small fields and a covering set for large ones; all aliasing patterns and windows",
  "No test multiplies a matrix of 2^17 or more elements by a scalar, and few scalars are tried.",
  ["src/mzed.c", "src/mzd_slice.c", "src/mzd_slice.h", "src/mzd_ptr.h"], [("mzed_add, mzed_mul_scalar", "src/mzed.c"), ("mzd_slice_add, mzd_slice_mul_scalar, mzd_slice_addmul_scalar", "src/mzd_slice.*")], ["all bits of results and operands"])
p("C09", "Packed matrix multiplication is exact for every algorithm",
  "Every packed multiplication routine (naive, Newton-John, Strassen, Karatsuba, bilinear-map, and the automatic choice) computes exactly A*B, and every multiply-and-add routine exactly C+A*B, for all compatible shapes, every field, every legal cutoff, fresh or existing targets with any previous content, and window operands. Operands other than the target are unchanged.",
  ["inputs", "configurations"], "all degrees 2..16; complete product spaces of tiny matrices; basis-unit and structured operands for all shape triples across word boundaries; every routine; every cutoff in a small range including recursive ones; shapes beyond each internal switch",
  "Tests compare the routines with each other on random matrices of a few sizes, first polynomial only; a fault common to two routines or tied to one remainder, cutoff or recursion pattern is missed.",
  ["src/mzed.c", "src/newton_john.c", "src/strassen.c", "src/conversion.h"], [("mzed_mul, mzed_addmul", "src/mzed.c"), ("mzed_mul_newton_john", "src/newton_john.c"), ("mzed_mul_strassen", "src/strassen.c"), ("mzed_mul_karatsuba, mzed_mul_blm", "src/conversion.h")], ["all bits of target and operands"])
p("C10", "Sliced matrix multiplication is exact for every algorithm",
  "Multiplying two sliced matrices gives exactly A*B and multiply-and-add exactly C+A*B, by the naive, the Karatsuba and the bilinear-map route and the automatic choice, for every degree 2 to 16 and every minimal polynomial, all compatible shapes and window operands. Multiplying a sliced matrix by a scalar and accumulating is exact too, and operands are unchanged.",
  ["inputs"], "all degrees and many minimal polynomials of each; basis elements X^i times X^j for all i,j (which decides the bilinear coefficient algorithm completely); shapes across word boundaries; targets with content",
  "The hand-written formulas differ per degree; tests use one polynomial per degree and random matrices.",
  ["src/mzd_slice.h", "src/mzd_slice.c", "src/karatsuba.c", "src/mzd_ptr.h", "src/blm.c"], [("_mzd_slice_addmul_karatsuba, _mzd_ptr_addmul_karatsuba*", "src/karatsuba.c"), ("mzd_slice_mul_blm", "src/mzd_slice.h"), ("_mzd_slice_addmul_naive", "src/mzd_slice.c")], ["all bits of target and operands"])
p("C11", "Products of polynomials with GF(2)-matrix coefficients are exact",
  "Multiplying polynomials whose coefficients are matrices over GF(2), by the naive, balanced Karatsuba, evaluation/interpolation and extension-field routes, adds exactly the convolution of the coefficients to the target. A bilinear map built for given operand lengths (with any modulus plan of sufficient degree, as matrix or compiled program) computes exactly that convolution, reduced by the minimal polynomial if a field was given.",
  ["inputs", "configurations"], "all operand lengths (balanced 1..16 and unbalanced pairs), all basis coefficient pairs X^i, X^j, 1x1 up to multi-word coefficient shapes, every bilinear-map plan the library builds, with and without a field",
  "Tests run a few lengths with random coefficients; a bilinear map that is wrong for one pair of coefficients or one plan is not distinguished.",
  ["src/mzd_poly.h", "src/mzd_poly.c", "src/blm.c", "src/blm.h", "src/karatsuba.c"], [("_mzd_poly_addmul_naive/_karatsubs_balanced/_blm/_crt/_ext1", "src/mzd_poly.h, src/mzd_poly.c"), ("crt_init, blm_init_crt, _blm_djb_compile", "src/blm.c")], ["all bits of all coefficients of the target"])
p("C12", "Triangular solving returns the exact solution, by every route",
  "Solving with a lower or upper triangular matrix with non-zero diagonal overwrites B with the exact X such that T*X = B, in packed and sliced form, by the naive, table-based, recursive and automatic routes and for every cutoff of at least one word. Entries in the other triangle are never used, and the triangular matrix is not changed.",
  ["inputs", "configurations"], "all degrees; complete spaces of tiny systems; structured systems for all sizes across word boundaries and recursion cutoffs; garbage in the ignored triangle; unit and non-unit diagonals; windows for B and T",
  "Tests use random systems, a few sizes and only the default cutoff; splits of the recursion at other places are not reached.",
  ["src/trsm.c", "src/trsm.inl", "src/newton_john.c", "src/trsm.h"], [("_mzed_trsm_*_left", "src/trsm.inl"), ("mzed_trsm_*_left_newton_john", "src/newton_john.c"), ("mzed_trsm_*_left_naive", "src/trsm.c")], ["all bits of B and of the triangular matrix"])
p("C13", "PLE and PLUQ decompositions are genuine factorisations of the input",
  "For every matrix, PLE (naive, table-based, recursive, any cutoff, packed or sliced) returns the rank r, permutations P and Q that are valid, and factors stored in place with L*E = P*A where L is lower triangular with non-zero diagonal in the first r columns and E is an echelon form with leading ones exactly at the columns given by Q. PLUQ likewise returns L*U*Q = P*A, and all routes report the same rank and pivot columns.",
  ["inputs", "configurations"], "all matrices over GF(4) and GF(8) of small shape; every rank and pivot-column family for shapes across word and recursion boundaries, all degrees, every cutoff kind",
  "Tests use random matrices, nearly always of full rank with leading pivots; rank-deficient and gap-pivot matrices at the recursion seams are rare.",
  ["src/ple.c", "src/ple.h", "src/newton_john.c"], [("mzed_ple_naive", "src/ple.c"), ("mzed_ple_newton_john", "src/newton_john.c"), ("_mzd_slice_ple, _mzd_slice_pluq, _mzed_ple", "src/ple.c")], ["result matrix, P, Q, return value"])
p("C14", "Echelon forms are the echelon form of the input, with the right rank",
  "Every echelonisation routine returns the true rank; with the reduced form requested the result is exactly the unique reduced row echelon form of the input, otherwise a row echelon form with leading ones that spans the same row space. Naive, table-based, decomposition-based and automatic routines agree, in packed and sliced form.",
  ["inputs", "configurations"], "complete matrix spaces over GF(4), GF(8), GF(16) of small shape; all ranks and pivot-column families for shapes across word and switch boundaries, all degrees, wide, tall, square and empty-rank cases",
  "Tests compare routines on random (full-rank) matrices plus one low-rank construction; unusual pivot patterns are not enumerated.",
  ["src/echelonform.c", "src/echelonform.h", "src/newton_john.c", "src/mzed.c"], [("mzed_echelonize_naive", "src/mzed.c"), ("mzed_echelonize_newton_john", "src/newton_john.c"), ("mzd_slice_echelonize_ple, mzed_echelonize", "src/echelonform.c")], ["result matrix and return value"])
p("C15", "Inversion returns the exact inverse",
  "For every invertible square matrix the inversion routine returns exactly its inverse, in a fresh matrix or an existing one of any content, and leaves the input unchanged. A singular matrix is refused, with nothing changed.",
  ["inputs"], "all invertible 2x2 matrices over GF(4), GF(8) and 3x3 over GF(4) (complete), structured invertible matrices of all sizes across word boundaries, all degrees and several minimal polynomials",
  "Tests invert a few random matrices per degree.",
  ["src/newton_john.c", "src/newton_john.h"], [("mzed_invert_newton_john", "src/newton_john.c")], ["all bits of result and input"])
p("C16", "Applying permutations permutes exactly, and the transpose undoes it",
  "Applying a permutation (or its transpose) to rows or columns of a packed or sliced matrix gives exactly the matrix with the rows or columns exchanged in the documented order, and applying a permutation and then its transpose restores the matrix bit for bit. A permutation shorter than the dimension leaves the remaining rows or columns alone; padding and surroundings of windows never change.",
  ["inputs"], "all transposition sequences for lengths up to 5, structured ones for lengths across word boundaries, all degrees, both representations, windows",
  "Permutations are exercised only inside decomposition tests.",
  ["src/permutation.h"], [("mzed_apply_p_left/_trans/_right/_right_trans", "src/permutation.h"), ("mzd_slice_apply_p_*", "src/permutation.h")], ["all bits of the matrix"])
p("C17", "Newton-John tables contain every multiple and row updates use them exactly",
  "A multiplication table built from row r and start column c of a matrix lists all scalar multiples of that row from column c on, indexed so that looking up an element yields exactly that multiple, for fresh and reused tables. Eliminating with one to six tables subtracts from every row of the given range exactly the combination selected by that row's entries and touches no other row and no column before the start column.",
  ["inputs", "histories"], "all degrees; all elements of the field; all rows/start columns of shapes across word boundaries; tables reused after holding other (wider) multiples; one to six tables and all row ranges",
  "No test builds a table directly; reuse after different start columns is covered by chance only.",
  ["src/newton_john.c", "src/newton_john.h"], [("njt_mzed_init, mzed_make_table", "src/newton_john.c"), ("mzed_process_rows..6", "src/newton_john.h")], ["table rows selected by the index, updated matrix"])
p("C18", "No operation on valid input reads or writes outside its memory",
  "No library operation on valid arguments accesses memory outside live objects, reads uninitialised or freed memory in a way that influences results, executes undefined integer or shift behaviour, or fails an internal assertion. This holds for every shape, field, window placement and algorithm, including the sizes that switch algorithms.",
  ["inputs", "histories"], "the enumerations of all other properties in reduced bounds on the instrumented library, plus the shapes at each internal switch",
  "Tests run uninstrumented and only on a few shapes; reads past the end of a row or table rarely change a result.",
  ["src"], [("address and undefined-behaviour instrumentation of the library, assertions enabled", "whole library")], ["instrumentation reports, process status"])
p("C19", "Mismatched operands are refused before anything is modified",
  "Every checked entry point called with operands whose dimensions or fields do not fit together refuses by the library's error handler, and at that moment no operand has been changed. With matching operands the same entry points never refuse.",
  ["inputs"], "every checked entry point of the API times every single-argument dimension or field mismatch, packed and sliced, fresh and given targets",
  "No test passes invalid arguments, since the error handler aborts the process.",
  ["src/mzed.c", "src/mzd_slice.h", "src/mzd_slice.c", "src/newton_john.c", "src/strassen.c", "src/conversion.h", "src/conversion.c", "src/trsm.c", "src/trsm.inl"], [("m4ri_die guards at the head of each public operation", "src/*.c, src/*.h")], ["calls of the error handler, operand bits at that moment"])
p("C20", "Printing shows exactly the elements of the matrix",
  "Printing a packed or sliced matrix writes one line per row: the elements in lower-case hexadecimal, right-aligned to the digits of the storage slot, separated by one blank, in square brackets. Nothing else is written and the matrix and everything around a window stay unchanged. Packed and sliced forms print the same text, and two matrices of the same shape print the same text exactly when they are equal.",
  ["inputs"], "all degrees, shapes across word boundaries, all element values of small fields and structured values of large ones",
  "No test looks at printed output.",
  ["src/mzed.c", "src/mzd_slice.c"], [("mzed_print", "src/mzed.c"), ("mzd_slice_print", "src/mzd_slice.c")], ["bytes written to standard output"])
p("C21", "Results do not depend on the machine configuration",
  "Cache sizes and crossover constants chosen at build time only select algorithms: with every configuration multiplication, decomposition, echelonisation and triangular solving give results that meet the same specification, and unique results (products, reduced echelon forms, ranks, solutions) are identical.",
  ["configurations", "inputs"], "builds of the library with several cache-size configurations that move every automatic switch into the explored size range, times the size/rank families around each switch",
  "Tests run one configuration, in which the recursive and blocked paths need matrices larger than most tests use.",
  ["src/ple.h", "src/strassen.c", "src/newton_john.c", "src/echelonform.c", "src/m4ri_functions.h"], [("__M4RIE_PLE_CUTOFF", "src/ple.h"), ("_mzed_strassen_cutoff", "src/strassen.c"), ("giant-step block size", "src/newton_john.c")], ["results of the public operations per configuration"])
p("C22", "Any sequence of operations agrees with the mathematical model",
  "For every sequence of matrix operations on a small set of packed and sliced matrices, the elements observed after every step are those of the mathematical model, and every matrix keeps its representation invariant: unused bits of each element slot and the padding after the last column stay zero, dimensions and field stay fixed. Packed and sliced matrices driven by the same sequence stay equal.",
  ["histories"], "breadth-first over all operation sequences up to a depth on small matrices with state deduplication, for several degrees and shapes, starting from empty and non-initial states",
  "Tests call one operation on fresh random matrices; leftovers of one operation that disturb a later one need a sequence.",
  ["src/mzed.c", "src/mzed.h", "src/mzd_slice.h", "src/conversion.c", "src/newton_john.c"], [("all in-place operations", "src/*.h, src/*.c")], ["all bits of all matrices after every step"],
  [("packed matrices", "model state", "harness"), ("sliced matrices", "model state", "harness")])
p("C23", "Operations keep no hidden state and do not change their inputs",
  "The result of every operation depends only on its arguments: calling it again, after any other operation, with other content in freed or fresh memory, or with another field alive, gives bit-identical results. No operation changes an argument it does not document as output, including field objects.",
  ["histories", "inputs"], "all ordered pairs of operations from a catalogue covering the public API, several fields, with different memory-fill patterns",
  "Tests run each operation in isolation on fresh, mostly zeroed memory.",
  ["src"], [("absence of mutable globals; const operands", "whole library")], ["result bits, operand bits, field tables before and after"])
p("C24", "Random filling yields valid elements only and can reach every element",
  "Randomising a matrix stores a valid field element at every position whatever the random source answers, leaves padding and everything outside a window untouched, and can produce every field element at every position.",
  ["inputs", "fault_sequences"], "all degrees, shapes across word boundaries, enumerated answer sequences of the random source including the extremes",
  "Tests use the output as input and never look at it.",
  ["src/mzed.c", "src/mzd_slice.c", "src/mzd_poly.h"], [("mzed_randomize", "src/mzed.c"), ("mzd_slice_randomize", "src/mzd_slice.c")], ["all bits of the matrix"])
p("C25", "All memory is returned, and running out of memory is reported",
  "Every operation releases exactly what it acquired: after freeing its results the number of live allocations is what it was before. If any single memory allocation inside an operation fails, the library stops through its error handler instead of continuing with a null or half-built object.",
  ["fault_sequences", "inputs"], "every operation of the catalogue for several fields and shapes; every allocation index inside each of them made to fail, one at a time",
  "Tests do not measure leaks and never make an allocation fail.",
  ["src"], [("m4ri_mm_malloc/m4ri_mm_calloc with error handler; paired init/free", "whole library")], ["live allocation count; error handler call; process status"])
p("C26", "Windows of one matrix act as independent operands",
  "When the operands of one operation are windows of the same larger matrix (side by side, stacked, diagonal, with gaps; source windows may also overlap or coincide), the target window receives exactly what the operation gives for separate matrices, and every other bit of the larger matrix, including the source windows and the rest of partially used words, stays as it was. This holds for products by every algorithm, sums, scalar multiples, copies, row operations, triangular solving, inversion and joins, packed and sliced.",
  ["inputs"], "nine layouts of two and three windows in one parent (own or itself a window) times operations, shapes across word boundaries, contents and degrees",
  "Tests use at most one window per parent matrix.",
  ["src/mzed.h", "src/mzd_slice.h", "src/mzed.c", "src/mzd_slice.c", "src/strassen.c", "src/newton_john.c", "src/trsm.c"], [("mzed_init_window", "src/mzed.h"), ("mzd_slice_init_window", "src/mzd_slice.h")], ["all bits of the parent matrix after every operation"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
