import json
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=state or [],observe_at=observe,hook_needed=hook))
ML="src/memory_layout/"
R=[
p("P01","Tiling puts every matrix element at its tile-major position",
 "Converting a row-major matrix of 1 to 4 dimensions whose extents are multiples of the tile sizes into tiled form yields a vector of the same length in which the element with tile coordinates a and in-tile coordinates i lies at position rowmajor(a)*tilesize + rowmajor(i). The input and the tiling description are left unchanged, and no access leaves the vectors. A tiling description whose number of entries differs from the dimension is always rejected with the memory layout exception.",
 ["inputs","configurations"],"every number of tiles (also zero) and every tile size per direction, dimensions 1-4, every element",
 "The existing tests check one or two fixed 2-D shapes; the layout must hold for all shapes, dimensions and element positions.",
 [ML+"tile_array.hpp",ML+"loop_nest.hpp",ML+"tiling_info_dim.hpp"],[("make_tiled / tile_dim / tile_dim_indices",ML+"tile_array.hpp"),("loop_nest",ML+"loop_nest.hpp")],["returned vector","thrown exception"]),
p("P02","Untiling is the exact inverse of tiling",
 "Converting a tiled vector back gives a vector of the same length in which the row-major position of every element holds the value stored at its tile-major position, so tiling then untiling (and untiling then tiling) is the identity. The input is left unchanged, and a tiling description whose number of entries differs from the dimension is always rejected with the memory layout exception.",
 ["inputs","configurations"],"every tile grid and tile size, dimensions 1-4, every element",
 "No existing test checks untiling for general shapes; an inverse law is a statement about all shapes and positions.",
 [ML+"tile_array.hpp",ML+"tile_iterator.hpp",ML+"tile_view.hpp",ML+"util.hpp"],[("undo_tiling",ML+"tile_array.hpp"),("iterate_tiles",ML+"tile_iterator.hpp"),("flat_index",ML+"util.hpp")],["returned vector","thrown exception"]),
p("P03","A tile view addresses exactly the elements of its tile",
 "A view of one tile of a tiled vector reads and writes, by flat offset, by coordinate array and by coordinate list, exactly the element at the tile's start plus the row-major in-tile offset; writes reach the underlying vector and change nothing else. It reports the tile's element count, its tile coordinates, the number of tiles per direction and the row-major in-tile offset of a coordinate correctly.",
 ["inputs","configurations"],"every tile grid, tile size, tile, in-tile position and written value, dimensions 1-4",
 "The tests look at a few elements of one 2-D example; aliasing or offset errors show only for other shapes, dimensions or access forms.",
 [ML+"tile_view.hpp"],[("constructor base offset",ML+"tile_view.hpp"),("operator[] / operator() / flat_index",ML+"tile_view.hpp")],["values read through the view","underlying vector after a write","reported sizes and indices"]),
p("P04","Tile iteration visits every tile exactly once, in row-major order",
 "Iterating over the tiles of a tiled vector calls the callback exactly once for each tile, in row-major order of the tile coordinates, each time with a view of exactly that tile; together the views cover every element of the vector exactly once. Nothing but what the callback writes is changed.",
 ["inputs","configurations"],"every tile grid (also empty) and tile size, dimensions 1-4",
 "Existing tests iterate over one fixed grid; skipped or repeated tiles can depend on the grid and the dimension.",
 [ML+"tile_iterator.hpp",ML+"tile_view.hpp"],[("iterate_tiles / iterate_tile_dim",ML+"tile_iterator.hpp")],["sequence of callback invocations"]),
p("P05","The generic loop nest enumerates the index space exactly",
 "A loop nest of 1 to 4 directions calls its body once for every index tuple min, min+step, ... below max in each direction, in lexicographic order, and never otherwise; an empty range in any direction gives no call. The bounds are not modified.",
 ["inputs"],"all lower bounds, upper bounds and positive steps (no 64-bit overflow), both array flavours",
 "It is only exercised through step 1 and lower bound 0 today; steps that do not divide the range, empty ranges and both overloads are never sampled.",
 [ML+"loop_nest.hpp"],[("loop_nest / execute_looped",ML+"loop_nest.hpp")],["sequence of body invocations"]),
p("P06","The flat index is the row-major bijection",
 "The flat index of a coordinate within given extents is its row-major linearisation: it lies between 0 and the number of elements minus one, and distinct coordinates have distinct flat indices. Both array flavours agree.",
 ["inputs"],"all extents and coordinates whose element count is addressable, dimensions 1-4",
 "A wrong stride is invisible for square shapes or dimension 2 and no existing test calls the function directly.",
 [ML+"util.hpp"],[("flat_index",ML+"util.hpp")],["returned index"]),
p("P07","The reference multiplications return the exact matrix product",
 "The naive multiplication of two N x N matrices, and the one that takes the second operand transposed, return the N x N matrix whose (i,j) element is the sum over k of A(i,k)*B(k,j), independent of the number of threads and their schedule, without data races, and without modifying the operands.",
 ["inputs","schedules"],"every N (also 0), all matrix contents, every distribution of rows over threads",
 "No enabled test calls them; an index error can vanish for symmetric or small matrices and a race for a given schedule.",
 ["src/reference_kernels/naive.hpp"],[("naive_matrix_multiply, naive_matrix_multiply_transposed","src/reference_kernels/naive.hpp"),("omp parallel for over independent rows","src/reference_kernels/naive.hpp")],["returned matrix"]),
p("P08","The block kernels compute exactly the requested block of the product",
 "Each block kernel fills (the blocked one: adds to) the b x b result block with the elements of rows x..x+b-1 and columns y..y+b-1 of the product, for every block that lies inside the matrix and every input chunk length (blocked kernel: b a multiple of 4), reading and writing only inside the given matrices and leaving the operands unmodified.",
 ["inputs","configurations"],"all N, block positions and block sizes inside the matrix, all input chunk lengths (also not dividing N), all contents",
 "The HPX tests use powers of two and are not even built here; remainders, offsets and chunk borders are never sampled.",
 ["src/reference_kernels/kernel.hpp"],[("kernel, kernel_transposed, kernel_transposed_blocked","src/reference_kernels/kernel.hpp")],["result block"]),
p("P09","Matrix utilities return exactly the matrix they name",
 "Transposing an R x C matrix (square, rectangular, with either allocator) returns the C x R matrix with every element mirrored and leaves the input alone; the identity matrix is 1 on the diagonal and 0 elsewhere; the enumerating matrix numbers its elements 0,1,2,... in row-major order.",
 ["inputs"],"all extents, all contents, every element",
 "No enabled test covers them; a transposition error is invisible on symmetric data and the stride roles only differ for rectangular matrices.",
 ["src/util/transpose_matrix.hpp","src/util/create_identity_matrix.hpp","src/util/pattern_matrices.hpp"],[("transpose_matrix","src/util/transpose_matrix.hpp"),("create_identity_matrix","src/util/create_identity_matrix.hpp"),("create_enumerating_matrix","src/util/pattern_matrices.hpp")],["returned matrix"]),
p("P10","The loop-based experimental multiplications compute the exact product",
 "Each scalar multiplication of the benchmark collection writes (naive, transposed: adds to) every element of the n x n result the sum over k of A(i,k)*B(k,j) - the second operand given transposed except for naive - for every n that is a multiple of the variant's block (1 for naive, transposed and counter, 2 and 4 for the blocked ones, 128 for gpu). The result depends neither on its previous contents (except for the two adding ones) nor on the thread schedule, the operands are not modified, and no access leaves the three matrices.",
 ["inputs","schedules"],"every n that is a multiple of the block (also 0), all contents, every distribution of the outer loop over threads",
 "Nothing tests these functions; the benchmark multiplies by the identity and prints one norm, for one n.",
 ["otherExperiments/mult%s.cpp"%x for x in ("Naive","Transposed","Counter","Blocked","GPU")],[("multNaive","otherExperiments/multNaive.cpp"),("multTransposed","otherExperiments/multTransposed.cpp"),("multCounter","otherExperiments/multCounter.cpp"),("multBlocked2, multBlocked4","otherExperiments/multBlocked.cpp"),("multGPU","otherExperiments/multGPU.cpp")],["result matrix"]),
p("P11","The vectorised and assembly multiplications compute the exact product",
 "Each SIMD multiplication of the benchmark collection writes to every element of the n x n result the sum over k of A(i,k)*B(k,j) - the second operand given transposed for gpuasm and asm - for every n that is a multiple of the variant's block (128 for exchanged and intrinLoop, 256 for register and gpuasm, 4 for asm) and 32-byte aligned matrices, in the builds with and without FMA instructions. The result depends neither on its previous contents nor on the thread schedule, the operands are not modified, every aligned vector access is aligned, and no access leaves the matrices or the local buffers.",
 ["inputs","schedules","configurations"],"every n that is a multiple of the block (also 0), all contents, every distribution of the outer loop over threads, FMA and non-FMA builds",
 "Nothing tests these functions; the benchmark multiplies by the identity and prints one norm for one n, which hides swapped lanes, indices and accumulators.",
 ["otherExperiments/mult%s.cpp"%x for x in ("Exchanged","Register","IntrinLoop","GPUASM","ASM")],[("mult%s"%x,"otherExperiments/mult%s.cpp"%x) for x in ("Exchanged","Register","IntrinLoop","GPUASM","ASM")],["result matrix"]),
p("P12","The compile-time loop nest enumerates the index cube exactly",
 "The metaprogramming loop nest over [min,max) in 1 to 4 directions calls its body exactly once per index tuple, in lexicographic order, with the indices in the order of the directions, and never when the range is empty.",
 ["inputs"],"all lower and upper bounds (also empty and reversed ranges), dimensions 1-4",
 "Its only use is a printed 10 x 10 demonstration whose output nothing compares; the number, order and arguments of the calls must be right for every range and dimension.",
 ["learning/MetaProgrammingCPP.cpp"],[("Looper::iterate_simple / execute_looped","learning/MetaProgrammingCPP.cpp")],["sequence of body invocations"]),
p("P13","The aligned allocator hands out an aligned array it owns",
 "For every element type, n >= 1 and power-of-two alignment, the allocator returns an array aligned as requested of which all n elements can be written and read until the allocator is destroyed; destroying it releases the memory exactly once (also when nothing was allocated), and a second request to the same instance never returns.",
 ["inputs","histories"],"every n, every power-of-two alignment up to 2^20 (double; 2^12 for float, int and char), every address operator new may return",
 "Nothing tests it; an allocator that over-allocates too little is only wrong for unlucky addresses returned by operator new.",
 ["src/aligned_allocator.hpp"],[("aligned_allocator::alloc, destructor","src/aligned_allocator.hpp")],["returned pointer","memory read back through it"]),
p("P14","The tiled kernel returns the exact product for every matrix size",
 "The tiled (Vc, OpenMP) kernel returns for two N x N matrices the N x N product - with B taken transposed exactly when the transposed flag says so - for every N (its padding never shows), every number of repetitions of at least one, and every schedule of its parallel loop, without data races, out-of-bounds or misaligned accesses, and without modifying the operands.",
 ["inputs","schedules","configurations"],"every N up to 2^28 (also 0, with or without padding in each direction), all contents, every repetition count, both storage orders, every distribution of the L3 blocks over threads",
 "The tests need HPX and Vc and are not built here; they use a few power-of-two sizes, so that padding, remainder tiles and repetitions are never sampled.",
 ["src/reference_kernels/kernel_tiled.cpp"],[("constructor (padding)","src/reference_kernels/kernel_tiled.cpp"),("matrix_multiply","src/reference_kernels/kernel_tiled.cpp")],["returned matrix"]),
p("P15","The test kernel returns the exact product for whole blocks",
 "The blocked test kernel (Vc, OpenMP) returns for two N x N matrices the N x N product - with B taken transposed exactly when the transposed flag says so - for every N that is a multiple of its largest block (512; also 0), every number of repetitions of at least one, and every schedule of its parallel loop, without data races, out-of-bounds or misaligned accesses, and without modifying the operands.",
 ["inputs","schedules","configurations"],"every N that is a multiple of 512 up to 2^28, all contents, every repetition count, both storage orders, every distribution of the L3 blocks over threads",
 "The tests need HPX and Vc and are not built here; the register tile (5 rows) overlaps the 64-row block, so that a wrong guard double-counts rows or races only at block borders.",
 ["src/reference_kernels/kernel_test.cpp"],[("constructor","src/reference_kernels/kernel_test.cpp"),("matrix_multiply","src/reference_kernels/kernel_test.cpp")],["returned matrix"]),
p("P16","The semi-blocked variant returns the exact product for every size and input block",
 "The semi variant (nested index loops produced by a blocking policy) returns for an N x N matrix A and a transposed N x N matrix B the product with element (i,j) = sum_k A[i][k]*B[j][k], for every N (also 0 and sizes that are no multiple of its 4 x 2 register tile) and every input block size of at least one, whether or not it divides N, without out-of-bounds accesses and without modifying the operands; its index loop nest visits every step of every direction exactly once.",
 ["inputs","configurations"],"every N and block_input from 1 to 2^26 (and N = 0), any block_result, all contents",
 "Its tests need HPX and are not built here; they use powers of two with block sizes 1 and 128, so that partial tiles, padding and odd chunk sizes are never sampled.",
 ["src/variants/semi.cpp","src/variants/index_iterator.hpp"],[("matrix_multiply","src/variants/semi.cpp"),("execute_looped / iterate_indices / blocking policy","src/variants/index_iterator.hpp")],["returned matrix"]),
p("P17","The looped variant returns the exact product for every whole blocking",
 "The looped variant (one three-dimensional index iterator over result rows, result columns and input chunks, and loops inside each block) returns for an N x N matrix A and a transposed N x N matrix B the product with element (i,j) = sum_k A[i][k]*B[j][k], for every N (also 0) and every result and input block size that divides N, without out-of-bounds accesses and without modifying the operands. Its index iterator steps in odometer order: an increment advances the first direction that is not at its last position and resets those before it, for empty and uneven ranges too.",
 ["inputs","configurations"],"every N up to 2^21, every pair of block sizes dividing N, all contents; increments of 1 to 3 directions for all bounds and steps",
 "Its tests need HPX and are not built here; they use one power of two and equal blocks, so a visit that is missed, doubled or carried to the wrong direction only shows for other shapes.",
 ["src/variants/looped.hpp"],[("matrix_multiply","src/variants/looped.hpp"),("dim_index_iterator::increment","src/variants/looped.hpp")],["returned matrix","iterator position"]),
p("P18","The algorithms variant returns the exact product for every whole blocking and schedule",
 "The algorithms variant (a parallel traversal of a two-dimensional block index iterator and a sequential traversal of each block's elements) returns for an N x N matrix A and a transposed N x N matrix B the product with element (i,j) = sum_k A[i][k]*B[j][k], for every N (also 0), every result and input block size that divides N, and every schedule of the parallel traversal: without data races between blocks, without out-of-bounds accesses and without modifying the operands. Its block iterator advances in odometer order and its element iterator in row-major order with the matching coordinates.",
 ["inputs","schedules","configurations"],"every N up to 2^21, every pair of block sizes dividing N, all contents, every order and overlap of the block calls; increments of 1 to 3 directions for all bounds",
 "Its tests need HPX and are not built here; they use one power of two and equal blocks on one schedule, so a race, a swapped coordinate or a missed carry only shows elsewhere.",
 ["src/variants/algorithms.hpp"],[("algorithms::matrix_multiply","src/variants/algorithms.hpp"),("dim_index_iterator::increment, index_iterator::increment","src/variants/algorithms.hpp")],["returned matrix","iterator position"]),
p("P19","The combined variant returns the exact product for every size, repetition count and schedule",
 "The combined variant (Vc register tiles driven by the parallel blocked index traversal) returns for two N x N matrices the N x N product with element (i,j) = sum_k A[i][k]*B[k][j], for every N (its padding never shows), every number of repetitions of at least one, and every order and overlap of the block calls its traversal may run in parallel: without data races, out-of-bounds or misaligned accesses, and without modifying the operands. Its index iterator advances in odometer order.",
 ["inputs","schedules","configurations"],"every N up to 2^28 (also 0, with or without padding in each direction), all contents, every repetition count, every schedule of the two parallel directions; increments of 1 to 3 directions for all bounds and steps",
 "Its tests need HPX and Vc and are not built here; they use few sizes and one repetition, so that padding, repeated accumulation and concurrent block calls are never sampled.",
 ["src/variants/combined.cpp","src/variants/index_iterator.hpp"],[("constructor (padding), matrix_multiply","src/variants/combined.cpp"),("iterate_indices, dim_index_iterator::increment, execute_looped","src/variants/index_iterator.hpp")],["returned matrix"]),
p("P20","The multiplier component computes exactly the requested block",
 "The multiplier component returns, for every n x n block at (x,y) inside the N x N product, the block with element (i,j) = sum_k A[x+i][k]*B[k][y+j] (B[y+j][k] if it was created for a transposed B), whichever kernel it picks: for every input block size (0 switches input blocking off) and every block extent, also one that is no multiple of the blocked kernel's 4 x 2 tile, without out-of-bounds accesses.",
 ["inputs","configurations"],"every N up to 2^21, block position and extent inside it, every block_input, both storage orders, all contents",
 "Its tests need HPX and are not built here; they only ask for blocks whose extents are powers of two, which every kernel accepts.",
 ["src/variants/components/multiplier.cpp","src/reference_kernels/kernel.hpp"],[("multiplier::calculate_submatrix","src/variants/components/multiplier.cpp")],["returned block"]),
p("P21","Recursive distribution assembles every block exactly, in any completion order",
 "The recursive component returns for every block of the product exactly that block: a block it does not split comes from the multiplier of its locality unchanged, a block it splits is covered by four calls of half the extent that stay inside it, and their results are put together to the same block whichever call completes last. Putting a part in its place writes that part's cells and no others, for the quarter blocks of the recursion and for the work packages of the static distribution. The single-node variant returns the whole product.",
 ["inputs","schedules","configurations"],"every N up to 2^21, block position and extent inside it (odd ones too), every block_result, all contents, each of the four continuations last; single: one to three repetitions",
 "Its tests need HPX and are not built here; they use powers of two and one completion order, so an odd block, a wrong offset or overlapping parts are never sampled.",
 ["src/variants/components/recursive.cpp","src/variants/single.cpp","src/variants/static_improved.cpp"],[("recursive::distribute_recursively, extract_submatrix","src/variants/components/recursive.cpp"),("static_improved::insert_submatrix","src/variants/static_improved.cpp"),("single::matrix_multiply","src/variants/single.cpp")],["returned block"]),
]
with open("/verif/properties.jsonl","w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
tech="contract-based deductive verification of the real code (LLVM IR extracted from /repo, unbounded)"
note="every obligation of the contracts discharged for all inputs; trusts the clang front end, the verifier in engine/, z3; floating point treated as real numbers; failing inputs found by replaying the contract on the real code"
json.dump(dict(version=1,setup_cmd="python3-vt -c \"import z3\" && clang++ --version >/dev/null && opt --version >/dev/null",
 checks=[dict(property=r["id"],quick_cmd="python3-vt check.py %s"%r["id"],thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s"%r["id"],evidence_file="evidence/%s.json"%r["id"],technique=tech,level="proof",level_note=note) for r in R],
 not_applicable=[],notes="see DESIGN.md"),open("/verif/MANIFEST.json","w"),indent=1)
