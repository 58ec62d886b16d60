import json
P=[]
def p(id,title,stmt,over,text,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
LAY=["src/layouts/row_major.rs","src/layouts/column_major.rs","src/layouts/row_vector.rs","src/layouts/column_vector.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs","src/layouts/arbitrary_stride_row_vector.rs","src/layouts/arbitrary_stride_column_vector.rs","src/layouts/upper_triangular.rs","src/traits/layout.rs"]
p("C01","Logical indexing of every layout is a bijection in the documented order",
 "For every storage layout and every dimension, converting a one-dimensional logical index to (row, col) and back are mutually inverse bijections between 0..number_of_elements and the stored positions (all positions inside the dimension; on or above the diagonal for triangular storage). Row-major-type layouts (and row vectors) enumerate positions row by row, column-major-type layouts (and column vectors) column by column, and triangular storage enumerates row by row starting with the last row. The index layout a layout hands out has the same dimension and enumerates the positions in the same order.",
 ["inputs","configurations"],"all nine layouts, all dimensions (including 1, 0, very large ones that no matrix in memory could have), all in-range indices",
 "Only one triangular layout of dimension 5 is tested at five indices; the other eight layouts' conversions are never called directly by a test.",
 LAY,[("dim","rows and columns","each layout struct")],[("convert_1d_2d / convert_2d_1d / index_layout","src/layouts/*.rs")],["return values of convert_1d_2d, convert_2d_1d, number_of_elements, index_layout"])
p("C02","Elements lie in memory exactly where the reported strides and layout say",
 "For every layout, the memory location of an element computed from (row, col) and from its one-dimensional index agree, equal row*r + col*c for the stride tuple (r, c) the layout reports (and was created with), start at 0 for the first element, and are pairwise different for different elements of a contiguous layout, filling 0..number_of_elements without holes. The dimension, the number of elements and the vector length reported by layouts and matrices are those they were created with. Reading or writing an element through a matrix touches the one memory location so determined.",
 ["inputs","configurations"],"all nine layouts, all dimensions and strides, all matrix types over owned, borrowed, fixed-size and user-supplied containers",
 "Tests observe positions of at most a handful of elements in contiguous row-major matrices; stride() of the strided layouts was wrong in the base commit and no test failed.",
 LAY+["src/base_matrix.rs","src/matrix/common_impl.rs"],[("stride","distance in memory between neighbours","arbitrary_stride_*.rs")],[("convert_2d_raw / convert_1d_raw / stride","src/layouts/*.rs"),("element access through the layout","src/base_matrix.rs")],["return values of convert_*_raw, stride, dim, number_of_elements, length; index seen by a container; raw memory"])
p("C03","Bounds-checked access refuses exactly the out-of-range positions",
 "The checked element accessors (read and write, by row/column and by one-dimensional index) succeed for every position that exists in the matrix, view, reference or expression, and panic for every position that does not: row or column beyond the dimension, index beyond the number of elements, below-diagonal positions of triangular storage. A refused access changes nothing, and this holds in optimised builds as well as in checked ones.",
 ["inputs","configurations"],"all matrix-like objects (owned, fixed-size, views, nested views, references, sums, scalar products), all positions up to the maximum of the index type, both build profiles",
 "Two doc-tests try one out-of-range position of one 3x5 matrix in a debug build.",
 ["src/traits/random_access.rs","src/layouts/upper_triangular.rs"],[],[("assert_dimension / assert_dimension1d","src/traits/random_access.rs")],["panic or value of get, get1d, get_mut, get1d_mut; memory afterwards"])
p("C04","A write changes exactly the addressed element, seen by every way of reading",
 "In every history of writes to a matrix (by row/column, by one-dimensional index, checked or unchecked, through the raw slice or by applying a function to all elements), each write changes exactly the addressed element and nothing else in the underlying memory, and every way of reading (row/column, one-dimensional index, checked, unchecked, raw slice, raw pointer) returns the value most recently written there. Reading never changes anything.",
 ["histories","inputs","configurations"],"all histories of reads and writes on every layout, container and scalar type, including memory next to the matrix and in the gaps of strided layouts",
 "Tests write one element and read it back at the same position; no test looks at the other elements, at another access path, or at gap memory.",
 ["src/base_matrix.rs","src/data_container.rs","src/matrix/common_impl.rs","src/matrix/base_methods.rs"],[("data","the container's memory","src/data_container.rs")],[("get_unchecked(_mut), get1d_unchecked(_mut), get_slice(_mut), get_pointer(_mut)","src/base_matrix.rs, src/matrix/common_impl.rs, src/matrix/base_methods.rs")],["values read by every accessor; full memory image including guard cells after each operation"])
p("C05","A block is an exact window onto its parent at any nesting depth",
 "A block taken at top-left (r0, c0) with dimension (m, n) has that dimension and its element (i, j) is the parent's element (r0+i, c0+j), for row-major, column-major and strided parents (with strides that keep distinct elements apart), read-only or mutable, and for blocks of blocks to any depth; its one-dimensional order is the parent's kind of order within the window. A block is granted exactly when the window fits inside the parent (an empty window included) and refused with a panic otherwise, also for corners so large that adding the dimension overflows.",
 ["inputs","histories","configurations"],"all parents, positions, dimensions and nesting depths, both build profiles",
 "Tests take two blocks of 3x4 row-major matrices; the only nested one reads the first row, where a wrong stride is invisible (it was wrong in the base commit).",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs"],[],[("block / block_mut / from_pointer","src/matrix/matrix_slices.rs, src/matrix/constructors.rs")],["elements and dimension of the block, panic or not"])
p("C06","Writes through mutable blocks reach exactly the window of the parent",
 "Every write through a mutable block (at any nesting depth, by any access path) changes the corresponding element of every enclosing matrix and nothing else: no other element, no gap or neighbouring memory. After the block is released, the parent and all later views show exactly the writes made, in order.",
 ["histories","inputs"],"all histories of creating, nesting, writing through and releasing mutable blocks",
 "No test calls block_mut at all; only the quadrants of one 10x10 split are written, once each.",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/base_matrix.rs"],[],[("block_mut","src/matrix/matrix_slices.rs"),("SliceContainerMut","src/data_container.rs")],["full memory image of the owner after every write"])
p("C07","Splitting in four partitions the matrix into independent quadrants",
 "Splitting a matrix at (r, c) yields four mutable blocks of dimension (r, c), (r, C-c), (R-r, c), (R-r, C-c), being the upper left, upper right, lower left and lower right part in this order: every element of the parent belongs to exactly one of them at the corresponding position, and interleaved writes through the four never affect each other. Every split position from (0, 0) to (R, C) is accepted and any other is refused with a panic.",
 ["inputs","histories"],"all matrices and split positions, all interleavings of reads and writes through the four quadrants",
 "One 10x10 matrix split in the middle with one write per quadrant.",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs"],[],[("split_in_four_mut","src/matrix/matrix_slices.rs")],["dimensions and elements of the four blocks, memory image after each write"])
p("C08","Sums and scalar products equal their elementwise definition",
 "For every expression built from matrices, views and references by addition and by multiplication with a scalar from either side, in any nesting and for any mix of owned and borrowed operands, every element read by row/column or by one-dimensional index is exactly the value obtained by applying the operations to the operands' elements at the same logical position (in the arithmetic of the scalar type, including infinities and NaN). The expression has the operands' dimension and logical order, whatever their physical layouts, and adding operands of different dimension is refused with a panic.",
 ["programs","inputs","configurations"],"all expression trees, operand layouts with the same logical order, sizes (vectors, fixed, dynamic), four scalar types, all element values",
 "Two tests evaluate one element of 2*A and 2*A+B for row-major f64 matrices; complex and f32 expressions, views, column-major, vectors and references are not evaluated.",
 ["src/addition.rs","src/scalar_mult.rs","src/matrix_ref.rs"],[],[("Addition, ScalarMult and their operator impls","src/addition.rs, src/scalar_mult.rs")],["get, get1d, dim of the expression; panic of +"])
p("C09","Expressions are lazy and leave their operands untouched",
 "Building a sum or scalar product reads no element of its operands; reading one element of it reads only that same logical element of each operand; evaluating it reads every logical element of each operand exactly once in a single pass. No operation on an expression ever changes an operand, and operands that were borrowed are usable and unchanged afterwards.",
 ["programs","histories"],"all expression trees, observed through operands that record accesses",
 "Results cannot reveal laziness or operand accesses; no test observes them.",
 ["src/addition.rs","src/scalar_mult.rs","src/matrix_ref.rs","src/matrix/common_impl.rs"],[],[("operator impls and eval","src/addition.rs, src/scalar_mult.rs, src/matrix/common_impl.rs")],["accesses recorded by a user-defined operand; memory of operands"])
p("C10","Evaluation produces an independent contiguous copy",
 "Evaluating a matrix, view or expression returns a new matrix of the same dimension, stored contiguously in the logical order of its source, with each element equal to the source's element at that position. The result shares nothing with the source: later writes to either are not visible in the other.",
 ["inputs","histories","programs"],"all dynamically sized sources of every layout including strided, triangular and vector layouts, all dimensions including empty ones",
 "Two evaluations of a 2x3 matrix, checked at one element.",
 ["src/matrix/common_impl.rs","src/matrix/constructors.rs"],[],[("eval","src/matrix/common_impl.rs")],["elements, dimension, strides and raw memory of the result; memory of the source after writes to the result"])
p("C11","In-place product computes alpha*A*B + beta*C on C's elements only",
 "For all operands with matching dimensions, any layouts and strides (including blocks of larger matrices) and real or complex entries, the in-place product replaces each element of C by alpha*(A B) + beta*C (exactly, when all intermediate values are exactly representable). A and B and every memory location that is not an element of C are unchanged; products over an empty inner dimension reduce to beta*C.",
 ["inputs","configurations"],"all dimensions, layouts and strides of A, B and C, matrix-matrix, matrix-column and row-matrix, four scalar types, all alpha and beta including 0, 1 and complex values",
 "Tests use one contiguous row-major shape per scalar type; column-major, strided and block operands, special alpha/beta and other shapes are never multiplied.",
 ["src/matrix_multiply.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs"],[],[("matmul","src/matrix_multiply.rs")],["full memory image of A, B, C before and after"])
p("C12","Products check dimensions and dot returns the plain product",
 "The dot product of two matrices, of a row vector with a matrix and of a matrix with a column vector returns a new contiguous row-major matrix, row vector or column vector of dimension (rows of A, columns of B) whose elements are those of A*B, leaving A and B unchanged. Both dot and the in-place product are refused with a panic, without changing anything, whenever the inner dimensions or the dimension of C do not match.",
 ["inputs","configurations"],"all shapes, matching or not, all layouts and views",
 "dot is only called in one doc-test that ignores the results; a dimension mismatch is never tried.",
 ["src/matrix_multiply.rs"],[],[("dimension assertion and Dot impls","src/matrix_multiply.rs")],["result of dot; panic; memory of C after a refused product"])
p("C13","Constructors yield zero matrices of exactly the requested shape",
 "Every zero constructor and constructor macro (dynamic, fixed-size, row and column vectors, every base layout, every scalar type) yields a matrix of exactly the requested dimension and layout whose elements are all zero, in its own memory, and evaluates its argument once. Shapes a type cannot have (a row vector with other than one row, a column vector with other than one column, a non-square triangular matrix) are refused with a panic, all others are accepted.",
 ["inputs","configurations"],"all constructors, dimensions, layouts and scalar types",
 "Macro tests check dim() of 2x3 matrices and vectors of length 5; contents, fixed sizes, and refused shapes are not tested (column vectors by dimension were refused in the base commit).",
 ["src/matrix/constructors.rs","src/macros.rs","src/data_container.rs","src/layouts/column_vector.rs","src/layouts/row_vector.rs","src/layouts/upper_triangular.rs"],[],[("zeros_from_dim, zeros_from_length, from_dimension, from_length, mat!, vector!, rand_mat!, rand_vector!","src/matrix/constructors.rs, src/macros.rs, src/layouts/*.rs")],["dim, length, stride and every element of the new matrix; panic"])
p("C14","No safe operation reaches memory outside the matrix's container",
 "A matrix can be created over a container only if every element of its layout, gaps included, lies inside the container; otherwise creation panics. Raw slices are granted exactly for ranges first < last <= number of container elements, and contain exactly those cells. Consequently no sequence of safe calls reads or writes a cell outside the container, in checked or optimised builds.",
 ["inputs","histories","configurations"],"all containers (vector, fixed array, borrowed slices, user-defined), layouts, strides and ranges, all safe operation sequences, both build profiles",
 "Tests never build a matrix over a container that is too small, never use raw slices and run in debug builds only.",
 ["src/base_matrix.rs","src/data_container.rs","src/matrix/base_methods.rs","src/matrix/constructors.rs"],[],[("container size assertion","src/base_matrix.rs"),("get_slice / get_slice_mut range assertions","src/data_container.rs")],["panic or not; guard cells around the container; indices requested from a user-defined container"])
p("C15","Apply-to-all and random fill visit each element once, in logical order",
 "Applying a function to all elements calls it exactly once per element, in one-dimensional order, with write access to that element, and touches no other memory. Random filling draws from the given generator once per element (twice for complex numbers: first the real, then the imaginary part) in that same order and stores exactly the drawn values, so a seeded generator determines the matrix and its own further state.",
 ["inputs","configurations","histories"],"all layouts and containers including views with gaps and triangular storage, four scalar types, sequences of fills from one generator",
 "Random fills are only used to produce data; their content, order and coverage are not checked.",
 ["src/matrix/base_methods.rs","src/matrix/random.rs","src/tools.rs"],[],[("for_each, fill_from_rand_standard_normal, random_scalar","src/matrix/base_methods.rs, src/matrix/random.rs, src/tools.rs")],["sequence of values passed to the function; memory afterwards; generator state"])
p("C16","A matrix reference behaves exactly like the matrix it refers to",
 "A matrix made from a reference to another matrix (shared or mutable, also of views and of expressions) has the same dimension, strides, number of elements and elements under every access path, and refuses the same positions. A write through a mutable reference changes exactly the corresponding element of the referent, and while shared references exist the referent is unchanged by them.",
 ["inputs","histories","configurations"],"all matrix types, views and expressions, references to references",
 "References are only used implicitly in one doc-test with f64 matrices; mutable references are used nowhere.",
 ["src/matrix_ref.rs","src/matrix.rs"],[],[("MatrixRef, MatrixRefMut, from_ref","src/matrix_ref.rs, src/matrix.rs")],["elements, dim, stride of the reference and of the referent after writes"])
p("C17","Programs give the same logical results in every layout, container and type",
 "Any program of constructions, writes, blocks, splits, sums, scalar products, evaluations and products yields the same mathematical matrices whatever storage layout, strides, container or (for values all types represent) scalar type is used, and in checked and optimised builds. In particular, operations on one matrix never affect another matrix that does not share memory with it.",
 ["programs","histories","configurations"],"all programs over the public API and all assignments of layouts, strides, containers and scalar types to their matrices",
 "Tests run single operations on one layout each; nothing combines views, expressions, products and evaluation in one history.",
 ["src/matrix.rs","src/matrix/common_impl.rs","src/matrix/matrix_slices.rs","src/addition.rs","src/scalar_mult.rs","src/matrix_multiply.rs","src/layouts.rs"],[],[("layout-generic implementation of all operations","src/")],["all observable results and memory images along recorded histories"])
p("C18","Products of arbitrary floating-point entries are accurate to rounding",
 "For arbitrary floating-point entries and coefficients of any precision and magnitude (short of overflow and underflow), any layout, view and dimension, every element of the in-place product alpha*A*B + beta*C and of the dot product differs from the exact value by no more than the rounding errors, in the precision of the scalar type, of an inner product of that length: at most (2k + 16) half units in the last place (twice that for complex scalars) of the sum of the magnitudes of its terms, k being the inner dimension. Real and complex, single and double precision alike.",
 ["inputs","configurations"],"all floating-point entries, coefficients, layouts, dimensions and the four scalar types",
 "One random sample per scalar type is compared within 100 ulps.",
 ["src/matrix_multiply.rs"],[],[("matrixmultiply kernels","src/matrix_multiply.rs"),("Dot impls","src/matrix_multiply.rs")],["numeric error of the elements of results"])
p("C19","The four-quadrant arctangent is accurate in every quadrant and on every axis",
 "For any two real floating-point scalars y and x, the four-quadrant arctangent y.atan2(x) is the angle of the point (x, y), between -pi and pi, within two units in the last place of the scalar type: with the sign of y (a negative zero included), for all quadrants, axes, magnitudes (subnormal to largest) and ratios; the documented results for zeros and infinities hold, and NaN gives NaN. Complex scalars have no such angle and the call is refused with a panic.",
 ["inputs"],"all pairs of floating-point numbers, including signed zeros, subnormals, infinities and NaN, single and double precision",
 "No test calls atan2.",
 ["src/types.rs"],[],[("HScalar::atan2","src/types.rs")],["return value of HScalar::atan2, panic for complex scalars"])
p("C20","Borrow checking protects memory reached through matrices, views and references",
 "The safe interface carries Rust's ownership and borrowing rules for every object made from another one (matrices over borrowed memory, blocks of blocks, quadrants, reference objects, sums and products of borrowed or owned operands, element references, raw slices, references to the layout). A program in which a matrix is written, exclusively borrowed, moved or dropped while an object that reaches its memory is still used, is read while something holds it exclusively, or is written through something shared, is rejected by the compiler. A program that uses each object only while it may be read (nothing live holds it exclusively) or written (nothing live borrows from it) is accepted, and a borrow ends when the borrowing object is no longer used. This includes other threads: what a thread may read, write or give away may just as well be read by several threads at once, written by one other thread, or moved to another thread.",
 ["programs","histories","configurations"],"all sequences of making, using and ending objects, all layouts, containers, compile-time sizes and scalar types",
 "Tests can only contain programs that compile; a signature that loses a lifetime compiles and passes them all, and turns safe programs into data races and reads of freed memory.",
 ["src/matrix/matrix_slices.rs","src/matrix/base_methods.rs","src/matrix/constructors.rs","src/matrix_ref.rs","src/data_container.rs","src/matrix.rs","src/addition.rs","src/scalar_mult.rs","src/traits/random_access.rs"],[("lifetime parameters","for how long an object borrows","signatures of the public functions")],[("block, block_mut, split_in_four_mut","src/matrix/matrix_slices.rs"),("SliceContainer(Mut)::new, get_slice(_mut)","src/data_container.rs"),("MatrixRef, MatrixRefMut, from_ref","src/matrix_ref.rs, src/matrix.rs")],["the compiler's verdict on a program"])
p("C21","Operands that do not fit together are refused at compile time",
 "Whether operands fit is settled by their types. A sum is accepted exactly for operands that number their elements in the same order (same index layout), with the same compile-time sizes and the same scalar type, in all four combinations of owned and borrowed operands, and has the common index layout; operands with different numbering, different fixed sizes or different scalar types are rejected by the compiler, and so are products with a scalar of another type, matrix products with a triangular operand, with mixed scalar types or with fixed sizes that do not match, and blocks of triangular matrices. The accepted matrix products are matrix times matrix, row vector times matrix and matrix times column vector over every combination of strided layouts, with a row-major matrix, row vector or column vector as result; evaluation is accepted for every dynamically sized object and gives its index layout; blocks and quadrants have the strided layout of the parent's order. What can be made and asked for is settled in the same way: zero matrices with both sizes fixed (2x2, 1x2, 3x3, 1x3, 2x3, 3x2 in row and column major order, row and column vectors of length 2 and 3) need no size and no others can be made without one; rows and columns, or the length of a vector, are given otherwise; matrices over an address exist for row-major, column-major and strided layouts; `length` exists for vectors of dynamic length only.",
 ["programs","configurations"],"all combinations of layouts, compile-time sizes, scalar types and ownership of the operands",
 "Tests contain accepted programs only, over a few layouts; no test can show that an ill-fitting combination is rejected rather than computed wrongly.",
 ["src/addition.rs","src/scalar_mult.rs","src/matrix_multiply.rs","src/matrix/matrix_slices.rs","src/matrix/common_impl.rs","src/layouts/upper_triangular.rs","src/traits/layout.rs","src/matrix/constructors.rs","src/macros.rs"],[],[("trait bounds on operands (IndexLayout, StridedLayoutType, RS, CS)","src/addition.rs, src/matrix_multiply.rs"),("IndexLayout of each layout","src/layouts/*.rs")],["the compiler's verdict on a call and the type of its result"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
