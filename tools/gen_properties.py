#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))

p("C01", "Elementwise operators broadcast like NumPy for every layout and dtype",
  "For any two arrays (of any memory layout: owned, reshaped, sliced, transposed, diagonal or broadcast views, in owned or borrowed form) and any of + - * / % & | << >>, the result has the NumPy broadcast shape and every element equals the scalar operation applied to the corresponding broadcast elements; array-with-scalar operators and unary negation likewise act on every element. "
  "Operands whose shapes cannot be broadcast together are rejected by a panic. Operands are left unchanged.",
  ["inputs", "configurations"], "all operand shapes, strided layouts, dtypes, operators and ownership forms",
  "The kernels are chosen by the pair of operand strides (constant, contiguous, uniformly strided, non-uniform; and per-axis collapse), so correctness is a statement over all pairs of layouts and all lengths; the tests use a handful of contiguous or once-sliced operands.",
  ["src/ndarray/binary_ops.rs", "src/ndarray/unary_ops.rs", "src/ops/binary_ops.rs", "src/ops/unary_ops.rs", "src/ndarray/broadcast.rs", "src/ndarray/iterator/collapse_contiguous.rs"],
  [("broadcast_shapes / broadcast_stride", "src/ndarray/broadcast.rs"), ("stride-specialised kernels", "src/ops/binary_ops.rs"), ("collapse of uniformly strided axes", "src/ndarray/iterator/collapse_contiguous.rs")])

p("C02", "Compound assignment updates exactly the target's elements",
  "For += -= *= /= %= &= |= <<= >>= with an array (broadcast to the target's shape) or scalar right-hand side that does not overlap the target, afterwards every element the target denotes holds the scalar operation of its old value with the corresponding right-hand element, and no other element of the underlying storage and no element of the right-hand side has changed. "
  "A readonly target, or a right-hand side that cannot be broadcast to the target's shape, is refused by a panic that leaves the storage unchanged.",
  ["inputs", "histories"], "all target views, right-hand layouts, shapes, operators and dtypes, and all sequences of assignments",
  "Whether the write lands in exactly the denoted elements depends on the pair of target and operand layouts; the tests assign only to whole fresh arrays.",
  ["src/ndarray/assign_ops.rs", "src/ops/binary_ops.rs", "src/ndarray/broadcast.rs"],
  [("in-place kernels for contiguous targets, scatter for strided ones", "src/ndarray/assign_ops.rs")],
  [("writeable flag", "cleared by broadcasting, refuses writes", "src/ndarray/flags.rs")])

p("C03", "Every composition of view operations denotes the elements NumPy would",
  "Any sequence of slicing, axis slicing, reshaping, viewing, squeezing, unsqueezing, transposing, broadcasting and taking diagonals, each by borrowing or by consuming, yields an array whose shape and whose element at every multi-index (by indexing, single-value access, contiguous data access or iteration) are those NumPy semantics prescribe for that sequence applied to the root array. "
  "Reshape may be refused only for arrays that are not stored at a uniform distance (or that have singleton axes), and otherwise keeps row-major element order. The source array is not modified.",
  ["histories", "inputs"], "all operation sequences from all root shapes",
  "Shape, strides, offset and contiguity flags evolve over a history of view operations; the tests apply one or two operations to a contiguous array, while defects appear for particular compositions (e.g. slice of a transpose of a broadcast).",
  ["src/ndarray/slice.rs", "src/ndarray/reshape.rs", "src/common/reshape.rs", "src/ndarray/broadcast.rs", "src/linalg/matrix_ops.rs", "src/ndarray/index_impl.rs", "src/util/index.rs"],
  [("offset/shape/stride arithmetic", "src/ndarray/slice.rs, src/common/reshape.rs"), ("flag recomputation", "src/ndarray/slice.rs")],
  [("shape, stride, offset, len, flags", "the layout of a view over the root buffer", "src/ndarray.rs")])

p("C04", "Views alias their source exactly; copies are independent",
  "A write through a view of any layout (by index, fill or zero) changes exactly the root elements that view denotes, immediately visible through the root and every overlapping view and through nothing else; copies (clone, flatten, results of operations, conversion) never observe later writes to their source or vice versa. "
  "Writes through a view obtained by broadcasting (or any view derived from it) are refused by a panic that changes nothing.",
  ["histories", "inputs"], "all interleavings of view creation, writes and reads over all layouts",
  "Aliasing is a relation between all pairs of views over a history of writes; the tests check a single write through a single view.",
  ["src/ndarray/fill.rs", "src/ops/fill.rs", "src/ndarray/index_impl.rs", "src/ndarray/clone.rs", "src/ndarray/broadcast.rs"],
  [("strided fill kernels", "src/ops/fill.rs"), ("writeable flag inherited by views", "src/ndarray/broadcast.rs")])

p("C05", "Layout metadata is truthful for every reachable view",
  "For every array reachable by any sequence of view operations: dimensions, length and size agree with the shape, the reported stride of every axis is the real distance in memory between neighbouring elements, and an array is reported as a view exactly if it does not own its memory. "
  "An array reported contiguous (or uniformly strided with distance d) really has all its elements, in row-major order, at consecutive (or d-spaced) positions inside the root buffer, and conversely every such array without singleton axes is reported so; fresh arrays are contiguous and not views.",
  ["histories", "inputs"], "all operation sequences from all root shapes",
  "Every fast path trusts these flags, so a lie for one layout silently corrupts unrelated operations; tests check three layouts.",
  ["src/common/methods.rs", "src/ndarray/slice.rs", "src/ndarray/iterator/collapse_contiguous.rs", "src/ndarray/flags.rs"],
  [("update_flags_with_contiguity, has_uniform_stride", "src/ndarray/slice.rs, src/ndarray/iterator/collapse_contiguous.rs")],
  [("flags", "owned / contiguous / uniform stride / writeable", "src/ndarray/flags.rs")])

p("C06", "Iteration, copying, comparison and printing see each element once, in order",
  "For an array of any layout, element iteration, flattening, cloning and printing produce every element exactly once in row-major order; iteration over sub-arrays along the first axis, any axis or any set of axes produces exactly the sub-arrays NumPy indexing would give, in row-major order of those axes as they occur in the array (repeated axes are rejected). "
  "Two arrays compare equal if and only if they have the same shape and equal elements, regardless of layout.",
  ["inputs", "histories"], "all layouts, axes and axis sets",
  "Iterators choose between contiguous, strided and carry-propagating walks by layout; tests iterate over contiguous arrays along few axes.",
  ["src/ndarray/iterator/flat_iterator.rs", "src/ndarray/iterator/flat_index_generator.rs", "src/ndarray/iterator/tensor_iterator.rs", "src/ndarray/iterator/buffer_iterator.rs", "src/ndarray/clone.rs", "src/ndarray/equals.rs", "src/ndarray/print.rs"],
  [("index generator with carry", "src/ndarray/iterator/flat_index_generator.rs"), ("layout-specialised clone", "src/ndarray/clone.rs")])

p("C07", "Reductions equal the fold of exactly the selected elements",
  "For every layout and dtype, sum, product, min, max, min/max magnitude (and mean for floats) of the whole array equal that fold over all of its elements, including extreme and infinite values; along any set of axes (in any order, positive or negative; means take non-negative axes) the result has the remaining axes in order and each entry is the fold over exactly the elements that agree with it on those axes. "
  "Repeated or out-of-range axes are rejected by a panic.",
  ["inputs", "configurations"], "all layouts, axis sets, dtypes and element values",
  "Reductions pick kernels by layout and axis set and start from an identity element that must be neutral for every value; tests use small positive values on contiguous arrays.",
  ["src/ndarray/reduce.rs", "src/ops/reduce_sum.rs", "src/ops/reduce_product.rs", "src/ops/reduce_min.rs", "src/ops/reduce_max.rs", "src/ops/reduce_min_magnitude.rs", "src/ops/reduce_max_magnitude.rs", "src/util/functions.rs", "src/util/absolute.rs"],
  [("reduced_shape_and_stride", "src/ndarray/reduce.rs"), ("identities", "src/ops/reduce_*.rs")])

p("C08", "Einsum equals its definition for every subscript string and layout",
  "For any list of operands of any layout and any subscripts (repeated labels within or across operands, labels summed, labels permuted in the output, scalars), the result has the shape given by the output labels and each entry is the sum over the remaining labels of the products of the addressed elements. "
  "Whenever an einsum of one operand is offered as a view, that view shares memory with the operand and denotes exactly the definition's elements. Labels with inconsistent lengths, repeated or unknown output labels, and subscripts not matching the operands are rejected by a panic.",
  ["programs", "inputs"], "all subscript strings over small alphabets, operand counts, shapes and layouts",
  "Einsum dispatches on the subscript pattern and on operand strides to specialised kernels; tests check a list of familiar patterns on contiguous data.",
  ["src/linalg/einsum.rs", "src/linalg/specialized_einsum.rs", "src/linalg/sum_of_products.rs"],
  [("label parsing, stride construction, specialised dispatch", "src/linalg/einsum.rs, src/linalg/specialized_einsum.rs"), ("sum-of-products kernels", "src/linalg/sum_of_products.rs")])

p("C09", "Dot, matmul, bmm, trace and diagonal equal their definitions",
  "For operands of any layout and numeric dtype, dot, matrix-vector, matrix-matrix and batched matrix products equal the textbook sums, the diagonal (at any offset, along any two axes) equals NumPy's, and the trace is the sum of that diagonal. "
  "Operands with unsuitable dimensions or lengths, and offsets or axes that select nothing, are rejected by a panic.",
  ["inputs", "configurations"], "all operand shapes, layouts, offsets and axis pairs",
  "Each product walks raw pointers with strides taken from the operands; tests multiply contiguous matrices.",
  ["src/linalg/matrix_ops.rs", "src/ops/dot_product.rs", "src/linalg/sum_of_products.rs"],
  [("stride walking products", "src/linalg/matrix_ops.rs")])

p("C10", "Out-of-range requests panic and never touch memory outside the array",
  "For every array and view, an index, slice bound, axis, offset, target shape or axis list that does not lie within the array is rejected by a panic, with overflow checking enabled or disabled; every accepted request reads and writes only elements of the array it was made on. "
  "After a rejected request all arrays involved are unchanged and remain usable.",
  ["inputs", "histories", "configurations"], "all requests in and just outside the valid range (and at the extremes of the integer range) on all layouts, in checked and unchecked builds",
  "Bounds must hold for every view history and every argument, including those that overflow; tests index inside fresh arrays.",
  ["src/ndarray/index_impl.rs", "src/ndarray/slice.rs", "src/util/index.rs", "src/util/axis.rs", "src/common/reshape.rs", "src/ndarray/broadcast.rs", "src/linalg/matrix_ops.rs"],
  [("per-axis bounds checks", "src/ndarray/index_impl.rs, src/ndarray/slice.rs"), ("axis normalisation", "src/util/axis.rs")])

p("C11", "Memory is freed exactly once and never used after it is freed",
  "Over every history of creating, viewing, consuming, copying, converting, computing on and dropping arrays and tensors (in every drop order the borrow rules allow, including histories with rejected requests), each buffer is released exactly once with the size it was allocated with, nothing reads or writes a released or foreign buffer, and nothing is leaked. "
  "Extracting the data vector yields the array's elements in order and hands over ownership.",
  ["histories"], "all operation histories and drop orders up to a bound",
  "Ownership is tracked by a flag beside raw pointers, so it is a property of histories (reshape then drop, extract then drop ...); the tests cannot observe frees at all.",
  ["src/ndarray/constructors.rs", "src/ndarray/reshape.rs", "src/ndarray/methods.rs", "src/ndarray/clone.rs", "src/tensor/methods.rs", "src/tensor/reshape.rs"],
  [("owned flag moved on consumption", "src/ndarray/reshape.rs"), ("Drop", "src/ndarray/constructors.rs")],
  [("owned flag, len, capacity", "who releases the buffer and with what size", "src/ndarray.rs")])

p("C12", "Backward computes the exact gradient for every expression graph",
  "For every expression built from tensors with + - * / (tensor-tensor with broadcasting, and tensor-scalar), negation, reshape/view/squeeze/unsqueeze/transpose, dot, matrix and batched matrix products, and for every subset of inputs that require gradients, the backward pass gives each such input a gradient of the input's own shape that equals the derivative of the (seed-weighted) output with respect to it, including when a tensor is used several times. "
  "Inputs that do not require gradients receive none.",
  ["programs", "inputs"], "all expression graphs up to a size, operand shapes, requires-gradient subsets and seeds",
  "Gradients depend on the whole graph: sharing, broadcasting at every node and which inputs are tracked; tests check single operations and a few fixed graphs.",
  ["src/autograd/add_backwards.rs", "src/autograd/sub_backwards.rs", "src/autograd/mul_backwards.rs", "src/autograd/div_backwards.rs", "src/autograd/dot_backwards.rs", "src/autograd/matrix_product_backwards.rs", "src/autograd/matrix_vec_backwards.rs", "src/autograd/bmm_backwards.rs", "src/autograd/reshape_backwards.rs", "src/autograd/transpose_backwards.rs", "src/tensor/ops.rs", "src/tensor/matrix_ops.rs"],
  [("per-operation gradient functions", "src/autograd/*.rs"), ("reduction of broadcast axes", "src/autograd/util.rs")])

p("C13", "Gradient bookkeeping: tracking, accumulation, resetting, leaves",
  "A result requires gradients exactly when one of its operands does, and then is not a leaf; user-created tensors are leaves, and detaching gives a plain array with the same values. "
  "Over every history of forward computations, backward passes (with or without explicit seeds) and resets, the gradient of each tracked input equals the sum of the contributions of every backward pass since tracking was enabled or the gradient was last reset; an unseeded pass is a pass seeded with ones, a backward pass on a result that is not tracked does nothing, and a seed of the wrong shape is rejected by a panic without altering accumulated gradients.",
  ["histories", "programs"], "all histories of forward, backward, reset and tracking toggles up to a bound",
  "Accumulation is state that lives across passes; the tests run one pass, sometimes two.",
  ["src/tensor/autograd.rs", "src/autograd/accumulate_grad.rs", "src/autograd/gradient_function.rs", "src/tensor/methods.rs", "src/tensor/constructors.rs"],
  [("accumulation node shared by a leaf", "src/autograd/accumulate_grad.rs")],
  [("accumulated gradient", "sum of contributions so far", "src/autograd/accumulate_grad.rs")])

p("C14", "A graph keeps what it needs alive: gradients ignore drop order",
  "After a result has been computed, dropping or overwriting any of its operands, intermediate tensors or aliases, in any order and at any time before the backward pass, does not change the gradients the surviving inputs receive, nor the value of the result. "
  "Data handed out of a tensor (its shared or extracted array, its detached copy) stays valid and unchanged after the tensor and graph are gone.",
  ["histories", "schedules"], "all orders of dropping operands and intermediates relative to backward",
  "Lifetimes in the graph are managed by reference counts and unsafe lifetime casts; drop orders are schedules that tests (which keep everything alive to the end) never vary.",
  ["src/tensor/autograd.rs", "src/tensor/methods.rs", "src/tensor/reshape.rs", "src/autograd/*.rs", "src/ndarray/astype.rs"],
  [("reference-counted operand storage", "src/tensor/mod.rs, src/autograd/*.rs")])

p("C15", "Deterministic constructors produce exactly the documented contents",
  "Building from nested arrays or vectors gives exactly that nesting's shape and row-major elements, with ragged or empty input rejected; full, zeros, ones and scalars have the requested shape and value in every element, with empty shapes of zero elements rejected. "
  "Ranges contain start + i*step for exactly those i with a value before stop, and evenly spaced sequences have exactly the requested number of elements, starting at start and (when inclusive) ending at stop up to rounding.",
  ["inputs"], "all nestings, shapes, dtypes and numeric arguments up to a bound",
  "The number of elements depends on rounding of (stop-start)/step, and homogeneity on the whole nesting; tests check a few round numbers.",
  ["src/common/constructors.rs", "src/ndarray/constructors.rs", "src/util/homogenous.rs", "src/util/flatten.rs", "src/util/shape.rs", "src/util/nested.rs", "src/util/dtype.rs"],
  [("homogeneity check, flatten, shape", "src/util/*.rs"), ("step counting", "src/util/dtype.rs")])

p("C16", "Random constructors stay inside their documented range for every stream",
  "Whatever values the random source delivers, uniform samples lie in [0, 1) (or [low, high)), integer samples are whole numbers in [low, high) with every such integer attainable, normal samples are finite, and the result has the requested shape with independently drawn elements. "
  "An empty or inverted integer range is rejected by a panic.",
  ["inputs"], "all outputs of the random source (adversarial streams), bounds, shapes and dtypes",
  "The edge of the range is hit with probability about 2^-24 or less per sample, so random tests essentially never observe a violation.",
  ["src/common/random.rs", "src/util/dtype.rs"],
  [("half-open uniform sampling", "src/common/random.rs")])

p("C17", "Type conversion preserves every representable value",
  "Converting an array of any layout between numeric dtypes gives an owned array of the same shape in which every element is the source element converted as a number (truncated toward zero when going from float to integer, correctly rounded when going to float), and copies even when the dtype does not change. "
  "Elements that the target type cannot represent are rejected by a panic instead of wrapping.",
  ["inputs", "configurations"], "all dtype pairs, boundary values and layouts",
  "196 dtype pairs times boundary values; tests convert a few small numbers.",
  ["src/ndarray/astype.rs", "src/util/dtype.rs"],
  [("checked numeric cast per element", "src/ndarray/astype.rs")])

p("C18", "Tensor forward results equal the same computation on plain arrays",
  "For every program of tensor operations (construction, arithmetic with tensors and scalars, negation, reshaping family, dot, matrix and batched products, detaching, conversion to and from arrays) and every assignment of gradient tracking, the shape and values of each tensor equal those of the same program on plain arrays, and a program the arrays reject is rejected for tensors too. "
  "Running a backward pass changes no forward value.",
  ["programs", "inputs", "configurations"], "all programs up to a bound, operand shapes, layouts and tracking subsets",
  "The tensor layer re-implements each operation over the array layer with ownership and tracking variants; tests compare a few of them.",
  ["src/tensor/ops.rs", "src/tensor/reshape.rs", "src/tensor/matrix_ops.rs", "src/tensor/methods.rs", "src/tensor/constructors.rs", "src/tensor/autograd.rs"],
  [("delegation to array operations", "src/tensor/*.rs")])

p("C19", "Accelerated backends agree with the portable kernels",
  "When the NEON, Apple Accelerate or BLAS backends are enabled, every operation gives the result the portable kernels give (up to documented floating-point reassociation).",
  ["configurations", "inputs"], "all backends and inputs",
  "No test compares backends, and none runs on a machine that has them.",
  ["src/acceleration/*.rs", "src/ops/simd_*.rs", "build.rs"],
  [("cfg-selected kernels", "build.rs, src/ops/simd_*.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
