#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every chain of views selects exactly the elements it names",
 "For every array and every chain of view operations (view, reshape, squeeze, unsqueeze, transpose, T, slice, slice_along, diagonals, broadcast_to, label-permuting einsum views), taken by borrowing or by consuming, the resulting shape and the element found at every coordinate are those of the mathematical definition applied to the source's row-major contents. This holds whatever layout earlier steps of the chain left behind, and however the elements are read (index, iteration, copy, comparison).",
 ["inputs","histories"], "all shapes, element types, and finite chains of view operations with all their arguments, borrowed or consuming",
 "tests fix a handful of shapes and mostly apply one view operation to a fresh contiguous array; the composition of layouts is unbounded",
 ["src/common/reshape.rs","src/ndarray/reshape.rs","src/ndarray/slice.rs","src/ndarray/broadcast.rs","src/linalg/matrix_ops.rs","src/linalg/einsum.rs","src/util/index.rs","src/util/axis.rs"],
 [("shape/stride rewriting of views","src/common/reshape.rs"),("slice offset and length computation","src/ndarray/slice.rs"),("diagonal stride sum and pointer offset","src/linalg/matrix_ops.rs:offset_diagonal_along"),("broadcast strides","src/ndarray/broadcast.rs:broadcast_stride")],
 ["NdArray public API: shape(), indexing, flatiter(), clone(), flatten(), =="])

prop("C02", "Layout metadata always tells the truth about the elements",
 "For every array or view, dimension count, total size, first-axis length and strides agree with its shape and with where its elements really are; whenever it reports being contiguous its data slice is exactly its elements in row-major order, and whenever it reports a uniform stride its elements really are that far apart in memory. Freshly constructed, copied and computed arrays are owned, contiguous and canonically strided, borrowed results report being views, and consuming a view-forming call on an owning array keeps ownership.",
 ["inputs","histories"], "all arrays reachable by constructors, operations and chains of view operations",
 "tests check the flags on a few fixed slices; fast paths everywhere trust them for every layout",
 ["src/common/methods.rs","src/ndarray/iterator/collapse_contiguous.rs","src/ndarray/slice.rs","src/ndarray/reshape.rs","src/ndarray/methods.rs"],
 [("uniform-stride detection","src/ndarray/iterator/collapse_contiguous.rs:has_uniform_stride"),("flag maintenance on views","src/ndarray/slice.rs:update_flags_with_contiguity")],
 ["shape(), stride(), ndims(), size(), len(), is_contiguous(), is_uniformly_strided(), has_uniform_stride(), is_view(), data_slice(), flatiter_ptr()"])

prop("C03", "Views share memory with their source; copies never do",
 "A write through a view (assignment by index, fill, zero, compound assignment) is visible in its source and in every other view exactly at the coordinates that name the same element, and nowhere else. Results of clone, flatten, astype, arithmetic, reductions, products, sub-array iteration and detaching never change when any earlier array is written to, and writing to them changes nothing else.",
 ["histories"], "all histories of view creation, copying, and writes over a family of arrays related by views and copies",
 "tests write through one or two fixed views; aliasing must hold for every history and layout",
 ["src/ndarray/reshape.rs","src/ndarray/clone.rs","src/ndarray/fill.rs","src/ops/fill.rs","src/ndarray/assign_ops.rs","src/ndarray/index_impl.rs"],
 [("views reuse the source pointer","src/ndarray/reshape.rs:reshaped_view"),("copying routines","src/ndarray/clone.rs")],
 ["element reads of every live array after every write"])

prop("C04", "Elementwise operators equal scalar operators under NumPy broadcasting",
 "For every pair of broadcast-compatible arrays, or array and scalar, in any memory layout and any owned or borrowed combination, each element of the result of + - * / % & | << >> and unary minus equals the scalar operator applied to the corresponding operand elements. The result has exactly the NumPy broadcast shape.",
 ["inputs"], "all operand shapes, layouts, element types, values and operators for which the scalar operation is defined",
 "the kernels are selected by the combination of both operands' collapsed strides; tests cover a few combinations with regular values",
 ["src/ndarray/binary_ops.rs","src/ops/binary_ops.rs","src/ops/binary_op_add.rs","src/ops/binary_op_sub.rs","src/ops/binary_op_mul.rs","src/ops/binary_op_div.rs","src/ops/unary_ops.rs","src/ndarray/unary_ops.rs","src/ndarray/broadcast.rs"],
 [("kernel dispatch by stride pattern","src/ops/binary_ops.rs:define_binary_op_trait"),("shape and stride broadcasting","src/ndarray/broadcast.rs")],
 ["operator results compared element by element"])

prop("C05", "In-place operations change exactly their own elements",
 "Compound assignment with an array or scalar, fill, zero and assignment by index set each element of the target, whatever its layout, to the value the corresponding out-of-place operation would have produced from the contents before the call, even when the right-hand side shares memory with the target. No other element of any array changes, and arrays produced by explicit broadcasting, and any views of them, are read-only: every such write to them is refused and leaves all data unchanged.",
 ["inputs","histories"], "all targets (layouts, element types), right-hand sides (broadcast, scalar, aliasing), operators and values",
 "tests use in-place operators on owning contiguous arrays only; strided, aliasing and read-only targets are never exercised",
 ["src/ndarray/assign_ops.rs","src/ndarray/fill.rs","src/ops/fill.rs","src/ndarray/index_impl.rs","src/ndarray/broadcast.rs"],
 [("read-only flag","src/ndarray/broadcast.rs:broadcast_to"),("in-place kernels","src/ndarray/assign_ops.rs"),("recursive fill","src/ops/fill.rs")],
 ["whole backing buffer compared before/after"])

prop("C06", "Reductions equal the fold over exactly the reduced elements",
 "For every array in any layout, sum, product, min, max, min_magnitude, max_magnitude and mean, over the whole array or over any valid non-repeating set of axes (positive or negative where accepted), equal the mathematical fold of exactly the elements that share the result coordinate. The result's shape is the input's with the reduced axes removed.",
 ["inputs"], "all shapes, layouts, element types, axis sets and values (excluding NaN, and integer overflow)",
 "tests reduce a few fixed arrays; the fast paths depend on layout and on axis collapsing",
 ["src/ndarray/reduce.rs","src/ops/reduce_sum.rs","src/ops/reduce_product.rs","src/ops/reduce_min.rs","src/ops/reduce_max.rs","src/ops/reduce_min_magnitude.rs","src/ops/reduce_max_magnitude.rs","src/util/partial_ord.rs","src/util/absolute.rs"],
 [("layout-specialised reduction loops","src/ops/reduce_*.rs"),("output mapping strides","src/ndarray/reduce.rs:reduced_shape_and_stride")],
 ["reduction results compared with a row-major fold"])

prop("C07", "Deterministic constructors produce exactly the described contents",
 "Arrays and tensors built from nested arrays or vectors (in any mixture, any nesting depth the types allow), or by full, zeros, ones, scalar, arange, arange with step, inclusive and exclusive linspace, have exactly the shape and the elements, in order, that their arguments describe: arange runs from start in whole steps up to but excluding stop, and linspace has exactly the requested number of evenly spaced values. Ragged or empty nested data is rejected.",
 ["inputs"], "all shapes, nestings, values, ranges, steps and counts representable exactly",
 "tests use a few literal arrays and ranges; counts are computed in floating point and nesting is unbounded",
 ["src/common/constructors.rs","src/ndarray/constructors.rs","src/tensor/constructors.rs","src/util/flatten.rs","src/util/shape.rs","src/util/homogenous.rs","src/util/nested.rs","src/util/to_vec.rs","src/util/dtype.rs"],
 [("count computation","src/common/constructors.rs:arange_with_step"),("flattening and homogeneity check","src/util/flatten.rs, src/util/homogenous.rs")],
 ["shape and elements of the constructed array"])

prop("C08", "Random constructors honour shape, bounds and distribution",
 "Every array or tensor produced by the random constructors has exactly the requested shape, and every sample lies in the documented half-open interval ([0,1), [low, high)); integer sampling returns only whole numbers that are at least low and less than high, all of them reachable with equal probability. Samples are independent draws of the documented distribution: mean, variance and bin frequencies over many samples agree with it, for uniform as for standard normal sampling.",
 ["inputs","histories"], "all shapes, bounds, element types and random draws",
 "tests only print or check the shape of one draw; bounds and distribution quantify over all draws",
 ["src/common/random.rs"],
 [("distribution set-up and rounding","src/common/random.rs")],
 ["samples of large draws: range, integrality, moments, histogram"])

prop("C09", "Iteration visits every element once, in row-major order",
 "Element iteration over any array or view yields each element exactly once in row-major order and then stays exhausted, and pointer iteration yields the memory location of exactly those elements. Iterating over the first axis, any single axis, or any set of axes yields, in row-major order of those axes, exactly the sub-arrays obtained by fixing their coordinates, and exactly as many as the product of their lengths.",
 ["inputs"], "all shapes, layouts, and axis sets",
 "tests iterate over a few small arrays along one axis; carry logic depends on all dimensions",
 ["src/ndarray/iterator/flat_index_generator.rs","src/ndarray/iterator/flat_iterator.rs","src/ndarray/iterator/buffer_iterator.rs","src/ndarray/iterator/tensor_iterator.rs","src/ndarray/iterator/iterators.rs","src/ndarray/iterator/util.rs"],
 [("odometer carry","src/ndarray/iterator/flat_index_generator.rs"),("sub-array pointer stepping","src/ndarray/iterator/tensor_iterator.rs")],
 ["collected iteration results"])

prop("C10", "Indexing and slicing reach only elements inside the array",
 "Indexing any array or view with as many coordinates as it has dimensions succeeds if and only if every coordinate is below the length of its axis, and then reads or writes exactly that element. Slicing succeeds if and only if every index or range is non-empty and lies inside its axis and no more of them are given than there are dimensions; everything else is refused by a panic, never answered with other memory.",
 ["inputs"], "all arrays, layouts and index/range arguments, valid and invalid",
 "tests index valid positions of owning arrays plus one or two out-of-range cases",
 ["src/ndarray/index_impl.rs","src/ndarray/slice.rs","src/util/index.rs","src/ndarray/methods.rs"],
 [("bounds checks","src/ndarray/index_impl.rs, src/ndarray/slice.rs")],
 ["values, panics"])

prop("C11", "Matrix products, dot, trace match their algebraic definitions",
 "For all compatible operands in any memory layout, dot, matrix-vector, matrix-matrix and batched matrix products equal the defining sums of products, and trace variants equal the sum over the corresponding (offset) diagonal along the chosen axes. Shapes of results are those of the definition.",
 ["inputs"], "all sizes, batch counts, layouts (transposed, sliced, broadcast), element types, offsets and axes",
 "tests multiply a few fixed matrices; kernel choice depends on all operand strides",
 ["src/linalg/matrix_ops.rs","src/linalg/sum_of_products.rs","src/ops/dot_product.rs","src/linalg/einsum.rs","src/linalg/specialized_einsum.rs"],
 [("specialised product kernels","src/linalg/sum_of_products.rs"),("matrix loops","src/linalg/matrix_ops.rs")],
 ["product results compared with triple loops"])

prop("C12", "Einsum computes the explicit sum its subscripts denote",
 "For every list of operands and every well-formed subscript specification (labels repeated within or across operands, any output permutation or contraction), einsum returns the explicit sum over all assignments of label values, with the output shape named by the output labels, whatever the operands' layouts and the internal axis ordering. The view form returns exactly that result as a view when no label is summed, and nothing otherwise.",
 ["inputs"], "all operand counts up to the supported maximum, label assignments, sizes, layouts and element types",
 "tests hold some dozens of fixed subscript strings; loop order and kernel are chosen by strides",
 ["src/linalg/einsum.rs","src/linalg/specialized_einsum.rs","src/linalg/sum_of_products.rs","src/ndarray/iterator/multi_flat_index_generator.rs","src/util/functions.rs"],
 [("label parsing","src/linalg/einsum.rs:parse_operand_subscripts"),("axis ordering","src/ndarray/iterator/multi_flat_index_generator.rs:find_best_axis_ordering"),("specialised loops","src/linalg/specialized_einsum.rs")],
 ["einsum(), einsum_view() results"])

prop("C13", "Ill-formed requests are refused and leave everything unchanged",
 "Every request whose arguments do not satisfy the operation's documented preconditions (incompatible shapes, wrong dimension count, out-of-range or repeated axes, element-count changing reshape, reshaping or exposing raw data of arrays whose layout cannot support it, malformed or inconsistent einsum subscripts, wrongly shaped seed gradients, single-value access on larger arrays, unconvertible casts) panics instead of returning a value. All arrays and gradients that survive the panic have the contents they had before.",
 ["inputs"], "all operations with arguments violating a precondition",
 "tests contain a few should-panic cases per operation; the negative input space is unbounded and unsafe kernels rely on every check",
 ["src/ndarray/broadcast.rs","src/common/reshape.rs","src/util/axis.rs","src/ndarray/reduce.rs","src/linalg/matrix_ops.rs","src/linalg/einsum.rs","src/ndarray/methods.rs","src/tensor/autograd.rs","src/ndarray/astype.rs"],
 [("argument assertions","throughout")],
 ["catch_unwind outcome and contents of operands"])

prop("C14", "Backward computes the true derivative for any expression graph",
 "For every finite expression graph over tensors (arithmetic with tensors and scalars in any broadcast combination, negation, dot, matrix and batched products, reshaping and transposing views, with shared sub-expressions and reused operands, operands possibly dropped before the backward pass) and every seed gradient, the gradient accumulated in each leaf is the vector-Jacobian product of that seed. It has the leaf's shape, and tensors not requiring gradients receive none.",
 ["programs","inputs"], "all expression DAGs over the supported operations, all shapes, values, seeds and lifetimes of intermediate tensors",
 "tests differentiate a few fixed formulas; correctness is compositional over unbounded graphs",
 ["src/autograd","src/tensor/ops.rs","src/tensor/matrix_ops.rs","src/tensor/reshape.rs","src/tensor/autograd.rs"],
 [("backward nodes","src/autograd/*_backwards.rs"),("broadcast gradient reduction","src/autograd/util.rs:reduce_gradient")],
 ["gradient() of every leaf vs. reference reverse-mode over exact rationals/dyadics"])

prop("C15", "Gradient state follows its accumulate/reset rules over any history",
 "Over any history of building expressions, running backward passes (repeatedly, from several outputs, with several seeds), resetting gradients and switching gradient tracking on or off, each tracked leaf's gradient equals the sum of the contributions of the backward passes since tracking began or the last reset, starting at zero. Whether a result tracks gradients, whether a tensor is a leaf, and which tensors expose a gradient follow the documented rules, and resetting or reading one tensor's gradient never affects another's.",
 ["histories"], "all interleavings of construction, backward, reset and tracking changes",
 "tests run one or two backward passes in a fixed order",
 ["src/tensor/autograd.rs","src/autograd/accumulate_grad.rs","src/autograd/none_backwards.rs","src/autograd/identity_backwards.rs","src/tensor/constructors.rs"],
 [("accumulation node","src/autograd/accumulate_grad.rs"),("tracking flags","src/tensor/autograd.rs")],
 ["gradient(), requires_grad(), is_leaf() after each step"])

prop("C16", "No history of safe calls corrupts, leaks or frees memory twice",
 "Any sequence of safe public calls on arrays and tensors, including views, consuming chains, conversion to raw vectors, expression graphs whose operands have been dropped, and calls that panic, touches only memory owned by live arrays. Every buffer is released exactly once and, after all values are dropped, nothing remains allocated.",
 ["histories"], "all finite histories of safe API calls, with any drop order",
 "ordinary tests cannot see out-of-bounds accesses, leaks or double frees, and sample few drop orders",
 ["src/ndarray.rs","src/ndarray/constructors.rs","src/ndarray/reshape.rs","src/ndarray/methods.rs","src/ndarray/clone.rs","src/ops/fill.rs","src/tensor/methods.rs","src/tensor/reshape.rs","src/autograd"],
 [("ownership flag and drop","src/ndarray/constructors.rs:Drop"),("reference-counted graph nodes","src/autograd/gradient_function.rs")],
 ["instrumented global allocator (red zones, poisoning, live-block ledger)"])

prop("C17", "Tensor computations produce the same values as array computations",
 "Every operation offered on tensors (constructors, arithmetic, products, reshaping family, comparison, printing, conversion) yields the same shape and bitwise the same values as the same operation on arrays, whether or not gradients are tracked, by borrowing or consuming, and after other expressions have been built from the same tensor. Conversions back to arrays (borrowed, shared, consuming, detached) all give those contents.",
 ["programs","inputs"], "all tensor programs without gradients read, tracked or untracked",
 "tests compare a few tensor results with literals, mostly untracked and unshared",
 ["src/tensor/ops.rs","src/tensor/matrix_ops.rs","src/tensor/reshape.rs","src/tensor/methods.rs","src/tensor/constructors.rs","src/tensor/equals.rs","src/tensor/print.rs"],
 [("delegation to array operations","src/tensor/*.rs"),("shared storage unwrapping","src/tensor/methods.rs:into_ndarray")],
 ["ndarray(), get_ndarray(), into_ndarray(), detach(), ==, Debug"])

prop("C18", "Equality, printing and copying depend only on shape and values",
 "Two arrays or tensors compare equal exactly when their shapes and all their elements are equal, in every borrowed/owned and array/tensor combination, symmetrically and whatever their memory layouts; changing any single element makes them unequal. Printed text, clones, flattened copies and extracted vectors are functions of shape and values only: differently laid out equal arrays print identically, clones equal their originals, and the printed text lists every element in row-major order with nesting that mirrors the shape.",
 ["inputs"], "all pairs of arrays over all shapes, layouts, and element types (excluding NaN)",
 "tests compare contiguous arrays mostly and never compare layouts systematically",
 ["src/ndarray/equals.rs","src/tensor/equals.rs","src/ndarray/print.rs","src/tensor/print.rs","src/ndarray/clone.rs","src/ndarray/reshape.rs","src/ndarray/methods.rs"],
 [("elementwise comparison via iteration","src/ndarray/equals.rs"),("recursive formatting","src/ndarray/print.rs")],
 ["==, format!(\"{:?}\"), clone(), flatten(), into_data_vector()"])

prop("C19", "Element type conversion preserves every representable value",
 "Converting an array of any layout to another element type keeps shape and order and converts each element exactly as a numeric cast of that element (truncation toward zero, round-to-nearest for floats); elements that do not fit the target type make the conversion panic. Values representable in both types survive a round trip unchanged.",
 ["inputs"], "all source and target type pairs, layouts and values including range limits",
 "tests convert a few small values for some type pairs",
 ["src/ndarray/astype.rs"],
 [("checked numeric cast per element","src/ndarray/astype.rs")],
 ["astype() results or panic, against an independent cast table"])

prop("C20", "Computations never modify their operands",
 "No out-of-place operation (arithmetic, reduction, product, einsum, copy, comparison, printing, conversion, iteration, view creation, forward or backward pass) changes the shape, layout or any element of any of its operands, of seed gradients, or of any other live array. Repeating the same operation on the same operands gives the same result, bit for bit.",
 ["histories","inputs"], "all operations, operands, layouts and repetitions",
 "tests seldom look at operands after an operation, never at all of them",
 ["src/ndarray","src/linalg","src/ops","src/tensor","src/autograd"],
 [("results written to fresh buffers","src/ndarray/binary_ops.rs, src/ndarray/reduce.rs, src/linalg/*.rs, src/autograd/*.rs")],
 ["snapshots of all live arrays around each call"])

prop("C21", "The borrow checker stops every program in which a view outlives its data",
 "Every safe program that uses a view, iterator, data slice, borrowed gradient or tensor view after the array or tensor whose data it refers to has been dropped, moved or overwritten is rejected at compile time. The corresponding programs in which the source lives long enough compile.",
 ["programs"], "all programs combining a source, a chain of borrow-forming and consuming calls, an ending of the source's life and a later use",
 "the repository has a few compile-fail examples; every method's lifetime signature must be right in every combination",
 ["src/ndarray/reshape.rs","src/ndarray/slice.rs","src/ndarray/broadcast.rs","src/ndarray/iterator/iterators.rs","src/ndarray/methods.rs","src/tensor/reshape.rs","src/tensor/autograd.rs","src/linalg/matrix_ops.rs","src/linalg/einsum.rs"],
 [("lifetime parameters in signatures","throughout")],
 ["accept/reject verdict of the Rust compiler on generated programs"])

prop("C22", "Accelerated back ends compute the same results as the portable code",
 "With the vDSP and BLAS acceleration paths compiled in and linked to libraries that implement the documented vDSP/CBLAS contracts, every arithmetic operator, in-place update, fill, reduction, dot, matrix, batched and einsum product gives the same values for the same inputs as the portable build, for every operand layout. Library calls only ever receive arguments inside their documented domain and touch only the operands' memory.",
 ["configurations","inputs"], "the acceleration configurations that can be compiled on this machine (vDSP, BLAS, both), all operations, layouts and values",
 "the tests only run in the portable configuration here; on the accelerated platform they sample few layouts",
 ["src/acceleration/vdsp.rs","src/acceleration/cblas.rs","src/ops","src/linalg/matrix_ops.rs","src/linalg/sum_of_products.rs"],
 [("cfg-selected kernels","src/ops/*.rs, src/linalg/matrix_ops.rs")],
 ["operation results in each configuration vs. reference"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
