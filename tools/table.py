TRUST = ' Trusted: clang 18 lowering at -O1, the symbolic executor in symex/ and z3, the containers/stream stand-ins in rt/shim; floats are reals unless stated; everything beyond the stated bounds (see evidence bounds/outside) is not covered.'
p('C01', 'Tensors survive serialization unchanged, and damaged data is rejected',
  'Writing any tensor to a stream (any element type, any shape, packed or not) and reading it back gives a tensor with the same type, shape, fields and bytes, also when it is read into an object that already held something else, and consumes exactly the bytes written. Reading a stream that ends early, or whose header describes an impossible tensor, fails with an exception and never yields a tensor with wrong content or touches memory outside its own.',
  ['inputs', 'crash_points'], 'every element type, shape, field count and content within the bounds; every truncation point; arbitrary headers',
  'The serialization test writes a few tensors and reads them back whole; it never truncates, corrupts or re-reads into used objects.',
  ['src/core/tensor.cpp', 'include/core/tensor.h', 'include/module/io/stream.h', 'src/core/tensor_builder.cpp'],
  [('Tensor::serialize/externalize', 'src/core/tensor.cpp'), ('binio read/write', 'include/module/io/stream.h')],
  'Every tensor within the bounds, with arbitrary bytes, is decided; streams are in-memory stand-ins.' + TRUST)
p('C02', 'Graph node descriptions keep exactly their attributes, also when serialized',
  'A graph node description (operator name, node name, optional fixed shape and named attributes) answers has/get/set/clear exactly like a table from names to values, where clearing keeps only the reserved attributes; asking for a missing attribute fails. Writing it to a stream and reading it back, into a fresh or a used object, gives an equal description; copying, moving and assigning keep the content; truncated data fails.',
  ['inputs', 'histories', 'crash_points'], 'every sequence of up to 3 table operations, arbitrary names and values, every truncation point',
  'Tests set and read a handful of attributes once; no test mixes histories of set/clear/move or truncates the stream.',
  ['src/module/bubble.cpp', 'include/module/bubble.h', 'src/core/tensor.cpp'],
  [('Bubble set/get/clear/serialize/externalize', 'src/module/bubble.cpp')],
  'All histories and contents in the bounds are decided.' + TRUST)
p('C03', 'Saving and loading a module preserves its computation; corrupt data is rejected',
  'Saving any module and loading it gives a module with the same inputs and outputs in the same order, the same nodes, attributes and operand order, so every output denotes the same expression; the computation order lists every needed node once, after its operands. A file that is cut short or whose node, operand, input or output numbers do not exist is rejected with an exception.',
  ['programs', 'inputs', 'crash_points'], 'every graph shape in the bounds (symbolic topology and attributes), every choice of outputs, every truncation point, arbitrary indices',
  'The tests save and load one or two hand-written graphs.',
  ['src/module/module.cpp', 'src/module/menu.cpp', 'src/module/bubble.cpp', 'include/module/module.h', 'include/module/graph.h'],
  [('Module::Save/Load', 'src/module/module.cpp'), ('serialize_graph/externalize_graph', 'src/module/menu.cpp'), ('Module::list_reference_nodes', 'src/module/module.cpp')],
  'All graph topologies in the bounds are decided.' + TRUST)
p('C04', 'Modules expose the right inputs and outputs, and fusing modules composes them',
  'A module built from a graph has exactly the parameters its outputs need as inputs, in the order asked for when sorted, and exactly the requested outputs; unknown, ambiguous or foreign nodes are rejected. Operand and consumer links always mirror each other, also after relinking or replacing nodes. Fusing modules along any valid routes gives a module that computes the composition, keeps the unconnected inputs and outputs in order and leaves the fused modules as they were; invalid routes are rejected.',
  ['programs', 'histories', 'inputs'], 'every graph shape in the bounds, every output/route choice, every route order',
  'Tests load two sample graphs, and fusion is not tested.',
  ['src/module/module.cpp', 'src/module/graph.cpp', 'src/module/menu.cpp', 'include/module/module.h', 'include/module/graph.h'],
  [('Module::load/sort_inputs/Fusion', 'src/module/module.cpp'), ('Node::Link/ReplaceOutput', 'src/module/graph.cpp')],
  'All topologies, routes and orders in the bounds are decided.' + TRUST)
p('C05', 'A compiled program computes exactly what its graph says',
  'Compiling any module and running it gives, for every output in the requested order, the value of that output\'s expression over the inputs, constants and attributes, however nodes are shared, repeated, nested, packed into tuples or named alike, with inputs in any order, repeated or unused; subgraphs of constants are folded to the same value; graphs that cannot be compiled (unknown operators, unbound inputs) are rejected.',
  ['programs', 'inputs'], 'every graph of up to 4 operators (symbolic topology, operands, outputs, input order), arbitrary attribute and input values',
  'Tests compile a few hand-written graphs; wrong operand positions after sharing or reordering depend on the topology.',
  ['src/compiler/compiler.cpp', 'src/compiler/translater.cpp', 'src/runtime/instruction/instruction_factory.cpp', 'src/runtime/instruction/stack_instruction.cpp', 'src/runtime/workbench.cpp', 'src/runtime/program.cpp', 'src/runtime/stack.cpp'],
  [('Compiler::compile', 'src/compiler/compiler.cpp'), ('Workbench::launch_online', 'src/runtime/workbench.cpp'), ('stack instructions', 'src/runtime/instruction/instruction_factory.cpp')],
  'Operators are test operators whose results identify the expression that was evaluated.' + TRUST)
p('C06', 'Repeated runs, clones and failures never leak state between runs',
  'Every run of a workbench uses the inputs set last and gives the same result as a fresh run; results and inputs handed out before keep their values; a clone computes the same, answers the same names and shares nothing observable; setting an operator parameter affects exactly the bench it is set on; an operator that fails makes that run fail and leaves nothing behind; inputs are converted to their declared type; hooked values are those the run computed; programs run on given arguments leave the stack as it was; slots and names outside the program are rejected.',
  ['histories', 'inputs', 'programs'], 'up to 3 runs with any inputs changed between, every small graph, clones before and after runs, arbitrary slots and values',
  'Tests run each bench once or twice with fixed inputs.',
  ['src/runtime/workbench.cpp', 'src/runtime/program.cpp', 'src/runtime/instruction.cpp', 'src/runtime/stack.cpp', 'src/compiler/option/pack_translator_option.cpp', 'src/backend/base/base_cast_v2.cpp'],
  [('Workbench::run/clone/launch_offline/run_hook', 'src/runtime/workbench.cpp'), ('Program::clone', 'src/runtime/program.cpp'), ('input cast', 'src/backend/base/base_cast_v2.cpp')],
  'Histories of runs, clones and failures within the bounds.' + TRUST)
p('C08', 'Fixed-capacity vectors and strings behave like their standard counterparts',
  'The fixed-capacity vector and string used for shapes and device names hold the same elements in the same order as a standard vector or string after every operation (push, pop, insert, erase, resize, assign, construct, copy, compare, iterate), and refuse with an exception to grow past their capacity, without writing outside it. Device descriptions compare equal exactly when type and id are equal, and their order is a strict total order.',
  ['histories', 'inputs'], 'one arbitrary operation from every reachable state of capacity 3 and 7 (so every history); arbitrary contents',
  'The container test calls a few operations on one vector; it never fills it.',
  ['include/utils/otl.h', 'include/core/device.h', 'src/core/device.cpp'],
  [('otl::vector', 'include/utils/otl.h'), ('otl::sso', 'include/utils/otl.h'), ('Device ordering', 'include/core/device.h')],
  'Every state and operation in the bounds is decided.' + TRUST)
p('C20', 'Transpose and dimension shuffle move every element to its specified place',
  'For every input shape, element type and permutation, transposing yields the permuted shape and puts every input element at the permuted index; without a permutation the last two dimensions are swapped; shorter inputs are treated as having leading dimensions of 1. Shuffling a dimension by an index list gives exactly the listed slices in order. Invalid permutations, dimensions or indices are rejected, the announced output shape equals the produced one, and no element outside input or output is touched.',
  ['inputs', 'configurations'], 'every shape up to the bounds, every permutation, arbitrary element values, all numeric types',
  'Tests transpose one or two fixed tensors.',
  ['src/backend/base/base_transpose.cpp', 'src/kernels/cpu/transpose.cpp', 'src/backend/base/base_dimshuffle.cpp', 'src/kernels/cpu/dimshuffle.cpp'],
  [('Transpose::infer/run', 'src/backend/base/base_transpose.cpp'), ('cpu kernels', 'src/kernels/cpu/transpose.cpp')],
  'All shapes/permutations in the bounds with arbitrary values.' + TRUST)
p('C21', 'Joining and splitting tensors are exact and inverse to each other',
  'Concatenating tensors along a (possibly negative) axis lays them side by side element for element and requires equal types and equal other sizes; stacking adds a new axis; splitting by sizes and chunking give parts that lie inside the input, in order, and cover it, so that joining the parts gives the input back. Impossible splits, axes or shape mismatches are rejected, and announced shapes equal produced ones.',
  ['inputs', 'configurations'], 'every shape, axis, part size and count in the bounds; arbitrary element values, all numeric types',
  'Tests join two fixed tensors along one axis.',
  ['src/backend/base/base_concat.cpp', 'src/kernels/cpu/concat.cpp', 'src/backend/base/base_split.cpp', 'src/kernels/cpu/split.cpp', 'src/backend/base/base_chunk.cpp', 'src/kernels/cpu/chunk.cpp', 'src/backend/base/base_stack_tensor.cpp', 'src/kernels/cpu/stack_tensor.cpp'],
  [('Concat/Split/Chunk/Stack', 'src/backend/base/')], 'All shapes in the bounds with arbitrary values.' + TRUST)
p('C22', 'Every form of slicing selects exactly the specified elements',
  'Slicing by begin/size, by begin/end/step and by strided slicing with begin, end, new-axis, shrink and ellipsis masks yields, for every combination of in-range, negative, out-of-range and backwards bounds, exactly the elements and shape the NumPy-style definition gives. Sizes or bounds that do not fit are rejected instead of wrapping around, announced shapes equal produced ones and nothing outside the input is read.',
  ['inputs', 'configurations'], 'arbitrary begin/size values, every small begin/end/step, every mask combination in the bounds; arbitrary element values',
  'No test covers masks, negative steps or extreme bounds.',
  ['src/backend/base/base_slice.cpp', 'src/backend/base/base_slice_v2.cpp', 'src/backend/base/base_slice_v3.cpp', 'src/backend/base/base_strided_slice.cpp', 'src/kernels/cpu/slice.cpp', 'src/kernels/cpu/slice_v2.cpp', 'src/kernels/cpu/slice_v3.cpp', 'src/kernels/cpu/strided_slice.cpp'],
  [('slice infer and kernels', 'src/backend/base/')], 'All bounds/mask combinations stated, arbitrary values.' + TRUST)
p('C23', 'Element-wise arithmetic broadcasts operands and promotes types correctly',
  'Adding, subtracting, multiplying, dividing, taking the remainder or maximum of, or comparing two tensors gives, at every index of the broadcast shape, the operation on the two elements that index maps to (dimensions aligned from the last, size 1 repeated), with operand order kept. Operands of different numeric types are first converted to one common type that does not depend on their order; operands that do not broadcast are rejected; operands are left unchanged and the announced type and shape are those produced.',
  ['inputs', 'configurations'], 'every broadcastable pair of shapes of up to 3 dims (selected 4-dim ones), arbitrary element values, all numeric types and pairs of types',
  'Tests add a few fixed pairs; each broadcast pattern takes a different loop in the kernels.',
  ['src/backend/base/element_wise_reduce.cpp', 'src/backend/base/base_equal.cpp', 'src/kernels/cpu/add.cpp', 'src/kernels/cpu/sub.cpp', 'src/kernels/cpu/mul.cpp', 'src/kernels/cpu/div.cpp', 'src/kernels/cpu/mod.cpp', 'src/kernels/cpu/maximum.cpp', 'src/kernels/cpu/equal.cpp'],
  [('ElementWiseReduce::infer', 'src/backend/base/element_wise_reduce.cpp'), ('reduce kernels', 'src/kernels/cpu/sub.cpp')],
  'All shapes in the bounds with arbitrary values.' + TRUST)
p('C24', 'Reductions and normalizations combine exactly the elements of each line',
  'Summing, averaging, taking the maximum or its first index, softmax and L2 normalization along a dimension (positive or negative) use, for every output position, exactly the input elements on that line, with the reduced dimension kept as 1 or removed as asked; the mean covers every contiguous list of dimensions. This holds for every element type. Dimensions the input does not have, or lists that are not contiguous, are rejected; the input is unchanged and announced shapes equal produced ones.',
  ['inputs', 'configurations'], 'every shape of 1-3 (thorough 4) dims with sizes 1..3, every dimension, arbitrary values; all numeric types for sum, mean, max, argmax',
  'Tests reduce one or two fixed tensors of floats.',
  ['src/backend/base/base_reduce_sum.cpp', 'src/backend/base/base_reduce_mean.cpp', 'src/backend/base/base_argmax.cpp', 'src/backend/base/base_max.cpp', 'src/backend/base/base_softmax.cpp', 'src/backend/base/base_l2_norm.cpp', 'src/kernels/cpu/reduce_sum.cpp', 'src/kernels/cpu/reduce_mean.cpp', 'src/kernels/cpu/argmax.cpp', 'src/kernels/cpu/max.cpp', 'src/kernels/cpu/softmax.cpp', 'src/kernels/cpu/l2_norm.cpp'],
  [('reductions', 'src/backend/base/base_reduce_mean.cpp'), ('cpu kernels', 'src/kernels/cpu/argmax.cpp')],
  'exp and sqrt are uninterpreted (exp > 0, sqrt >= 0).' + TRUST)
p('C25', 'Activations and per-channel operators apply the function to every element',
  'Each activation (relu, relu_max, leaky_relu, hard_sigmoid, prelu, sigmoid, tanh, softplus) and mathematical function (exp, erf, sqrt, rsqrt, square, abs, floor, ceil, pow) gives at every position its function of that element, whatever the length; bias, batch normalization, batch scaling and their fused form use at every element the parameters of that element\'s channel, for every channel position. Parameters of the wrong length or type and channels that do not exist are rejected; the input is unchanged.',
  ['inputs', 'configurations'], 'lengths 1..9 around the vector width, every channel position in up to 5 dims, arbitrary values and parameters',
  'Tests apply a few activations to one fixed tensor; vector tails and generic-type loops differ.',
  ['src/backend/base/base_activation.cpp', 'src/backend/base/base_prelu.cpp', 'src/backend/base/base_add_bias.cpp', 'src/backend/base/base_batch_norm.cpp', 'src/backend/base/base_batch_scale.cpp', 'src/backend/base/base_fused_batch_norm.cpp', 'src/kernels/cpu/relu.cpp', 'src/kernels/cpu/softplus.cpp', 'src/kernels/cpu/prelu.cpp', 'src/kernels/cpu/add_bias.cpp', 'src/kernels/cpu/batch_norm.cpp', 'src/kernels/cpu/batch_scale.cpp', 'src/kernels/cpu/fused_batch_norm.cpp'],
  [('activations', 'src/kernels/cpu/relu.cpp'), ('per-channel kernels', 'src/kernels/cpu/fused_batch_norm.cpp')],
  'Transcendental functions are uninterpreted; only their argument and position are decided.' + TRUST)
p('C26', 'Convolution equals the sum over the padded, strided, dilated window',
  'conv2d gives, for every batch, output channel and output position, the sum over input channels and kernel positions of weight times input element, where positions outside the input count as the padding value, for every padding (also negative and uneven), stride, dilation, kernel size and channel count, in float and double; the result has the floor output size. conv2d_v2 does the same with the padding given as an input, using on each run the padding of that run. Unsupported formats, paddings of batch or channel, and weights that do not fit are rejected, on every run. Inputs and weights are unchanged.',
  ['inputs', 'configurations', 'histories'], 'every combination of size, kernel, stride, dilation and padding in one dimension, sizes around the 8x8x4 blocking, arbitrary values',
  'Tests run a few layers of fixed geometry; padding corners and block remainders are only hit for particular sizes.',
  ['src/backend/base/base_conv2d.cpp', 'src/kernels/cpu/conv2d_core.cpp', 'src/kernels/cpu/conv2d_v2.cpp', 'src/kernels/cpu/im2col.cpp', 'src/kernels/cpu/math_cpu.cpp'],
  [('convolution', 'src/kernels/cpu/conv2d_core.cpp'), ('packed matrix kernel', 'src/kernels/cpu/math_cpu.cpp'), ('window extraction', 'src/kernels/cpu/im2col.cpp')],
  'Floats are reals, so reassociation is allowed and rounding is not decided.' + TRUST)
p('C27', 'Depthwise convolution filters every channel with its own kernel',
  'depthwise_conv2d gives for every batch, channel and position the sum over kernel positions of that channel\'s weight times the input element, counting positions outside the input as the padding value, for every padding, stride, dilation and kernel size including those with specialised kernels (3x3, stride 1 and 2), in float and double, reading and writing nothing outside its tensors. depthwise_conv2d_v2 uses on each run the padding of that run. Unsupported configurations are rejected; inputs are unchanged.',
  ['inputs', 'configurations', 'histories'], 'every combination of size, kernel, stride, dilation and padding in one dimension; the specialised kernels over sizes 1..12 and paddings -1..3',
  'Tests do not cover depthwise convolution geometry; the vector paths depend on width and padding.',
  ['src/backend/base/base_depthwise_conv2d.cpp', 'src/kernels/cpu/depthwise_conv2d_core.cpp', 'src/kernels/cpu/depthwise_conv2d_algorithm.cpp', 'src/kernels/cpu/depthwise_conv2d_v2.cpp'],
  [('depthwise kernels', 'src/kernels/cpu/depthwise_conv2d_algorithm.cpp')], 'Floats are reals.' + TRUST)
p('C28', 'Pooling takes the maximum or average of exactly the window elements',
  'pooling2d gives at every position the maximum or the average of the input elements inside its window; the average divides by the number of elements inside the input (black padding) or by the window area (white padding). The output size rounds up. This holds for every padding, stride and window including the specialised ones (2x2 and 3x3 with stride 2), for float and double, without touching memory outside the tensors even when a window lies entirely in the padding. global_pooling2d pools each whole channel. pooling2d_v2 uses on every run the padding, window and stride of that run. Unsupported configurations are rejected.',
  ['inputs', 'configurations', 'histories'], 'every combination of size, window, stride and padding in one dimension; specialised kernels with every padding combination over widths 1..12',
  'Tests pool one or two fixed sizes; borders depend on the exact remainder.',
  ['src/backend/base/base_pooling2d.cpp', 'src/backend/base/base_global_pooling2d.cpp', 'src/kernels/cpu/pooling2d_core.cpp', 'src/kernels/cpu/pooling_algorithm.cpp', 'src/kernels/cpu/pooling2d_v2.cpp', 'include/backend/common_function.h'],
  [('pooling', 'src/kernels/cpu/pooling2d_core.cpp'), ('specialised kernels', 'src/kernels/cpu/pooling_algorithm.cpp')], 'Floats are reals.' + TRUST)
p('C29', 'Matrix products give every sum of products, for all operand layouts',
  'gemm gives alpha times the product of A and B (each possibly transposed) plus beta times C broadcast to the result; inner_prod multiplies its left operand, flattened to a matrix, with the (possibly transposed) right one; matmul multiplies the last dimension of its left operand with a matrix, or two 1x1xMxK, 1x1xKxN operands. This holds for every size, also around the blocking of the packed kernel, in float and double. Operands whose sizes or types do not fit are rejected both in inference and at run time; operands are unchanged.',
  ['inputs', 'configurations'], 'all layouts of matrices up to 3x3x9, blocks of up to 17 rows and columns, all broadcasts of C, arbitrary values',
  'Tests multiply a few fixed matrices; remainders of the blocking and transposed layouts are not covered.',
  ['src/backend/base/base_gemm.cpp', 'src/backend/base/base_inner_prod.cpp', 'src/backend/base/base_matmul.cpp', 'src/kernels/cpu/cpu_gemm.cpp', 'src/kernels/cpu/inner_prod.cpp', 'src/kernels/cpu/matmul.cpp', 'src/kernels/cpu/math_cpu.cpp'],
  [('gemm', 'src/kernels/cpu/cpu_gemm.cpp'), ('packed matrix kernel', 'src/kernels/cpu/math_cpu.cpp'), ('matmul', 'src/backend/base/base_matmul.cpp')], 'Floats are reals.' + TRUST)
p('C07', 'Rewriting a module for speed preserves its computation and the module',
  'Translating a module (packing constant weights, rewriting gemm) gives a module that computes the same outputs, with the same output names and input order, whatever the shapes, layouts, coefficients and element types, also when a constant is used by several nodes or returned as an output. The translated module is independent: the original module and its constants stay as they were, translating again, or translating the result, computes the same. Half precision translation only inserts conversions: operators with a half version get half inputs, all others and all outputs stay full, and variance plus epsilon of a batch norm is kept.',
  ['programs', 'histories', 'configurations'], 'graphs of conv2d, conv2d_v2, inner_prod and gemm around the 8-wide blocking with constant, fed and shared weights; every small graph for half precision; repeated translation',
  'Tests compile a module once and never look at the original afterwards.',
  ['src/compiler/translater.cpp', 'src/compiler/option/pack_translator_option.cpp', 'src/compiler/option/fp16_translator_option.cpp', 'src/kernels/cpu/math_cpu.cpp'],
  [('Translator', 'src/compiler/translater.cpp'), ('PackTranslatorOption', 'src/compiler/option/pack_translator_option.cpp'), ('Fp16TranslatorOption', 'src/compiler/option/fp16_translator_option.cpp'), ('pack8_A/pack8_B', 'src/kernels/cpu/math_cpu.cpp')], 'Floats are reals.' + TRUST)
p('C13', 'Element types, conversions between them and value helpers are exact',
  'Every element type has one name and one width. Converting a tensor gives, at every position, the value the language conversion between the two types gives (bool: true exactly for values other than zero), leaving the input unchanged; building tensors from values, arrays and strings and reading them back returns those values. Splitting a range into bins covers it exactly once, in order, with at most the asked number of equal bins, for any bounds. The edit distance is the least number of insertions and deletions between any two strings.',
  ['inputs'], 'all pairs of types with arbitrary values; arbitrary bounds; all pairs of short strings',
  'Tests convert a few values between a few types.',
  ['src/core/tensor_builder.cpp', 'include/core/tensor_builder.h', 'include/core/dtype.h', 'src/utils/box.cpp'],
  [('type_cast_template', 'src/core/tensor_builder.cpp'), ('type_bytes', 'include/core/dtype.h'), ('split_bins', 'src/utils/box.cpp')], 'All pairs of types with arbitrary values.' + TRUST)
p('C14', 'Half precision numbers convert exactly and compare by value',
  'Widening a half precision number to float or double keeps its value, also for subnormal numbers; narrowing gives the nearest half towards zero, never turns a number other than zero into zero, saturates what is too large, and keeps the sign; narrowing what was widened gives the same half. Comparisons and arithmetic agree with those of the numbers.',
  ['inputs'], 'all 65536 halves and all float and double bit patterns as symbolic bits',
  'Tests print a few conversions.',
  ['include/core/ieee754_float.h'], [('ieee754_float', 'include/core/ieee754_float.h')], 'Decided on the bit patterns, which stay symbolic.')
p('C16', 'The thread pool runs every task exactly once, and ends',
  'A worker thread or pool runs every task given to it exactly once, one at a time per thread, with the number of the thread it is given, and the after-task call after it. join returns only when every task given has run and its effects are visible. busy may be asked at any time: it is true while tasks run and false when idle. Destroying a joined pool or thread always ends, whatever the timing, without deadlock or lost wakeup. Running a range in parallel handles every index exactly once before it returns, with thread numbers below the pool size, for any bounds; without a pool the caller does the work. No data race happens.',
  ['schedules', 'histories'], 'every interleaving with a bounded number of preemptions of 1-3 workers and 0-4 tasks, spurious wakeups included',
  'A test run sees one schedule; lost wakeups need a switch between two particular instructions.',
  ['src/runtime/inside/thread_pool.cpp', 'include/runtime/inside/thread_pool.h', 'src/runtime/inside/parallel.cpp', 'include/runtime/inside/parallel.h'],
  [('Thread and ThreadPool', 'src/runtime/inside/thread_pool.cpp'), ('parallel_run', 'include/runtime/inside/parallel.h')], 'Schedules are explored symbolically: which thread runs next at each synchronisation operation is a symbolic choice; counterexamples are replayed on the native build under a deterministic scheduler.' + TRUST)
p('C17', 'Locks, synced blocks and tensors stay consistent when threads share them',
  'A read-write lock lets any number of readers in together and a writer only alone; nothing written under it is lost or seen half done. A synced block used from several threads syncs each key once and gives every thread the value of its key. Counted pointers and tensors may be copied and dropped in several threads at once: counts are exact, the object lives while anyone uses it and is freed exactly once. No data race happens on any path.',
  ['schedules', 'histories'], 'every interleaving of two or three threads with a bounded number of preemptions',
  'A test run sees one schedule; a lost count needs a switch inside one increment.',
  ['include/utils/mutex.h', 'include/core/sync/sync_block.h', 'include/core/sync/sync_memory.h', 'include/core/threadsafe/smart.h', 'include/core/tensor.h'],
  [('rwmutex', 'include/utils/mutex.h'), ('SyncBlock', 'include/core/sync/sync_block.h'), ('Smart', 'include/core/threadsafe/smart.h')], 'Schedules are symbolic choices, with a happens-before race detector on every path.' + TRUST)
p('C18', 'Workbenches in different threads do not disturb each other',
  'A workbench and its clones may run at the same time in different threads; so may benches made by different threads from their own modules, and several threads may clone one idle bench. Every bench computes the values of its own inputs, results handed to another thread keep their values, contexts bound in one thread are not seen in another, and no data race happens on any state they share (constants, registries, cached names, the module).',
  ['schedules', 'histories'], 'every interleaving of two threads with one preemption at synchronisation operations (thorough: two, and atomic operations)',
  'Tests run benches one after another.',
  ['src/runtime/workbench.cpp', 'src/runtime/program.cpp', 'include/utils/ctxmgr_lite_support.h', 'src/global/operator_factory.cpp', 'src/core/device_context.cpp', 'src/backend/name.cpp'],
  [('Workbench::clone', 'src/runtime/workbench.cpp'), ('thread local contexts', 'include/utils/ctxmgr_lite_support.h')], 'Compiling one module object in two threads at once is outside: translation links to the module while it works.' + TRUST)
p('C09', 'Memory blocks keep their content, are freed once, and survive failures',
  'A memory block keeps its bytes while it grows or shrinks, moves or is swapped, for any sequence of operations; every byte range the block claims is its own; each allocation is freed exactly once, by the device that made it; when the device runs out of memory this is reported and the block stays usable. Borrowed memory is never resized or freed. Memories are windows into a shared block that lives until the last of them is gone, and the destructor callback runs exactly then. Copies between devices and fills with a pattern write exactly the bytes asked for or are rejected.',
  ['inputs', 'histories', 'faults'], 'every sequence of 3 operations (thorough: 4) on 2 blocks, allocations failing at any point',
  'Tests never fail an allocation and never move a block.',
  ['src/core/hard_memory.cpp', 'src/core/memory.cpp', 'src/core/controller.cpp', 'src/global/hard_allocator.cpp', 'src/global/hard_converter.cpp', 'src/kernels/cpu/memory_cpu.cpp'],
  [('HardMemory', 'src/core/hard_memory.cpp'), ('memcpy and memset', 'src/core/memory.cpp'), ('HardAllocator', 'src/global/hard_allocator.cpp')], 'Sequences of operations are symbolic choices.' + TRUST)
p('C10', 'The memory pool hands out disjoint blocks and reuses the best fit',
  'A memory pool hands out blocks that are disjoint from every other block in use and at least as large as asked; their bytes stay until they are given back; the free block used again is the smallest that fits, and nothing new is allocated while one fits; giving back, shrinking, moving and swapping the pool lose and leak nothing. Memories taken from a flow controller stay valid after the controller is gone and return to it otherwise; a failed allocation is reported and leaves the pool usable.',
  ['inputs', 'histories', 'faults'], 'every sequence of 5 pool operations (thorough: 7) with sizes from a small set, allocations failing at any point',
  'Which free block is reused depends on the whole history of sizes; tests run one history.',
  ['src/memory/orz/vat.cpp', 'src/memory/orz/pot.cpp', 'src/memory/flow.cpp', 'include/core/sync/sync_controller.h'],
  [('Vat::malloc/free', 'src/memory/orz/vat.cpp'), ('Pot', 'src/memory/orz/pot.cpp'), ('FlowMemoryController', 'src/memory/flow.cpp')], 'Histories are symbolic choices.' + TRUST)
p('C11', 'Memory seen from several devices shows each device its bytes',
  'A synced memory or tensor viewed on a device shows the bytes its owner had when that device was first looked at; views of one device share one memory, and views of different devices do not; each device is copied to once, with its own conversion function, and only where needed; after a broadcast every device sees the bytes written before it. Device, size and fields of a view are those asked for, also through other views and for packed tensors; views outlive the tensor and its controller; cloning goes to the asked device and is independent; storing works from any device. Running out of device memory or naming an unknown device is reported and changes nothing.',
  ['inputs', 'histories', 'faults'], 'every sequence of 3 operations (thorough: 4) on up to four views of three devices',
  'Tests have one device, where every view is the same memory.',
  ['include/core/sync/sync_block.h', 'include/core/sync/sync_memory.h', 'include/core/sync/sync_controller.h', 'src/core/tensor.cpp'],
  [('SyncBlock', 'include/core/sync/sync_block.h'), ('SyncMemory', 'include/core/sync/sync_memory.h'), ('Tensor::view', 'src/core/tensor.cpp')], 'Two further devices are registered whose functions keep account of every block.' + TRUST)
p('C12', 'Tensors share, split, reshape and slice without losing or inventing data',
  'Copies of a tensor share its bytes and clones do not, for any sequence of assignments, clones, packings, writes and reshapes: every tensor always has exactly the fields, shapes and bytes it should. Reshaping works exactly when the elements fit, with at most one size left open; flattening, unpacking, packing and refielding keep every element; fields and slices outside the tensor are rejected and slices are borrowed in place; shape queries and prototype comparison tell exactly what matches. Counted pointers free their object exactly once, when the last user is gone, and using an empty one is reported.',
  ['inputs', 'histories'], 'sequences of 2-3 operations on three tensors, all shapes of up to 3 dimensions of sizes 0..3, arbitrary indices',
  'Which tensors share bytes depends on the history; tests reshape a few valid shapes.',
  ['src/core/tensor.cpp', 'include/core/tensor.h', 'include/core/threadsafe/smart.h'],
  [('Tensor', 'src/core/tensor.cpp'), ('TensorPrototype', 'src/core/tensor.cpp'), ('Smart', 'include/core/threadsafe/smart.h')], 'Indices and asked sizes are arbitrary 32-bit numbers.' + TRUST)
p('C15', 'Indices, coordinates and loops enumerate every element once, in order',
  'For every shape, turning a coordinate into an index is row-major order, and turning it back gives the same coordinate, with every way of giving the coordinate; stepping a shape iterator up visits every coordinate exactly once in that order and starts again, stepping down is its inverse. A loop described as a tree of repetitions steps through exactly the flattened sequence, also after copying, moving, cloning and dropping its empty parts, and tells how many steps there are.',
  ['inputs'], 'all shapes of up to 4 dimensions with sizes 1..3 and arbitrary coordinates; nested loops of depth 3',
  'Every kernel indexes through these; tests print a few.',
  ['include/core/tensor_iterator.h', 'include/core/scan.h'],
  [('HypeShape', 'include/core/tensor_iterator.h'), ('ShapeIterator', 'include/core/tensor_iterator.h'), ('Scan and Loop', 'include/core/scan.h')], 'Coordinates and steps are arbitrary.' + TRUST)
p('C19', 'Fixed point numbers compute with the value they stand for',
  'A fixed point number stands for its signed integer divided by a power of two. Making one from an integer or a floating point number gives the nearest number towards zero, reading it back gives its value (rounded down for integers), and a value that fits comes back unchanged. Sum, difference, negation, product and quotient are those of the values (wrapped to the width, a quotient by zero is the largest number), and comparisons order by value, for negative numbers too and up to 63 fraction bits.',
  ['inputs'], 'every number of 8 and 16 bits for all operations, of 32 and 64 bits for conversion, sum and comparison',
  'Tests print a few positive numbers.',
  ['include/core/sink.h'], [('fixed_point_number', 'include/core/sink.h'), ('number_converter', 'include/core/sink.h')], 'Numbers are symbolic bits; floating point numbers are reals.' + TRUST)
p('C30', 'C API calls return what the library does, or fail with a message',
  'Every call of the C interface returns what the library call it stands for returns, for every argument; when the library refuses, or a null object, name or array is given, the call returns its failure value, leaves the objects it was given unchanged and sets a message for the calling thread; no exception leaves it. A successful call keeps or clears the message, and messages of two threads do not mix. Handles made are freed once and own what they hold. Operators and streams given as callbacks see exactly the tensors, bytes and parameters of the call, and what they return, refuse or leave out is handed on.',
  ['inputs', 'histories', 'faults'], 'every entry point of the tensor, module, program, workbench, operator, image filter and stream interfaces with arbitrary or null arguments from small sets',
  'Tests call it with valid arguments only; failures and callbacks are never exercised.',
  ['src/api/tensor.cpp', 'src/api/module.cpp', 'src/api/program.cpp', 'src/api/workbench.cpp', 'src/api/operator.cpp', 'src/api/declaration.h', 'include/api'],
  [('TRY_HEAD / RETURN_OR_CATCH', 'src/api/declaration.h'), ('APIPluginOperator', 'src/api/operator.cpp')], 'The interface is called as a C program would, and compared with the C++ objects behind the handles.' + TRUST)
p('C31', 'Indexing operators take exactly the elements the indices name',
  'gather and gatherv2 give exactly the slices the indices name (gather on any axis, both axis and indices may count from the end), gather_elements the element each index names along the axis (the indices may leave that axis out), scatter_nd the input with the named rows replaced, where the element its condition selects with broadcasting, range the numbers from start to limit by step in either direction, topkv2 the greatest elements in descending order with their places, non_max_suppression_v3 the boxes a greedy selection keeps, filled with -1, and constant_of_shape a tensor of its value. An index outside the input, or inputs whose shapes do not fit, are refused before anything is read or written; the inputs are left as they were.',
  ['inputs'], 'inputs of up to 3 dimensions of sizes 0..3, indices -4..4, every axis, all element types; ranges over -4..4; 2-4 boxes with every order of scores',
  'An index out of range reads other memory silently; tests index inside.',
  ['src/kernels/cpu/gather.cpp', 'src/kernels/cpu/gatherv2.cpp', 'src/kernels/cpu/gather_elements.cpp', 'src/kernels/cpu/scatter_nd.cpp', 'src/kernels/cpu/where.cpp', 'src/kernels/cpu/range.cpp', 'src/kernels/cpu/topkv2.cpp', 'src/kernels/cpu/non_max_suppression_v3.cpp', 'src/kernels/cpu/constant_of_shape.cpp'],
  [('Gather', 'src/kernels/cpu/gather.cpp'), ('ScatterND', 'src/kernels/cpu/scatter_nd.cpp'), ('NonMaxSuppressionV3', 'src/kernels/cpu/non_max_suppression_v3.cpp'), ('Topkv2', 'src/kernels/cpu/topkv2.cpp')], 'Element values are symbolic; indices are drawn values.' + TRUST)
p('C32', 'Padding, cropping, tiling and blocking move every element to its place',
  'pad puts the input between pads of any sign on any dimension and fills with its value; crop_nd, crop_to, center crop and limit cut exactly the window they describe (filling outside where crop_nd runs past the input); divided rounds sizes up to multiples; tile and broadcast repeat the input as numpy does (empty dimensions stay empty); space_to_batch4d and batch_to_space4d rearrange blocks as in TensorFlow and undo each other; force_color and force_gray give three or one channel. Every element type and every operator used again with other shapes behaves the same; sizes inferred are those produced, and arguments that describe no window or shape are refused before anything is read or written.',
  ['inputs'], 'inputs of 1..4 dimensions of sizes 0..4, pads, shifts and crops from -3 to 3, repeats 0..3, blocks 1..3',
  'Windows that leave the input read other memory silently; tests use a handful of inner windows.',
  ['src/backend/base/base_pad.cpp', 'src/kernels/cpu/pad_cpu.cpp', 'src/backend/zoo/crop_nd.cpp', 'src/kernels/cpu/crop_to.cpp', 'src/backend/zoo/divided.cpp', 'src/backend/zoo/limit.cpp', 'src/backend/zoo/nhwc_center_crop2d.cpp', 'src/backend/base/base_tile.cpp', 'src/backend/base/base_tile_v2.cpp', 'src/kernels/cpu/tile.cpp', 'src/backend/base/base_broadcast_v2.cpp', 'src/kernels/cpu/spacetobatch4d.cpp', 'src/kernels/cpu/batchtospace4d.cpp', 'src/kernels/cpu/force_color.cpp', 'src/kernels/cpu/force_gray.cpp'],
  [('Pad', 'src/kernels/cpu/pad_cpu.cpp'), ('SpaceToBatch4D', 'src/kernels/cpu/spacetobatch4d.cpp'), ('Tile', 'src/backend/base/base_tile.cpp')], 'Element values are symbolic.' + TRUST)
p('C33', 'Reshaping operators keep every element in its order',
  'reshape, reshape_v2, flatten, flatten2d, squeeze, unsqueeze, expand and copy give the elements of the input in the same order with exactly the shape asked for: in a reshape zero keeps a size and one open size takes what is left; flatten and flatten2d fold from the named dimension (counted from either end); unsqueeze inserts ones as numpy.expand_dims does, one after another; squeeze removes exactly the named axes of size one; expand adds ones in front and behind within its limits. shape and dims tell the shape. What does not fit is refused, the input keeps its own shape, an operator used again with another shape forgets the last, and inferred shapes are those produced.',
  ['inputs'], 'inputs of 0..4 dims with sizes 0..4, target shapes of up to 3 entries from -1 to 6, axes -4..4, every limit of expand',
  'Tests reshape a few valid shapes; negative, zero and empty sizes meet only in odd models.',
  ['src/backend/base/base_new_shape.cpp', 'src/backend/base/base_reshape.cpp', 'src/backend/base/base_reshape_v2.cpp', 'src/backend/base/base_flatten.cpp', 'src/kernels/cpu/flatten2d.cpp', 'src/kernels/cpu/squeeze.cpp', 'src/backend/base/base_unsqueeze.cpp', 'src/kernels/cpu/expand.cpp'],
  [('Reshape', 'src/backend/base/base_reshape.cpp'), ('Expand', 'src/kernels/cpu/expand.cpp'), ('Squeeze', 'src/kernels/cpu/squeeze.cpp')], 'Element values are symbolic.' + TRUST)
p('C34', 'Resizing and sampling take each pixel from its position in the source',
  'resize2d, resize_nearest_neighbor, sample2d, sample2d_v2, affine_sample2d, letterbox and scale resize give each target pixel from the source position it maps to: linear the mean of the four pixels around weighted by distance, cubic the sixteen-pixel kernel, nearest and hard exactly one pixel; positions outside repeat the edge or give the outer value, the last row and column are inside. Half-pixel centres for resizing, the matrix for affine sampling. Other dimensions are untouched, same size gives the input, integers never wrap. Exactly two adjacent dimensions are resized or the operator refuses, as for empty sources and bad sizes; nothing outside the source is read.',
  ['inputs'], 'sources and targets of 1..6 rows and columns, affine matrices from a set of scales, shifts and turns, all element types',
  'Sizes of one row and positions at the edge need exact arithmetic on every path; tests resize two images.',
  ['src/backend/base/base_resize2d.cpp', 'src/kernels/cpu/resize2d.cpp', 'src/backend/base/base_affine_sample2d.cpp', 'src/kernels/cpu/affine_sample2d.cpp', 'src/kernels/cpu/sample2d.cpp', 'src/kernels/cpu/sample2d_v2.cpp', 'src/kernels/cpu/resize_nearest_neighbor.cpp', 'src/backend/zoo/nhwc_letterbox.cpp', 'src/backend/zoo/nhwc_scale_resize2d.cpp'],
  [('find_resized_height_dim', 'src/backend/base/base_resize2d.cpp'), ('Resize2d kernels', 'src/kernels/cpu/resize2d.cpp'), ('affine kernels', 'src/kernels/cpu/affine_sample2d.cpp')], 'Pixels are symbolic, positions drawn; real arithmetic with a tolerance of 1e-4 for weighted kernels.' + TRUST)
p('C35', 'An image filter applies its steps in the order they were added',
  'An image filter turns an image of bytes or floats (HWC or NHWC) into what its steps say, applied in order: to_float, scale, sub_mean, div_std, resize, center crop, channel swap, letterbox, divided, force color, force gray, norm image, to_chw. Numbers given for one channel count for all, others need as many as channels; a step that does not fit the image makes the run fail and leaves the filter usable. Steps can be added, cleared and compiled between runs; a clone does what the original did and is then independent; bound to a workbench it filters that input. C API.',
  ['inputs'], 'every step and every pair of steps on images of 1..2 x 1..3 pixels with 1 or 3 channels, symbolic pixels',
  'Steps interact through the graph they build and through what is compiled; the tests never run a filter.',
  ['src/runtime/image_filter.cpp', 'src/api/image_filter.cpp', 'src/kernels/cpu/norm_image.cpp', 'src/kernels/cpu/prewhiten.cpp', 'src/kernels/cpu/to_float.cpp', 'src/runtime/workbench.cpp'],
  [('ImageFilter', 'src/runtime/image_filter.cpp'), ('ts_ImageFilter_*', 'src/api/image_filter.cpp')], 'Pixels symbolic, sizes and steps drawn.' + TRUST)
p('C36', 'Framework padding gives the windows of the framework a model comes from',
  'The padding operators of TensorFlow, ONNX, MXNet and Dragon return the [4, 2] padding with which pooling and convolution take the windows the framework takes: SAME gives ceil(x / stride) windows, pads both sides alike with the odd element at the end (at the start for SAME_LOWER), and never starts inside the image; VALID and NOTSET drop what does not fill a window; Dragon ceil keeps the last window that starts inside; fixed padding is added to the image first. Batch and channels are not padded; layouts NCHW and NHWC; dilation counts and defaults to 1. Padding, steps or inputs that cannot be honoured are refused.',
  ['inputs'], 'all image sizes 1..32 (64 thorough), windows 1..8 (16), strides 1..3 (4), dilations 1..2 (3), fixed padding 0..1 (3) per side',
  'Rounding of one size against one stride needs all residues; no test runs these operators.',
  ['src/backend/tf/conv2d_padding.cpp', 'src/backend/tf/pooling2d_padding.cpp', 'src/backend/onnx/pooling2d_auto_pad.cpp', 'src/backend/mxnet/pooling2d_padding.cpp', 'src/backend/dragon/conv2d_padding.cpp', 'src/backend/dragon/pooling2d_auto_pad.cpp'],
  [('dynamic_padding_same', 'src/backend/tf/conv2d_padding.cpp'), ('dynamic_padding_same_lower', 'src/backend/onnx/pooling2d_auto_pad.cpp'), ('forward_same', 'src/backend/dragon/conv2d_padding.cpp')], 'Sizes, windows and fixed padding are symbolic, strides and dilations drawn; the division happens in exact arithmetic.' + TRUST)
