#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator so the long texts stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    assert len(title)<=80,(id,len(title))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Linear offset and multi-index of a tile are mutually inverse",
 "For a tile (or grid) of any shape, the linear offset of every valid multi-index lies in [0, number of elements), distinct indices get distinct offsets, and converting offset to index and back (or index to offset and back) is the identity. Strides, element count and every two-dimensional reshape reported for the shape agree with that Fortran-order numbering. Indices or offsets outside the shape, indices of the wrong length and invalid shapes are rejected with an exception.",
 ["inputs"],"every shape of every dimensionality and every 64-bit index/offset",
 "Tests build a handful of fixed small shapes; the mapping has to hold for all shapes and all 64-bit indices, including sizes beyond 32 bits.",
 ["include/nntile/tile/traits.hh","src/tile/traits.cc"],
 [("TileTraits constructor, index_to_linear, linear_to_index, contains_index","include/nntile/tile/traits.hh")],
 [("shape/stride/matrix_shape/nelems","derived layout of a tile","include/nntile/tile/traits.hh")])
p("C02","A tiling partitions the tensor exactly",
 "For any tensor shape and any valid base tile shape, the tiles cover every element of the tensor exactly once: the grid has ceil(shape/base) tiles per dimension, every tile but the last has the base size and the last has the remainder, and the tile sizes add up to the tensor size. Shapes or base tiles that are non-positive, or of unequal length, and tile queries outside the grid, are rejected with an exception; a base tile larger than the tensor gives one tile of the tensor's size. A tensor built from such traits owns one tile of the reported shape per grid position.",
 ["inputs","configurations"],"every tensor shape, base tile shape and tile position",
 "Unit tests check a few shapes; remainders, single-element tiles and large sizes form an unbounded family.",
 ["include/nntile/tensor/traits.hh","include/nntile/tensor/tensor.hh","src/tensor/traits.cc"],
 [("TensorTraits::get_grid_shape/get_tile_shape/leftover","include/nntile/tensor/traits.hh"),("Tensor constructor","include/nntile/tensor/tensor.hh")])
p("C03","Block-cyclic distribution assigns every tile a valid, cyclic owner",
 "For any grid of tiles, any grid of processes, start rank and maximum rank, the block-cyclic distribution has one entry per tile, every entry is a valid rank below the maximum, tile (i0,i1,...) is owned by the process at position (i0 mod p0, i1 mod p1, ...) of the process grid counted from the start rank modulo the maximum. Malformed arguments are rejected with an exception.",
 ["inputs","configurations"],"every tile grid, process grid, start rank and rank limit",
 "One unit test compares a few fixed grids.",
 ["src/tensor/distributions.cc","include/nntile/tensor/distributions.hh"],
 [("block_cyclic","src/tensor/distributions.cc")])
p("C04","Element-wise arithmetic gives the documented value on every tiling",
 "For every tensor shape and tiling, the element-wise arithmetic operations (add, add_scalar, addcdiv, axpy, prod, scal and its in-place form, hypot, maximum, pow, sqrt and its in-place form, fill, clear, mask_scalar, conversions) leave in every destination element exactly the documented function of the scalar parameters and the same-position elements, for all values including zero and unit coefficients. Operands documented as inputs are left unchanged. The tile-level and tensor-level entry points agree.",
 ["inputs","configurations"],"all element values, all scalar parameters, all shapes and tilings",
 "Tests use one or two coefficient values and a few shapes, several of these operations have only stub tests.",
 ["src/kernel/add/cpu.cc","src/kernel/addcdiv/cpu.cc","src/kernel/hypot/cpu.cc","src/kernel/pow/cpu.cc","src/kernel/scal/cpu.cc","src/kernel/prod/cpu.cc","src/kernel/mask_scalar/cpu.cc","src/starpu/add.cc","src/tile/add.cc","src/tensor/add.cc"],
 [("per-element loops","src/kernel/*/cpu.cc"),("access mode selection","src/starpu/*.cc"),("per-tile submission","src/tensor/*.cc")])
p("C05","Activations and their derivatives are mutually consistent",
 "For every shape and tiling, ReLU, GELU and tanh-GELU (out-of-place and in-place forms) compute their documented functions at every element, the derivative operations compute the mathematical derivative of the corresponding forward function, and each backward operation adds derivative times the incoming gradient to the gradient already stored. In-place and out-of-place forms agree.",
 ["inputs","configurations"],"all real element values, all shapes and tilings",
 "Tests compare a few sampled points with a tolerance; the derivative relation must hold for all x; backward and relu_forward kernels have stub tests.",
 ["src/kernel/relu/cpu.cc","src/kernel/relu_forward/cpu.cc","src/kernel/relu_backward/cpu.cc","src/kernel/drelu/cpu.cc","src/kernel/gelu/cpu.cc","src/kernel/dgelu/cpu.cc","src/kernel/gelu_backward/cpu.cc","src/kernel/gelutanh/cpu.cc","src/kernel/gelutanh_inplace/cpu.cc","src/kernel/dgelutanh/cpu.cc","src/kernel/gelutanh_backward/cpu.cc"],
 [("activation kernels","src/kernel/*/cpu.cc")])
p("C06","Slice and fiber broadcasts reach every element exactly once",
 "For every shape, axis, batch and tiling, broadcasting a slice or a fiber into a tensor (add_slice, add_slice3, add_fiber, prod_slice, prod_fiber, prod_fiber3) updates every destination element exactly once with the slice/fiber element of its own position, using the documented coefficients, for all coefficient values. The result does not depend on the tiling.",
 ["inputs","configurations"],"all values, coefficients, shapes, axes, batch dimensions and tilings",
 "Tests sample a few shapes; fiber operations with batches and special coefficients are untested.",
 ["src/kernel/add_slice/cpu.cc","src/kernel/add_slice3/cpu.cc","src/kernel/add_fiber/cpu.cc","src/kernel/prod_slice/cpu.cc","src/kernel/prod_fiber/cpu.cc","src/kernel/prod_fiber3/cpu.cc","src/tensor/add_slice.cc","src/tensor/add_fiber.cc","src/tensor/prod_fiber3.cc"],
 [("m/n/k reshape","src/tensor/*.cc"),("strided loops","src/kernel/*/cpu.cc")])
p("C07","Axis reductions include every element exactly once on every tiling",
 "For every shape, axis, batch and tiling, the reductions (sum_slice, sum_fiber, sumprod_slice, sumprod_fiber, norm_slice, sumnorm, nrm2) combine every element of the reduced index set exactly once, scale it by alpha and combine it with beta times the previous destination, exactly as the untiled formula states, for all coefficient values including beta equal to zero or one. Source tensors are unchanged.",
 ["inputs","configurations"],"all values, coefficients, shapes, axes, batch dimensions and tilings",
 "Tests sample few shapes with random data; sum_fiber, sumprod_fiber have almost no tests; tile-count dependent initialisation is only reached by some tilings.",
 ["src/kernel/sum_slice/cpu.cc","src/kernel/sum_fiber/cpu.cc","src/kernel/sumprod_slice/cpu.cc","src/kernel/sumprod_fiber/cpu.cc","src/kernel/norm_slice/cpu.cc","src/kernel/sumnorm/cpu.cc","src/starpu/nrm2.cc.in","src/tensor/sum_slice.cc","src/tensor/sum_fiber.cc","src/tensor/sumprod_fiber.cc","src/tensor/norm_slice.cc","src/tensor/nrm2.cc"],
 [("first-tile beta, later tiles beta=1","src/tensor/*.cc"),("accumulation loops","src/kernel/*/cpu.cc")])
p("C08","Tiled softmax, log-sum-exp and running maximum equal the dense formulas",
 "For every shape, axis and tiling, accumulating max-and-sum-of-exponentials over tiles and then applying softmax or log-sum-exp gives exactly the dense mathematical result; masked entries set to minus infinity contribute nothing and receive probability zero. The accumulated pair does not depend on the tiling or on the order in which tiles are accumulated.",
 ["inputs","configurations","schedules"],"all finite values and masks, shapes, axes, tilings and accumulation orders",
 "Tests sample random values on a few shapes; masks and multi-tile accumulation with arbitrary ordering of maxima are not covered; softmax and logsumexp have stub tests.",
 ["src/kernel/maxsumexp/cpu.cc","src/kernel/softmax/cpu.cc","src/kernel/softmax_inplace/cpu.cc","src/kernel/logsumexp/cpu.cc","src/kernel/accumulate_maxsumexp/cpu.cc","src/tensor/maxsumexp.cc","src/tensor/softmax.cc","src/tensor/softmax_inplace.cc","src/tensor/logsumexp.cc","src/kernel/mask_scalar/cpu.cc"],
 [("running max rescaling","src/kernel/maxsumexp/cpu.cc"),("normalisation","src/kernel/softmax/cpu.cc")])
p("C09","Tiled matrix multiplication equals the dense contraction",
 "For all tensor shapes, tilings, contraction dimensions, batch dimensions and transposition flags accepted, the multiplication leaves alpha*op(A)*op(B)+beta*C in every element of C, for all values of alpha and beta including zero and one, and independent of how the operands are tiled. A and B are unchanged.",
 ["inputs","configurations"],"all element values, alpha, beta, transpositions, contraction/batch dimensions, shapes and tilings",
 "Tests use fixed divisible tilings and a few coefficient pairs.",
 ["src/starpu/gemm.cc.in","src/tile/gemm.cc","src/tensor/gemm.cc","src/starpu/gemm_ex.cc","src/tensor/gemm_ex.cc"],
 [("tile loops and beta handling","src/tensor/gemm.cc"),("leading dimensions and batch offsets","src/starpu/gemm.cc.in")])
p("C10","Copies, intersections, gather/scatter and transposes move every element",
 "For all shapes, offsets and tilings, copying the intersection of two tensors writes exactly the overlapping destination elements with the source element of the same global position and leaves all others unchanged; copy, scatter and gather reproduce the tensor across different tilings; transpose places element (i,j) at (j,i) with its coefficient. No other element changes.",
 ["inputs","configurations"],"all values, shapes, offsets (including negative and disjoint) and pairs of tilings",
 "Tests run few offset combinations on fixed tilings.",
 ["src/kernel/subcopy/cpu.cc","src/starpu/subcopy.cc","src/tile/copy_intersection.cc","src/tensor/copy_intersection.cc","src/tensor/copy.cc","src/tensor/scatter.cc","src/tensor/gather.cc","src/kernel/transpose/cpu.cc","src/tensor/transpose.cc"],
 [("per-tile overlap computation","src/tensor/copy_intersection.cc"),("strided copy","src/kernel/subcopy/cpu.cc")])
p("C11","Index-driven operations address exactly the labelled elements",
 "For every assignment of labels within the vocabulary, embedding lookup copies exactly the labelled columns, its backward adds the incoming gradient to exactly those columns (repeated labels accumulate), subtracting at labels changes exactly the labelled elements, and the loss accumulation picks exactly the labelled logits. This holds for every shape, axis and tiling, and everything else is unchanged.",
 ["inputs","configurations"],"all label assignments, values, shapes, axes and tilings",
 "Tests use one random label draw on a few shapes; repeated labels and vocabulary-dimension tiling are not settled by samples.",
 ["src/kernel/embedding/cpu.cc","src/kernel/embedding_backward/cpu.cc","src/kernel/subtract_indexed_outputs/cpu.cc","src/kernel/total_sum_accum/cpu.cc","src/tensor/embedding.cc","src/tensor/embedding_backward.cc","src/tensor/subtract_indexed_outputs.cc","src/tensor/total_sum_accum.cc"],
 [("index to offset computation","src/kernel/embedding/cpu.cc")])
p("C12","Fused Adam and AdamW steps follow the published update on every element",
 "For every shape and tiling and every iteration number, one fused Adam (AdamW) step updates first moment, second moment and parameter of every element according to the published bias-corrected formula, with L2 (decoupled) weight decay, and the first iteration does not depend on the previous content of the moments. No element is skipped or updated twice.",
 ["inputs","configurations","histories"],"all values of parameters, gradients, moments, hyper-parameters and iteration number",
 "The kernels have stub tests; python tests run a few iterations of one problem.",
 ["src/kernel/adam_step/cpu.cc","src/kernel/adamw_step/cpu.cc","src/starpu/adam_step.cc","src/starpu/adamw_step.cc","src/tile/adam_step.cc","src/tensor/adam_step.cc","src/tensor/adamw_step.cc"],
 [("element update","src/kernel/adam_step/cpu.cc")])
p("C13","Random fill depends only on the seed and the global position",
 "For every seed, the value written at a global position of the underlying array is the same whatever tile, offset, shape or tiling is used to generate it; shifting by mean and scaling by standard deviation is exact. Every element of the destination is written, and different elements consume the generator positions of their own global offsets.",
 ["inputs","configurations"],"all 64-bit seeds, start offsets, shapes and tilings, all means and deviations",
 "Tests compare two tilings for one or two seeds.",
 ["src/kernel/randn/cpu.cc","src/starpu/randn.cc","src/tile/randn.cc","src/tensor/randn.cc","external/random.h"],
 [("seed jump per row","src/kernel/randn/cpu.cc"),("per-tile start offset","src/tensor/randn.cc")])
p("C14","Normalisation operations standardise every slice",
 "For every shape, axis and tiling, the normalise operation maps each element x of a slice to gamma*(x-mean)/sqrt(variance+eps)+beta with mean and variance derived from the supplied sum and norm of that slice, and the inverse-hypot operation maps each element to the reciprocal of hypot(eps, alpha*element). Other operands are unchanged.",
 ["inputs","configurations"],"all values, eps, gamma, beta, shapes, axes and tilings",
 "Tests sample a few shapes.",
 ["src/kernel/normalize/cpu.cc","src/kernel/hypot_scalar_inverse/cpu.cc","src/tensor/normalize.cc","src/tensor/hypot_scalar_inverse.cc","src/starpu/normalize.cc"],
 [("normalize kernel","src/kernel/normalize/cpu.cc")])
p("C15","Flash attention equals dense masked attention",
 "For every batch, head, sequence split accepted, the tiled flash-attention operations (max-sum-exp, softmax-times-V, and the backward operations) give exactly the dense masked attention softmax(mask(K'Q/sqrt(d))) applied to V and its gradients with respect to Q, K and V.",
 ["inputs","configurations","schedules"],"all values, masks, shapes and sequence tilings",
 "There are no tests of the flash operations at all.",
 ["src/starpu/flash_maxsumexp.cc.in","src/starpu/flash_softmax_gemm.cc.in","src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in","src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in","src/tensor/flash_maxsumexp.cc","src/tensor/flash_softmax_gemm.cc","src/tensor/flash_softmax_gemm_backward.cc"],
 [("per-tile codelets","src/starpu/flash_*.cc.in")])
p("C16","Results do not depend on the schedule chosen by the runtime",
 "Every task an operation submits declares what it does to its operands truthfully: data declared as read is not modified, data declared as write-only is completely overwritten without being read, and scratch content never influences a result. Hence any execution order or data placement that respects the declared accesses gives the same result.",
 ["schedules","inputs"],"all schedules permitted by the declared accesses, all values, shapes and tilings",
 "A test run sees the one or two schedules StarPU happens to choose, with zero-initialised or leftover memory hiding undeclared reads.",
 ["src/starpu/*.cc","src/starpu/*.cc.in","src/tensor/*.cc","include/nntile/starpu/config.hh"],
 [("STARPU_R/W/RW/REDUX/SCRATCH selection by coefficients","src/starpu/*.cc")])
p("C17","Parallel reduction mode gives the sequential result",
 "When an operation is run in reduction mode, splitting its tasks in any way over private accumulators that are initialised and combined by the tensor's registered reduction gives the same result as sequential execution; the initial value is neutral and the combination is associative and commutative. This holds for additive, Euclidean-norm and max-sum-exp reductions.",
 ["schedules","inputs","configurations"],"all partitions of tasks over accumulators, all combination orders, all values",
 "Whether StarPU actually splits a reduction depends on timing; tests cannot force it.",
 ["src/starpu/accumulate.cc","src/starpu/accumulate_hypot.cc","src/starpu/accumulate_maxsumexp.cc","src/kernel/accumulate_hypot/cpu.cc","src/kernel/accumulate_maxsumexp/cpu.cc","include/nntile/tensor/tensor.hh","src/starpu/clear.cc"],
 [("set_reduction_add/hypot/maxsumexp","include/nntile/tensor/tensor.hh"),("REDUX mode","src/starpu/*.cc")])
p("C18","Non-conforming operands are rejected before anything is submitted",
 "Every tensor- and tile-level operation called with operands whose number of dimensions, shapes, base tiles, axis or batch arguments do not conform throws an exception, submits no task and changes no data; every conforming call is accepted. An accepted operation never accesses memory outside the tiles it was given.",
 ["inputs","configurations"],"all combinations of operand shapes, tilings, axes and batch arguments",
 "Tests try a few invalid arguments per operation; one missing comparison among dozens lets mismatched tilings through and corrupts memory.",
 ["src/tensor/*.cc","src/tile/*.cc"],
 [("argument checks at entry","src/tensor/*.cc")])
p("C19","Softmax and norm computations survive extreme finite inputs",
 "For all finite inputs that leave room for the exact result, no intermediate overflow, underflow or NaN of maxsumexp (also onto existing statistics), accumulate_maxsumexp, softmax, logsumexp, norm_slice, sumnorm, hypot and hypot_scalar_inverse spoils the result: maxima are finite and not below any element, sums of exponentials stay between 1 and the number of elements, softmax stays within [0, |alpha|] in magnitude (0 where masked), log-sum-exp is finite and not below the maximum, and norms stay between the largest term and that term times the number of terms, up to a modest constant factor.",
 ["inputs"],"all finite inputs of any magnitude",
 "Tests use values of magnitude about one.",
 ["src/kernel/maxsumexp/cpu.cc","src/kernel/softmax/cpu.cc","src/kernel/logsumexp/cpu.cc","src/kernel/norm_slice/cpu.cc","src/kernel/sumnorm/cpu.cc","src/kernel/accumulate_maxsumexp/cpu.cc","src/kernel/hypot/cpu.cc"],
 [("max subtraction","src/kernel/maxsumexp/cpu.cc"),("scaled sum of squares","src/kernel/norm_slice/cpu.cc")])
p("C20","Long sums are compensated: rounding error does not grow with length",
 "Sums along slices and fibers (sum_slice, sum_fiber), sums of products along slices (sumprod_slice) and the loss accumulation (total_sum_accum) keep the first-order rounding error of each result bounded by a small constant number of unit roundoffs times the sum of the magnitudes of its terms, however many elements of a tile are accumulated. So do the sums of exponentials (maxsumexp) and norms (norm_slice) along a slice, as long as the largest element seen so far does not change more than once.",
 ["inputs","configurations"],"all values and lengths, to first order in the unit round-off",
 "A wrong or missing compensation is invisible at the tolerances and lengths tests use.",
 ["src/kernel/sum_slice/cpu.cc","src/kernel/sum_fiber/cpu.cc","src/kernel/sumprod_slice/cpu.cc","src/kernel/maxsumexp/cpu.cc","src/kernel/norm_slice/cpu.cc","src/kernel/total_sum_accum/cpu.cc"],
 [("Kahan compensation","src/kernel/sum_slice/cpu.cc")])
p("C21","Every registered data handle is released exactly once and only when unused",
 "A data handle created by a tile, tensor or variable is unregistered exactly once, when the last copy of its owner disappears or on explicit unregistration, with the coherency behaviour its mode asks for, and is not used afterwards; local access acquires before and releases after use exactly once, on normal and exceptional exits. Failed local acquisition is reported and leaves nothing acquired.",
 ["histories","inputs"],"all sequences of create/copy/assign/unregister/acquire/release and all modes",
 "Tests exercise simple straight-line uses only.",
 ["include/nntile/starpu/config.hh","include/nntile/tile/tile.hh","include/nntile/tensor/tensor.hh"],
 [("shared_ptr deleters by mode","include/nntile/starpu/config.hh"),("HandleLocalData","include/nntile/starpu/config.hh")])
p("C22","Restricting and restoring execution places is exact and reversible",
 "For every operation, after initialisation each of its task types can run on exactly the places for which it has an implementation; restricting to places limits every task type of the operation that supports them all to exactly those places and leaves the others as they were, and restoring brings back the initial capability, for all element types and any sequence of restrict/restore calls.",
 ["histories","configurations"],"all operations, element types, place sets and sequences of restrict/restore",
 "Tests never check all element types; a forgotten task type is invisible on a CPU-only machine.",
 ["src/starpu/*.cc","include/nntile/starpu/config.hh","include/nntile/starpu.hh"],
 [("Codelet::restrict_where/restore_where","include/nntile/starpu/config.hh"),("init/restrict_where/restore_where per op","src/starpu/*.cc")])
p("C23","A failed task submission is always reported to the caller",
 "Whenever the runtime refuses a task or data copy, the operation that tried to submit it throws an exception instead of silently continuing; no operation reports success when one of its tasks was not submitted.",
 ["fault_sequences","inputs"],"failure of any single submission in any operation",
 "Tests never inject a submission failure.",
 ["src/starpu/*.cc","src/tensor/*.cc","src/tile/*.cc"],
 [("return code checks","src/starpu/*.cc")])
p("C24","Sizes that do not fit the numerical library are rejected, never truncated",
 "For all 64-bit sizes, an operation backed by a numerical library with 32-bit sizes either passes every size, stride and offset to it unchanged or throws before the task is submitted; and every operation of tensors and tiles hands the sizes, strides and offsets of its operands to the kernel that does the work unnarrowed (through the task arguments), with the storage of each tile sized in 64 bits.",
 ["inputs"],"all 64-bit sizes",
 "Tests cannot allocate matrices with more than 2^31 rows.",
 ["src/starpu/gemm.cc.in","src/starpu/axpy.cc.in","src/starpu/nrm2.cc.in","src/starpu/scal_inplace.cc.in","src/starpu/*.cc","src/tile/*.cc","src/tensor/*.cc"],
 [("static_cast<CBLAS_INT> checks","src/starpu/gemm.cc.in")])
p("C25","Layer backward passes are the exact gradients of their forward passes",
 "For every Python layer (linear, activation, add, add-slice, embedding, layer normalisation, attention, flash attention, mixer MLP, mixer, global average pooling), the forward pass computes the documented function and the backward pass adds to every input and parameter gradient exactly the derivative of the output with respect to it times the output gradient, for all option combinations.",
 ["inputs","configurations"],"all activations, parameters and output gradients (real-valued), layer options",
 "Tests compare with PyTorch on a few random draws with loose tolerance; several layers and options have no test.",
 ["wrappers/python/nntile/layer/linear.py","wrappers/python/nntile/layer/act.py","wrappers/python/nntile/layer/attention.py","wrappers/python/nntile/layer/flash_attention.py","wrappers/python/nntile/layer/layer_norm.py","wrappers/python/nntile/layer/mixer.py","wrappers/python/nntile/layer/embedding.py","wrappers/python/nntile/layer/add.py","wrappers/python/nntile/layer/add_slice.py"],
 [("forward_async/backward_async","wrappers/python/nntile/layer/*.py")])
p("C26","Loss value and loss gradient are consistent",
 "Cross-entropy adds the scaled sum over samples of log-sum-exp minus labelled logit to the loss value and stores its exact gradient; the Frobenius loss yields half the squared distance and its exact gradient, for all logits, labels and scales.",
 ["inputs","configurations"],"all logits, labels, targets and scales",
 "Tests sample random draws.",
 ["wrappers/python/nntile/loss/crossentropy.py","wrappers/python/nntile/loss/frob.py"],
 [("calc_async","wrappers/python/nntile/loss/*.py")])
p("C27","Python optimizers follow their published update over any history",
 "For any sequence of gradients, Adam (with and without AMSGrad), FusedAdam, FusedAdamW and SGD (momentum, Nesterov, damping, weight decay) produce after each step the parameters and states given by their published recurrences, including learning-rate warm-up from the start rate to the full rate.",
 ["histories","inputs","configurations"],"all gradient sequences, hyper-parameters and step counts up to a bound",
 "Tests run one problem for a few steps.",
 ["wrappers/python/nntile/optimizer/adam.py","wrappers/python/nntile/optimizer/adamw.py","wrappers/python/nntile/optimizer/sgd.py"],
 [("step","wrappers/python/nntile/optimizer/*.py")])
p("C28","Saving and loading an optimizer state resumes training unchanged",
 "Saving an optimizer state at any step and loading it into a fresh optimizer over the same parameters reproduces every moment, counter and hyper-parameter, so that all later steps equal those of the uninterrupted run, for every optimizer with save/load and for full-precision storage.",
 ["histories","crash_points"],"any save point in any training history",
 "No test covers save/load for all optimizers and options.",
 ["wrappers/python/nntile/optimizer/adam.py","wrappers/python/nntile/optimizer/adamw.py"],
 [("save_state/load_state","wrappers/python/nntile/optimizer/*.py")])
p("C29","A training step uses the exact accumulated gradient of its batch",
 "For any number of batches and mini-batches, each optimizer step sees for every parameter exactly the sum of the gradients of its batch's mini-batches evaluated at the current parameters, with nothing left over from earlier batches, every batch is used once per epoch in order, and the recorded loss is the loss of that batch.",
 ["histories","inputs"],"all data, parameters, numbers of epochs, batches and mini-batches up to a bound",
 "Tests only check that loss values look plausible.",
 ["wrappers/python/nntile/pipeline.py","wrappers/python/nntile/model/base_model.py"],
 [("train_async","wrappers/python/nntile/pipeline.py"),("clear_*_grads","wrappers/python/nntile/model/base_model.py")])
p("C30","CUDA and CPU implementations of a kernel compute the same function",
 "For every kernel that has both a CPU implementation (src/kernel/*/cpu.cc) and a CUDA implementation (src/kernel/*/cuda.cu), both leave the same values in all their operands up to rounding, for any sizes and values, whatever the order in which the threads of a launch run; no thread of a launch accesses an element outside the operands.",
 ["inputs","configurations","schedules"],"all values and sizes, all orders of the threads of a launch",
 "The CUDA sources are not built in this environment at all: no test runs any of them.",
 ["src/kernel/*/cuda.cu"],
 [("cuda kernels","src/kernel/*/cuda.cu")])
p("C31","Python operations run the core operation of their name and operand types",
 "Every operation of nntile.tensor, called with operands of a precision the core offers it in, performs the core operation of its name on exactly those operands and scalars, in the documented argument order, and returns its effect; operands of mixed precisions and precisions the core does not offer raise TypeError and leave every operand unchanged.",
 ["inputs","configurations"],"all operations, precisions, operand types and values",
 "Tests call most wrappers in one precision only; a wrong branch or swapped argument in another precision stays hidden.",
 ["wrappers/python/nntile/tensor.py","wrappers/python/nntile/nntile_core.cc"],
 [("type dispatch","wrappers/python/nntile/tensor.py")])
p("C32","Models converted from and to PyTorch compute the same function",
 "For every PyTorch module a model can be built from (GPT2, GPT2 MLP, deep ReLU, MLP mixer), the model built by from_torch computes on every input the function of the PyTorch module for all parameter values and supported shapes, and to_torch writes back exactly the parameters the model holds.",
 ["inputs","configurations"],"all parameter values, inputs and supported sizes",
 "Tests use one or two sizes with random weights and loose tolerance; square weights and several heads or blocks hide transposition and ordering mistakes.",
 ["wrappers/python/nntile/model/gpt2.py","wrappers/python/nntile/model/mlp_mixer.py","wrappers/python/nntile/model/deep_relu.py"],
 [("from_torch/to_torch","wrappers/python/nntile/model/*.py")])
p("C33","NumPy arrays and tensors exchange every element exactly",
 "For every shape, tiling and supported element type, writing a NumPy array (in any memory order) to a tensor or tile puts every array element at its own index, reading returns every element at its own index and leaves the tensor unchanged, also while other tasks are pending; an array of another shape is refused with neither side changed and nothing leaked. The class bindings expose the fields, hints and reduction modes of their name: hints such as wont_use never change contents.",
 ["inputs","schedules","configurations"],"all contents, shapes, tilings and array orders within the bounds",
 "Tests exchange a few arrays of one order and shape; a transposed or partially copied tile, or an accepted wrong shape, shows only for particular sizes.",
 ["wrappers/python/nntile/nntile_core.cc","src/tensor/scatter.cc","src/tensor/gather.cc","include/nntile/tensor/tensor.hh"],
 [("array exchange","wrappers/python/nntile/nntile_core.cc")])
p("C34","Every extension-module function forwards to the core operation it names",
 "Each function of the extension module (all operations, precisions, blocking and asynchronous variants) runs exactly the core operation of its name in the precision of its name, with every operand and scalar in its own position and unchanged; the runtime functions (pause, resume, restrict_cpu, restrict_cuda, restrict_restore, init) make exactly the call of their name, and wait_for_all returns only when no submitted task is outstanding or an interrupt is pending.",
 ["inputs","configurations","histories"],"all registered functions, all argument values",
 "About 300 functions are registered by hand; tests call a fraction of them, mostly in one precision.",
 ["wrappers/python/nntile/nntile_core.cc"],
 [("registrations","wrappers/python/nntile/nntile_core.cc")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
