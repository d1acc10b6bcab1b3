"""What each check runs.  mode: see rt/h.hh."""
MODES = {"SEQ": 0, "SCHED": 1, "REDUX": 2, "REJECT": 3, "FAIL": 4}
MENU = "tensors of 0-3 dimensions, sizes 1-5 per dimension, base tiles 1-3 (uneven last tiles included), single and double precision, tensor and tile level, blocking calls"
PROPS = {
 "C04": dict(runs=[dict(h="elem.cpp")], bounds=MENU + "; every scalar argument and every element symbolic over the reals; pow exponents -2,-1,0.5,2,3 and symbolic"),
}
PROPS["C05"] = dict(runs=[dict(h="act.cpp")], bounds=MENU + "; all real inputs (exp, erf and sqrt are uninterpreted real functions with their algebraic identities)")
PROPS["C06"] = dict(runs=[dict(h="bcast.cpp")], bounds=MENU + "; every axis and batch dimension count; every scalar and element symbolic over the reals")
PROPS["C07"] = dict(runs=[dict(h="red.cpp")], bounds=MENU + "; every axis and batch dimension count; sums and products of sums: every element symbolic; norms (norm_slice, sumnorm): one whole slice symbolic at a time, the other slices fixed")
# why a property has no check (yet)
NA = {}
NA_DEFAULT = "check under construction"
PROPS["C08"] = dict(runs=[dict(h="soft.cpp")], bounds=MENU + "; every axis; all real logits (sign patterns and orderings of each slice explored by the solver); masks: every mask up to 4 elements, four patterns above", assumptions=["exp and log are uninterpreted real functions with exp(a+b)=exp(a)exp(b), exp>0, log(exp(x))=x"])
PROPS["C09"] = dict(runs=[dict(h="gemm.cpp")], bounds="0-2 row/column/contraction dimensions and 0-1 batch dimension (sizes 1-5, base tiles 1-2), all four transposition combinations, alpha and beta symbolic or 0/1, single and double precision, tensor and tile level; the CBLAS call itself is replaced by its reference semantics", assumptions=["cblas_?gemm follows the reference BLAS semantics (rt/model.cpp)"], note="gemm_ex has only a CUDA implementation: not encoded")
PROPS["C10"] = dict(runs=[dict(h="copy.cpp")], bounds=MENU + "; offsets -3..3 per dimension; every element symbolic (Index-valued tensors included)")
PROPS["C11"] = dict(runs=[dict(h="index.cpp")], bounds=MENU + "; labels symbolic over the whole vocabulary (addresses concretised by the solver), vocabulary 2-5")
PROPS["C12"] = dict(runs=[dict(h="adam.cpp")], bounds="tensors of 0-2 dimensions (sizes 1-5, base tiles 1-3), iterations 1, 2, 3, 10 and a symbolic iteration number, betas symbolic in (0,1), eps symbolic positive, learning rate and weight decay symbolic, all gradients, moments and parameters symbolic, single and double precision", assumptions=["pow with a symbolic exponent is uninterpreted and lies in (0,1)"])
PROPS["C13"] = dict(runs=[dict(h="randn.cpp")], bounds="underlying arrays of 0-3 dimensions, sizes 1-5 with offsets 0-2 and margins 0-1, base tiles 1-3, every 64-bit seed (symbolic, arithmetic modulo 2^64 exact), symbolic mean and deviation, single and double precision, tensor and tile level", assumptions=["the generator state is never exactly 0 (log 0)"])
PROPS["C14"] = dict(runs=[dict(h="norm.cpp")], bounds="tensors of 1-3 dimensions (sizes 1-3, uneven tiles), every axis, divisors 1, 3, 4, statistics of one slice symbolic (positive variance, zero variance and zero slice), the others fixed, eps, gamma, beta and all elements symbolic")
PROPS["C15"] = dict(runs=[dict(h="flash.cpp")], bounds="head sizes 1-4, sequences of 1-6 (1-3 tiles), 1-2 batches and heads (1-2 tiles); masks: all, causal, reversed, a chequered one and one with a query that sees nothing; Q, K, V, gradients and statistics symbolic for the softmax-times-V forward and backward; for maxsumexp one query or one key row symbolic at a time (the solver explores all orderings of its logits), starting statistics empty or symbolic", assumptions=["cblas_?gemm follows the reference BLAS semantics (rt/model.cpp)", "exp is an uninterpreted real function with exp(a+b)=exp(a)exp(b), exp>0", "-inf (masked logits) follows IEEE"], note="half-precision and CUDA-only variants (flash_attention via cuDNN) are not encoded")
ALLH = ["elem", "act", "bcast", "red", "soft", "gemm", "copy", "index", "adam", "norm", "randn", "flash"]
def allruns(mode): return [dict(h=h + ".cpp", mode=mode) for h in ALLH]
PROPS["C16"] = dict(runs=allruns("SCHED"), bounds="every tensor-level operation of the twelve operation harnesses (element-wise, activations, broadcasts, reductions, softmax, gemm, copies, indices, optimizers, normalisation, randn, flash attention) on a small menu of shapes and tilings; asynchronous calls; execution orders: reverse submission order, youngest-ready-first and a free choice (up to 2 choice points quick, 6 thorough) among the tasks whose declared accesses allow it; at every task the declared access modes are checked against what the implementation does with symbolic contents (read-only operands unmodified, write-only and scratch operands handed over with undefined contents)", assumptions=["a schedule is any order of task bodies that respects the submission-order dependencies of the declared access modes"])
INTS = "sizes, base tiles, indices and offsets symbolic: dimensions up to 2^60 (one dimension), 2^30 (two), 2^20 (three), 2^15 (four), so that the element count stays below 2^60, or any one dimension much larger (2^50 of two, 2^40 of three) and the others smaller; indices and offsets any 64-bit value; "
PROPS["C01"] = dict(runs=[dict(h="traits.cpp", only="layout|index_offset|offset_index|wrong_length|bad_shape")], bounds=INTS + "0-4 dimensions (thorough: 0-5)")
PROPS["C02"] = dict(runs=[dict(h="traits.cpp", only="tiling|tile_query|cover|tiling_lengths|bad_shape"), dict(h="tensor.cpp", only="tensor_.*")], bounds=INTS + "one dimension of the base tile of any positive 64-bit size (the others 1) or all up to the bounds of the tensor; 0-4 dimensions (thorough: 0-5); tensors with storage: every shape and base tile of 0-3 dimensions with sizes 1-4 (3 for three dimensions; thorough: 6 and 4)")
PROPS["C03"] = dict(runs=[dict(h="distr.cpp")], bounds="tile grids of 0-3 dimensions with up to 5, 3x3 and 2x2x2 tiles (thorough: 6, 4x4, 3x3x3, 2x2x2x2); process grid dimensions symbolic up to 2^31-1 (1-2 dimensions) or 2^20 (3) or 2^14 (4), start and maximum rank any 32-bit value")
PROPS["C17"] = dict(runs=allruns("REDUX"), bounds="every tensor-level operation of the twelve operation harnesses (element-wise, activations, broadcasts, reductions, softmax, gemm, copies, indices, optimizers, normalisation, randn, flash attention) called with redux=1 and destinations with the matching reduction registered; every assignment of the first 3 (thorough: 6) reduction tasks to two private accumulators (later tasks alternate), all three ways of combining them with the destination, oldest-first and youngest-ready-first execution; small menu of shapes and tilings, all values symbolic")
PROPS["C18"] = dict(runs=allruns("REJECT") + [dict(h="tensor.cpp", only="tile_buffer")], bounds="every tensor-level operation of the twelve operation harnesses (element-wise, activations, broadcasts, reductions, softmax, gemm, copies, indices, optimizers, normalisation, randn, flash attention) and every tile-level operation; one argument made non-conforming at a time (each dimension: longer, shorter, other base tile; one dimension more or less; axis and batch dimension counts just below and just above their range), plus the unmodified conforming call, on a small menu of shapes; in-bounds: every load and store of the executed code is checked against the object it points into")
PROPS["C23"] = dict(runs=allruns("FAIL"), bounds="every tensor-level operation of the twelve operation harnesses (element-wise, activations, broadcasts, reductions, softmax, gemm, copies, indices, optimizers, normalisation, randn, flash attention) and every tile-level operation; the n-th task submission or data copy refused (n = 1..5 quick, 1..9 thorough, also none), error code symbolic (-4095..-1)")
PROPS["C21"] = dict(runs=[dict(h="handle.cpp", time=120)], bounds="every history of 3 operations (thorough: 5) over 3 owners of type Handle and VariableHandle (create in each mode on StarPU or user memory, copy and move construction and assignment, unregister, destroy), of 4 (5) over 2 tensors and 2 tiles (create, copy, unregister, get_tile, task submission, local access, destroy), of 4 (6) acquire/release operations on a local access with any one acquisition refused with any negative code, left normally or by an exception, tasks in flight or not; every data access mode value 0-63")
PROPS["C24"] = dict(runs=[dict(h="sizes.cpp",time=120)], bounds="submission of gemm, axpy, nrm2, scal: every 64-bit size; tile- and tensor-level operations on one tile of 1-3 dimensions (thorough: 4), every dimension symbolic, up to 2^56 elements with one dimension much larger than the others (each in turn) or all alike; offsets of copies and of random generation symbolic up to 2^45; two matrices per batch; kernels and library replaced by recorders, so their loops are outside", note="The loops inside the kernels are not covered here (C01-C16 run them on small sizes)")
PROPS["C22"] = dict(runs=[dict(h="where.cpp")], bounds="every operation and task type declared under include/nntile/starpu (list regenerated from the headers), every set of places (32-bit mask symbolic, without the NOWHERE bit), histories of 2 (thorough: 3) restrict/restore calls on one operation or on all, with the implementations of this CPU-only build and with stand-in implementations for CPU and CUDA; one task type alone: every set of implementations and histories of 4 (6)", note="Bounded in the number of restrict/restore calls; the CUDA implementations themselves are not built here, so stand-ins take their place")
PYB = "tensors of 1-4 dimensions with sizes 1-4 and one or several (uneven) tiles; "
PYA = ["the pybind11 bindings of the operations (nntile_core.cc) pass their arguments on unchanged", "floating-point types other than the one of the case behave alike (fp32 and fp64 cases run the same reals)"]
PROPS["C25"] = dict(py=True, assumptions=PYA, bounds=PYB + "every layer (linear: both sides, both transpositions, 1-2 contracted dimensions, bias, redux, tf32, fp16 conversion, gradients required or not; act; add; add-slice; embedding; layer normalisation; attention and flash attention with 1-3 heads, sequences of 2-3 (thorough: 4), masks none/all, causal, chequered, lower; mixer MLP, mixer, global average pooling; fp16 conversions) and every model (deep linear, deep ReLU, GPT2 MLP, GPT2 of 1-2 blocks, MLP mixer of 1-2 blocks); every activation, parameter, incoming gradient and previously accumulated gradient symbolic over the reals (exp, erf, tanh, sqrt uninterpreted with their identities and derivatives); in models the values between layers are abstracted by fresh symbols once shown equal", note="Bounded shapes; exact real arithmetic. Inputs of add, add-slice, layer normalisation and attention always have gradients; DeepReLU_mp is not encoded (it refers to a name that does not exist); several contracted dimensions of deep linear models are refused by Linear")
PROPS["C26"] = dict(py=True, assumptions=PYA, bounds="cross-entropy: logits of 1-3 dimensions (classes 2-4) and several tilings, three label patterns, symbolic or default scale, redux or not, with and without output gradient; Frobenius loss: 0-3 dimensions, gradient required or not; all logits, targets, previous loss values and scales symbolic over the reals")
PROPS["C27"] = dict(py=True, assumptions=PYA, bounds="two parameters of 0-2 dimensions (sizes 1-3, uneven tiles), 3 steps (warm-up: 5 steps with full_lr_iter 0-4; thorough: 5 steps), after each step the reached states stand for all real values; every gradient, parameter, learning rate, beta, momentum, damping, eps and weight decay symbolic (weight decay, momentum and damping also 0); Adam, AMSGrad, FusedAdam, FusedAdamW, SGD (momentum, Nesterov, damping, weight decay)", note="Bounded number of steps; a step from an arbitrary state is covered because the states are abstracted after each step")
PROPS["C28"] = dict(py=True, assumptions=PYA + ["pickle and torch.tensor in the stored precision are the identity"], bounds="save after 0-2 steps (thorough: 4), load into an optimizer created with other hyper-parameters, 2 further steps; two parameters of 1-3 dimensions; Adam, AMSGrad, FusedAdam, FusedAdamW with and without warm-up and weight decay; every gradient, parameter and hyper-parameter symbolic", note="Storage in fp16 and bf16 (which rounds) and parameters without dimensions (refused by to_array) are outside; SGD has no save_state")
PROPS["C29"] = dict(py=True, assumptions=PYA, bounds="0-3 batches of 1-3 minibatches (thorough: 4), 1-3 epochs; deep linear and deep ReLU models of 2-3 layers with cross-entropy or Frobenius loss and a one-block GPT2 with and without flash attention; the optimizer replaces parameters by arbitrary values after each step and leaves arbitrary gradients; all data, parameters, initial gradients, activations and loss values symbolic")
PROPS["C31"] = dict(py=True, assumptions=["the extension module offers exactly the names given by the register calls of nntile_core.cc"], bounds="every function of nntile.tensor over every precision; every single operand of every other precision; operands of one fixed conforming shape per operation, all elements and scalars symbolic, redux 0 and 1")
PROPS["C32"] = dict(py=True, assumptions=PYA + ["PyTorch is replaced by stand-ins that hold named parameter arrays in the order and layout of torch.nn.Linear, torch.nn.LayerNorm and the Hugging Face GPT2 module"], bounds="GPT2 (1-3 heads, 1-2 blocks, sequence 2, embeddings 2-4, with and without flash attention), GPT2 MLP, deep ReLU (2-3 layers, with and without bias, widths 2-3), MLP mixer (1-2 blocks, widths 1-3); every parameter and every input symbolic; from_torch followed by forward equals the PyTorch function, and to_torch returns the values")
PROPS["C20"] = dict(runs=[dict(h="round.cpp")], bounds="every term of the sum symbolic (any real; norms: any positive real; sums of exponentials: any real logits), every rounding error of every floating point operation an independent unknown of magnitude at most one unit roundoff, first order in these errors; 12 to 40 terms (thorough: 36 and 40 as well) in one to three tiles, before and after the fiber, coefficients 1, 0 and symbolic; bound on the error of a result: 7 (sums, plus 2 per further tile) or 11 (norms, sums of exponentials) unit roundoffs per term whatever the number of terms; norms and sums of exponentials: the largest term comes first, in the middle or last, after a first element that bounds those before it (at most one rescaling)", assumptions=["second-order terms of the rounding errors are neglected", "the conditioning of exp with respect to its rounded argument is not counted", "branches are decided on exact values"], note="sumprod_fiber and sumnorm accumulate without compensation (the compensated lines of sumprod_fiber are commented out): outside the property; partial results of different tiles are added without compensation: the bound grows by 2 per tile")
PROPS["C19"] = dict(runs=[dict(h="finite.cpp", time=220)], technique="symbolic execution of the LLVM IR with every floating point value an IEEE 754 term, decided by bit-blasting (z3)", bounds="single precision, bit by bit: every operation of the executed code rounds as IEEE 754 single precision; inputs any finite number up to 1e37 in magnitude (norms: zero or at least 1e-30 in magnitude, 4 significant mantissa bits besides the leading one, full exponent range), sums of exponentials up to 1e6, coefficients 1, -2, 0.5, 0.3 and 0; slices of 1 to 3 elements (norms 1 to 2) in one or two tiles, masks of every pattern (thorough: 4 elements, norms 3)", assumptions=["exp, log and hypot are represented by facts every implementation satisfies: sign, monotonicity, overflow and underflow thresholds, and bounds (hypot between the larger operand and twice that)", "the double precision instantiations of the same templates are not encoded"], note="the constants of the range checks are loose (0.5 to 2.02): accuracy is the subject of C20")
BIND = ["nntile_core.cc is compiled unchanged against stand-in pybind11 headers (rt/pystub): array arguments that ask for Fortran order get it, others get the order of the caller; argument conversion of pybind11 itself is trusted"]
PROPS["C33"] = dict(runs=[dict(h="bindarr.cpp"), dict(h="bindarr.cpp", mode="SCHED", only="tensor_from|tensor_to")], assumptions=BIND, bounds="0-3 dimensions, sizes 1-5, base tiles 1-3 (uneven last tiles), element types fp32, fp64, int64 and bool, arrays in C and Fortran order, every element symbolic; arrays with one dimension more, less, larger or smaller; immediate, delayed and reordered execution of the submitted tasks; both entry points (method and function)")
PROPS["C30"] = dict(runs=[dict(h="cuda.cpp")], bounds="48 of the 51 CUDA sources (not encoded: maxsumexp, which relies on the threads of a warp running in lockstep, and the two half-precision conversions); element-wise kernels with 1, 3 and 258 elements (two blocks), others with sizes 1-17 and up to 258 columns such that grids of several blocks with partly filled last blocks occur; elements symbolic (in large arrays the ones at the ends and at block borders, the others fixed), scalars symbolic or, where noted in the harness, fixed; adam iterations 1-3; single and double precision (a double-precision kernel that narrows a value to single precision is noticed); the threads of a block run in increasing or decreasing order, from barrier to barrier where the kernel has barriers", assumptions=["CUDA: a launch behaves as if its threads ran one after the other between barriers, in increasing or decreasing order; atomicAdd is atomic; device functions have the meaning of the host functions of their name (rt/cudastub)", "kernel<<<grid,block>>>(args) is rewritten textually to a call that runs the kernel for every thread; nothing else of the sources is changed"], note="Bounded symbolic execution of the real CUDA kernels compiled as C++ with a stand-in for the CUDA runtime; the StarPU wrappers that call them on a GPU, cuBLAS calls and 3 kernels (maxsumexp, fp16 conversions) are not encoded. A CUDA source that the stand-in does not cover is reported in the evidence as not encoded.")
PROPS["C34"] = dict(runs=[dict(h="bindfn.cpp")], assumptions=BIND, bounds="every registered function of the tensor and starpu modules; every scalar and integer argument symbolic, operands distinct tensors, both values of every transposition and flag; wait_for_all: up to 3 polls, any number of outstanding tasks, an interrupt at any poll")
