import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
B="curvlinops/_torch_base.py"
add("C01","Hessian operator equals the exact Hessian of the empirical risk",
 "Multiplying with the Hessian operator gives exactly the second derivative of the data set's empirical risk with respect to the listed parameters, in the listed order, times the operand. With reduction 'mean' the risk is the average over all data and with 'sum' the total, so the result does not depend on how the data is split into batches, on whether the number of data is given or inferred, or on the progress bar. When block sizes are given, exactly the within-block second derivatives are kept and all cross-block entries are zero.",
 ["inputs","configurations"],"Every differentiable model (frozen or partially listed or permuted parameters, callables or modules), every loss with sum/mean reduction, every data set and (uneven, size-one, dict-valued) batching, every block partition, dtype, device move and operand.",
 "Tests compare against one reference on a fixed list of models with two near-equal batches; almost all use full parameter lists in default order, module models, and few uneven batchings or block patterns.",
 ["curvlinops/hessian.py",B,"curvlinops/utils.py"],[("per-batch Hessian-matrix product with blocks","curvlinops/hessian.py HessianLinearOperator._matmat_batch"),("batch accumulation and normalisation","curvlinops/_torch_base.py CurvatureLinearOperator._matmat/_get_normalization_factor"),("block splitting","curvlinops/utils.py split_list")])
add("C02","GGN operator equals the exact generalized Gauss-Newton matrix",
 "Multiplying with the GGN operator gives exactly c times the sum over all data of (Jacobian of the prediction)^T (Hessian of the loss w.r.t. the prediction) (Jacobian of the prediction), times the operand, with c = 1/N for 'mean' and 1 for 'sum'. The result does not depend on batch split, given or inferred number of data, or progress bar, and covers exactly the listed parameters in the listed order. For a convex loss the represented matrix is symmetric positive semi-definite.",
 ["inputs","configurations"],"Every model, convex or non-convex loss, parameter selection, batching, dict or tensor inputs, dtype and operand.",
 "Tests fix a handful of models, each with two batches, and compare a few products; they do not vary parameter subsets, per-example loss terms, batch sizes and losses jointly.",
 ["curvlinops/ggn.py",B],[("per-batch GGN-matrix product","curvlinops/ggn.py GGNLinearOperator._matmat_batch"),("batch accumulation and normalisation","curvlinops/_torch_base.py CurvatureLinearOperator._matmat")])
add("C03","Empirical Fisher equals the exact uncentered gradient covariance",
 "Multiplying with the empirical Fisher gives exactly c times the sum over all per-example loss terms of (gradient)(gradient)^T, where each gradient is that of the un-reduced loss term at its true label, and c is the factor by which the loss reduction scales a loss term over the whole data set. The represented matrix is symmetric positive semi-definite with rank at most the number of loss terms, and does not depend on batch split, given or inferred number of data, or parameter order. Predictions of any dimension are treated as one loss term per entry of the non-class axes.",
 ["inputs","configurations"],"All supported losses and reductions, 2d and higher-dimensional predictions, parameter subsets and orders, batchings, dict inputs, dtypes, operands.",
 "Tests check fixed cases against a reference that shares the library's flattening helper; higher-dimensional outputs, batch size one, uneven batches and subsets are sampled only a few times.",
 ["curvlinops/gradient_moments.py",B],[("pseudo-loss construction and GGN product","curvlinops/gradient_moments.py EFLinearOperator._matmat_batch")])
add("C04","Monte-Carlo Fisher is a valid, unbiased sample of the Fisher",
 "The Monte-Carlo Fisher is, for its seed, c/M times a sum over loss terms and over M draws of (would-be gradient)(would-be gradient)^T, where each would-be gradient comes from a label drawn independently for that datum and draw from the model's predictive distribution (Gaussian for square loss, categorical for cross-entropy, Bernoulli for binary cross-entropy). For a fixed seed it is one fixed matrix, the same for every column and every product; labels do not repeat across data, batches or draws, and over seeds its expectation is the GGN. It never depends on or advances the global random state.",
 ["inputs","configurations","histories"],"All seeds, numbers of draws, losses, reductions, batchings, models and histories of products.",
 "Tests only compare a large-sample average against the GGN with loose tolerance; a repeated, biased, or column-dependent draw, or labels shared across batches, stays within that tolerance.",
 ["curvlinops/fisher.py",B],[("would-be gradient sampling","curvlinops/fisher.py FisherMCLinearOperator.sample_grad_output"),("seeding per product","curvlinops/fisher.py FisherMCLinearOperator._matmat")])
add("C05","Jacobian and transposed Jacobian are exact and mutually adjoint",
 "The Jacobian operator maps a parameter-space vector to the exact directional derivative of the stacked model predictions over the whole data set, with rows ordered as the data is presented; the transposed operator maps a prediction-space vector to its exact pull-back. Each is the adjoint of the other, and taking the adjoint twice gives the original map. Shapes reflect the data set's size and the prediction's shape for every batching.",
 ["inputs","configurations"],"All models and prediction shapes, parameter subsets and orders, uneven batchings, dict inputs, vector, matrix and empty-matrix operands, adjoint-of-adjoint chains.",
 "Tests check the dense matrix for fixed cases with equal batches; row offsets under uneven batching, higher-dimensional predictions and chained adjoints are not varied.",
 ["curvlinops/jacobian.py",B],[("forward product","curvlinops/jacobian.py JacobianLinearOperator._matmat"),("transpose product with running offset","curvlinops/jacobian.py TransposedJacobianLinearOperator._matmat"),("adjoints","curvlinops/jacobian.py _adjoint")])
add("C06","Gradient and loss of the data set are exact",
 "The reported gradient and loss equal the exact gradient and value of the same empirical risk that the operator represents: averaged over all data for 'mean', totalled for 'sum', independent of batch split and of the given or inferred number of data. Gradients come in the order and shapes of the listed parameters, in their dtype, and neither they nor the loss carry an autograd graph or alias the model's own gradients. The batch-wise stream behind it yields every batch once, in order, with its prediction and its share of loss and gradient, the shares adding up to the totals. Without a loss function the total's request is rejected with an error.",
 ["inputs","configurations","histories"],"All operators with a loss, models, losses, reductions, batchings, parameter selections, and repeated or interleaved requests.",
 "Tests compare once per fixed case with near-equal batches.",
 [B],[("accumulation over the data","curvlinops/_torch_base.py CurvatureLinearOperator.gradient_and_loss"),("per-batch scaling","curvlinops/_torch_base.py data_prediction_loss_gradient")])
add("C07","Every operator is one linear map, whatever the operand format",
 "For every operator, a product returns the result in the operand's own format (single tensor or list of tensors, vector or matrix with trailing column axis), and all formats, memory layouts and column counts describe the same linear map: products are linear, column k of a matrix product equals the product with column k, and list and flat formats agree entry by entry. The adjoint satisfies <u, A v> = <A* u, v>, with self-adjoint operators returning an equivalent operator. Operands that do not fit the operator's shape are rejected with a ValueError before any data is touched.",
 ["inputs","configurations"],"All operators, all operand formats, non-contiguous and zero-column operands, and malformed operands (wrong length, rank, trailing size, list length, type).",
 "Tests multiply a few contiguous random operands per case; layout, zero columns, single-column matrices and malformed operand classes are barely sampled.",
 [B],[("operand checks and conversion","curvlinops/_torch_base.py PyTorchLinearOperator._check_input_and_preprocess"),("output check and conversion","curvlinops/_torch_base.py PyTorchLinearOperator._check_output_and_postprocess"),("adjoint","curvlinops/_torch_base.py PyTorchLinearOperator.adjoint")])
add("C08","The SciPy export represents the same matrix",
 "The exported SciPy operator has the operator's shape and the requested data type (NumPy's default when none is given), and its forward, adjoint, vector and matrix products equal those of the operator it was exported from, for every real or complex, integer or floating array of any memory layout. Results are plain arrays detached from any graph; floating operands keep their precision as result type and no numerical content of the operand or result is dropped. The operand array is never modified.",
 ["inputs","configurations"],"All exportable operators including inverse KFAC, all operand dtypes (bool, int, half, single, double, complex), strides, orders, writability flags and column counts, low-precision parameter types.",
 "Tests export and multiply only contiguous double-precision operands.",
 [B],[("export and conversion","curvlinops/_torch_base.py PyTorchLinearOperator.to_scipy/_scipy_compatible"),("device and dtype inference","curvlinops/_torch_base.py CurvatureLinearOperator._infer_device/_infer_dtype")])
add("C09","Using an operator never alters the user's objects or global state",
 "Constructing an operator, multiplying, requesting properties, gradients, inverses or checkpoints, leaves unchanged: parameter values, gradients and requires-grad flags, buffers, training mode, hooks, operands, data, and all global random states, including when the construction-time determinism check is enabled (except that this check may advance the global random state). Returned products and gradients are detached from any graph and do not alias operands, internal caches or each other, so mutating one never changes another or a later product.",
 ["histories","configurations","inputs"],"All operators and public methods, in any interleaving, on models with buffers, partly frozen parameters and pre-existing gradients and hooks.",
 "Tests look at results, not at side effects; none snapshots model, operand, hook or random-state.",
 ["curvlinops/kfac.py","curvlinops/inverse.py",B,"curvlinops/experimental/activation_hessian.py","curvlinops/fisher.py"],[("temporary hooks","curvlinops/kfac.py KFACLinearOperator._compute_kfac"),("in-place tensor arithmetic","curvlinops/_torch_base.py CurvatureLinearOperator._matmat"),("list operand handling","curvlinops/inverse.py KFACInverseLinearOperator._matmat")])
add("C10","Products are repeatable and independent of call history",
 "Once constructed, an operator over deterministic data represents one fixed matrix: repeating a product, or interleaving it with any other products, property or gradient requests on the same or other operators sharing the model and data, gives the same result. For operators that do not cache data-dependent factors, changing the parameters in place is reflected by the next product; for Kronecker-factored operators the factors computed first stay in force for all later products. Global random seeding has no influence.",
 ["histories","configurations"],"All histories of products (vectors, matrices, formats), gradient, property and adjoint requests, in-place parameter updates and random-state changes, on one or several operators sharing a model.",
 "Tests perform one or two products per operator in a fixed order.",
 ["curvlinops/fisher.py","curvlinops/kfac.py","curvlinops/inverse.py",B],[("re-seeding per product","curvlinops/fisher.py FisherMCLinearOperator._matmat"),("factor caching","curvlinops/kfac.py KFACLinearOperator._matmat"),("inverse caching","curvlinops/inverse.py _compute_or_get_cached_inverse")])
add("C11","The determinism check flags exactly non-deterministic models or data",
 "With the determinism check enabled, construction fails with a RuntimeError if the data set's total loss or gradient, or a product, differs between two evaluations, and, for operators whose meaning depends on data order, if any mini-batch, prediction, loss or gradient differs. It succeeds for every deterministic model and data set, including data presented in different order when order is irrelevant to the operator. With the check disabled no such evaluation happens and construction succeeds.",
 ["inputs","configurations","schedules"],"All operators, injected non-determinism (noise in data, labels, dropout, random or growing augmentation, shuffling, dropped batches) in any batch and at any magnitude above the documented tolerance, and deterministic controls.",
 "Tests inject shuffling and dropout in one construction each; they never locate the non-determinism in one chosen batch or quantity, nor check the silent side broadly.",
 [B,"curvlinops/kfac.py"],[("determinism check","curvlinops/_torch_base.py CurvatureLinearOperator._check_deterministic"),("per-batch comparison","curvlinops/_torch_base.py __check_deterministic_batch"),("product comparison","curvlinops/_torch_base.py __check_deterministic_matvec")])
add("C12","A failed computation leaves no trace: retrying gives the exact result",
 "If the data loader, the model or the underlying operator raises at any point during a product, property, gradient, sampling or inverse computation, the exception reaches the caller, the model is left without extra hooks, and no partial result is kept. Retrying the same request after the fault has gone gives exactly the result of an undisturbed computation. This holds for interrupts as for ordinary exceptions.",
 ["fault_sequences","crash_points"],"Every fault position (data item index, forward call index, product index, backward pass), exception type, and fault sequence, on all operators and estimators that hold state.",
 "No test injects a fault.",
 ["curvlinops/kfac.py","curvlinops/trace/meyer2020hutch.py","curvlinops/inverse.py","curvlinops/papyan2020traces/spectrum.py","curvlinops/experimental/activation_hessian.py"],[("hooks and factor accumulation","curvlinops/kfac.py KFACLinearOperator._compute_kfac"),("subspace caching","curvlinops/trace/meyer2020hutch.py HutchPPTraceEstimator.maybe_compute_and_cache_subspace"),("Lanczos caching","curvlinops/papyan2020traces/spectrum.py _LanczosSpectrumCached._get_lanczos_iters"),("temporary hook","curvlinops/experimental/activation_hessian.py store_activation")])
add("C13","KFAC is the documented Kronecker product for every layer type and setting",
 "For type-2, empirical and forward-only Fisher types, the KFAC operator is exactly block-diagonal over layers with blocks given by the Kronecker product of the output-gradient covariance and the layer-input covariance defined for the chosen weight-sharing approximation (expand or reduce), treating weight and bias jointly or separately as requested and restricted to the listed parameters in the listed order. Convolution patches, strides, paddings, dilations, groups and sequence axes enter as defined, and the result does not depend on batch split, given or inferred data and loss-term counts. Where theory says KFAC is exact (single datum, or deep linear networks with square loss), the block equals the exact GGN block.",
 ["inputs","configurations"],"All networks of linear and 2d-convolution layers with element-wise or pooling layers between, all convolution hyper-parameters, losses, reductions, batchings, parameter subsets/permutations and option combinations.",
 "Tests compare with the GGN only in exactness regimes with fixed small networks; general data, where most scaling and grouping errors show, has no reference, and convolution hyper-parameters are barely varied.",
 ["curvlinops/kfac.py","curvlinops/kfac_utils.py"],[("factor accumulation","curvlinops/kfac.py KFACLinearOperator._accumulate_gradient_covariance/_hook_accumulate_input_covariance"),("loss Hessian square roots","curvlinops/kfac_utils.py loss_hessian_matrix_sqrt"),("patch extraction","curvlinops/kfac_utils.py extract_patches/extract_averaged_patches"),("product","curvlinops/kfac.py KFACLinearOperator._matmat")])
add("C14","Monte-Carlo KFAC uses valid, independent, unbiased label draws",
 "With the Monte-Carlo Fisher type, the output-gradient covariances are those obtained from labels drawn independently per datum, loss term and draw from the model's predictive distribution, averaged over the number of draws; they are a function of the seed only, unaffected by the global random state, and their expectation over seeds is the type-2 factor. Input covariances never depend on seed or draws.",
 ["inputs","configurations"],"All seeds, numbers of draws, losses, reductions, weight-sharing approximations and batchings.",
 "Tests average very many draws in exactness regimes with loose tolerances, so repeated or mis-scaled draws in general settings are not resolved.",
 ["curvlinops/kfac.py"],[("label sampling","curvlinops/kfac.py KFACLinearOperator.draw_label"),("scaling of sampled gradients","curvlinops/kfac.py _accumulate_gradient_covariance/_maybe_adjust_loss_scale"),("seeding","curvlinops/kfac.py _compute_kfac")])
add("C15","KFAC trace, determinant, log-determinant and norm match its matrix",
 "The trace, determinant, log-determinant and Frobenius norm reported by a KFAC operator equal those of the matrix it represents, whatever options, parameter selection or order of requests, including when requested before any product. Repeated requests return the same value, and the values always correspond to the factors currently in force.",
 ["inputs","configurations","histories"],"All KFAC configurations (joint or separate, weight-only, bias-only, mixed, permuted), request orders, and after loading a checkpoint.",
 "Tests check full parameter lists plus a few exclusion cases on three small networks, always after a fresh construction.",
 ["curvlinops/kfac.py"],[("scalar properties and their caching","curvlinops/kfac.py KFACLinearOperator.trace/det/logdet/frobenius_norm"),("reset","curvlinops/kfac.py KFACLinearOperator._reset_matrix_properties")])
add("C16","Inverse KFAC inverts exactly the damped KFAC for every damping mode",
 "The inverse KFAC operator equals the inverse of the block-diagonal matrix obtained from KFAC by the requested damping: constant damping added to each Kronecker factor (possibly different for input and gradient factors), heuristically balanced damping per layer with its lower bound, or exact damping added to each whole block. This holds with and without caching, for joint or separate weight and bias, every parameter selection and operand format, on first and repeated use; with caching, only the first product computes the inverses; inadmissible damping combinations and non-KFAC arguments are rejected.",
 ["inputs","configurations","histories"],"All damping modes and values, caching flags, KFAC configurations and parameter selections, singular and dead-unit factors, operand formats and repeated products.",
 "Tests cover full parameter lists and few exclusions with one product per operator; caching over several layers, repeated products with operand lists and degenerate factors are not covered.",
 ["curvlinops/inverse.py"],[("damping","curvlinops/inverse.py KFACInverseLinearOperator._compute_damping"),("factor inversion and cache","curvlinops/inverse.py _compute_inverse_factors/_compute_or_get_cached_inverse"),("product","curvlinops/inverse.py KFACInverseLinearOperator._matmat")])
add("C17","Checkpoints restore an equivalent operator; mismatches are rejected cleanly",
 "Saving the state of a KFAC or inverse KFAC operator, at any point of its life and through serialisation, and loading it into a new or existing operator on a compatible model gives an operator with the same products, inverse products and scalar properties, without recomputing saved factors. A state saved for a different loss, reduction or set of layers is rejected with an error, and a rejected load leaves the target operator and its model as they were.",
 ["histories","inputs","configurations"],"All points in an operator's life (before/after first product or property), all KFAC options and parameter selections, in-memory and file round trips, and all kinds of mismatching states.",
 "Tests save and load right after one product with full parameter lists, and probe two mismatches without looking at what the failed load left behind.",
 ["curvlinops/kfac.py","curvlinops/inverse.py"],[("state export/import","curvlinops/kfac.py KFACLinearOperator.state_dict/load_state_dict/from_state_dict"),("inverse state","curvlinops/inverse.py KFACInverseLinearOperator.state_dict/load_state_dict/from_state_dict")])
add("C18","Iterative inverses solve the linear system to their stated accuracy",
 "The conjugate-gradient inverse returns, for symmetric positive-definite operators, a vector whose residual meets the configured tolerance, and the LSMR inverse returns the (damped) least-squares solution to its configured tolerances, also under default settings; the Neumann inverse returns exactly the truncated, scaled series of the stated number of terms and raises on NaNs when asked to. Configured hyper-parameters (tolerances, iteration limits, starting point, preconditioner, callback, damping, scale) take effect on every later product and only on that operator, and matrix products equal column-wise vector products.",
 ["inputs","configurations","histories"],"All (SPD, rectangular, ill-scaled) operators, right-hand sides, hyper-parameter settings, re-configurations and operand shapes.",
 "Tests solve one damped GGN system per inverse with explicit hyper-parameters and one matrix.",
 ["curvlinops/inverse.py"],[("CG","curvlinops/inverse.py CGInverseLinearOperator"),("LSMR","curvlinops/inverse.py LSMRInverseLinearOperator"),("Neumann","curvlinops/inverse.py NeumannInverseLinearOperator._matvec")])
add("C19","Submatrix operators select exactly the requested rows and columns",
 "A submatrix operator represents the base matrix restricted to the given row and column indices in the given order, for vector, single-column and matrix operands, in forward and adjoint products, and after the selection is changed. Invalid selections (duplicates, non-integers, out-of-range) are rejected and leave the previous selection in force. The selection is fixed at the time it is made and the operands are not modified.",
 ["inputs","histories"],"All base operators (non-symmetric, rectangular), index lists (empty, permuted, full), operand shapes and sequences of re-selections including rejected ones.",
 "Tests use a few fixed index lists and never the adjoint, single-column operands, or a re-selection after a rejected one.",
 ["curvlinops/submatrix.py"],[("selection","curvlinops/submatrix.py SubmatrixLinearOperator.set_submatrix"),("products and adjoint","curvlinops/submatrix.py SubmatrixLinearOperator._matvec/_matmat/_adjoint")])
add("C20","Outer-product and projector operators match their dense definition",
 "The outer-product operator equals the coefficient-weighted sum of outer products of its stored vectors and is symmetric; the projector is that with unit coefficients, so on an orthonormal basis it is idempotent, keeps the basis and annihilates its complement. This holds for vector, single-column and multi-column operands, for forward and adjoint products and in sums, differences and compositions with other operators.",
 ["inputs"],"All ranks (including one and larger than the dimension), dimensions, coefficients of any sign, dtypes and operand shapes.",
 "Tests multiply a single vector in a few spectrum tests.",
 ["curvlinops/outer.py"],[("product","curvlinops/outer.py OuterProductLinearOperator._matvec"),("projector","curvlinops/outer.py Projector.__init__")])
add("C21","Hutchinson estimators return the defined statistic of valid random probes",
 "Every sample of the trace, diagonal and squared-Frobenius-norm estimators equals its defining formula (v.Av, v*Av, |Av|^2) for one freshly drawn probe vector with independent zero-mean unit-variance entries of the requested distribution (only plus or minus one for Rademacher), using exactly one product with the operator. Samples are therefore unbiased and independent across calls, and for Rademacher probes exact on diagonal matrices. Non-square operators (for trace and diagonal) and unknown distributions are rejected.",
 ["inputs","histories"],"All square operators (and rectangular for the norm), both distributions, seeds and sequences of samples.",
 "Tests average very many samples to a loose tolerance; a biased, correlated or reused probe with correct mean passes.",
 ["curvlinops/trace/hutchinson.py","curvlinops/diagonal/hutchinson.py","curvlinops/norm/hutchinson.py","curvlinops/sampling.py"],[("probe drawing","curvlinops/sampling.py random_vector"),("samples","curvlinops/trace/hutchinson.py HutchinsonTraceEstimator.sample")])
add("C22","Hutch++ is unbiased, exact on captured subspaces, and caches its basis",
 "Every Hutch++ sample equals the exact trace on the subspace spanned by the operator applied to the basis probes plus the Hutchinson estimate on its orthogonal complement for a fresh probe of the requested distribution; it is therefore exact whenever the operator's range lies in that subspace, and unbiased always. The subspace is computed once with twice as many products as its dimension and reused, so each later sample needs exactly one product. Basis dimensions larger than the operator and non-square operators are rejected.",
 ["inputs","histories"],"All square operators (symmetric or not, low or full rank), basis dimensions from one to full, distributions, sample sequences.",
 "Tests average many samples on one matrix; exactness on low-rank operators and the number of products are unchecked.",
 ["curvlinops/trace/meyer2020hutch.py"],[("subspace and cache","curvlinops/trace/meyer2020hutch.py HutchPPTraceEstimator.maybe_compute_and_cache_subspace"),("sample","curvlinops/trace/meyer2020hutch.py HutchPPTraceEstimator.sample")])
add("C23","Lanczos spectral densities equal the defined quadrature of the operator",
 "The (log-)spectral density returned is the average, over the requested repeats with independent random unit start vectors, of the Gaussian-smoothed Lanczos quadrature of the operator on an evenly (log-evenly) spaced grid covering the spectral boundaries plus margin, where given boundary parts are used as they are and missing ones are estimated to the requested accuracy; it is non-negative and integrates to about one. The cached variants return the same for every later choice of repeats, resolution, width and margin, without repeating Lanczos runs already made.",
 ["inputs","histories","configurations"],"All symmetric operators with more distinct eigenvalues than Lanczos vectors, numbers of vectors, repeats, grid sizes, widths, margins, epsilons, partial boundaries, and sequences of requests to cached variants.",
 "Tests compare total-variation distance loosely for one matrix and default boundaries.",
 ["curvlinops/papyan2020traces/spectrum.py"],[("Lanczos iteration","curvlinops/papyan2020traces/spectrum.py fast_lanczos"),("boundaries","curvlinops/papyan2020traces/spectrum.py approximate_boundaries/approximate_boundaries_abs"),("density evaluation","curvlinops/papyan2020traces/spectrum.py lanczos_approximate_(log_)spectrum_from_iter"),("cached variants","curvlinops/papyan2020traces/spectrum.py _LanczosSpectrumCached")])
add("C24","Activation Hessian is exact for the chosen intermediate feature",
 "Multiplying with the activation Hessian gives exactly the second derivative of the single batch's loss with respect to the chosen layer input or output tensor, and its shape is that tensor's total size squared. Data with more than one batch, unknown layers, unknown input/output kinds and out-of-range tensor positions are rejected. No hook remains on the model after any product, successful or not.",
 ["inputs","configurations","histories"],"All models (nested, multi-input or multi-output layers), layers, input/output kinds, positions, losses, reductions and operands.",
 "Tests check three activations of one network.",
 ["curvlinops/experimental/activation_hessian.py"],[("activation capture","curvlinops/experimental/activation_hessian.py store_activation"),("product","curvlinops/experimental/activation_hessian.py ActivationHessianLinearOperator._matmat_batch")])
add("C25","Each computation consumes the data exactly once, in order, when needed",
 "Each product (whatever its number of columns), gradient request and Kronecker-factor computation traverses the data exactly once, evaluating the model once per mini-batch in presentation order, and construction with the determinism check disabled traverses the data only for counts that were not supplied (plus a look at the first item). Kronecker-factored operators do not touch data or model again once their factors exist, neither for products, inverses, nor scalar properties. Operands are never processed with a stale or skipped mini-batch.",
 ["histories","configurations"],"All operators, numbers of columns, batchings, supplied or missing counts, progress bar on/off, and histories of requests.",
 "Tests never observe data access; a skipped or repeated traversal that cancels out numerically, or a huge cost regression, passes.",
 [B,"curvlinops/kfac.py","curvlinops/inverse.py","curvlinops/jacobian.py"],[("data loop","curvlinops/_torch_base.py CurvatureLinearOperator._loop_over_data"),("count inference","curvlinops/_torch_base.py CurvatureLinearOperator.__init__; curvlinops/kfac.py _set_num_per_example_loss_terms"),("factor cache","curvlinops/kfac.py KFACLinearOperator._matmat")])
add("C26","Dense reference functions agree with the exact curvature matrices",
 "The dense functional-transform reference functions shipped for gradient and loss, Hessian, GGN, empirical Fisher and Jacobian return exactly the corresponding dense quantities of the empirical risk on the whole data set for the listed parameters in the listed order, including dict-valued inputs, and leave the model unchanged. Dict-valued inputs without a key are rejected.",
 ["inputs","configurations"],"All models with parameters of rank one or more, supported losses and reductions, batchings and parameter selections.",
 "They are the tests' own oracle; nothing tests them independently, so a shared error is invisible.",
 ["curvlinops/examples/functorch.py","curvlinops/examples/utils.py"],[("dense references","curvlinops/examples/functorch.py functorch_hessian/functorch_ggn/functorch_empirical_fisher/functorch_jacobian/functorch_gradient_and_loss")])
add("C27","Unsupported settings are rejected with an error, supported ones accepted",
 "A setting outside what an operator supports is rejected with an error and never answered with numbers: losses without a Fisher rule (for the empirical Fisher, Monte-Carlo Fisher and KFAC), unknown Fisher types or weight-sharing approximations, Monte-Carlo draws other than one for an exact Fisher type, block partitions that are not positive or do not cover the parameters exactly, KFAC parameters outside supported layers or listed twice, dict-like inputs without a batch-size function, loss terms that do not divide evenly over the data, and exports of parameters with mixed data types, at construction or export; labels that are not binary for the Monte-Carlo Fisher and type-2 KFAC with binary cross-entropy in any batch, layers called with several inputs and one-sided string paddings (expand), by every computation that meets them. The model is left as it was. Every supported setting is accepted, including descendants of the supported losses and layers and unlisted parameters of unsupported layers.",
 ["inputs","configurations"],"All operators and every setting next to the border of their documented support, for any model, data set, batching and position of the offending entry.",
 "Tests try one or two offending values per argument, in the first batch; accepting a neighbouring value silently gives plausible but wrong numbers.",
 [B,"curvlinops/fisher.py","curvlinops/gradient_moments.py","curvlinops/kfac.py","curvlinops/kfac_utils.py"],[("argument validation","curvlinops/_torch_base.py CurvatureLinearOperator.__init__, curvlinops/kfac.py KFACLinearOperator.__init__/compute_parameter_mapping, curvlinops/fisher.py, curvlinops/gradient_moments.py"),("data-dependent validation","curvlinops/fisher.py sample_grad_output, curvlinops/kfac_utils.py loss_hessian_matrix_sqrt/extract_patches, curvlinops/kfac.py _hook_accumulate_input_covariance")])
add("C28","Comparison and splitting helpers follow their entry-by-entry definition",
 "Two tensors (or arrays) are reported close if and only if they have the same shape and every entry satisfies |a - b| <= atol + rtol |b| (equal infinities are close, NaNs are not unless equal NaNs are asked for on arrays); the array version raises a ValueError otherwise, and the reported number of differing entries is exact. Splitting a list gives consecutive sub-lists of the requested sizes that together are the list, and sizes that do not add up to its length are rejected. The arguments are not modified.",
 ["inputs"],"All numerical tensors and arrays (0-d, empty, any layout, NaN, infinite), tolerances, lists and partitions.",
 "The determinism check and the documentation's verifications rest on them; a helper that is too lenient silently disables both, and tests only see a few dense examples.",
 ["curvlinops/utils.py","curvlinops/examples/utils.py"],[("closeness report","curvlinops/utils.py allclose_report, curvlinops/examples/utils.py report_nonclose"),("partition","curvlinops/utils.py split_list")])
add("C29","Repeated use and long data sets do not accumulate memory",
 "Mini-batches are streamed: during a product at most a constant number of them is alive, however many the data set has. Once a request (construction, product, gradient, property, export, estimate, or a product failing in the data loader) is finished and its result dropped, no batch, prediction, operand or result stays alive; repeating a request any number of times does not increase the number of live tensors or of entries an operator holds; and an operator is released with its last reference.",
 ["histories","configurations"],"All operators, batchings and call histories on data sources that yield fresh tensors in every traversal.",
 "Results stay correct while memory grows with every product or with the data set, which no value-based test can see.",
 [B,"curvlinops/kfac.py","curvlinops/jacobian.py","curvlinops/inverse.py","curvlinops/experimental/activation_hessian.py"],[("streaming loops","curvlinops/_torch_base.py CurvatureLinearOperator._matmat/_loop_over_data/data_prediction_loss_gradient, curvlinops/jacobian.py"),("hooks and cached factors","curvlinops/kfac.py compute_kronecker_factors, curvlinops/inverse.py KFACInverseLinearOperator, curvlinops/experimental/activation_hessian.py")])
add("C30","Kronecker-factor building blocks and random vectors meet their definitions",
 "For one datum's prediction, the loss-Hessian square root S satisfies S S^T = second derivative of the loss in the prediction, for every supported loss, reduction, number of outputs, precision and however saturated the prediction is. Patch extraction yields for every output location of a convolution exactly the inputs its kernel sees (averaged over channel groups), and averaged patches are their mean over output locations, for every kernel size, stride, padding (numbers or strings) and dilation given as numbers or pairs. Random vectors have the requested size with independent zero-mean unit-variance entries of the requested distribution. Unsupported losses, labels, shapes, unequal paddings (where they cannot be unfolded) and distributions are rejected, and the arguments are not modified.",
 ["inputs","configurations"],"All predictions, losses, convolution settings and vector sizes, including saturated predictions, string paddings with dilation, and single outputs.",
 "Every Kronecker factor and every stochastic estimate is built from these; an error in a corner (saturation, dilated 'same' padding, groups) silently scales a whole factor.",
 ["curvlinops/kfac_utils.py","curvlinops/sampling.py"],[("square root of the loss Hessian","curvlinops/kfac_utils.py loss_hessian_matrix_sqrt"),("patches","curvlinops/kfac_utils.py extract_patches, extract_averaged_patches"),("random vectors","curvlinops/sampling.py")])
add("C31","Operators used concurrently or nested do not interfere",
 "Requests (construction, products, adjoint and exported products, gradients, properties, inverses, checkpoints) on different operators give the same results whether they are made one after the other, from several threads in any interleaving, or nested, one while another operator is loading its data; this holds for operators with their own models, and for operators sharing a model and data as long as none of them attaches hooks to the model.",
 ["schedules","histories"],"All interleavings of requests on different operators, including several operators of one class with different settings.",
 "State kept per class, per module or per device works in every sequential test and corrupts results only when two computations overlap.",
 [B,"curvlinops/fisher.py","curvlinops/jacobian.py","curvlinops/kfac.py","curvlinops/experimental/activation_hessian.py","curvlinops/inverse.py"],[("per-operator state","curvlinops/fisher.py FisherMCLinearOperator._generator, curvlinops/kfac.py KFACLinearOperator.compute_kronecker_factors, curvlinops/experimental/activation_hessian.py store_activation"),("streaming loops","curvlinops/_torch_base.py CurvatureLinearOperator._matmat, curvlinops/jacobian.py")])
add("C32","Optional arguments left out take their documented defaults",
 "For every public constructor, setter, estimator, spectrum function and comparison helper, leaving out optional arguments has exactly the effect of passing their documented default values, whatever values the other arguments have and whatever settings were made earlier, and optional arguments mean the same by keyword and in their documented position. In particular, by default nothing is printed, non-deterministic models or data are rejected, sampling uses the documented seed and one sample per datum, inverses are cached, and solvers, estimators and spectral densities use the documented tolerances, terms, distributions, resolutions, margins and shifts.",
 ["inputs","configurations","histories"],"All subsets of omitted arguments, all values of the remaining ones, all earlier settings of the same object.",
 "Tests pass most options explicitly, or use defaults on problems where their values make no difference.",
 [B,"curvlinops/hessian.py","curvlinops/ggn.py","curvlinops/fisher.py","curvlinops/kfac.py","curvlinops/jacobian.py","curvlinops/gradient_moments.py","curvlinops/inverse.py","curvlinops/papyan2020traces/spectrum.py","curvlinops/utils.py"],[("operator defaults","constructors of the curvature operators"),("solver defaults","curvlinops/inverse.py set_cg_hyperparameters/set_lsmr_hyperparameters/set_neumann_hyperparameters, KFACInverseLinearOperator.__init__"),("estimation defaults","curvlinops/trace, curvlinops/diagonal, curvlinops/norm, curvlinops/papyan2020traces/spectrum.py")])
add("C33","Realistic sizes: exact products without ever forming the matrix",
 "For models of realistic size (thousands of parameters, wide, deep, convolutional or sequence-shaped, tens of batches, a dozen classes, tens of columns) every curvature operator's products, gradients, losses, exports and Kronecker-factored properties are as exact as for tiny ones, whatever the magnitude of the factors (in particular the log-determinant stays finite and exact where the determinant over- or underflows). No curvature operator, solver, estimator, spectral method, submatrix or structured operator ever forms the matrix it represents: no intermediate result is on the order of the squared dimension, and memory grows linearly with the dimension for a fixed number of columns.",
 ["inputs","configurations"],"All model sizes, batchings, numbers of classes and columns, operator kinds, dimensions of wrapped operators.",
 "Tests compare with dense matrices and therefore use tiny models; forming the matrix, or an error that shows only from a certain size on, passes them all.",
 [B,"curvlinops/hessian.py","curvlinops/ggn.py","curvlinops/fisher.py","curvlinops/jacobian.py","curvlinops/kfac.py","curvlinops/inverse.py","curvlinops/submatrix.py","curvlinops/outer.py","curvlinops/papyan2020traces/spectrum.py"],[("matrix-free products","_matmat_batch of every operator in curvlinops/_torch_base.py subclasses"),("Kronecker products","curvlinops/kfac.py KFACLinearOperator._torch_matmat, KFACInverseLinearOperator._matmat"),("factored properties","curvlinops/kfac.py trace, det, logdet, frobenius_norm"),("solvers and estimators","curvlinops/inverse.py, curvlinops/trace, curvlinops/diagonal, curvlinops/norm")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))
