import json, os
O = {
"C01": "reference Hessian by double backward per datum, restricted to the within-block entries; symmetric to the same tolerance.",
"C02": "J^T H J from per-datum Jacobian and loss Hessian w.r.t. the prediction; symmetry, and positive semi-definiteness for convex losses.",
"C03": "outer products of per-term gradients (hand-derived gradient of each un-reduced loss term); rank and semi-definiteness.",
"C04": "(a) decoding: for small problems with full-row-rank Jacobian, all label multisets are enumerated and the observed matrix must be explained by exactly one valid assignment; (b) range and rank for the rest; (c) frequencies of labels, joint frequencies of pairs of data/terms/draws over hundreds of seeds, moments for Gaussian labels, mean against the GGN; (d) columns, repeats, seeds, and global random state.",
"C05": "stacked per-datum Jacobians in presentation order; all four of J, J^T, their adjoints, chains; shapes; adjoint pairing.",
"C06": "value and gradient of the reference risk; shapes, order, dtype, no graph, no aliasing with p.grad; rejection without a loss.",
"C07": "one identity product defines the matrix; every other format must agree with it, plus linearity, adjoint pairing; malformed operands must raise ValueError with no event in the data log.",
"C08": "the represented matrix (from the PyTorch side) times the exact operand; result dtype, memory ownership, operand bitwise unchanged.",
"C09": "bitwise snapshots of everything the user owns around each request; storage-overlap test between results, operands, parameters, buffers, data and earlier results; overwriting results and operands, then repeating.",
"C10": "matrix of a fresh operator on a deep copy of the model in its current state (for KFAC: its state when factors were first needed); bitwise repeat.",
"C11": "the specification itself: the injected noise's site and magnitude determine whether construction must raise; logs decide whether anything was evaluated when the check is disabled.",
"C12": "fault enumeration: a counting run numbers every point where user code runs, then one run per point raises there; exception must propagate, hooks/state as before, retry and other requests equal undisturbed results.",
"C13": "explicit factors from per-datum patches and explicit loss-Hessian square roots; exactness cases against the exact GGN blocks; off-block entries exactly zero.",
"C14": "factors are extracted from products, the input factor compared with the seed-free reference, the labels decoded from the last layer's factor and propagated to all layers; label law, pair law, Gaussian moments and ranks over seeds; expectation against the exact factor.",
"C15": "eigenvalues of the observed dense matrix and of the reference; every order of requests, before/after products and loads.",
"C16": "dense inverse of the damped reference blocks for each damping definition; parameters, caching, repeat, formats; inadmissible combinations raise.",
"C17": "products and scalars of the saved operator; data log counts (saved factors are not recomputed); snapshots of operator and model around rejected loads.",
"C18": "residual at the configured tolerance against recorded iterates, dense Krylov references for iteration-limited solves, damped normal equations and LSMR's own stopping certificates, exact truncated Neumann series; logs of callback/preconditioner use.",
"C19": "dense fancy indexing after each step of a history.",
"C20": "dense sum of outer products; idempotence, basis and complement.",
"C21": "recorded probe products: formula per sample, product count, support, frequencies, freshness, independence across calls and estimators.",
"C22": "recorded probe products: basis probes, orthonormal basis, projected probe reconstructed; each sample recomputed; product counts; law and freshness; exactness when the range is captured.",
"C23": "start vectors recorded from products; own fully re-orthogonalised Lanczos and quadrature; grids, boundaries, caching (product counts), non-negativity, mass.",
"C24": "second derivative of the loss w.r.t. an additive perturbation of exactly that tensor; hooks and state snapshots, also when model or loss raise.",
"C25": "offline checker of a trace specification over logs of traversals, items, forward passes and losses; data sources whose items change between traversals reveal stale/skipped batches.",
"C27": "table of documented exceptions per setting; snapshots of model, parameters and random states around each rejection; a supported relative of the setting must give a finite product of the right shape.",
"C28": "plain loop over the entries; entries within rounding of the tolerance give no verdict; printed counts parsed.",
"C29": "weak references to every batch, prediction, operand and result (PyTorch keeps a tensor's Python object alive as long as anything, including an autograd graph, refers to it), counts of live tensors and of entries in the operator's containers over repetitions.",
"C30": "closed-form loss Hessians in double precision, PyTorch convolutions with random weights, moment tests; plain rejection oracle.",
"C31": "the same requests made one after the other on identical operators (whose correctness C01-C24 decide); a seeded scheduler moves control between threads at mini-batches, model calls and library lines, so that every interleaving can be replayed.",
"C32": "the same call with every documented default passed explicitly (a metamorphic relation: both calls run the same code), compared bit for bit in values, products asked of the operand, data passes, tensor operations, warnings, printed text and exceptions; a control call with another value shows which arguments the compared outcome depends on.",
"C33": "directional derivatives of the whole risk by double backward, per-datum sums, and independently computed Kronecker factors applied factor by factor (never a dense matrix); closed-form actions for NumPy operators; a tensor-size watch on every dispatched operation and a memory tracer decide that nothing of the order of the squared dimension is allocated.",
"C26": "references as in C01-C06 on the whole data set; model state snapshots.",
}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(O, open(os.path.join(root, "tools/design_oracles.json"), "w"), indent=1)
