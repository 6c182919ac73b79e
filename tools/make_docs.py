#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS, TYPE, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
CP, NCP, NTK, TUC = ['tensorD/factorization/%s.py' % n for n in ('cp', 'ncp', 'ntucker', 'tucker')]
ENV, PITF, PNP = ['tensorD/factorization/%s.py' % n for n in ('env', 'pitf', 'pitf_numpy')]
PO, PN = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py'
READ, GEN = 'tensorD/dataproc/reader.py', 'tensorD/demo/DataGenerator.py'
FIVE = [CP, NCP, NTK, TUC]

P = [
    ('C01', 'Unfolding and folding are mode-n matricization and its inverse',
     'Unfolding a tensor of any order along mode n gives the matrix whose entry (i_n, j) is the tensor entry with j = sum over k != n of i_k times the '
     'product of the sizes of the earlier modes other than n (Kolda ordering). Folding that matrix with the same mode and the original shape returns the '
     'original tensor, and unfolding a folded matrix returns the matrix, for every mode, shape and dtype.',
     ['inputs'], 'every order >= 1, shape (singleton modes included), mode and dtype',
     'Tests unfold and fold one or two fixed 3-way tensors.', [OPS],
     [('_gen_perm / unfold', 'ops.unfold'), ('fold', 'ops.fold')]),
    ('C02', 'General matricization and vectorization place each entry where asked',
     'Matricizing a tensor by lists of row axes and column axes gives the matrix in which the listed order of the axes decides the position of each entry, '
     'the first listed axis varying slowest; the column axes may be inferred as all remaining axes in order, axes may be given as integer, list or tuple. '
     'Vectorizing and turning a vector back into a tensor of the same shape are inverse to each other.',
     ['inputs'], 'every order, shape and split of a permutation of the axes into rows and columns',
     'Tests use one 3-way tensor and a few axis lists.', [OPS], [('t2mat', 'ops.t2mat'), ('vectorize / vec_to_tensor', 'ops.vectorize, ops.vec_to_tensor')]),
    ('C03', 'Hadamard, Kronecker and Khatri-Rao products of a matrix list',
     'The products of a list of matrices equal the mathematical Hadamard, Kronecker and Khatri-Rao (column-wise Kronecker) product of the matrices in list '
     'order. Matrices named to be skipped (one index or several, in any order) take no part, and with reversal the remaining ones are multiplied in reverse order.',
     ['inputs'], 'every list of matrices with shapes that fit, every set of skipped indices, both directions',
     'Tests multiply a few fixed small matrices.', [OPS], [('_skip', 'ops._skip'), ('products', 'ops.hadamard, ops.kron, ops.khatri')]),
    ('C04', 'Mode products multiply exactly the requested modes',
     'The product of a tensor with matrices along modes equals the mathematical n-mode product: the k-th matrix acts on the k-th mode, or on the k-th axis of '
     'the given axis list, or, when modes are skipped, on every mode but those; with transposition every matrix is applied transposed. All other modes stay in '
     'place and unchanged, and giving both an axis list and skipped modes is refused with ValueError.',
     ['inputs'], 'every order, shape, axis list, skip list and transposition',
     'Tests use a few fixed 3-way tensors.', [OPS], [('ttm', 'ops.ttm')]),
    ('C05', 'Tensor contraction and inner product',
     'Contracting two tensors over paired axes gives the tensor of sums over the paired indices, with the free axes of the first tensor followed by those of the '
     'second, in order, for axes given as integer, list or tuple and paired in any order. The inner product of two tensors of equal shape is the sum of the '
     'products of their entries; tensors of different shape are refused with ValueError.',
     ['inputs'], 'every pair of tensors with matching contracted sizes, every pairing of axes; shape mismatches',
     'Tests contract two fixed tensors.', [OPS], [('mul', 'ops.mul'), ('inner', 'ops.inner')]),
    ('C06', 'Operations neither change their arguments nor remember earlier calls',
     'No tensor operation, loss or extraction modifies the arrays, lists of matrices, axis lists, skip lists or shapes it is given. The result of a call depends '
     'only on its arguments, whatever calls on the same objects came before.',
     ['histories', 'inputs'], 'every sequence of calls that share argument objects',
     'Tests make each call once on fresh arguments.', [OPS, TYPE, LOSS], [('argument handling', 'ops._skip, ops.t2mat, ops.mul, ops.ttm; type.DTensor')]),
    ('C07', 'A DTensor behaves like the array it wraps',
     'Every method of a DTensor (unfold, fold, t2mat, vectorize, contraction, Kronecker and Khatri-Rao product, +, -, *, indexing, shape, evaluation) gives what the '
     'same operation gives on the wrapped array, with DTensor, tf.Tensor, array or scalar operands as admitted. This holds for any sequence of calls on any number '
     'of objects: no call changes what a later call on the same or another object returns.',
     ['programs', 'histories'], 'every program of DTensor operations over a pool of tensors',
     'Tests call each method once.', [TYPE], [('DTensor', 'type.DTensor')]),
    ('C08', 'Kruskal and Tucker tensors extract to the tensor they denote',
     'Extracting a Kruskal tensor gives the sum over components of weight times the outer product of the factor columns (weights all one when absent), and '
     'extracting a Tucker tensor gives the core multiplied by each factor along its mode. This holds for every order, rank, mode size and for factors, weights '
     'and cores given as arrays or tensors, in the precision they are given in.',
     ['inputs'], 'every order, rank, shape, weight form and input kind', 'Tests extract one or two fixed examples.', [TYPE],
     [('KTensor.extract', 'type.KTensor'), ('TTensor.extract', 'type.TTensor')]),
    ('C09', 'Losses are the stated norms and refuse tensors of different shape',
     'The l2 loss is half the sum of squared differences; RMSE is the root of the mean squared difference over all entries; the zero-ignoring RMSE is the root of '
     'the squared differences summed over the non-zero entries of the first tensor and divided by their number. Both RMSE losses raise TensorErr for tensors of different shape.',
     ['inputs'], 'every pair of tensors of one shape, any sparsity and magnitude; every pair of different shapes',
     'Tests evaluate fixed examples.', [LOSS], [('losses', 'loss.l2, loss.rmse, loss.rmse_ignore_zero')]),
    ('C10', 'TensorReader returns exactly the entries of the file',
     'Reading a csv or txt file of index-value lines gives a sparse and a dense tensor holding exactly the listed values at the listed positions and zero '
     'elsewhere, for entries in any order. The shape is the one given, or the smallest that holds all entries; a later read reflects the file as it is then, and a file with another extension is refused with ArgumentError.',
     ['inputs', 'histories'], 'every set of entries, number format, line order, layout and shape argument',
     'The repository test needs a file that is not there.', [READ], [('TensorReader.read', 'reader.TensorReader')]),
    ('C11', 'A trained model describes one iterate',
     'After training of any of the five decompositions, the full tensor equals the reconstruction from the reported factors and core or weights, and the last history '
     'entry holds its RMSE over the non-zero data and its relative residual. This holds whatever the number of steps, logging options, tolerance, early stopping or earlier trainings.',
     ['inputs', 'configurations', 'histories'], 'every data tensor, rank, step count, logging interval and tolerance of CP_ALS, NCP_BCU, NTUCKER_BCU, HOSVD, HOOI',
     'Tests only run the models and print.', FIVE + [TYPE, LOSS], [('train loops', 'factorization/*.py train')]),
    ('C12', 'predict answers with the entry of full, and refuses before training',
     'Before training, predict raises TensorErr; after training, predict at any position returns exactly the entry of the full tensor of the latest training at that position.',
     ['inputs', 'histories'], 'every decomposition, position and call order of build, train and predict', 'Tests never call predict.', FIVE,
     [('predict', 'factorization/*.py predict')]),
    ('C13', 'HOSVD truncates every mode to its leading singular subspace',
     'Every factor of HOSVD has orthonormal columns that are leading left singular vectors of the unfolding of the data along its mode, the core is the data multiplied by the '
     'transposed factors, and the full tensor is the projection of the data. Its error lies between the largest mode-wise singular tail and the root of the sum of all squared tails, '
     'so data of the requested multilinear rank is reproduced.',
     ['inputs'], 'every data tensor and admissible ranks', 'Tests run one example and print.', [TUC, OPS], [('HOSVD.build_model', 'tucker.HOSVD')]),
    ('C14', 'HOOI starts from HOSVD and makes optimal mode-wise updates',
     'Each step of HOOI replaces the factors mode by mode, in order, by the leading left singular vectors of the data projected with the newest other factors, starting '
     'from the HOSVD factors; factors are orthonormal and the core is the projected data. Hence the relative residual never rises and never exceeds that of HOSVD.',
     ['inputs', 'histories'], 'every data tensor, ranks and number of steps', 'Tests run one example and print.', [TUC, OPS], [('HOOI.build_model', 'tucker.HOOI')]),
    ('C15', 'CP_ALS sweeps are least-squares updates with normalised columns',
     'Each step of CP_ALS updates the factors mode by mode, each to the least-squares solution given the newest other factors, with columns scaled so that their largest magnitude '
     'is one and the non-negative weights holding the scale of the last update. Hence after each step no other choice of the last factor fits better, and the residual does not rise '
     'while the normal equations are well conditioned.',
     ['inputs', 'histories'], 'every data tensor (any signs), rank (above mode sizes too) and number of steps', 'Tests run one example and print.', [CP, OPS],
     [('CP_ALS.build_model', 'cp.CP_ALS'), ('_pinv', 'cp._pinv')]),
    ('C16', 'NCP_BCU stays non-negative and follows its block coordinate update',
     'On non-negative data every factor of NCP_BCU is finite and non-negative after every step. Each step updates the factors mode by mode with a projected gradient step of '
     'size one over the spectral norm of the Gram product, from the extrapolated previous iterate; the extrapolation weight follows the FISTA sequence limited by the ratio of step '
     'sizes, and after a step that did not lower the objective the next one starts from the last accepted iterate.',
     ['inputs', 'histories'], 'every non-negative data tensor, rank and number of steps', 'Tests run one example and print.', [NCP, OPS],
     [('update ops', 'ncp.NCP_BCU.build_model'), ('accept/restart', 'ncp.NCP_BCU.train')]),
    ('C17', 'NTUCKER_BCU stays non-negative and follows its block coordinate update',
     'On non-negative data the core and every factor of NTUCKER_BCU are finite and non-negative after every step. Each step updates first the core, then the factors mode by mode, '
     'each with a projected gradient step of size one over its Lipschitz constant from the extrapolated previous iterate; the extrapolation weight follows the FISTA sequence '
     'limited by the ratio of step sizes, and after a step that did not lower the objective the next one starts from the last accepted iterate.',
     ['inputs', 'histories'], 'every non-negative data tensor, ranks and number of steps', 'Tests run one example and print.', [NTK, OPS],
     [('update ops', 'ntucker.NTUCKER_BCU.build_model'), ('accept/restart', 'ntucker.NTUCKER_BCU.train'), ('Lipschitz constants', 'ops.max_single_value_mul')]),
    ('C18', 'Training stops exactly when the stopping criteria say so',
     'An iterative decomposition runs the requested number of steps unless the relative residual falls below tol, or the objective changed by less than tol relative to one plus the '
     'reference objective in three consecutive steps; then it stops at that step and not later. The reference objective is the previous one (CP_ALS, HOOI) or the best '
     'accepted one (NCP_BCU, NTUCKER_BCU), and the history holds one entry per step run.',
     ['inputs', 'configurations'], 'every data tensor, step limit and tolerance', 'Tests use the default tolerance and do not look at the history.', FIVE,
     [('stopping test', 'train loops of cp, ncp, ntucker, tucker')]),
    ('C19', 'A result depends on data, arguments and seed only',
     'Training a model gives the same result whatever other models were built or trained before or in between, in the same or another graph, and repeating a training repeats '
     'its result. Building and training change neither the data array nor the argument lists nor the results of other models.',
     ['histories', 'configurations'], 'every interleaving of building and training several models', 'Tests use one model per process or graph and train once.', FIVE + [ENV],
     [('sessions and graphs', 'env.Environment.sess; build_model'), ('own summaries', '_sum_op')]),
    ('C20', 'Logging never influences results and records the logged steps exactly',
     'validation_internal, verbose and the summary path do not change the result of training. The summary written holds the loss and relative residual of exactly the first step, '
     'the last requested step, every multiple of validation_internal and, if verbose, every step that was run, with the values of the history, and nothing of other models; HOSVD records its loss once.',
     ['configurations', 'histories'], 'every combination of logging options, steps, tolerance and neighbouring models', 'Tests never read a summary.', FIVE,
     [('logging branch', 'train loops'), ('FileWriter', 'train loops')]),
    ('C21', 'PITF sampling operators and their adjoints',
     'The sampling operators of both PITF modules return, for sample i, the matrix entry at the two sampled indices of its pair of modes divided by the root of the size of the third mode, '
     'the tensor entry, and the sum of the three; the adjoint operators add each sample to its matrix entry, so that they are adjoint up to that factor, repeats included. Centralization '
     'removes column means, generated matrices satisfy the zero (A: equal) column-sum constraints with the requested rank, and sample lists are drawn evenly and independently from the whole tensor.',
     ['inputs'], 'every third-order shape, sample list (with repeats), matrices and vectors, TensorFlow and numpy version', 'Tests print results or use one example.', [PO, PN],
     [('operators', 'Pomega_mat, Pomega_tensor, Pomega_Pair, adjoint_operator'), ('generators', 'sample3D_rule, subspace, sample_rule4mat, centralization')]),
    ('C22', 'Shrinkage and cone projection are the proximal maps PITF needs',
     'Shrinking a matrix removes its column means and soft-thresholds the singular values of the rest; the complicated mode adds the soft-thresholded mean component. Singular value '
     'thresholding returns orthogonal factors that reproduce this, cone projection returns the nearest point of the second-order cone, and the TensorFlow and numpy versions agree.',
     ['inputs'], 'every matrix, threshold >= 0, vector and height', 'Tests print results.', [PO, PN], [('shrink, SVT, cone_projection_operator', 'pitf_ops.py, pitf_ops_numpy.py')]),
    ('C23', 'PITF recovery iterates on one fixed sample',
     'Both recovery procedures keep one sample list per training and repeat: shrink the three adjoint images of the dual vector, subtract their samples from the sampled data, add delta times '
     'the residual to the dual vector; they report per step the error rate (one at the first step) and the RMSE of the residual. For step sizes within the stability bound the '
     'error rate never rises; the numpy version returns the final dual vector, the three matrices and one record per step.',
     ['inputs', 'histories'], 'every tensor, sample, step size, threshold and number of steps', 'Tests run one example and print.', [PITF, PNP, PO, PN],
     [('iteration', 'pitf.PITF, pitf_numpy.PITF_np.exact_recovery')]),
    ('C24', 'Synthetic data has the requested shape, rank, sign and noise',
     'Synthetic CP and Tucker data has the requested shape, is finite and non-negative, and without noise has at most the requested CP or multilinear rank, reaching it in every mode whose '
     'sizes leave room for it, with entries a product of factors in [0, 1] can have. The noise added for a given seed is non-negative, of the order of the requested level, and proportional to it.',
     ['inputs'], 'every shape, rank, noise level and seed', 'No test covers the generator.', [GEN, TYPE], [('generators', 'DataGenerator.synthetic_data_cp, synthetic_data_tucker')]),
    ('C25', 'Fast products used by the updates',
     'xcb of a third-order tensor X and matrices C, B equals the mode-0 unfolding of X times the Khatri-Rao product of C and B, zeros in X included. The product of maximal singular '
     'values of a list of matrices equals the product of their spectral norms, without those skipped.',
     ['inputs'], 'every shape, rank, sparsity and skip list', 'Tests use one example.', [OPS], [('xcb', 'ops.xcb'), ('max_single_value_mul', 'ops.max_single_value_mul')]),
    ('C26', "Data of the model's own rank is recovered",
     'HOSVD and HOOI reproduce data of the requested multilinear rank, and CP_ALS, NCP_BCU and NTUCKER_BCU of rank one reproduce rank-one data (non-negative for the latter two) after at most two '
     'sweeps, at any scale and order.',
     ['inputs'], 'every exactly representable tensor, scale, shape and seed', 'Tests fit data but do not check the fit.', FIVE, [('updates', 'build_model of the five classes')]),
    ('C27', 'Decompositions commute with rescaling and relabelling the data',
     'Multiplying the data by a constant multiplies the full tensor and the RMSE by it and leaves the relative residuals unchanged, for every decomposition, from the same seed, with tol 0 '
     '(positive constants; negative ones too for HOSVD, HOOI and CP_ALS). The non-negative decompositions share the scale evenly among their blocks. Permuting the modes (HOSVD) or the indices of a mode (HOSVD, HOOI) permutes the result.',
     ['inputs'], 'every data tensor, constant, permutation and rank without a singular-value tie at the cut', 'Metamorphic relations between runs are not tested.', FIVE,
     [('initial scaling, reference objective', 'build_model and train of the five classes')]),
    ('C28', "A model's life cycle: nothing before, finished after, usable after failure",
     'Before training, a model shows no full tensor, factors, core or weights. It reports train_finish after a training that completed, and neither before, nor while '
     'a training runs, nor after one that failed or was interrupted. A failure inside a training reaches the caller unchanged, and a later training of the same model gives what it '
     'would have given without the failure.',
     ['histories', 'fault_sequences'], 'every sequence of completed and interrupted trainings, every session call at which a failure strikes',
     'No test trains twice or lets a training fail.', FIVE + [ENV], [('state flags', '_is_train_finish and result attributes in train'), ('session per training', 'env.Environment.sess')]),
    ('C29', 'A longer training begins like a shorter one',
     'Training an iterative decomposition for more steps from the same seed begins with the very steps of a shorter training: the history of the shorter one is the beginning of the longer '
     'one, its result is the state the longer one has after as many steps, and if the shorter one met a stopping criterion the longer one ends there too.',
     ['histories', 'configurations'], 'every data tensor, rank, pair of step counts, tolerance and logging interval', 'No test compares two trainings.', FIVE,
     [('train loops', 'factorization/*.py train')]),
    ('C30', 'Trainings that overlap in time do not influence one another',
     'Models built and trained at the same time in several threads, in graphs of their own, or only trained at the same time in one graph, each give the result they give alone, '
     'in whatever order the threads advance and whether or not they share data, environment or argument objects.',
     ['schedules'], 'every interleaving, at session calls and library function calls, of two or three trainings', 'Tests train one model at a time.', FIVE + [ENV],
     [('state kept in the model', 'factorization/*.py build_model, train'), ('sessions', 'env.Environment.sess')]),
    ('C31', 'Results depend on the values of the data, not on their form',
     'A decomposition gives the same result for the same values given as any numeric type that holds them exactly, in any memory layout or byte order, as one array or a fresh copy at '
     'every request, and for the values written to a csv or txt file and read back with TensorReader.',
     ['inputs', 'configurations'], 'every data tensor exact in single precision and every form of it', 'Tests give one contiguous float array; none feeds file data to a model.', FIVE + [ENV, READ],
     [('data intake', 'env.Environment.full_data, full_shape; build_model placeholders'), ('TensorReader.read', 'reader.TensorReader')]),
    ('C32', 'The conventions of the operators fit together',
     'The identities of multilinear algebra hold between the operators: the unfoldings of Kruskal and Tucker tensors are the factor times the reversed Khatri-Rao or Kronecker product of the others, '
     'mode products commute in different modes and compose in one, and vectorization, matricization, contraction, inner product and the matrix products agree with one another.',
     ['inputs', 'programs'], 'every order, shape, mode, split of the modes and rank', 'Tests check operators one at a time against fixed numbers.', [OPS, TYPE],
     [('operators', 'ops.unfold, fold, t2mat, vectorize, mul, ttm, inner, hadamard, kron, khatri'), ('KTensor, TTensor', 'type.KTensor.extract, type.TTensor.extract')]),
    ('C33', 'Operators are graph nodes with known shapes and exact gradients',
     'The operators, tensor types and losses build ordinary TensorFlow graphs: the static shape and type of a result are those of its value, a graph gives the right values for '
     'whatever is fed to it and however often it is run, and automatic differentiation of a result with respect to each argument gives the exact derivative.',
     ['inputs', 'histories'], 'every operator and argument it depends on, shape, value, and order of runs', 'Tests evaluate constants once and never differentiate, so a model trained by gradients through the operators is unseen.',
     [OPS, TYPE, LOSS, PO], [('operators', 'ops.unfold .. ops.max_single_value_mul'), ('tensor types', 'type.DTensor, KTensor.extract, TTensor.extract'), ('losses', 'loss.l2, rmse, rmse_ignore_zero')]),
    ('C34', 'Calls that do not fit are refused, never answered',
     'A call whose sizes, modes, ranks or positions do not fit together raises an exception when the graph is built or run, and leaves later calls as they were. This holds for: a mode the tensor has '
     'not (unfold, fold, t2mat, mul, ttm, as functions and as DTensor methods); a number of entries that does not fill the shape (fold, vec_to_tensor); a mode left out or repeated (t2mat); '
     'contracted or multiplied sizes that differ pair by pair, 1 included, and axis lists of different length (mul, ttm, Tucker core and factors); column numbers that differ, 1 included (khatri, Kruskal factors and weights); operands of '
     'hadamard or of DTensor arithmetic whose shapes do not broadcast; operands of kron that are no matrices; a number of matrices other than that of the axes (ttm with axis); more Tucker factors than core modes; shapes that differ at all (inner, '
     'rmse, rmse_ignore_zero); sample positions or file positions outside the shape, and non-numbers in a file; for decompositions: too few or fractional ranks, arguments of a CP model for a Tucker model and '
     'vice versa, training before build_model, predict outside the tensor or with too many indices.',
     ['inputs'], 'every operator, tensor type, loss, reader and decomposition, every fitting call and every way listed to spoil it', 'Tests only make fitting calls.', [OPS, TYPE, LOSS, READ] + FIVE,
     [('explicit checks', 'ops.inner, ops.ttm, loss.rmse, assert isinstance in build_model'), ('size checks of the TensorFlow nodes used', 'base/ops.py, base/type.py')]),
    ('C35', 'What a training prints and files is what happened',
     'A training prints, in order and once each, a line for every step whose loss it records (first, last requested, every multiple of validation_internal, and with verbose every step; PITF ignores '
     'verbose, PITF_np prints every step) with its number and the values the history, summary or returned records hold for it, and at the end one closing line with the number of steps run and the RMSE reached (HOSVD '
     'and PITF: without the number; PITF: also the error rate). PITF_np writes each step its dual vector and sampled estimate to np_y.txt and np_e2.txt, as they were.',
     ['inputs', 'histories'], 'every decomposition and PITF procedure, data, number of steps, logging options, early stops and repeated trainings', 'Tests print and never look at what was printed.', FIVE + [PITF, PNP],
     [('step and closing lines', 'train of CP_ALS, NCP_BCU, NTUCKER_BCU, HOSVD, HOOI, PITF; PITF_np.exact_recovery'), ('files', 'PITF_np.exact_recovery')]),
]

NOTES = {
    'C15': 'Float32 normal equations: sweeps are compared only where the Khatri-Rao factor has condition below about 70; the first sweep only at its last mode.',
    'C16': 'The extrapolation weight of step 3 depends on the unobservable start and is left free; decisions within rounding of a tie accept both branches.',
    'C17': 'The extrapolation weight of step 3 depends on the unobservable start and is left free; decisions within rounding of a tie accept both branches.',
    'C18': 'Decisions within float32 rounding of the tolerance are accepted either way.',
    'C23': 'PITF (TensorFlow) exposes only summaries; its iteration is replayed when the sample list can be handed to it through pitf_ops.sample3D_rule, else checked by invariants.',
    'C27': 'Truncations at a singular-value gap below 3% are not compared (counted in the evidence labels).',
}

TECH = {
    'C06': 'property-based testing: generated call histories, arguments and results compared with pristine calls',
    'C07': 'stateful property-based testing against a NumPy model',
    'C10': 'property-based testing: generated files against a parsed reference, re-read after replacement',
    'C11': 'property-based testing: coherence invariant over generated trainings',
    'C12': 'property-based testing of generated call orders',
    'C14': 'property-based testing: every step of generated trainings against a reference sweep',
    'C15': 'property-based testing: every step of generated trainings against a float64 ALS reference',
    'C16': 'model-based property testing: generated trainings replayed step by step in a reference model',
    'C17': 'model-based property testing: generated trainings replayed step by step in a reference model',
    'C18': 'property-based testing: the stop rule replayed over generated training histories',
    'C19': 'stateful property-based testing: interleavings of several models against their first/lone result',
    'C20': 'property-based testing: differential over logging options plus event-file read-back',
    'C23': 'model-based property testing: generated recoveries replayed in a float64 reference, monotonicity invariant',
    'C26': 'property-based testing: exact recovery round-trip',
    'C27': 'metamorphic property-based testing',
    'C28': 'stateful property-based testing with injected faults in session calls',
    'C29': 'differential property-based testing of two trainings',
    'C30': 'property-based testing over generated thread schedules (deterministic scheduler), against the lone model',
    'C31': 'metamorphic property-based testing: the same data in generated forms',
    'C32': 'metamorphic property-based testing: algebraic identities over generated tensors',
    'C34': 'property-based testing: generated fitting calls spoiled in one place, exception as oracle, fitting call as control',
    'C35': 'property-based testing: printed lines and files of generated trainings against their history and records',
    'C33': 'property-based testing: directional derivatives and re-runs of generated graphs against the forward operator',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for i, title, stmt, over, text, why, files, mech in P:
            assert len(title) <= 80, title
            f.write(json.dumps(dict(id=i, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='python3 harness/run.py --self-test', checks=[], not_applicable=[],
               notes='All checks: python3 harness/run.py <ID>; Hypothesis strategies in harness/props, oracles in NumPy float64; 8 workers. '
                     'No hooks in /repo.')
    for i, title, *_ in P:
        man['checks'].append(dict(
            property=i, quick_cmd='python3 harness/run.py %s --tier quick' % i, thorough_cmd='python3 harness/run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'property-based testing (Hypothesis) against a NumPy reference'), level='exploration',
            level_note='Holds on the generated cases counted in the evidence; trusts NumPy/LAPACK as reference and stated float tolerances. ' + NOTES.get(i, '')))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
