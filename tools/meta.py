# One entry per property; tools/gen_meta.py turns this into properties.jsonl and MANIFEST.json
T_ASAN = 'real code under ASan+UBSan (debug and release builds), '
NOTE = 'Holds on every case the seeded workload generated; the oracle is independent of the code. '
P = [
dict(id='P01', title='Matrices keep their contents and shape across any history of operations',
 statement='For any history of creating, resizing, deforming, viewing, cloning, moving, filling and comparing matrices, every element a user can read equals what the operations performed so far dictate, the bias column of a matrix that has one reads as ones, and the reported sizes and flags agree with the storage. No operation reads or writes outside the storage a matrix owns or was given, and none leaks or double-frees it. An operation that reports failure leaves its operands usable.',
 over=['histories', 'inputs', 'configurations'], qtext='every sequence of public matrix operations, element type, size (incl. zero, one and single row/column), bias flag, storage owner and batch layout',
 why='The four tests touch a few fixed matrices; they never build histories, deformed or external-storage matrices, or watch memory.',
 files=['nntl/interface/math/smatrix.h'], mech=[('smatrix', 'nntl/interface/math/smatrix.h'), ('smatrix_deform', 'nntl/interface/math/smatrix.h')],
 technique=T_ASAN + 'shadow-model monitor checked after every operation of random matrix histories',
 note=NOTE + 'Sizes up to about 40x40; MSVC-specific behaviour not observed.'),
dict(id='P02', title='Matrix predicates, index maps and ranges are exact',
 statement='Every question a user can ask about matrix data (is it all zeros, all ones, binary, free of non-finite values, equal, strictly within bounds, are the biases intact) is answered as the elements themselves dictate, for any shape, stride and element value. Conversions between linear and (row, column) or triangular coordinates are bijections, and row, column and item ranges cover exactly the elements they name.',
 over=['inputs', 'configurations'], qtext='every vector/matrix content incl. NaN, infinities, signed zero and denormals, every shape, stride and range',
 why='Existing tests sample one or two matrices per predicate; corner shapes and hostile values are not reached.',
 files=['nntl/interface/math/smatrix.h', 'nntl/interface/threads/parallel_range.h'], mech=[('predicates and triangular index maps', 'nntl/interface/math/smatrix.h'), ('par_range', 'nntl/interface/threads/parallel_range.h')],
 technique=T_ASAN + 'independent recomputation of every predicate and index map on hostile inputs',
 note=NOTE + 'Vectors up to a few hundred elements.'),
dict(id='P03', title='The thread pool hands out every item exactly once and returns only when done',
 statement='For any item count, requested thread count and timing, a parallel run visits every item of the range exactly once, in contiguous pieces with distinct worker numbers below the advertised number of workers, and returns only after all pieces are finished and their effects are visible to the caller. A parallel reduction combines exactly one value per piece and nothing else.',
 over=['schedules', 'inputs', 'histories'], qtext='every interleaving of workers and caller, item count, number of workers, requested threads, and sequence of jobs given to one pool',
 why='No test uses the pool; the guarantee is about all schedules.',
 files=['nntl/interface/threads/workers.h', 'nntl/interface/threads/parallel_range.h'], mech=[('Workers/WinQDU run()/reduce()', 'nntl/interface/threads/workers.h'), ('worker loop', 'nntl/interface/threads/workers.h')],
 technique='exactly-once / happens-before trace monitor over pool jobs under ASan, UBSan and ThreadSanitizer with injected delays',
 note=NOTE + 'Schedules are sampled (delays injected at 13 synchronization points), not enumerated; the SRW locks and condition variables of Windows are stood in for by pthread equivalents.'),
dict(id='P04', title='Pools, background workers and locks live and die cleanly',
 statement='Creating, using and destroying thread pools and background worker groups never deadlocks, hangs, loses a wakeup or races, for any timing, and destruction returns only once every thread has ended. Background tasks run as long as they report work, are called again after each wakeup request or wait timeout, and never run concurrently with themselves. Locks exclude, condition waits report timeouts truthfully, and a priority change is undone even when part of it fails.',
 over=['schedules', 'histories', 'fault_sequences'], qtext='every interleaving of creation, work, wakeups and destruction; injected failures of the priority calls',
 why='No test starts a thread; lost wakeups need a particular interleaving.',
 files=['nntl/interface/threads/workers.h', 'nntl/interface/threads/bgworkers.h', 'nntl/interface/threads/_sync_primitives.h', 'nntl/interface/threads/prioritize_workers.h'], mech=[('~Workers', 'nntl/interface/threads/workers.h'), ('BgWorkers', 'nntl/interface/threads/bgworkers.h'), ('sync primitives', 'nntl/interface/threads/_sync_primitives.h'), ('prioritize_workers', 'nntl/interface/threads/prioritize_workers.h')],
 technique='lifecycle/wakeup trace monitor with watchdog under ASan and ThreadSanitizer, delays and priority-call failures injected',
 note=NOTE + 'Schedules are sampled with delays aimed at the synchronization points; a hang is a case that exceeds a watchdog far above its normal time.'),
dict(id='P05', title='Row, column and whole-matrix operations match their definition in any variant',
 statement='For any matrix shape and content, row sums, row maxima and their positions, row OR, scaling of rows and columns by a vector, column means and their removal, sums of products and of squares (over a whole or triangular matrix), column replication and tile rolling/unrolling give the mathematically defined result, up to rounding. The result does not depend on which single- or multi-threaded implementation is chosen, nor on the number of threads. Inputs, and elements outside of the result, are left untouched.',
 over=['inputs', 'configurations', 'schedules'], qtext='every matrix shape and finite or infinite content, element type, implementation variant, thread count and interleaving',
 why='The repository tests of these operations do not build here and compare a few fixed shapes; shapes around the dispatch thresholds, ties and thread counts are not reached.',
 files=['nntl/interface/math/smath.h', 'nntl/interface/math/smath_thr.h'], mech=[('_SMath', 'nntl/interface/math/smath.h'), ('dispatch thresholds', 'nntl/interface/math/smath_thr.h')],
 technique='every implementation variant run under ASan/UBSan and ThreadSanitizer against an independent long-double oracle, with input-preservation monitors',
 note=NOTE + 'Matrices up to 60000 elements; a row-maximum position may be any position of the maximum.'),
dict(id='P06', title='Elementwise operations match their definition and never touch biases',
 statement='For any matrix shape, content and batch layout, the elementwise operations give, in every cell, the mathematically defined result up to rounding: add, subtract, multiply, scale, square, sign, absolute value, clamp, complement, binarise, momentum, individual learning rates, the three dropout masks, counting of equal or nonzero elements. The emulated bias column or row and all input-only operands are left untouched. The result does not depend on the single- or multi-threaded variant chosen, nor on the number of threads.',
 over=['inputs', 'configurations', 'schedules'], qtext='every matrix shape and content, presence of biases, batch layout, element type, implementation variant, thread count and interleaving',
 why='The repository tests of the math layer do not build here; they sample a few shapes and never the bias-in-row layout at every threshold.',
 files=['nntl/interface/math/mathn.h', 'nntl/interface/math/mathn_thr.h'], mech=[('_MathN elementwise family (ev*, ew*, apply_*, make_*dropout)', 'nntl/interface/math/mathn.h')],
 technique='every implementation variant run under ASan/UBSan and ThreadSanitizer against an independent per-cell long-double oracle, with bias- and input-preservation monitors',
 note=NOTE + 'Matrices up to 40000 elements; operands stay inside the documented domain (nonzero scale factors, ordered clamp bounds).'),
dict(id='P07', title='Products, softmax, extraction, transposition and selection are right',
 statement='For any shape, content and batch layout: softmax rows are exp(x-max)/sum; rows, columns, sequences or masked rows are extracted (and put back) exactly; row norms are measured, set or limited as requested; matrix and layer products, covariance, orthogonalisation and transposition equal their definition up to rounding; the k best (distinct) values of every column and their positions are found over any sequence of batches. Biases, input operands and memory outside of the result are left untouched, whichever variant and thread count is used.',
 over=['inputs', 'configurations', 'schedules', 'histories'], qtext='every operand shape and content, batch layout, leading dimension, implementation variant, thread count and sequence of batches',
 why='The repository tests of these operations do not build here; a wrong leading dimension, tie or mask edge shows up only for some shapes.',
 files=['nntl/interface/math/mathn.h', 'nntl/interface/math/_mcwFindKOrdered_hlpr.h', 'nntl/interface/math/bindings/b_open_blas.h'], mech=[('softmax, mExtract*, mFill*, mMul*, mTranspose*, mColumnsCov, mSVD_Orthogonalize_ss, mcwFindKOrdered', 'nntl/interface/math/mathn.h'), ('Aggregator', 'nntl/interface/math/_mcwFindKOrdered_hlpr.h'), ('b_OpenBLAS', 'nntl/interface/math/bindings/b_open_blas.h')],
 technique='every implementation variant run under ASan/UBSan and ThreadSanitizer against an independent long-double oracle; offline checker over the sequence of k-ordered batches',
 note=NOTE + 'BLAS itself is trusted (single threaded OpenBLAS); k-ordered "distinct" searches get at least k distinct values in the first batch, as the code requires.'),
dict(id='P08', title='Activations, their derivatives and the losses match their definition',
 statement='For every activation (sigmoid, relu, leaky relu, elu, selu, elogu, logu, loglogu, softsign, softsigm, step, identity, softmax) and every supported loss (quadratic, cross-entropy, softmax negative log-likelihood) the computed activation value equals the documented function, df computed in place from the activation value is its derivative, dL/dZ is the derivative of the loss with respect to the pre-activation, and the loss value is the documented mean over the batch. This holds for any finite input, batch layout, thread count and implementation variant; bias elements are left untouched.',
 over=['inputs', 'configurations', 'schedules'], qtext='every finite pre-activation and target, activation parameter, batch layout, element type, implementation variant and thread count',
 why='The repository tests of activations do not build here, and sample only a few shapes and values; a wrong branch, sign or scale shows only for some values.',
 files=['nntl/activations/_i_activation.h', 'nntl/activations/_loss_parts.h', 'nntl/activations/elu.h', 'nntl/activations/elogu.h', 'nntl/activations/logu.h', 'nntl/activations/loglogu.h', 'nntl/activations/selu.h', 'nntl/activations/relu_family.h', 'nntl/activations/softmax.h', 'nntl/activations/softsigm.h', 'nntl/activations/softsign.h', 'nntl/activations/step.h', 'nntl/activations/sigm.h', 'nntl/activations/identity.h', 'nntl/_SNN_common.h', 'nntl/interface/math/mathn.h'], mech=[('activation::* f(), df(), dLdZ(), loss()', 'nntl/activations/_i_activation.h'), ('activation and loss kernels', 'nntl/interface/math/mathn.h')],
 technique='real kernels and activation classes run under ASan/UBSan/TSan; per-cell long-double oracle for value, derivative, loss and loss gradient',
 note=NOTE + 'Finite inputs; activation parameters over the values the templates allow.'),
dict(id='P10', title='Weight updates follow the configured optimizer and options exactly',
 statement='For every sequence of gradients and setting changes, each weight update performed by grad_works equals the one prescribed by the configured optimizer (plain, RMSProp Hinton/Graves, RProp, ModProp, Adam, AdaMax, Nadam, Radam) combined with the options in force: learning rate, momentum or Nesterov momentum, individual learning rates, L1/L2 penalties, max-norm limit, learning-rate dropout. State carries over between steps and is reset only when a new training session asks for it; after a max-norm step no neuron exceeds the limit. The result does not depend on threads or on the kernel variant.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every sequence of gradients, optimizer, option set and change of settings between steps, shape, variant and thread count',
 why='Tests check single steps of a few optimizers; state carried over many steps with combined options is never compared with a reference.',
 files=['nntl/grad_works/grad_works.h', 'nntl/grad_works/ILR.h', 'nntl/grad_works/ILR_Props.h', 'nntl/grad_works/loss_addendums.h', 'nntl/interface/math/mathn.h'], mech=[('grad_works::pre_training_fprop, apply_grad', 'nntl/grad_works/grad_works.h'), ('optimizer kernels (RMSProp*, RProp, ModProp, Adam, AdaMax, ...)', 'nntl/interface/math/mathn.h')],
 technique='online reference-model checker over whole optimizer histories, under ASan/UBSan/TSan',
 note=NOTE + 'Histories up to 40 steps; optimizers compared with tolerances proportional to the accumulated rounding.'),
dict(id='P14', title='Training data: every sample served once, with its own label, unmodified',
 statement='For every data set, layout, batch size and sequence of sessions: in one epoch no training sample is served twice and batches of the agreed size cover all samples except a tail shorter than a batch, in a new random order each epoch; walking over a set visits every sample exactly once in order; X row i always belongs with Y row i; bias columns are intact; the stored data does not change. Incoherent data or batch sizes that cannot be served are refused without side effects, and the reported sizes and initialisation state match what is served. Transforming data providers and the gradient-check data holder keep the same guarantees.',
 over=['inputs', 'histories', 'configurations'], qtext='every data set size, layout, batch size, session history and random seed',
 why='No repository test of data feeding builds here; losing the last sample or mispairing X and Y for one batch size is invisible to a test on another size.',
 files=['nntl/train_data/_train_data_simple.h', 'nntl/train_data/inmem_train_data.h', 'nntl/train_data/inmem_train_data_stor.h', 'nntl/train_data/transf_train_data.h', 'nntl/train_data/_td_base.h', 'nntl/train_data/_i_train_data.h', 'nntl/utils/dataHolder.h'], mech=[('_train_data_simple::on_next_epoch/on_next_batch/walk_over_set/next_subset', 'nntl/train_data/_train_data_simple.h'), ('transf_train_data', 'nntl/train_data/transf_train_data.h'), ('inmem_train_data_stor::absorb/replace_Y/extract/dupe', 'nntl/train_data/inmem_train_data_stor.h'), ('utils::dataHolder::nextBatch', 'nntl/utils/dataHolder.h')],
 technique='exactly-once / pairing ledger over self-identifying samples, on random session histories, under ASan/UBSan/TSan and with the library assertions on',
 note=NOTE + 'Shuffle uniformity is a statistical monitor with 9-sigma limits over 900 epochs.'),
dict(id='P09', title='Layer stacks compute the network function and its exact gradient',
 statement='For every stack of fully connected layers, activation functions, loss, sizes, batch size, data and history of training and inference on the same network: activations of each layer are the network function of its input, dL/dZ, dL/dW and dL/dA of each layer are the gradient of the loss for exactly that batch, weights change only by the configured learning step (not at all when updates are disabled and never during inference), the reported activations and losses are those of the current weights, and weights survive re-initialisation.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every architecture of plain layers, size, option combination, session history and thread schedule',
 why='No test of layers or nnet builds here; a gradient that is wrong for one layer order, a clamped output, the lowest layer or a changed batch size still trains and looks plausible.',
 files=['nntl/nnet.h', 'nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layer/input.h', 'nntl/layer/_layer_base.h', 'nntl/layer/_activation_storage.h', 'nntl/layer/_activation_wrapper.h', 'nntl/layers.h', 'nntl/grad_works/grad_works.h'], mech=[('_layer_fully_connected::fprop/bprop', 'nntl/layer/fully_connected.h'), ('_layer_output::bprop/calc_loss', 'nntl/layer/output.h'), ('layers::fprop/bprop', 'nntl/layers.h'), ('nnet::train/fprop/doFixedBatchFprop', 'nntl/nnet.h')],
 technique='online checker: inspector and observer events are replayed on a long double reference network, under ASan/UBSan/TSan and with library assertions on',
 note=NOTE + 'Activations with kinks are checked in double only, values near a kink are compared with the matching one-sided derivative.'),
dict(id='P13', title='Layer packs (vertical, horizontal, tiled, gated) act as their composition',
 statement='For every nesting of layer packs, placement of inner layers on (possibly overlapping) neuron ranges, gate pattern, batch size and history: a vertical pack is the composition of its layers; a horizontal pack feeds each inner layer its own neuron range, concatenates their activations and sums their input gradients; a tiled pack applies one layer with shared weights to every tile; an optional pack runs a branch only on the samples whose gate is open, with zero output and no gradient for the others. Their activations, gradients, weight updates, parameter counts and loss are those of the composition, in training and in inference.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every nesting of packs, neuron range layout, gate pattern, size, session history and thread schedule',
 why='No pack test builds here; packs share activation storage and temporary memory, so errors appear only for particular nestings, overlaps, gate patterns or batch size changes.',
 files=['nntl/layer/pack_vertical.h', 'nntl/layer/pack_horizontal.h', 'nntl/layer/_lph_base.h', 'nntl/layer/pack_horizontal_optional.h', 'nntl/layer/pack_tile.h', 'nntl/layer/identity.h', 'nntl/layer/_pack_.h', 'nntl/layers.h'], mech=[('_LPV::fprop/bprop', 'nntl/layer/pack_vertical.h'), ('_LPH::fprop/bprop', 'nntl/layer/pack_horizontal.h'), ('_LPHO::fprop/bprop', 'nntl/layer/pack_horizontal_optional.h'), ('_LPT::fprop/bprop', 'nntl/layer/pack_tile.h'), ('_LI/_LIG', 'nntl/layer/identity.h')],
 technique='online checker: inspector events of nested packs are replayed on a long double reference network, under ASan/UBSan/TSan and with library assertions on',
 note=NOTE + 'Tile counts start at 2, as the tiling transformation requires.'),
dict(id='P20', title='Training sessions obey their options, callbacks and error codes',
 statement='For every sequence of train(), fprop() and fixed-batch inference on one network and every option set: exactly the requested epochs and batches of the requested size are run unless a callback stops or the loss within the divergence window is not below the threshold (a NaN loss included), which returns NNDiverged; unusable data, a refusing observer or a stopping init callback end the session with their own error code, which is also the last error, without training; the observer is initialised, reported to and deinitialised in order, every report covers the whole set once and carries the true mean loss; inference and callbacks never change weights, weights survive re-initialisation; the inspector is left as it was; one seed gives bit-identical results under any thread schedule.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every history of sessions and inferences, option combination, data set and thread schedule',
 why='No nnet test builds here; state left over from an earlier session (batch sizes, temporary memory, modes) matters only for particular sequences, and reproducibility must hold for every schedule.',
 files=['nntl/nnet.h', 'nntl/nnet_train_opts.h', 'nntl/common_nn_data.h', 'nntl/_nnet_errs.h', 'nntl/layers.h', 'nntl/training_observer.h'], mech=[('nnet::train', 'nntl/nnet.h'), ('nnet::calcLossAndReport', 'nntl/nnet.h'), ('nnet::_init4train/_full_init/deinit', 'nntl/nnet.h'), ('nnet_train_opts', 'nntl/nnet_train_opts.h')],
 technique='protocol monitor on observer, inspector and callbacks over random session histories, with bit-exact replay under injected schedule delays and ASan/UBSan/TSan',
 note=NOTE + 'NaN divergence is driven in release builds only: debug builds assert on NaNs earlier, by design.'),
dict(id='P21', title='Evaluators count correct answers and observers print the true numbers',
 statement='For every data set, evaluation batch size, threshold and number of classes: the binary and one-hot evaluators count exactly the elements or samples whose prediction agrees with the ground truth, over each set as a whole and also for additional data sets, never changing data or activations; the stdcout observers print the epoch, losses, error rate and number of errors that these counts imply, whatever the magnitude of the losses, and expose the latest losses.',
 over=['inputs', 'histories', 'configurations'], qtext='every data set, batch size, threshold and loss magnitude',
 why='No observer or evaluator test builds here; cached labels and running offsets go wrong only for sets that are evaluated in several uneven batches or in later sessions.',
 files=['nntl/nnet_evaluator.h', 'nntl/training_observer.h'], mech=[('eval_classification_binary_cached', 'nntl/nnet_evaluator.h'), ('eval_classification_one_hot_cached', 'nntl/nnet_evaluator.h'), ('training_observer_stdcout', 'nntl/training_observer.h')],
 technique='runtime tally over the reported batches compared with the counters and with the parsed report lines, under ASan/UBSan/TSan',
 note=NOTE + 'Printed numbers are compared within the precision of the format.'),
dict(id='P24', title='The inspector sees every training event, in order, with the actual data',
 statement='For every architecture, option set and history: the inspector is told about each epoch, batch, loss evaluation and layer exactly once and properly nested (layer events inside the pass of the pack that owns the layer, forward before backward, in the documented order of steps), with the right indices and mode, and the matrices it is shown (inputs, weights, preactivations, activations, gradients before and after clamping) are the ones used in the computation.',
 over=['inputs', 'histories', 'configurations'], qtext='every architecture, option set and session history',
 why='Inspectors drive gradient checks and dumps; a missing, repeated or misplaced event silently attributes data to a wrong layer, and no inspector test builds here.',
 files=['nntl/interface/_i_inspector.h', 'nntl/nnet.h', 'nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layer/input.h', 'nntl/layer/identity.h', 'nntl/layer/pack_vertical.h', 'nntl/layer/pack_horizontal.h', 'nntl/layer/pack_tile.h', 'nntl/layer/pack_horizontal_optional.h'], mech=[('inspector event sequence', 'nntl/interface/_i_inspector.h'), ('nnet::train', 'nntl/nnet.h'), ('_layer_fully_connected::fprop/bprop', 'nntl/layer/fully_connected.h')],
 technique='online checker of the inspector event grammar with a frame stack, combined with replay of the shown data on a reference network',
 note=NOTE + 'Optimiser-internal events are covered by P10.'),
dict(id='P11', title='Penalties of activations add exactly their loss and their gradient',
 statement='For every network with L1, L2 or DeCov penalties on the activations of layers or packs, every strength (changed at any time, 0 meaning off), batch size and history: the penalty of the (undropped) activations of the current batch is added to the full loss with its strength, its derivative is added to the gradient of those activations before the layer itself propagates it (only to non-zero gradients where so configured, never to gate columns), and nothing else of the network, its weights or the data is affected; inference is not changed by penalties.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every architecture with penalties, strength, history and thread schedule',
 why='No layer, dropout or loss addendum test builds here; the guarantees depend on the batch history, on combinations of packs and extensions and on random masks, which a few fixed samples do not cover.',
 files=['nntl/loss_addendum/L1.h', 'nntl/loss_addendum/L2.h', 'nntl/loss_addendum/DeCov.h', 'nntl/loss_addendum/_i_loss_addendum.h', 'nntl/layer/_penalized_activations_base.h', 'nntl/layer/extender.h', 'nntl/layer/extensions.h'], mech=[('_LEx::bprop/_update_dLdA4PA/lossAddendum', 'nntl/layer/extender.h'), ('_PA_base', 'nntl/layer/_penalized_activations_base.h'), ('loss_addendum::DeCov', 'nntl/loss_addendum/DeCov.h')],
 technique='inspector-fed monitor replaying every pass on a long double reference network with the penalties, under ASan/UBSan/TSan',
 note=NOTE + 'When a set is evaluated in several batches the library takes the penalty of the last batch; the loss is compared for single-batch evaluations only. For gated packs the loss term is not compared (it includes the gate columns, the gradient does not).'),
dict(id='P12', title='Dropout acts in training only, with one mask for both passes',
 statement='For every network with dropout or alpha dropout on layers or packs, every probability (changed at any time; 0 and 1 mean off), batch size and history: during training each sample of each batch gets a fresh random mask that keeps an activation with the given probability and scales it by 1/p (or applies the affine map of alpha dropout), the same mask filters the gradient on the way back, and the original activations are restored exactly before the derivative is taken; during inference and loss evaluation activations are never changed; biases are never dropped.',
 over=['inputs', 'histories', 'configurations', 'schedules'], qtext='every architecture with dropout, probability, history and random stream',
 why='No layer, dropout or loss addendum test builds here; the guarantees depend on the batch history, on combinations of packs and extensions and on random masks, which a few fixed samples do not cover.',
 files=['nntl/dropout/dropout.h', 'nntl/dropout/alpha_dropout.h', 'nntl/dropout/_base.h', 'nntl/_SNN_common.h', 'nntl/layer/extender.h', 'nntl/layer/extensions.h'], mech=[('_dropout_base', 'nntl/dropout/dropout.h'), ('AlphaDropout', 'nntl/dropout/alpha_dropout.h'), ('_LEx::fprop/bprop', 'nntl/layer/extender.h')],
 technique='masks observed through the inspector are fed to a long double reference network replaying both passes, plus a statistical monitor of the keep rate, under ASan/UBSan/TSan',
 note=NOTE + 'The keep rate is tested over the whole run at 7 sigma.'),
dict(id='P16', title='Random generators fill what is asked, in range, as distributed, reproducibly',
 statement='For every generator (CStd, AFRand, AFRand_mt, AFRand_as), element type, seed, size and number of workers: each call writes exactly the requested elements and never the bias column, values lie in the documented range and follow the documented distribution (uniform, Bernoulli, normal with the given mean and deviation), one seed gives one sequence regardless of the schedule of the worker threads (all but the asynchronous generator), different seeds and different workers give different streams; the values produced by the background threads of the asynchronous generator are delivered exactly once, none is overwritten while it is being read, and initialisation reports failure if there is no memory.',
 over=['inputs', 'histories', 'schedules'], qtext='every seed, call sequence, size and thread schedule',
 why='The only test that builds does not touch generators; races between producers and the consumer, overlapping worker streams and wrong parameters of a distribution show only over many schedules and large samples.',
 files=['nntl/interface/_i_rng.h', 'nntl/interface/rng/afrand.h', 'nntl/interface/rng/afrand_mt.h', 'nntl/interface/rng/afrand_as.h', 'nntl/interface/rng/cstd.h', 'nntl/interface/rng/distr_normal_naive.h', 'nntl/utils/data_buffer.h'], mech=[('rng_helper', 'nntl/interface/_i_rng.h'), ('_AFRand_mt', 'nntl/interface/rng/afrand_mt.h'), ('AsynchRng', 'nntl/interface/rng/afrand_as.h'), ('DataBuffer', 'nntl/utils/data_buffer.h')],
 technique='range, extent and reproducibility monitors on random call histories, 7-sigma distribution monitors over the whole run, exactly-once checker on the producer/consumer buffer, under ASan/UBSan/TSan and injected delays',
 note=NOTE + 'The third-party engines of Agner Fog are not in the repository; a stand-in with the same interface is used. Distributions are judged at 7 sigma over the whole run.'),
dict(id='P15', title='Normalisation applies one affine map, measured on the train set, to all sets',
 statement='For every data set and normalisation settings (whole matrix or per column; scale, mean or both; any targets, tolerances, batch size and number of batches): if normalize_data() succeeds, the measured part of the train set has the requested deviation and mean within the tolerances (columns without deviation are only shifted), every set was changed by one and the same increasing affine map (per column or for the whole matrix), which does not scale when only the mean is to be normalised and does not shift when only the scale is; biases and Y are untouched, run-time normalisation serves the same values for training and for walking, leaves the stored data untouched and can be reset; the bookkeeping of accumulated maps equals their composition; data that can be normalised is normalised.',
 over=['inputs', 'configurations', 'histories'], qtext='every data set, settings, batch partition and number of workers',
 why='No training data test builds here; the iterations, the accumulation of partial maps and their application to other sets interact only for particular data (mean already right, constant columns, partial measurement).',
 files=['nntl/utils/mtx2Normal.h', 'nntl/train_data/_td_norm.h', 'nntl/train_data/_td_base.h', 'nntl/train_data/inmem_train_data.h', 'nntl/train_data/transf_train_data.h'], mech=[('normalize_whole/normalize_cw', 'nntl/utils/mtx2Normal.h'), ('td_norm', 'nntl/train_data/_td_norm.h'), ('_fix_dataX_whole/_fix_dataX_cw', 'nntl/train_data/_td_base.h')],
 technique='every set observed before and after on random data and settings; offline check of the affine map and of long double statistics, under ASan/UBSan/TSan',
 note=NOTE + 'Known finding: constant columns whose value is not exact in binary.'),
dict(id='P25', title='gradcheck() accepts right gradients, rejects wrong ones and leaves no trace',
 statement='For every network, data, batch sizes and settings nnet::gradcheck() visits, for every layer that is not ignored, exactly the requested number of different activations (except of the output layer) and weights including biases; for each it perturbs this one value by exactly the step in both directions, restores it, and compares with the analytical value of the same batch. It returns true for correct gradients, false when a visited value deviates more than the threshold, is not a number, or when too many values are zero, and false for data of unsuitable sizes. Weights and data stay bit-identical, a check from the epoch callback does not change the course of the training (apart from the random generator), and the network infers and learns afterwards.',
 over=['inputs', 'configurations', 'histories'], qtext='every architecture, data, batch size relation, counting mode and wrong gradient',
 why='No test of networks builds here; a checker that misses a wrong value, or skips some, cannot be noticed by tests that only check correct gradients.',
 files=['nntl/nnet.h', 'nntl/utils/gradcheck.h', 'nntl/utils/dataHolder.h', 'nntl/interface/inspectors/gradcheck.h', 'nntl/utils/layer_idx_keeper.h'], mech=[('GradCheckFunctor', 'nntl/nnet.h'), ('inspector::GradCheck', 'nntl/interface/inspectors/gradcheck.h'), ('gradcheck_groupSetts::countToCheck', 'nntl/utils/gradcheck.h'), ('dataHolder', 'nntl/utils/dataHolder.h')],
 technique='online trace monitor under the checking inspector (phases, perturbations, passes, coverage) with injected wrong gradients, and differential training runs, under ASan/UBSan/TSan',
 note=NOTE + 'Correct gradients have to be accepted in one of three attempts (numeric noise); double precision.'),
dict(id='P17', title='Initial weights follow the documented schemes; LSUV success means its targets',
 statement='For every shape, type, parameter and seed make_weights() of each scheme fills the whole matrix with its documented distribution: Xavier uniform within coeff*sqrt(6/(rows+cols)); He_Zhang, He_Zhang2 and SNNInit normal with the documented deviation and zero biases; Martens_SI exactly K distinct incoming connections per neuron, equally likely for all units, normal, with the given biases; OrthoInit orthogonal rows (or columns) of the given gain. Layers use their scheme unless weights were set before, set_weights() refuses other sizes. When LSUVExt::run() returns true, deviation and mean of (pre)activations of every processed layer (or neuron) over the measured samples are within the tolerances of their targets; layers that are not to be processed and the data are untouched; a failure names the first failed layer.',
 over=['inputs', 'configurations', 'seeds'], qtext='every shape, parameter, seed, batch partition and number of workers',
 why='A distribution is a statement about all draws; the existing tests do not build here and only print statistics.',
 files=['nntl/weights_init/static.h', 'nntl/weights_init/LsuvExt.h', 'nntl/utils/layers_settings.h', 'nntl/utils/mtx2Normal.h', 'nntl/interface/rng/distr_normal_naive.h', 'nntl/layer/fully_connected.h'], mech=[('make_weights', 'nntl/weights_init/static.h'), ('LSUVExt::run', 'nntl/weights_init/LsuvExt.h'), ('reinit_weights/set_weights', 'nntl/layer/fully_connected.h')],
 technique='statistical monitors (Kolmogorov-Smirnov, variance, usage counts at 1e-11 levels), exact structural checks and long double statistics of the layers after LSUV, under ASan/UBSan/TSan',
 note=NOTE + 'LSUV over saturating activations runs in NDEBUG variants only (diverging statistics are asserted).'),
dict(id='P18', title='.bin files come back exactly or are refused, never half-read',
 statement='For every byte string offered as a .bin file and every destination (smatrix, smatrix_deform with or without bias column, training data, set of sequences; float or double): if the bytes are a valid file of that kind, binfile::read() returns Success and the destination holds exactly the stored shapes and values (converted by a cast when the stored type differs), whatever the order of the fields, X matrices get a bias column of ones and sequences go to the class named by their field. Otherwise read() returns an error code that names the fault, touches no memory out of bounds, leaks nothing, keeps training data held before, and leaves no matrix or set of sequences that looks filled. get_last_error() always agrees with the returned code.',
 over=['inputs', 'faults', 'histories'], qtext='every file content, truncation point and destination type',
 why='The tests for it do not build here and read two good files; damaged files are the point.',
 files=['nntl/_supp/io/binfile.h', 'nntl/train_data/seq_data.h', 'nntl/train_data/inmem_train_data_stor.h', 'nntl/errors.h'], mech=[('binfile::read/_impl_read_field_entry', 'nntl/_supp/io/binfile.h'), ('seq_data::_next_mtx_for_class', 'nntl/train_data/seq_data.h'), ('absorb', 'nntl/train_data/inmem_train_data_stor.h')],
 technique='differential monitoring against a reference reader over generated, truncated, faulty and randomly damaged files, under ASan/LSan/UBSan',
 note=NOTE + 'Trailing bytes after the last field and sizes that merely exceed the memory of the machine are not judged.'),
dict(id='P19', title='JSON training data comes back exactly or is refused with the right code',
 statement='For every text: jsonreader::read() returns Success exactly when the text is a JSON object with the needed members as non-empty rectangular numeric arrays (lists of columns, or one list for a column) of coherent sizes, and then every cell equals the correctly rounded number cast to the destination type, X matrices (or matrices requested so) have a bias column of ones, independently of the order and layout of members, unknown members and the size of the read buffer. Otherwise it returns the code that names the reason and the member (absent, invalid, mismatching length, not an object, not JSON with position, no file); training data held before stays, a matrix is left empty. get_last_error() and the error text agree with the code.',
 over=['inputs', 'faults', 'histories'], qtext='every text, buffer size and destination type',
 why='The tests for it do not build here and cover seven fixed files.',
 files=['nntl/_supp/io/jsonreader.h', 'nntl/train_data/inmem_train_data_stor.h', 'nntl/errors.h'], mech=[('_parse_mtx/_parse_as_mtx/_parse_as_vector', 'nntl/_supp/io/jsonreader.h'), ('_members2ErrorCode', 'nntl/_supp/io/jsonreader.h')],
 technique='model-based generation (the content of each text is known, numbers re-read by strtod) with online comparison, truncations and single faults, under ASan/LSan/UBSan',
 note=NOTE + 'rapidjson itself is trusted and exempt from instrumentation.'),
dict(id='P22', title='A failed allocation is reported, harms nothing, and a retry succeeds',
 statement='For every matrix operation, .bin reading, nnet::train(), init4fixedBatchFprop() with inference and gradcheck(), over chains with every optimizer, packs, tiles, optional packs, dropout, penalties and drawn weights, and for every single allocation of matrices and owned objects that fails (alone or together with all later ones): the call reports a failure (or its results equal those of an unharmed run), the last error agrees, nothing is accessed out of bounds or via a null pointer, nothing leaks, data is unchanged, a matrix is left empty; and the same objects, with or without deinit() in between, do the job with the results of an unharmed run once memory is available.',
 over=['faults', 'configurations', 'histories'], qtext='every allocation point of every scenario',
 why='Tests never run out of memory; every allocation point needs its own failing run.',
 files=['nntl/interface/math/smatrix.h', 'nntl/nnet.h', 'nntl/common_nn_data.h', 'nntl/layer/fully_connected.h', 'nntl/layer/pack_vertical.h', 'nntl/layer/pack_horizontal_optional.h', 'nntl/grad_works/grad_works.h', 'nntl/utils/dataHolder.h', 'nntl/weights_init/static.h', 'nntl/_supp/io/binfile.h'], mech=[('smatrix::_realloc/resize/clone_to', 'nntl/interface/math/smatrix.h'), ('nnet::_full_init/train', 'nntl/nnet.h'), ('layer_init/layer_deinit', 'nntl/layer/_layer_base.h')],
 technique='systematic fault injection at every allocation point under ASan/LSan/UBSan with differential comparison against unharmed runs',
 note=NOTE + 'Only allocations the library checks (aligned matrix storage, nothrow new) fail; of the throwing allocations the big storages (iMath, network, order of samples, evaluators); small std containers would terminate by design. NDEBUG builds (asserts treat a failed allocation as a bug).'),
dict(id='P26', title='What is saved to a mat-file is read back intact; dumps contain what was seen',
 statement='Every tree of named values (numbers, matrices with or without bias columns, nested structures, training data, whole nets) written by omatfile, in Create or Update modes, serialized or by hand, is read back by imatfile bit-exactly (or, where the class of numbers differs, by exact value) in any order; updating changes only what was written. write_weights() to a file and read_weights() into another net make the nets compute and train the same. Missing, empty, badly typed or badly sized variables, bad modes and failing calls of the MATLAB library are reported as failures, leak nothing and leave the target net untouched by what was not read. The dumper writes exactly the files its conditions and layer lists ask for, with the values that were seen in training, in every training session.',
 over=['inputs', 'histories', 'faults', 'configurations'], qtext='random trees, histories of files, nets and dump conditions; a failure of each call of the library',
 why='No test serializes anything; every combination of a tree, class of numbers, file mode, failing call and dumping condition is a case of its own.',
 files=['nntl/_supp/io/matfile.h', 'nntl/utils/matlab.h', 'nntl/serialization/serialization.h', 'nntl/interface/inspectors/dumper.h', 'nntl/nnet.h', 'nntl/layer/fully_connected.h', 'nntl/layer/output.h', 'nntl/layers.h'], mech=[('omatfile::_save_to_file_or_struct/struct_manual_*, imatfile::_load_var', 'nntl/_supp/io/matfile.h'), ('fill_data_no_bias/get_type_id', 'nntl/utils/matlab.h'), ('_dumper::train_epochBegin/train_batchBegin/on_*', 'nntl/interface/inspectors/dumper.h'), ('nnet::write_weights/read_weights', 'nntl/nnet.h')],
 technique='round-trip and shadow-model monitoring of archives and dumps against a recording stand-in for libmat/libmx, with call-by-call fault injection, under ASan/LSan/UBSan',
 note=NOTE + 'libmat/libmx are not available: a stand-in that implements the used part of their API (ownership rules checked by ASan/LSan) is trusted; the real MATLAB file format is not checked.'),
dict(id='P23', title='Utility building blocks behave as their contracts say',
 statement='The helper objects that the networks, observers and option holders are built of (call forwarders, owning-or-borrowing pointers, black/white lists, epoch conditions, per-layer settings, layer index tracking, tuple walkers, recursion and scope-exit helpers, confusion-matrix metrics, readable durations, option mixins) give the result that their operation history dictates. They never touch memory outside of what they own, for any history.',
 over=['histories', 'inputs'], qtext='every sequence of operations on each utility object and every argument in its documented domain',
 why='The existing tests do not touch these utilities.',
 files=['nntl/utils'], mech=[('forwarder, own_or_use_ptr, bwlist, vector_conditions, layer_settings, layer_idx_keeper, tuple_utils, scope_exit, options', 'nntl/utils/'), ('ConfusionMtx', 'nntl/utils/')],
 technique=T_ASAN + 'reference-model comparison after each operation of random histories',
 note=NOTE),
]
NA = []
