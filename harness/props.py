BLAS = ['-lopenblas', '-llapacke']
PROPS = {
 'P01': dict(
    rule='case = a random history of 20..60 operations over 4 matrices (float/double/int; smatrix and smatrix_deform; owned and external storage; with/without bias; both batch layouts) checked after every step against a shadow model; distinct = distinct abstract states reached',
    jobs=[dict(src='mtx_hist.cpp', variant='asan'), dict(src='mtx_hist.cpp', variant='asanr')],
    need=['matrix.observations', 'matrix.cells_compared', 'matrix.views', 'op.clone_to', 'op.deform_bs', 'refused.copy_to']),
 'P02': dict(
    rule='case = random hostile vector/matrix/index range; every predicate and index map recomputed independently; distinct = distinct (predicate outcome, layout, edge-shape) signatures',
    jobs=[dict(src='mtx_ops.cpp', variant='asan'), dict(src='mtx_ops.cpp', variant='asanr')],
    need=['pred.binary', 'pred.bias', 'tri.coords', 'ranges']),
 'P03': dict(
    rule='case = one pool (2..9 workers, 4 combinations of lock family and call wrapper) serving a random sequence of run()/reduce() jobs under injected delays; items live in plain memory so that the race detector sees missing ordering; distinct = distinct (workers, requested threads, item count, functor kind, chunks) tuples',
    jobs=[dict(src='threads_pool.cpp', variant='asan'), dict(src='threads_pool.cpp', variant='tsan')],
    need=['run', 'reduce', 'pool.chunks', 'pool.destroyed', 'perturbations', 'denormals']),
 'P04': dict(
    rule='case = one life of a pool / one background-worker history / one lock or condition-variable workload under injected delays; distinct = distinct (pool kind, workers, delay point or task-set shape) tuples',
    jobs=[dict(src='threads_bg.cpp', variant='asan'), dict(src='threads_bg.cpp', variant='tsan')],
    need=['lifecycle.destroyed', 'bg.exec_calls', 'bg.task_calls', 'bg.transitions', 'lock.acquired', 'cv.timeouts', 'prio.failures_injected']),
 'P05': dict(
    rule='case = random matrix (tiny, vectors, medium, and straddling the single/multi-threaded thresholds; ties, infinities, zeros) on a pool of 2..8 workers; every implementation variant of an operation is run on it and compared with a long double oracle; distinct = distinct (operation, shape class, fill, type) tuples',
    jobs=[dict(src='math_rw.cpp', variant='asan', libs=BLAS), dict(src='math_rw.cpp', variant='asanr', libs=BLAS), dict(src='math_rw.cpp', variant='tsan', libs=BLAS)],
    need=['rw.rowvec', 'rw.rowmax', 'rw.rowsum', 'rw.rowor', 'rw.sum_values', 'rw.numstab', 'rw.triang', 'rw.colops', 'rw.clone', 'rw.tiling']),
 'P06': dict(
    rule='case = random operands (tiny, vectors, medium, straddling the single/multi-threaded thresholds; with and without biases, both batch layouts; ties, signed zeros, large and small values) on a pool of 2..8 workers; every implementation variant of an elementwise operation is run and each cell compared with a long double oracle; distinct = distinct (operation family, layout, shape class, fill, type) tuples',
    jobs=[dict(src='math_ew.cpp', variant='asan', libs=BLAS), dict(src='math_ew.cpp', variant='asanr', libs=BLAS), dict(src='math_ew.cpp', variant='tsan', libs=BLAS)],
    need=['ew.binary_ops', 'ew.bias_ops', 'ew.dropouts', 'ew.ilr', 'ew.counts']),
 'P07': dict(
    rule='case = random operands of one structural operation; all variants are run and compared with an independent oracle; distinct = distinct (operation, layout, shape class, type) tuples',
    jobs=[dict(src='math_struct.cpp', variant='asan', libs=BLAS), dict(src='math_struct.cpp', variant='asanr', libs=BLAS), dict(src='math_struct.cpp', variant='tsan', libs=BLAS)],
    need=['st.softmax', 'st.extraction', 'st.norms', 'st.products', 'st.blas', 'st.transposes', 'st.korder']),
 'P08': dict(
    rule='case = random pre-activations (saturating, tiny, zero, negative, either side of every branch point; all layouts and sizes) pushed through an activation or loss, both at the math layer (every st/mt variant) and through the activation class; compared per cell with a long double oracle and the derivative with the analytic one; distinct = distinct (activation, parameters, layout, shape class, fill, type) tuples',
    jobs=[dict(src='act_loss.cpp', variant='asan', libs=BLAS), dict(src='act_loss.cpp', variant='asanr', libs=BLAS), dict(src='act_loss.cpp', variant='tsan', libs=BLAS)],
    need=['act.math_level', 'act.losses', 'act.loss_gradients', 'act.class_level', 'act.class_losses', 'act.softmax_class']),
 'P10': dict(
    rule='case = one random history of gradient applications (5..40 steps) through grad_works with a random optimizer and random options, or one optimizer kernel step on random operands; after every step weights and optimizer state are compared with a long double re-implementation; distinct = distinct (optimizer, option set, layout, shape class, type) tuples',
    jobs=[dict(src='optim.cpp', variant='asan', libs=BLAS), dict(src='optim.cpp', variant='asanr', libs=BLAS), dict(src='optim.cpp', variant='tsan', libs=BLAS)],
    need=['opt.single_steps', 'gw.histories', 'gw.steps', 'gw.blocked', 'gw.maxnorm_rows', 'gw.lrdropout_updates', 'gw.changes', 'gw.momentum_changes', 'gw.ilr_changes', 'gw.ilr_cleared']),
 'P14': dict(
    rule='case = one random history (absorb/transpose, several init sessions, epochs and walks with random batch sizes, exclusion flags) on one data provider whose samples carry their own identity, or one storage/data holder history; every served row is identified and compared with the ledger; distinct = distinct (layout, size relation, batch mode, request form) tuples',
    jobs=[dict(src='tdata.cpp', variant='asan', libs=BLAS), dict(src='tdata.cpp', variant='asanr', libs=BLAS), dict(src='tdata.cpp', variant='tsan', libs=BLAS), dict(src='tdata.cpp', variant='dbg', libs=BLAS)],
    need=['td.histories', 'td.walks', 'td.epochs', 'td.train_batches', 'td.shuffles_observed', 'td.stor_checks', 'td.stor_refusals', 'td.init_refused', 'trf.histories', 'trf.epochs', 'trf.walks', 'holder.histories', 'holder.batches']),
 'P09': dict(
    rule='case = one network of random sizes, learning rates, regularisation and output clamping driven through a random history of training sessions and inferences; every forward and backward pass seen by the inspector is replayed on a long double reference network; distinct = distinct (batch relation, options, session state) tuples',
    jobs=[dict(src='nets_a.cpp', variant='asan', libs=BLAS), dict(src='nets_a.cpp', variant='asanr', libs=BLAS), dict(src='nets_a.cpp', variant='tsan', libs=BLAS), dict(src='nets_a.cpp', variant='dbg', libs=BLAS)],
    need=['net.linear_layers', 'net.linear_outputs', 'net.retuned', 'net.lr_helpers', 'net.traversals', 'net.cells', 'net.ref_forward', 'net.ref_backward', 'net.weight_updates', 'net.inference', 'net.fixed_inference', 'train.sessions', 'obs.reports', 'insp.batches']),
 'P13': dict(
    rule='case = one network of vertical, horizontal, tiled, optional and identity packs, nested, of random sizes, learning rates, regularisation and output clamping driven through a random history of training sessions and inferences; every forward and backward pass seen by the inspector is replayed on a long double reference network; distinct = distinct (batch relation, options, session state) tuples',
    jobs=[dict(src=q, variant=v, libs=BLAS) for v in ('asan', 'asanr', 'tsan', 'dbg') for q in ('nets_b.cpp', 'nets_d.cpp')],
    need=['net.cells', 'net.ref_forward', 'net.ref_backward', 'net.weight_updates', 'net.inference', 'net.fixed_inference', 'train.sessions', 'obs.reports', 'insp.batches', 'net.gate_closed', 'net.gate_open', 'net.gate_partial']),
 'P20': dict(
    rule='case = one network driven through a random history of train() sessions with random options, data, early stops, refusals, callbacks that use the network, inference and re-initialisation; or one pair of runs from one seed; distinct = distinct (batch relation, options, session state) tuples',
    jobs=[dict(src='train_api.cpp', variant='asan', libs=BLAS), dict(src='train_api.cpp', variant='asanr', libs=BLAS), dict(src='train_api.cpp', variant='tsan', libs=BLAS), dict(src='train_api.cpp', variant='dbg', libs=BLAS)],
    need=['train.sessions', 'train.refusals', 'train.good_after', 'train.init_stops', 'train.obs_refusals', 'train.divergence', 'train.stops', 'train.reentries', 'train.repros', 'train.blowups', 'obs.reports', 'obs.batches', 'obs.fragments', 'net.inference', 'net.fixed_inference']),
 'P21': dict(
    rule='case = one network trained on random data with a stdcout observer and evaluator; every count and every printed number is compared with a tally over the reported activations; distinct = distinct (evaluator, shape, batch mode) tuples',
    jobs=[dict(src='evals.cpp', variant='asan', libs=BLAS), dict(src='evals.cpp', variant='asanr', libs=BLAS), dict(src='evals.cpp', variant='tsan', libs=BLAS), dict(src='evals.cpp', variant='dbg', libs=BLAS)],
    need=['eval.batches', 'eval.sets', 'eval.fragments', 'eval.numbers', 'eval.other_sets', 'eval.simple_fragments', 'eval.magnitudes', 'eval.sessions']),
 'P24': dict(
    rule='case = one network (plain or of nested packs) driven through a random history; every inspector event is checked against the event grammar and the data shown against the reference network; distinct = distinct (batch relation, options, session state) tuples',
    jobs=[dict(src='nets_a.cpp', variant='dbg', libs=BLAS), dict(src='nets_b.cpp', variant='dbg', libs=BLAS), dict(src='nets_d.cpp', variant='dbg', libs=BLAS), dict(src='train_api.cpp', variant='asanr', libs=BLAS), dict(src='nets_a.cpp', variant='asanr', libs=BLAS)],
    need=['insp.epochs', 'insp.batches', 'insp.calcs', 'insp.init_layer', 'insp.apply_grad', 'insp.steps', 'net.cells']),
 'P11': dict(
    rule='case = one network with penalised layers and packs (L1, L2, DeCov; computed on the forward or the backward pass; for all or for non-zero gradients only) driven through a random history in which the strengths change; distinct = distinct (penalty, mode, strength, session option) tuples',
    jobs=[dict(src='nets_c.cpp', variant='asan', libs=BLAS), dict(src='nets_c.cpp', variant='asanr', libs=BLAS), dict(src='nets_c.cpp', variant='tsan', libs=BLAS), dict(src='nets_c.cpp', variant='dbg', libs=BLAS)],
    need=['net.retuned', 'net.traversals', 'pen.on', 'pen.off', 'net.cells', 'net.weight_updates', 'obs.reports', 'net.ref_backward']),
 'P12': dict(
    rule='case = one network with dropout or alpha dropout on layers, in packs, tiles and optional packs, driven through a random history in which the dropout is switched and changed; each observed mask is fed to a reference network; distinct = distinct (kind, probability, session option) tuples',
    jobs=[dict(src='nets_c.cpp', variant='asan', libs=BLAS), dict(src='nets_c.cpp', variant='asanr', libs=BLAS), dict(src='nets_c.cpp', variant='tsan', libs=BLAS), dict(src='nets_c.cpp', variant='dbg', libs=BLAS)],
    need=['drop.helper', 'net.retuned', 'drop.masks', 'drop.cells', 'drop.zeros', 'drop.cancels', 'drop.on', 'drop.off', 'net.inference', 'net.fixed_inference', 'net.cells']),
 'P16': dict(
    rule='case = one generator driven through a random sequence of calls twice from one seed under different schedules, one asynchronous session, or one producer/consumer session on the circular buffer; distinct = distinct (generator, type, call, size class) tuples',
    jobs=[dict(src='rng.cpp', variant='asan', libs=BLAS), dict(src='rng.cpp', variant='asanr', libs=BLAS), dict(src='rng.cpp', variant='tsan', libs=BLAS), dict(src='rng.cpp', variant='dbg', libs=BLAS)],
    need=['rng.vectors', 'rng.matrices', 'rng.repros', 'rng.distributions', 'rng.dup_checks', 'rng.bernoulli', 'rng.ints', 'rng.async', 'rng.async_sessions', 'rng.streams', 'rng.buffers', 'rng.buffer_values']),
 'P15': dict(
    rule='case = one random data set normalised with random settings (in memory or at run time) whose sets are compared before and after, one random sequence of accumulated maps, or one map applied to a matrix; distinct = distinct (place, mode, flags, type) tuples',
    jobs=[dict(src='tdnorm.cpp', variant='asan', libs=BLAS), dict(src='tdnorm.cpp', variant='asanr', libs=BLAS), dict(src='tdnorm.cpp', variant='tsan', libs=BLAS), dict(src='tdnorm.cpp', variant='dbg', libs=BLAS)],
    need=['norm.verdicts', 'norm.columns', 'norm.inmem', 'norm.transf', 'norm.train_batches', 'norm.algebra', 'norm.applied', 'norm.constants']),
 'P25': dict(
    rule='case = one network (chain, packs, dropout) with several gradient checks of random settings, correct or tampered gradients, one pair of trainings with and without checks in between, or one refused check; distinct = distinct (kind of tampering, batch relations, counting modes) tuples',
    jobs=[dict(src='gradchk.cpp', variant='asan', libs=BLAS), dict(src='gradchk.cpp', variant='asanr', libs=BLAS), dict(src='gradchk.cpp', variant='tsan', libs=BLAS), dict(src='gradchk.cpp', variant='dbg', libs=BLAS)],
    need=['gc.checks', 'gc.accepted', 'gc.rejected', 'gc.visits', 'gc.dLdA', 'gc.dLdW', 'gc.activations', 'gc.reports', 'gc.zeros_ok', 'gc.zeros_bad', 'gc.after', 'gc.during', 'gc.before', 'gc.penalties']),
 'P17': dict(
    rule='case = one matrix initialised by a scheme, one network whose layers are initialised, or one LSUV run with random settings; distinct = distinct (scheme, parameters, type, shape class) tuples',
    jobs=[dict(src='winit.cpp', variant='asan', libs=BLAS), dict(src='winit.cpp', variant='asanr', libs=BLAS), dict(src='winit.cpp', variant='tsan', libs=BLAS), dict(src='winit.cpp', variant='dbg', libs=BLAS)],
    need=['wi.ks', 'wi.values', 'wi.ortho', 'wi.layers', 'lsuv.converged', 'lsuv.stats', 'lsuv.skipped']),
 'P18': dict(
    rule='case = a batch of generated .bin files (matrices, training data, sets of sequences; every prefix of a file; one structural fault; random damage) read into float and double destinations; distinct = distinct (kind of damage, reported code, destination) tuples',
    jobs=[dict(src='binf.cpp', variant='asan', libs=BLAS), dict(src='binf.cpp', variant='asanr', libs=BLAS)],
    need=['accepted', 'refused', 'cells', 'truncations', 'huge', 'wrapping', 'noise']),
 'P19': dict(
    rule='case = a batch of generated JSON texts (random order, layout, notation and extra members; every prefix; one fault) read with random buffer sizes; distinct = distinct (kind of fault, reported code, destination) tuples',
    jobs=[dict(src='json.cpp', variant='asan', libs=BLAS), dict(src='json.cpp', variant='asanr', libs=BLAS)],
    need=['accepted', 'refused', 'cells', 'truncations']),
 'P22': dict(
    rule='case = one scenario (matrix operation, file, training of a chain, packs, optional packs, dropout with penalties, drawn weights, inference, gradient check) repeated for every k with its k-th allocation, or all from the k-th on, failing; distinct = distinct (scenario, k, mode, warm start) tuples',
    jobs=[dict(src='oom.cpp', variant='asanr', libs=BLAS), dict(src='oom.cpp', variant='rel', libs=BLAS), dict(src='oomvec.cpp', variant='asanr', libs=BLAS)],
    need=['oomv.hits', 'oomv.retries', 'oomv.trainings', 'oomv.inferences', 'oom.mtx', 'oom.files', 'oom.trainings', 'oom.hits', 'oom.retries', 'oom.points', 'oom.inferences', 'oom.draws']),
 'P26': dict(
    rule='case = one random history of a mat-file archive: a tree of values written, rewritten, extended, reordered and read back; conversions between number classes; manual structures; training data; a trained net whose weights are written and read into another net; a dumper over several training sessions; broken files and failing calls; distinct = distinct (shape, class, mode, condition) tuples',
    jobs=[dict(src='matf.cpp', variant='asan', libs=BLAS), dict(src='matf.cpp', variant='asanr', libs=BLAS), dict(src='matf.cpp', variant='dbg', libs=BLAS)],
    need=['mat.trees', 'mat.vars', 'mat.conversions', 'mat.manual_ops', 'mat.manual_sessions', 'mat.updates', 'mat.nested_updates', 'mat.refused_modes', 'mat.refused_ends', 'mat.tds', 'mat.nets', 'mat.continued', 'mat.dumps', 'mat.refused_nets', 'mat.bad_reads', 'mat.write_faults', 'mat.read_faults', 'mat.net_faults', 'dump.sessions', 'dump.files', 'dump.values']),
 'P23': dict(
    rule='case = a random history of operations on one utility object compared step by step with a reference model; distinct = distinct (operation, state class) signatures',
    jobs=[dict(src='utils.cpp', variant='asan'), dict(src='utils.cpp', variant='asanr')],
    need=['fwd.calls', 'bw.decisions', 'cond.values', 'sett.reads', 'idx.steps', 'tuple.walks', 'cm.metrics', 'dur.shown', 'opt.mixin_reads']),
}
