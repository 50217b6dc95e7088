"""Property definitions (see props.py)."""
from props import prop

CKF = 't5x/checkpoints.py'

prop('C01', 'Checkpoints are published atomically, after everything was written',
     """A training checkpoint becomes visible under its final name only by one
     rename of a private directory, and only after every array, the index file
     and (when enabled) the data-iterator state have been completely written and
     closed. A crash at any point before the rename leaves nothing that looks
     like a checkpoint of that step, and saving a step that already has a
     checkpoint changes nothing.""",
     'crash_points histories inputs',
     'every interruption point of a save, every train state and every storage '
     'backend supported',
     'the checkpoint module cannot even be imported in the test environment, and '
     'no test interrupts a save between two writes',
     't5x/checkpoints.py t5x/checkpoints_utils.py',
     ['temporary directory and rename @ t5x/checkpoints.py Checkpointer.save',
      'array writes @ t5x/checkpoints.py Checkpointer._write_state_to_tensorstore',
      'listing @ t5x/checkpoints.py Checkpointer.all_steps'])

prop('C02', 'Multi-host save: barriers on every host, shared effects on one host',
     """During a checkpoint save all hosts agree on the private directory name,
     execute the same sequence of barriers, and none begins writing before the
     directory exists or publishes before all hosts finished. Only host 0 creates
     the directory, writes the index file, publishes and deletes old
     checkpoints, while data-iterator state is saved by every host.""",
     'schedules configurations inputs',
     'any number of hosts and any interleaving of them',
     'tests run in one process, so a barrier under a host-dependent branch or a '
     'name that differs between hosts cannot show',
     't5x/checkpoints.py t5x/multihost_utils.py',
     ['barriers and host-0 guards @ t5x/checkpoints.py Checkpointer.save'])

prop('C03', 'Retention removes only the checkpoints the policy allows',
     """Pruning never removes a pinned checkpoint, the newest checkpoint, one
     that falls on the keep-period, or (when ranking by a metric) a better one
     while a worse one is kept; it removes nothing while the number of
     checkpoints is within the limit, and otherwise the oldest or worst first.
     Steps are ordered numerically, checkpoints lacking the metric rank worst,
     and pruning happens only after the new checkpoint is published.""",
     'histories inputs configurations',
     'every set of existing checkpoints, pins, metric values and every keep / '
     'keep-dataset / period setting',
     'no retention test runs in this environment, and the choice depends on the '
     'whole history of a directory',
     't5x/checkpoints.py t5x/checkpoint_utils.py',
     ['oldest-first removal @ t5x/checkpoints.py Checkpointer._remove_old_checkpoints',
      'metric ranking @ t5x/checkpoints.py SaveBestCheckpointer',
      'Orbax options @ t5x/checkpoints.py OrbaxCheckpointManagerInterface'])

prop('C04', 'A save or restore dtype converts the model parameters and only them',
     """When a dtype is requested for saving or restoring, every floating-point
     model parameter is stored respectively returned in that dtype, however it is
     written or read (partitioned array, plain array, legacy or TF checkpoint,
     Orbax, inference loading). The step, optimizer state and other collections
     keep their own dtype, and without a requested dtype nothing is converted.""",
     'inputs configurations',
     'every state tree, every dtype request, every checkpoint backend',
     'the modules involved are not importable in the tests; the wrong cast is '
     'silent',
     't5x/checkpoints.py',
     ['save cast @ t5x/checkpoints.py Checkpointer._write_state_to_tensorstore',
      'restore cast @ t5x/checkpoints.py Checkpointer.restore',
      'Orbax args @ t5x/checkpoints.py OrbaxCheckpointManagerInterface'])

prop('C05', 'A restore reads exactly the checkpoint that was asked for, or fails',
     """Restoring by path, by step, or without either reads the checkpoint at that
     path, of that step, or the numerically latest one, with step 0 as valid as
     any other; asking for both is rejected. A missing checkpoint, a path that is
     not a checkpoint, an unsupported version, or a TensorFlow checkpoint given to
     a native reader is an error, never a silent substitute. State
     transformations are all applied, in order, each to the previous result.""",
     'inputs configurations histories',
     'every directory content, every combination of step, path, format and '
     'transformations, native and Orbax',
     'the checkpoint module is not importable here, and tests use one directory '
     'layout',
     't5x/checkpoints.py t5x/checkpoint_utils.py',
     ['selection @ t5x/checkpoints.py Checkpointer.restore',
      'latest step @ t5x/checkpoints.py get_latest_step / latest_step',
      'format detection @ t5x/checkpoint_utils.py detect_checkpoint_type',
      'loading for finetuning @ t5x/checkpoints.py load_t5x_checkpoint'])

prop('C06', 'Partial restores never mix up checkpoint, fallback and renamed values',
     """With a fallback state, every value the checkpoint has is restored from it
     and the fallback only fills what is missing; without one, a missing value is
     an error. With an assignment map, each name takes the value of the checkpoint
     name given by the first rule matching it fully, names dropped by a rule stay
     dropped, unmapped ones keep their own value, an unknown source (or, when
     required, an unused rule) is an error, and a resumed run is not remapped.""",
     'inputs configurations',
     'every pair of state trees and every list of rules',
     'tests use a few small trees; overlaps between rules, names and fallback '
     'are combinatorial',
     't5x/state_utils.py t5x/checkpoints.py',
     ['merge and intersection @ t5x/state_utils.py merge_state / intersect_state',
      'assignment map @ t5x/state_utils.py apply_assignment_map',
      'use in restore @ t5x/checkpoints.py Checkpointer.restore'])

prop('C07', 'A train state survives the trip through its state dict unchanged',
     """The state dict of a train state (and of its optimizer) holds every part:
     target, step, optimizer state, mutable collections and, under its own key,
     each of them returns to the same field on restore, with missing or extra
     parts rejected rather than dropped, and optax state re-sorted into exactly
     the structure it had. Logical-axis trees mirror this structure, and a state
     built from model variables keeps parameters, mutables and axes apart.""",
     'inputs configurations',
     'every train-state class, every combination of absent / present mutables '
     'and axes, every optimizer',
     'tests round-trip one or two tiny states',
     't5x/train_state.py t5x/optimizers.py',
     ['train states @ t5x/train_state.py FlaxOptimTrainState / InferenceState',
      'optimizer state @ t5x/optimizers.py OptaxWrapper / OptimizerDef / Optimizer'])

TRF = 't5x/trainer.py'

prop('C08', 'The state of the input pipeline is saved once per shard and restored everywhere',
     """When a dataset iterator is checkpointed, exactly one host of every data shard
     writes its state, into the same checkpoint as the model and under the name of
     that shard; hosts never write the same file. A restore gives every host that
     reads a shard - not only the one that wrote it - the state of that shard from
     the checkpoint being restored, and a missing or partial state is an error.
     This holds for the legacy checkpointer and for Orbax, and the iterators of
     the training loop hand position, save and restore through without skipping
     or repeating a batch.""",
     'hosts histories',
     'every data layout, number of hosts and kind of iterator',
     'the tests run on one host, where every host is the first of its shard',
     't5x/checkpoints.py t5x/utils.py',
     ['legacy @ t5x/checkpoints.py Checkpointer',
      'Orbax @ t5x/checkpoints.py DatasetCheckpointHandler',
      'iterators @ t5x/utils.py ShardedDatasetIterator / prepare_train_iter'])

prop('C09', 'Arrays are written and read whole, in the right place and layout',
     """Every partitioned array of a checkpoint is written exactly once and whole,
     under the directory of that checkpoint, and its index entry is a spec with a
     relative path, so that a checkpoint can be moved. Its chunks are shaped after
     what one host writes. A read opens the array below the checkpoint it belongs
     to, refuses another shape and uint16 data instead of bfloat16, casts to the
     requested dtype, and puts the value on the mesh with the axes of its own
     parameter; values kept in the index come back as they are.""",
     'inputs hosts',
     'every tree of arrays, mesh, shape, dtype and directory',
     'tests write a few small arrays on one device',
     't5x/checkpoints.py',
     ['write @ t5x/checkpoints.py Checkpointer._write_state_to_tensorstore',
      'read @ t5x/checkpoints.py _read_ts',
      'layout @ t5x/checkpoints.py Checkpointer._get_parameter_infos'])

prop('C10', 'Concurrent array writes stay within the memory limit and never block',
     """During a save no more than the configured number of gigabytes of array data
     is being written at a time: each write first waits until its own bytes (those
     of its replica-0 shards) fit and takes them under a lock, gives back the same
     amount after the write and wakes all waiters. A request is never larger than
     the limit, so no write waits forever. One limiter spans the save, the limit
     is the one the caller asked for, and all futures of a tree are awaited and
     put back in their places.""",
     'interleavings',
     'every order in which the writes of a save start and finish',
     'the interleaving of the writes is not controlled by any test',
     't5x/checkpoints.py',
     ['limiter @ t5x/checkpoints.py _BytesConditionVariable',
      'writes @ t5x/checkpoints.py Checkpointer._write_state_to_tensorstore',
      'futures @ t5x/checkpoints.py _run_future_tree'])

prop('C11', 'Lazy arrays and imported T5 checkpoints deliver what they announce',
     """A lazily loaded array delivers, through either of its two ways of loading, the
     array it was made for in the dtype it announces; shape, dtype and size are
     known without loading. Importing a T5 (TensorFlow) checkpoint translates every
     variable by the first rule matching its whole name to the Flax parameter or
     optimizer slot of the same role, fails on a variable no rule knows, on another
     shape and (in strict mode, the default) on a name the model lacks, adds the
     slots Flax needs and TF lacks, and binds each array to its own variable.""",
     'inputs',
     'every set of variables, rules and dtypes',
     'tests import one small checkpoint and check some keys',
     't5x/checkpoint_importer.py',
     ['lazy arrays @ t5x/checkpoint_importer.py LazyArray',
      'rules @ t5x/checkpoint_importer.py CheckpointTranslator',
      'import @ t5x/checkpoint_importer.py restore_from_t5_checkpoint'])

prop('C12', 'Loading a checkpoint gives back every value stored in it',
     """Restoring without step or path takes the latest checkpoint, fails when
     there is none, when both are given, or on a TensorFlow checkpoint, and reads
     the checkpoint in the format detected there. Every value of the train state
     the checkpoint holds is read as described for it, transformed by all given
     functions in order; only parameters are converted to the restore dtype,
     lazily or not, optimizer state never; what the checkpoint lacks comes from
     the fallback state, if given. The dataset iterator is read from the
     directory of the checkpoint restored. Loading without a model reads every
     value stored, whole. A TensorFlow checkpoint becomes the state of the
     model, placed like its parameters, and converting it saves that state.""",
     'inputs configurations histories',
     'every checkpoint, state, transformation and dtype',
     'the tests of restoring do not run here; none covers the combinations',
     't5x/checkpoints.py',
     ['restore @ t5x/checkpoints.py Checkpointer.restore',
      'read @ t5x/checkpoints.py Checkpointer._read_state_from_tensorstore',
      'load @ t5x/checkpoints.py load_t5x_checkpoint'])

prop('T01', 'A train step depends only on state, batch, base key and step number',
     """The dropout key of a training step is the base key folded with the step in
     the train state and the learning rate is the schedule at that step, so a
     resumed run repeats the original one. State, batch, model and microbatch
     setting reach the gradient computation unchanged; its gradient is applied
     exactly once, to the incoming state, together with the new mutables. An
     evaluation step only reads parameters and mutables and uses no randomness.""",
     'inputs histories configurations',
     'every state, batch, step and configuration of the trainer',
     'a test compares a few steps of a fake model and never resumes',
     't5x/trainer.py',
     ['step function @ t5x/trainer.py Trainer._partitioned_train_step',
      'update @ t5x/trainer.py train_with_lr / apply_grads',
      'evaluation @ t5x/trainer.py eval_step'])

prop('T02', 'Microbatched gradient accumulation equals the whole-batch gradient',
     """With microbatches the batch is split into consecutive equal slices of every
     feature that together cover it exactly once (a size that does not divide is
     an error); each slice's gradient at the same parameters is added once to a
     float32 sum starting at zero, all metrics are merged in order, mutables are
     threaded through and every slice draws its own dropout key. Without
     microbatches the loss gradient of the whole batch is used.""",
     'inputs configurations',
     'every batch, feature shape, number of microbatches, with and without '
     'mutables',
     'trainer tests use a mocked gradient function and one batch size',
     't5x/trainer.py',
     ['accumulation @ t5x/trainer.py accumulate_grads_microbatched'])

prop('T03', 'Train and eval loops account for every step, batch and metric',
     """Training runs exactly the requested number of steps, each on the next
     batch and on the state the previous step returned, keeps the last state
     under the lock, merges the metrics of every step and reports them for the
     step reached. Evaluation runs every batch of every dataset once on the same
     state with that dataset's own metrics, and all hosts agree on each step and
     on the end of the data.""",
     'inputs histories schedules',
     'every number of steps, every set of datasets of every length, any number '
     'of hosts',
     'tests run two steps in one process',
     't5x/trainer.py',
     ['loops @ t5x/trainer.py BaseTrainer.train / BaseTrainer.eval',
      'merging @ t5x/trainer.py merge_metrics',
      'precompilation @ t5x/trainer.py BaseTrainer.compile_eval'])

prop('T05', 'A training run covers every step once, saves and evaluates on schedule',
     """The calls to the trainer together train every step from the restored step to
     the total exactly once, on any combination of periods and listed checkpoint
     steps. The current state is saved before training (when configured), at every
     checkpoint period, at every listed step, at the last step and before a
     preemption error leaves the loop; evaluation runs at every eval period and at
     the last step, after the checkpoint. A stop request from any action is kept
     and ends the loop, hosts meet and resources are closed before the function
     returns. Initialization and training use different keys of one seed, each
     host reads the shard of its data layout and reading starts only after the
     data state was restored.""",
     'configurations histories',
     'every restored step, total, period, list of checkpoint steps, set of '
     'actions and stop point',
     'the tests of the main loop need a model and a dataset and run two periods',
     't5x/train.py t5x/utils.py',
     ['main loop @ t5x/train.py train', 'actions @ t5x/train.py run_actions',
      'listed steps @ t5x/utils.py find_first_checkpoint_step / '
      'find_next_checkpoint_step'])

prop('T06', 'Training and inference start from the state the configuration names',
     """A run resumes from the latest checkpoint of its own model directory; only
     without one is the configured initial checkpoint used, and only without that
     is a state initialized from scratch. The first restore configuration that
     names a checkpoint wins, "latest" is its last checkpoint, "specific" is
     taken literally, and an unusable configuration is an error. Save and restore
     settings (dtype, retention, data state, strictness, transformations,
     fallback) reach the checkpointer or manager they belong to, missing
     parameters are only initialized when asked to, and a fresh state has the
     axes, shapes and initializer of a restored one.""",
     'configurations histories',
     'every save/restore configuration, directory content and checkpointer class',
     'tests mock the checkpointer and try one configuration at a time',
     't5x/utils.py t5x/train.py',
     ['order @ t5x/train.py train',
      'choice @ t5x/utils.py get_first_valid_restore_config_and_paths',
      'managers @ t5x/utils.py create_orbax_checkpoint_manager / '
      'LegacyCheckpointManager',
      'initializer @ t5x/utils.py TrainStateInitializer'])

prop('T07', 'Summaries carry their own period, and stopping actions follow their metric',
     """Only host 0 writes summaries, one thread at a time, in order, each under the
     step it was given, in the directory and collection of its task, with every
     metric and with the duration and number of steps of its own period. A
     duration runs from the completion of the work before the period to the
     completion of the work in it, and an error other than a deleted buffer is not
     timed. Closing a metrics manager first completes the pending summaries, and
     the timer and the writer are closed even when one of them fails. Early
     stopping (patience of two or more) stops exactly when the monitored metric
     failed to improve by the tolerance over the whole patience window, the NaN
     action exactly when the monitored metric is NaN or infinite, and neither
     when the metric is missing or not a number. Closing a trainer closes the
     metrics managers of training and of every evaluation. Weight metrics are the named
     norms of the named values.""",
     'histories schedules',
     'every sequence of metric values, failure and order of summary threads',
     'tests look at a short series of values with mocked writers',
     't5x/trainer.py',
     ['summaries @ t5x/trainer.py MetricsManager',
      'durations @ t5x/trainer.py _AsyncTimer',
      'stopping @ t5x/trainer.py EarlyStoppingAction / TerminateOnNanAction',
      'norms @ t5x/trainer.py WeightMetricsComputer'])

prop('L01', 'The training loss is the normalized cross entropy and its gradient is exact',
     """cross_entropy_with_logits is -sum(targets * log_softmax(logits)) plus
     z_loss * log(Z)^2, has the same value when differentiated, and its custom
     gradient is the derivative of that value with respect to logits and targets
     for every input, in their dtypes. The weighted loss removes the
     label-smoothing constant, applies the token weights once and divides loss
     and z-loss by the normalizing factor, which is the number, token count, weight
     sum or per-sequence average it is named after (packed sequences are
     normalized row by row, segment by segment). loss_fn minimizes this loss of
     the model's logits and the batch's target tokens with the model's own
     settings.""",
     'inputs configurations',
     'all logits, targets, weights, packings and settings',
     'tests compare a few small arrays at one setting',
     't5x/losses.py t5x/models.py',
     ['loss and gradient @ t5x/losses.py cross_entropy_with_logits',
      'weights @ t5x/losses.py compute_weighted_cross_entropy',
      'normalization @ t5x/losses.py get_loss_normalizing_factor_and_weights',
      'training @ t5x/models.py BaseTransformerModel.loss_fn'])

prop('L02', 'Metrics accumulate over steps and report the quantity they are named after',
     """Merging two metric objects adds totals, numerators and step counts and
     computing them gives the sum, the average per step, the rate over the
     duration or the steps per second, failing when the steps or duration were
     never filled in. Durations and numbers of steps are filled into every metric
     of a (nested) tree that has them and nowhere else, accumulators start from
     zeros of the same shape and dtype, and every metric of a training step is
     built from the loss, z-loss, targets, mask and packing of that step's own
     batch.""",
     'inputs histories',
     'every sequence of merges, batch and set of features',
     'tests merge two values and compute once',
     't5x/metrics.py t5x/models.py',
     ['accumulation @ t5x/metrics.py Sum / AveragePerStep / TimeRate / StepsPerTime',
      'filling @ t5x/metrics.py set_time_metrics_duration / set_step_metrics_num_steps',
      'step metrics @ t5x/models.py compute_base_metrics'])

prop('D01', 'Temperature sampling keeps the prompt, adds what it draws and scores it',
     """Sampling keeps every given prompt token, starts each sequence at its own
     initial index, calls the model with the current token, sequence and cache,
     and appends the token it drew (argmax at zero temperature, otherwise a
     sample of the logits divided by the temperature after top-k or top-p
     masking) until a new end marker, the end of the sequence or the permitted
     number of steps, independently per sequence; nothing is emitted or scored
     after that. The log probability is the sum over emitted, not given, tokens
     of the (rescaled, if asked) log probabilities. Decodes are independent
     copies of their own batch entry with the cache and temperature of that
     entry, returned in increasing order of log probability, and every step uses
     a fresh random key.""",
     'inputs configurations',
     'all models, prompts, temperatures, numbers of decodes and callbacks',
     'tests run a few constant-logit models for one configuration each',
     't5x/decoding.py',
     ['loop @ t5x/decoding.py _temperature_sample_single_trial',
      'decodes @ t5x/decoding.py temperature_sample'])

prop('D02', 'Beam search keeps sequence, score and cache together and stops only when done',
     """Every step extends the live beams by the model's log probabilities, forces
     the prompt tokens, never continues a beam that ended, and gathers sequence,
     log probability and cache of a beam by the same index. Finished hypotheses
     are ranked by length-penalized score and only the best are kept, live beams
     are returned only for an example without a finished one. The search stops
     only at the length or step limit, when no live beam can beat the worst kept
     finished one in any example, or when none can reach the minimum log
     probability. With a prefilled prompt (initial index) each prompt is kept in
     front of its continuation and counted in its length; the two-stage top-k and
     the alignment of prompts lose nothing.""",
     'inputs configurations',
     'all models, prompts, beam sizes, penalties and limits',
     'tests run small models with fixed scores and one or two beams',
     't5x/decoding.py',
     ['loop @ t5x/decoding.py beam_search', 'start @ t5x/decoding.py beam_init',
      'primitives @ t5x/decoding.py top_k_two_stage / brevity_penalty / '
      '_right_align_prompts / _left_align_prompts'])

prop('D03', 'Top-k and top-p masks keep exactly the values above the cut-off',
     """The binary search finds, for every element of the batch, the threshold at
     which a monotonic predicate changes, over all int32 and over all finite
     float32 values in their order (negative numbers, zeros and the extremes
     included). top-k keeps the values not smaller than the k-th largest, top-p
     the values of the smallest set of most probable choices whose mass reaches
     p, and all other values are replaced; the kept ones are unchanged.""",
     'inputs',
     'all values, shapes, k and p',
     'tests compare some random arrays',
     't5x/binary_search.py',
     ['search @ t5x/binary_search.py int32_bsearch / float32_bsearch',
      'masks @ t5x/binary_search.py topk_mask / topp_mask'])

prop('D04', 'Beam dimensions never mix examples or touch unbatched cache entries',
     """Adding, merging and splitting the beam dimension happens next to the batch
     dimension (behind the layer dimension for scanned caches) in batch-major
     order, beams are gathered from the same example by their index for values
     of every dtype, the best ones in increasing order of score, and cache
     functions map exactly the entries that have a batch dimension: never the
     cached relative position bias or the position embedder's index, and the
     cache index only when it has one per example. A frozen cache stays frozen
     and unmapped entries are kept.""",
     'inputs configurations',
     'all shapes, offsets, beam indices and nested caches',
     'tests use one cache, offset zero and a few shapes',
     't5x/decoding.py',
     ['dimensions @ t5x/decoding.py add_beam_dim / flatten_beam_dim / '
      'unflatten_beam_dim / flat_batch_beam_expand',
      'gathering @ t5x/decoding.py cache_gather_beams / gather_beams / '
      'gather_topk_beams', 'cache @ t5x/decoding.py cache_map'])

prop('M01', 'Models run their module on the features of the batch, randomly only when asked',
     """The loss, scores and evaluations of both model types apply the module to the
     params and the batch's own tokens, targets, segment ids and positions (the
     causal-attention mask only in the bidirectional mode, where it is required),
     with dropout exactly when a dropout key is given, in training mode and with
     the variable collections the caller passed. Evaluation never uses dropout.
     A decoding step is deterministic, uses and returns the cache of its own
     state. Initial variables have the shapes and types given for every feature,
     defaults included.""",
     'inputs configurations',
     'every batch, feature set, module and dropout setting',
     'model tests mock the module for one batch layout, and are not run here',
     't5x/models.py',
     ['forward @ t5x/models.py _compute_logits',
      'step @ t5x/models.py _compute_logits_from_slice',
      'init @ t5x/models.py get_initial_variables',
      'eval @ t5x/models.py BaseModel.eval_fn'])

prop('M02', 'Predictions continue the prompt and never see the targets',
     """The decoding function gets the prompt only: nothing (or, when asked, the
     decoder inputs without end markers) for an encoder-decoder, the inputs
     region of the decoder inputs for a decoder-only model, which needs the
     causal-attention feature. The cache is built from that prompt with its
     lengths, every decode uses the encoding and padding of its own example, the
     key is the one given (two keys are an error), the end marker is that of the
     output vocabulary unless overridden, the beam offset that of scanned
     layers. Returned is the best decode and score, or all of them in order,
     without the prompt for decoder-only models. The decoding parameters passed
     by the caller are not changed.""",
     'inputs configurations histories',
     'every batch, prompt, number of decodes and decoding function',
     'tests use mocked modules and one decode',
     't5x/models.py',
     ['encoder-decoder @ t5x/models.py EncoderDecoderModel.predict_batch_with_aux',
      'decoder-only @ t5x/models.py DecoderOnlyModel.predict_batch_with_aux',
      'prompt removal @ t5x/models.py remove_prefix'])

prop('M03', 'Scores are the weighted log likelihoods of the targets',
     """score_batch returns, per sequence, the sum over target tokens of the log
     probability the model gives them times their loss weight, computed without
     dropout, label smoothing or z-loss whatever the model was trained with.
     With intermediates it returns the same scores together with the
     intermediates of that very forward pass and the targets, weights and token
     scores.""",
     'inputs configurations',
     'every batch and model setting',
     'tests score one small batch',
     't5x/models.py',
     ['scores @ t5x/models.py EncoderDecoderModel.score_batch / '
      'DecoderOnlyModel.score_batch'])

prop('U01', 'Learning rate schedules are the product of the factors they name',
     """A schedule is, for every step, the product of exactly the factors its
     string names (each the function documented for its name, of the step
     counted from the offset and never negative), never below the minimum
     learning rate, in float32. Spaces do not matter; an unknown factor is an
     error when the schedule is used.""",
     'inputs configurations',
     'every step, parameter and every combination of one or two factors',
     'there are no tests of it that run here; a sample of steps cannot show it',
     't5x/utils.py',
     ['schedule @ t5x/utils.py create_learning_rate_scheduler'])

prop('I01', 'Offline inference survives crashes without losing or repeating examples',
     """Whatever moment infer() is killed at, running it again completes the
     output with every example once: a chunk is marked completed only after its
     file is written, the stored input position moves past a chunk only after
     that mark, and is published only under its final name; a chunk is handed to
     the writer only when all earlier ones are written, and a failed write is
     raised on the main thread. Without stored positions exactly the marked
     chunks are skipped; with them the iterator resumes at the stored position.
     The merged file and its mark come last, after all writes, and a task whose
     final mark exists is skipped. Only host 0 writes, and hosts wait for each
     other after every chunk and task. Each chunk has a key of its own number.
     Parameters are restored without the optimizer, and an unknown mode or no
     checkpoint is an error.""",
     'crash points histories schedules configurations',
     'every crash point, shard, chunk and host',
     'there is no test that kills it; the protocol spans two threads',
     't5x/infer.py',
     ['protocol @ t5x/infer.py infer', 'writer @ t5x/infer.py '
      'FailFastThreadPoolExecutor'])

prop('I02', 'Every inference result is written with the example it belongs to',
     """Results are paired with the index of the example they were computed from:
     the dataset is padded to full batches with copies marked -1, sharded and
     batched without dropping, every host checks that all have the same data,
     each batch gets its own key, padding is removed from results and indices
     alike, and a result count other than the number of examples is an error.
     Tokens and auxiliary values are put in example order together. A line of
     the output has the asked-for inputs, the prediction or score and the
     auxiliary values of one example. Merging concatenates all chunks (numbered with five digits) in order,
     or fails when one is missing. The ad-hoc task reads exactly the given files
     and keys.""",
     'inputs configurations',
     'every dataset length, batch size, number of hosts, order of results',
     'tests of it are not run here, and sample one host',
     't5x/utils.py t5x/infer.py',
     ['pairing @ t5x/utils.py get_infer_fn', 'order @ t5x/infer.py '
      '_extract_tokens_and_aux_values', 'lines @ t5x/infer.py '
      'write_inferences_to_file', 'merge @ t5x/infer.py merge_chunks_to_file'])

prop('T04', 'Every host takes part in every collective operation',
     """No barrier, broadcast, cross-host comparison or partitioned computation
     is guarded by, or repeated depending on, something that differs between
     hosts (the process index, clocks, host-local devices, random values, values
     computed from these anywhere in the program, the order of a set): as long
     as no host fails, all hosts perform the same collectives in the same order,
     so none waits forever. What one host decides reaches a guard only after it
     was broadcast.""",
     'schedules configurations histories',
     'every function of the repository, every number of hosts',
     'tests run with one host',
     't5x',
     ['whole program @ t5x/train.py t5x/trainer.py t5x/checkpoints.py '
      't5x/utils.py t5x/infer.py t5x/eval.py t5x/interactive_model.py'],
     design="""Each of the ~790 functions is analysed with failures ignored (a
     host that raises ends the job). Summaries (is collective, returns something
     host-dependent, stores it in a field) are computed to a fixed point over
     calls, methods resolved by name; the obligation is one per collective
     operation.""")

prop('P01', 'Device meshes contain every device once, grouped as asked for',
     """get_mesh puts every device at its own place of a (data, model) mesh whose
     model axis has exactly the devices of one submesh tile, for 2-D and 4-D
     hardware, with the tile and host layouts kept together, and rejects tiles
     that do not divide the hardware. CPU and GPU meshes have hosts times local
     devices, with model parallelism within a host first; the default mesh has
     num_partitions model partitions (per TPU generation and shape as
     documented), an explicit submesh or multi-slice shape takes precedence, and
     a configuration without a default is an error. The partitioner builds its
     mesh from its own constructor arguments.""",
     'configurations',
     'every hardware shape, submesh, host layout and number of partitions',
     'tests run on one CPU and cannot build another mesh',
     't5x/partitioning.py',
     ['meshes @ t5x/partitioning.py get_mesh get_cpu_mesh get_gpu_mesh',
      'defaults @ t5x/partitioning.py default_mesh'])

prop('P02', 'Arrays are sharded over the mesh axes of their logical axes',
     """standard_logical_axis_rules gives, for each combination of 1-D and 2-D
     activation and parameter sharding, the documented rules in priority order,
     then the replicated axes, then additional rules; other values are an error.
     PjitPartitioner uses the given rules (the standard ones by default), with
     'batch' split over replica and data when both mesh shapes are given, and
     its data axis is the mesh axis of 'batch' under these rules. get_mesh_axes
     maps the logical axes of every leaf of the train state by them, keeps None
     and empty nodes, and fails naming the parameter when they do not map.""",
     'configurations inputs',
     'every rule list, every train state',
     'a test uses one rule list; a wrong layout changes no value on one device',
     't5x/partitioning.py',
     ['table @ t5x/partitioning.py standard_logical_axis_rules',
      'mapping @ t5x/partitioning.py PjitPartitioner.get_mesh_axes'])

prop('P03', 'Hosts hold disjoint chunks that together cover a sharded array',
     """LocalChunker counts the chunks along each mesh axis as global over local
     size and numbers the chunk of this host by where its first device is. The
     chunk of an array is, along each sharded dimension, the slice of that
     number, whole along the others; its replica id numbers the hosts with the
     same slice, row-major over the axes that are not sharded, so exactly one
     has 0; the shard id numbers hosts row-major over the sharded axes in the
     given order. A single axis name means that axis.""",
     'configurations inputs',
     'every mesh, host, shape and choice of axes',
     'tests have one host, where every chunk is the whole array',
     't5x/partitioning.py',
     ['chunks @ t5x/partitioning.py LocalChunker'])

prop('P04', 'Each host loads its own shard of every batch',
     """Batches are split over the mesh axes that the rules give to the batch
     dimension: data_partition_spec names them, data_mesh_size is their product,
     data_shards the number of hosts along them and data_shard_id the number of
     this host. The data layout has these, defaults to one example per data
     device, marks the first host of each replica set, uses one shard when
     batches are not split, and rejects a batch size that does not divide evenly
     over devices or hosts, or an explicit host index. The arrays made of a
     host's part of the batch hold, on every device, the rows of the batch that
     the device's sharding gives it, equal parts once however many devices hold
     them.""",
     'configurations',
     'every mesh, rule list, host and batch size',
     'tests have one host and one mesh',
     't5x/partitioning.py',
     ['layout @ t5x/partitioning.py BasePartitioner.get_data_layout'])

prop('P05', 'Partitioned functions run with the shardings and mesh asked for',
     """partition() hands function, shardings, static and donated arguments
     unchanged to pjit, and the result is called, lowered and compiled under the
     mesh of the partitioner and its logical axis rules, with the caller's
     arguments. Moving parameters to devices returns the same values laid out by
     the given axes, assembled from host-local arrays when there are several
     hosts; axes given as None mean replicated. Sharding constraints apply
     whenever there is a mesh and a device other than a CPU.""",
     'configurations inputs',
     'every partitioned function, every call',
     'on one device a lost sharding or rule changes no value',
     't5x/partitioning.py',
     ['partition @ t5x/partitioning.py PjitPartitioner.partition',
      'context @ t5x/partitioning.py PjittedFnWithContext'])

prop('O01', 'Optimizer state is laid out like the parameters it belongs to',
     """For every optax state that has a rule, derive_optax_logical_axes gives each
     field that holds one array per parameter the logical axes of the
     parameters (masked parameters stay masked), replicates counters, keys and
     other scalars, and descends into the states of inner transformations. A
     state without a rule is an error, never silently replicated.""",
     'configurations inputs',
     'every optimizer composed of the optax transformations that have rules',
     'on one device a wrong layout changes no value',
     't5x/optimizers.py',
     ['table @ t5x/optimizers.py OptaxStatePartitionRules',
      'states @ t5x/optimizers.py OptaxStatePartitionRules.derive_optax_logical_axes'])

prop('O02', 'An optimizer step is what optax computes; its state round-trips',
     """Applying gradients calls the optimizer with the stored hyper parameters,
     replaced by the overrides given for this step, and returns new parameters
     and new state together, the step count one higher. The wrapped optax
     optimizers are the optax functions of the same name with the caller's
     arguments. The saved state has no empty entries; restoring adds those back
     and fails if anything else is missing. Axes of the optimizer have the same
     structure as its state.""",
     'inputs histories',
     'every optimizer, override, state and checkpoint content',
     'tests use one optimizer and complete states',
     't5x/optimizers.py',
     ['step @ t5x/optimizers.py OptaxWrapper.apply_gradient',
      'restore @ t5x/optimizers.py OptaxWrapper.restore_state'])

prop('O03', 'MultiOptimizer: each parameter is updated by its own optimizer',
     """Every sub-optimizer gets exactly the parameters, gradients, state and
     hyper parameters of its traversal and updates only those; parameters no
     traversal matches keep their value and have no state. A parameter matched
     by two traversals is rejected. Overrides reach every sub-optimizer.
     Logical axes and factorization rules are derived per sub-optimizer by the
     same paths.""",
     'configurations inputs',
     'every set of traversals and optimizers, every parameter tree',
     'tests do not mix optimizers',
     't5x/optimizers.py',
     ['subtrees @ t5x/optimizers.py _update_subtree_of_traversal',
      'overlap @ t5x/optimizers.py MultiOptimizer.init_state'])

prop('O04', 'Adafactor computes the published update for each parameter',
     """Second moments are factored over the dimensions of the rule for the
     parameter, or the two largest when both reach the minimum size, and
     averages leave out batch dimensions; a rule of the wrong rank, or rank
     above two without a rule, is an error. A step applies decay, parameter
     scaling, clipping, momentum, weight decay and NaN skipping as configured,
     each parameter with its own gradient, state and path, after clipping by the
     global norm if asked for. State starts at zero with step 0. Rules derived
     from logical axes reject partly factored parameters; the standard rules
     factor rows, columns and stacked dimensions of the logical axes as
     documented. Constructor
     arguments, with the documented defaults, are those used.""",
     'inputs configurations',
     'every parameter tree, shape, rule and hyper parameter',
     'tests check few shapes and settings',
     't5x/adafactor.py',
     ['step @ t5x/adafactor.py Adafactor.apply_param_gradient',
      'rules @ t5x/adafactor.py Adafactor._parse_rule'])

prop('E01', 'Every checkpoint is evaluated once; marked only when all hosts are done',
     """evaluate() restores each checkpoint of the configuration in order of its
     step (in mode 'all', those not marked as evaluated), non-strictly and with
     initialization from scratch only given a seed, runs training evaluation (if
     configured) and inference evaluation on the restored state, waits for the
     metrics and all hosts, and only then adds the checkpoint to the marks file
     on host 0, keeping the marks already there. Inference evaluation uses the
     predict and score functions of the model with the current state, the
     dataset as configured, unpacked, and computes metrics on host 0 only. A
     failed restore, no tasks to evaluate or no directory is an error.""",
     'crash-points configurations',
     'every set of checkpoints, crash point and host',
     'needs a crash between evaluation and mark, or several hosts',
     't5x/eval.py',
     ['marks @ t5x/eval.py evaluate',
      'inference @ t5x/eval.py InferenceEvaluator.evaluate'])

prop('U02', 'Each host reads its shard of the configured data, seeded alike',
     """get_dataset loads the configured split, cached, trimmed and packed as
     configured, with the given shard, number of epochs and per-host batch size,
     using the configured seed or one that host 0 broadcasts; hosts check that
     the seed is the same. A batch size the shards do not divide is an error.
     Training evaluation gives, for every subtask with that split, and for the
     mixture itself, exactly eval_steps full per-host batches of this host's
     shard of the whole, repeated data. Batches of zeros have the shapes and
     types of the data. Vocabularies are those of inputs and targets, or the one
     all features share; a model with others is rejected.""",
     'configurations',
     'every configuration, host and number of shards',
     'tests have one host and mocked data',
     't5x/utils.py',
     ['train @ t5x/utils.py get_dataset_inner',
      'eval @ t5x/utils.py get_training_eval_datasets',
      'vocabularies @ t5x/utils.py get_vocabulary'])

prop('U03', 'Axis-name overrides apply by whole parameter name, first match wins',
     """override_params_axes_names replaces the axes of each parameter whose full
     '/'-joined name matches a pattern entirely, by the first such pattern,
     leaving others alone and adding missing ones; a model without params_axes,
     or a number of names other than the rank, is an error. Vocabulary sizes are
     rounded up to the next multiple.""",
     'inputs configurations',
     'every parameter tree and list of overrides',
     'tests use a single tree',
     't5x/utils.py',
     ['override @ t5x/utils.py override_params_axes_names'])

prop('A01', 'Attention and its decoding cache see just the allowed positions',
     """In the T5 layers (examples/t5, scalable_t5, decoder_only, and
     contrib/gpu/t5): attention is softmax(query.key + bias) over key positions
     in float32 when asked for, applied to the values, with dropout only when
     not deterministic; when decoding with a cache, a step writes its key and
     value at the cached index, advances the index by one, and attends only to
     positions up to it, with the bias row of that position (prefilled: up to
     the prefill lengths, clearing what is beyond); masks allow a pair of
     positions exactly if padding, causality, and packing segments all do;
     combining masks or biases leaves out the absent ones; relative positions
     fall into T5's buckets; and the dense, gated feed-forward, embedding,
     logits and RMS-norm layers compute their documented formulas with the
     documented parameter names, shapes and logical axes.""",
     'inputs shapes masks steps',
     'every shape, mask, number of heads, decoding step and configuration',
     'the layer tests sample a few shapes; most layers of contrib/gpu have none',
     't5x/contrib/gpu/t5/layers.py t5x/examples/t5/layers.py '
     't5x/examples/scalable_t5/layers.py t5x/examples/decoder_only/layers.py',
     ['attention @ t5x/contrib/gpu/t5/layers.py dot_product_attention',
      'cache @ t5x/contrib/gpu/t5/layers.py MultiHeadDotProductAttention',
      'masks @ t5x/contrib/gpu/t5/layers.py make_decoder_mask',
      'position @ t5x/contrib/gpu/t5/layers.py RelativePositionBiases'])

prop('A02', 'T5 networks wire layers, masks and flags as the architecture says',
     """In the T5 encoder-decoder networks (examples/t5, scalable_t5, contrib/gpu)
     and the decoder-only network: each layer normalizes, attends and transforms
     with residual connections and dropout, the configured sizes and the
     documented parameter names; encoder and decoder embed tokens with the
     shared table, add relative position biases (bidirectional in the encoder
     only), apply the configured number of layers in turn, each its own
     parameters, and give logits by the (rescaled) embedding or a dense layer.
     Padding and, when packed, other examples are masked in self and cross
     attention; when decoding, targets are not masked and packing is an error.
     The flags for dropout, decoding, prefill and lengths reach every layer,
     also under remat and scan.""",
     'inputs configurations',
     'every configuration, input and flag',
     'tests compare few outputs of small models; some variants have none',
     't5x/contrib/gpu/t5/network.py t5x/examples/t5/network.py '
     't5x/examples/scalable_t5/network.py t5x/examples/decoder_only/network.py',
     ['layer @ t5x/contrib/gpu/t5/network.py DecoderLayer',
      'stack @ t5x/examples/scalable_t5/network.py Decoder',
      'masks @ t5x/contrib/gpu/t5/network.py Transformer.decode'])

prop('R01', 'Every name, attribute and argument used exists, on every path',
     """In every function of t5x, contrib and scripts included: no path (any
     outcome of the tests, an exception anywhere in a try, a collection that is
     empty) reads a local name before it is assigned, except where an earlier
     test rules that path out; every name read is bound in an enclosing scope;
     what is named of a module of the repository is defined there; calls of
     functions, methods of self and classes of the repository fit the
     parameters, and so do the arguments of fiddle configurations and of the
     dataclasses of the repository; and attributes read of self, of a new instance, or of a parameter annotated with
     a class whose bases are in the repository, are ones its instances have.""",
     'paths inputs configurations',
     'every function, and every path through it',
     'tests take few of the paths; most functions have no stable test',
     't5x/**/*.py',
     ['locals @ t5x/infer.py FailFastThreadPoolExecutor.check_for_exceptions',
      'names @ t5x/utils.py get_training_eval_datasets'])

prop('G02', 'Every shipped gin configuration names what exists, and gives what is required',
     """For every .gin file under t5x: the files of t5x it includes and the
     modules of t5x it imports exist; each function or class of t5x it
     configures exists and has the parameter it binds (with the constructor's
     parameters or the dataclass's fields, inherited ones included); what its
     values refer to (@names of t5x, and macros) exists; and every entry point
     it configures and everything of t5x it has called (@name()) is given, by
     the file, what it includes or a file including both, every parameter
     without a default. So code cannot rename, remove or newly require a
     parameter, function or class that a configuration depends on.""",
     'configurations',
     'all gin files, against the signatures of the current code',
     'the stable tests parse few of the configurations',
     't5x/**/*.gin t5x/**/*.py',
     ['parameters @ t5x/configs/runs/pretrain.gin train_script.train',
      'parameters @ t5x/utils.py RestoreCheckpointConfig'])

prop('G03', 'A fiddle configuration is the same job as its gin configuration',
     """The fiddle configurations that say they are equivalents of gin files
     (t5x/fiddle_configs: pretrain and finetune, the T5 1.1 model in base and
     small size, the small WMT finetune and C4 pretrain examples) give each
     function and class of the job (train, datasets, checkpoints, partitioner,
     trainer, learning rate schedule, evaluator and loggers, model, optimizer,
     network) the value that the gin file, with what it includes, gives it; a
     parameter given by one only has that value as its default. What the user
     gives goes to the parameters the gin macro of that name goes to, with the
     same default.""",
     'configurations',
     'every parameter of every part of the jobs, whatever the user gives',
     'no stable test builds either configuration',
     't5x/fiddle_configs/**/*.py t5x/configs/runs/*.gin t5x/examples/t5/t5_1_1/**/*.gin',
     ['jobs @ t5x/fiddle_configs/configs/finetune.py train',
      'jobs @ t5x/fiddle_configs/configs/pretrain.py train',
      'model @ t5x/fiddle_configs/models/t5_1_1.py model'])

prop('X01', "An exported model computes the model's inference with its weights",
     """Exporting (t5x/export_lib.py) saves, under the asked signature and
     directory, a module whose call preprocesses the request, runs the model
     and postprocesses its output, in one batch or in batches of the allowed
     sizes. The function it runs is the model's method that the inference mode
     names, with its constant arguments, the request's decoder parameters and
     the decoding state callback, partitioned and converted for the asked
     platforms. Its parameters are exactly those of the configured checkpoint,
     each kept as a variable; the train state that loads them has the shapes of
     the model's features. Modes, directories, tasks and batch sizes that make
     no sense are rejected.""",
     'inputs configurations',
     'every model, mode, request, checkpoint and export configuration',
     'the export library has no stable test: it needs TensorFlow Serving',
     't5x/export_lib.py',
     ['module @ t5x/export_lib.py ExportableModule',
      'function @ t5x/export_lib.py create_inference_function',
      'parameters @ t5x/export_lib.py load_params_from_checkpoint',
      'save @ t5x/export_lib.py save'])

prop('X02', 'Exported models featurize requests as in training',
     """The preprocessors of t5x/export_lib.py turn a batch of texts (or tokens)
     into the model's features as the training pipeline does: tokenized with
     the feature's vocabulary, EOS kept when trimming to the feature's length,
     padded to it (or to the smallest bucket that fits), shifted decoder inputs
     and loss weights on non-padding; for decoder-only models prefix positions
     see each other and have no loss; or by the task's own preprocessors.
     Decoder parameters are passed by name. Outputs are decoded, named and
     counted (tokens, and tokens before EOS) as asked. Warm-up requests have
     the signature's inputs, types and allowed batch sizes, and generated
     warm-up examples have exactly the asked number of tokens.""",
     'inputs configurations',
     'every request, vocabulary, feature length and export configuration',
     'the export library has no stable test: it needs TensorFlow Serving',
     't5x/export_lib.py',
     ['features @ t5x/export_lib.py create_preprocessor',
      'decoder-only @ t5x/export_lib.py create_decoder_preprocessor',
      'outputs @ t5x/export_lib.py create_postprocessor',
      'warm-up @ t5x/export_lib.py write_warmup_examples'])

prop('N01', 'The interactive model trains, infers and evaluates faithfully',
     """InteractiveModel restores the configured checkpoint, else the latest of
     its output directory, else initializes, and gives that state to its
     trainer. A train step rejects less than a batch of examples, trains one
     step from the current step and saves a checkpoint (also when preempted).
     Inference gives every example, in order and whatever the batching, its own
     prediction (decoded) or score with all auxiliary values, from an inference
     function of that mode and those arguments. Evaluation gives each metric
     the targets, predictions, auxiliary values or scores it names, computes
     metrics on one host only and rejects duplicate names. train_loop makes
     as many steps as asked, repeating batches, and evaluates every eval_period
     steps. Examples and seqio batches lose nothing.""",
     'inputs configurations steps',
     'every list of examples, batch size, metric and configuration',
     'the interactive tests need packages that are not installed, so none is stable',
     't5x/interactive_model.py',
     ['train @ t5x/interactive_model.py InteractiveModel.train_step',
      'infer @ t5x/interactive_model.py InteractiveModel.infer_with_preprocessors',
      'evaluate @ t5x/interactive_model.py '
      'InteractiveModel.evaluate_with_preprocessors',
      'steps @ t5x/interactive_model.py _get_equal_length_batches'])

prop('V01', 'MoE partitioning splits experts and data over the right axes',
     """t5x/contrib/moe's partitioner arranges the devices of the default mesh in
     three axes (data, expert, model), the expert axis being the largest divisor
     of the data axis that the asked number of expert partitions allows. Data
     are split over experts and data alike: partition specifications of data
     are overridden so, and the data layout gives the batch size (rejecting
     sizes that do not divide), the number of shards and each host's own shard
     over both axes. The standard rules map the expert axes (and the batch),
     before any additional ones. Only the optimizer state that holds experts
     (the state filter's, or the factored Adafactor's) gets the expert axis in
     front, with flax mutables kept; names and values of leaves are paired.""",
     'configurations devices parameter-trees',
     'every mesh, number of experts, optimizer and parameter tree',
     'tests sample one mesh; multi-host layouts cannot run in the tests',
     't5x/contrib/moe/partitioning.py t5x/contrib/moe/training_utils.py '
     't5x/contrib/moe/adafactor_utils.py',
     ['mesh @ t5x/contrib/moe/partitioning.py default_moe_mesh',
      'data @ t5x/contrib/moe/partitioning.py MoePjitPartitioner.get_data_layout',
      'rules @ t5x/contrib/moe/partitioning.py standard_logical_axis_rules',
      'state @ t5x/contrib/moe/partitioning.py '
      'MoePjitPartitioner.get_logical_axes'])

prop('V02', 'MoE models train on their losses, expert gradients rescaled',
     """The MoE models of t5x/contrib/moe train on the cross entropy loss plus the
     auxiliary and router z-losses, scaled by their factors and averaged over
     the MoE layers (which must have sown them), and report the base metrics
     and the experts' ones. Otherwise they are configured, and predict, as the
     usual encoder-decoder and decoder-only models. MoeTrainer's step is the
     usual one, except that the gradients of exactly the parameters that the
     match function names are multiplied by the number of expert partitions;
     the flax mutables of the step are kept.""",
     'inputs configurations parameter-trees',
     'every model, batch, sown state and parameter tree',
     'the step only differs in scale: tests on one device do not see it',
     't5x/contrib/moe/models.py t5x/contrib/moe/trainer.py '
     't5x/contrib/moe/training_utils.py',
     ['loss @ t5x/contrib/moe/models.py _moe_loss_fn',
      'model @ t5x/contrib/moe/models.py MoeEncoderDecoderModel',
      'step @ t5x/contrib/moe/trainer.py MoeTrainer._partitioned_train_step'])

prop('C13', 'Checkpointers save and restore the whole state, as configured',
     """Checkpointer, SaveBestCheckpointer and OrbaxCheckpointManagerInterface save
     the whole train state of the step it says and restore it into the same
     structure, with the arguments they were given: each array in chunks that
     divide its shape and under its own name and mesh axes, only the model
     parameters cast, transformations applied, fallbacks merged in, arrays that
     are not sharded yet sharded over the mesh, the iterator of the data saved
     and restored. Legacy and TensorFlow checkpoints are restored (or refused)
     likewise. Asked by path, the checkpoint of that path is restored.
     What a checkpoint's structure says of each leaf is what it is read by.
     SaveBestCheckpointer keeps the latest and the best checkpoints by the
     metric, in the known modes, and those of the kept period; the same
     options reach Orbax.""",
     'train-states configurations histories',
     'every train state, option and checkpoint directory',
     'tests sample small states; sharding, drivers, modes and options combine',
     't5x/checkpoints.py',
     ['save @ t5x/checkpoints.py Checkpointer.save',
      'restore @ t5x/checkpoints.py Checkpointer.restore',
      'best @ t5x/checkpoints.py SaveBestCheckpointer._remove_old_checkpoints',
      'orbax @ t5x/checkpoints.py OrbaxCheckpointManagerInterface'])

prop('V04', 'Sparse upcycling gives every expert the dense weights',
     """UpcycleCheckpointer restores a dense checkpoint into a sparse model: each
     expert parameter (below "expert/") becomes as many copies of the dense
     array, stacked in a new first axis and sharded over the expert axes;
     optimizer slots and all other arrays are read as usual. Shapes that do not
     fit (the dense shape, for experts) and unsupported types are refused; the
     restore dtype is applied; otherwise it is set up as the usual Checkpointer.
     (For arrays that hosts do not split on axes other than the expert one.)""",
     'parameter-trees configurations',
     'every parameter name, shape, dtype and number of experts',
     'the tests of MoE checkpoints cannot run here; wrong copies keep the shape',
     't5x/contrib/moe/checkpoints.py',
     ['read @ t5x/contrib/moe/checkpoints.py _read_upcycle_ts',
      'arrays @ t5x/contrib/moe/checkpoints.py '
      'UpcycleCheckpointer._create_lazy_awaitable_array'])

prop('G01', 'A job runs with exactly the configuration of its command line',
     """Gin files, bindings and search paths are all parsed, in the order given (the
     user's paths before the default ones), --gin.NAME=VALUE being rewritten to
     a binding of the same value; fiddle flags give the configuration of the
     entry function or fail. The entry points train, eval, infer, export, main
     and convert_tf_checkpoint run their function with that configuration once:
     --shard_id (0 too) and --tfds_data_dir override it, a dry run does nothing,
     extra arguments are refused, flags that are not given change nothing. The
     configuration is saved as text (and JSON for fiddle) by one host only;
     precompile lowers the train step of the configured model and data.""",
     'inputs configurations hosts',
     'every list of arguments, files, bindings and flags',
     'the main functions only exist when run as a script, so tests never run them',
     't5x/gin_utils.py t5x/config_utils.py t5x/main.py t5x/train.py t5x/eval.py '
     't5x/infer.py t5x/export.py t5x/precompile.py '
     't5x/scripts/convert_tf_checkpoint.py',
     ['gin @ t5x/gin_utils.py parse_gin_flags',
      'fiddle @ t5x/config_utils.py config_with_fiddle',
      'infer @ t5x/infer.py _main', 'main @ t5x/main.py main'])

prop('S01', 'Training on any mesh computes what one device would, up to rounding',
     """The train step compiled for a mesh of many devices returns the state and
     metrics the same step would on one device, up to floating point rounding.""",
     'configurations devices inputs',
     'every mesh, model and batch',
     'tests run on one device', 't5x/partitioning.py t5x/trainer.py',
     ['compile @ t5x/partitioning.py PjitPartitioner.partition'],
     na="""What XLA's SPMD partitioner makes of the annotated program is decided in
     the compiler, and how rounding differs depends on run-time values: no
     argument over the source of t5x bounds either. What t5x itself decides (the
     shardings and meshes it asks for) is P01, P02 and P05.""")

prop('S02', 'Training restored from a checkpoint repeats the uninterrupted run',
     """A run that is stopped and restored from a checkpoint continues with the very
     numbers (losses, parameters) of the run that was not stopped.""",
     'histories inputs crash-points',
     'every model, dataset and step at which it stops',
     'tests compare a few steps of tiny models', 't5x/train.py t5x/checkpoints.py',
     ['resume @ t5x/train.py train'],
     na="""Whether the numbers are equal depends on tf.data (shuffling buffers,
     parallel reads), on compiled kernels and on the storage of values, all
     outside the source. Its parts within t5x are decided: what is saved and
     restored (C07, C08, C12, C13), the keys of steps (T01) and the schedule
     after a restart (T05).""")

prop('V03', 'CALM decodes with exactly the layers it computed',
     """Confident adaptive decoding samples as the usual sampler does and returns, in
     order of probability, each decode with its score, its exits and its
     confidences. A token is computed in intervals from the first exit until the
     confidence (softmax, state similarity or classifier) reaches the threshold
     (decayed with the position if asked) after the minimum exit, each interval
     going on from the last hidden state and cache; skipped layers get their
     cache from the last computed state, and the logits are those of that state.
     Training weights the losses of all exits as configured, or trains the
     classifier; without early exits, the model predicts as usual.""",
     'configurations inputs',
     'every batch, exit configuration, confidence measure and decoding argument',
     'no test of the stable suite runs CALM; wrong exits still give valid tokens',
     't5x/contrib/calm/models.py, t5x/contrib/calm/decoding.py',
     ['early exit @ t5x/contrib/calm/models.py '
      'EncoderDecoderModel._compute_logits_from_slice_early_exit',
      'sampling @ t5x/contrib/calm/decoding.py _temperature_sample_single_trial'])
