#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), note="", technique=""):
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)),
        note=note, technique=technique))


NO_DATA_TESTS = ("The suite contains no test of the dataset package, only model snapshots over fixed inputs: ")
NO_TRAIN_TESTS = ("The suite contains no test of the trainer, checkpoints or optimizers: ")

prop("C01", "Bounded shuffle is an exact-once, bounded, seeded permutation",
     "A bounded streaming shuffle emits every record offered to it exactly once over an epoch, never holds more records than its "
     "capacity nor more known payload bytes than its byte limit, and its output order is a deterministic function of the seed, epoch, "
     "stream key and input. Offering records one by one, in groups, or as zero-sized references gives the same output, and saving the "
     "shuffle's state at any point and restoring it in a fresh object continues with the identical output. The native reference "
     "shuffle and the Python one produce the same order.",
     ["inputs", "histories"], "All offer/drain sequences, capacities, byte limits, record sizes, seeds and save/restore points.",
     NO_DATA_TESTS + "order, loss or duplication depends on the whole offer history and on where the state is saved.",
     ["dataset/shuffle.py", "dataset/packed.py", "dataset/planner_cpp/packed_shuffle.cpp"],
     [("reservoir replacement", "dataset/shuffle.py:StreamingShuffleReservoir"),
      ("native packed reservoir", "dataset/planner_cpp/packed_shuffle.cpp")],
     ["StreamingShuffleReservoir", "PackedUInt64ShuffleReservoir"],
     note="Every generated history is compared with a list-based model and an independent blake2b/uniform-draw reference; "
          "bounded to reservoirs of at most a few hundred records.",
     technique="stateful property-based testing against a reference model, native/Python differential")

prop("C02", "An epoch covers every admitted record once",
     "For any set of records, board shapes and batch size, a training epoch delivers every admitted record at most once, in batches of "
     "exactly the configured size holding a single board shape, and leaves out only the final incomplete batch of each shape. "
     "An evaluation epoch delivers every admitted record exactly once, in source order per shape, with padding rows marked as not real. "
     "A configured number of steps per epoch bounds an epoch to exactly that many batches when the data suffices, and every epoch starts afresh over the whole dataset.",
     ["inputs", "configurations"], "All record multisets over shapes, batch sizes, shuffle settings, shape-queue limits and steps per epoch.",
     NO_DATA_TESTS + "coverage quantifies over every dataset size and shape mixture.",
     ["dataset/planner.py", "dataset/npz_source.py", "dataset/source_dataset.py", "dataset/stream.py"],
     [("shape queues, epoch end", "dataset/planner.py:DatasetPlanner")],
     ["DatasetPlanner.next_batch", "iteration of the dataset objects built by build_dataset"],
     note="Sample identity is planted in file content and read back from delivered batches; oracle is multiset arithmetic over the "
          "generated records.",
     technique="property-based testing with identity-tagged records and a multiset oracle")

prop("C03", "Training data resumes exactly at any committed batch",
     "If the data state is saved after any number of committed training batches and restored in a new process over the same files, the "
     "remaining batches of this and later epochs are identical, row for row, to those of the uninterrupted run. Batches that were read "
     "ahead or delivered but not committed are produced again after a rollback or restore, never skipped or repeated. A state is refused when the dataset, its "
     "files, the seed or the batch layout differ, and by a source that does not support exact resume.",
     ["histories", "crash_points"], "All datasets (dense, indexed, sequential, composite), batch positions, epochs and read-ahead depths.",
     NO_DATA_TESTS + "an interruption can fall at every batch of every epoch, with any read-ahead in flight.",
     ["dataset/planner.py", "dataset/npz_source.py", "dataset/sequential_source.py", "dataset/composite_source.py",
      "dataset/source_dataset.py", "dataset/stream.py"],
     [("transactions, commit tokens, rollback", "dataset/planner.py"), ("state envelope", "dataset/stream.py")],
     ["state_dict/load_state_dict/commit_batch of the built datasets"],
     note="Differential: uninterrupted history vs. history with generated save/restore/rollback points, on real files.",
     technique="stateful property-based testing, interrupted vs uninterrupted differential")

prop("C04", "Prefetching and telemetry never change the batches",
     "The sequence of batches a dataset delivers, their contents, sample order and real-row masks do not depend on how many prefetch "
     "workers or prefetched batches are used, on whether finalisation happens in the prefetcher, on how long decoding a batch takes, or on "
     "whether loading telemetry is enabled. An error while decoding reaches the consumer no later than the batch that failed, instead of a wrong or skipped batch, and iteration afterwards goes on from the last committed batch.",
     ["schedules", "configurations"], "All worker counts, queue depths, decode delays per batch, failure positions and telemetry settings.",
     NO_DATA_TESTS + "out-of-order completion only shows under particular timings.",
     ["dataset/source_dataset.py", "dataset/telemetry.py", "utils/data_utils.py"],
     [("ordered prefetch", "dataset/source_dataset.py:SourceBatchDataset")],
     ["iteration of SourceBatchDataset and built datasets"],
     note="The harness owns decode completion order through generated gates per batch; compared with the unprefetched run.",
     technique="property-based testing with harness-controlled decode schedules, differential against the unprefetched run")

prop("C05", "Ranks partition the single-process plan",
     "For any world size that divides the global batch, the batches delivered to the ranks at each step are disjoint and, concatenated "
     "in rank order, equal the batch one process would get with the same global batch size; all ranks deliver the same number of steps. Sequential "
     "streams that are sharded by file give every record to exactly one rank.",
     ["configurations", "inputs"], "All world sizes, batch sizes, dataset types, shuffle settings and epochs.",
     NO_DATA_TESTS + "no test builds a second rank.",
     ["dataset/planner.py", "dataset/sequential_source.py", "dataset/stream.py", "dataset/composite_source.py"],
     [("local slice", "dataset/planner.py"), ("file sharding", "dataset/sequential_source.py")],
     ["build_dataset with a DatasetRuntimeContext per rank"],
     note="World size W is simulated by W runtime contexts in one process, without process groups.",
     technique="property-based testing, W-rank vs single-process differential")

prop("C06", "NPZ datasets decode rows faithfully",
     "Every sample a NPZ dataset delivers (mapped, streaming, batched, sparse and raw KataGo layouts) equals the row of the file it comes "
     "from: board planes selected by the configured channels, side to move, value target and policy target, with the pass move handled as configured. "
     "All dataset types built over the same processed file agree on the set of rows, filters on board size, side to move or condition "
     "keep exactly the matching rows, and a fixed board size only adds padding and a mask.",
     ["inputs", "configurations"], "All array contents, board sizes, optional arrays, channel choices, filters and pass-move options.",
     NO_DATA_TESTS + "every loader decodes the file in its own way and none is exercised.",
     ["dataset/npz_source.py", "dataset/katago.py", "dataset/sparse_numpy.py", "dataset/source_dataset.py", "utils/data_utils.py"],
     [("decoders", "dataset/npz_source.py:ProcessedNpzDecoder")],
     ["items of the built datasets"],
     note="Oracle is an independent straight-line decoder over the generated arrays.",
     technique="property-based testing, encoder/decoder differential with an independent reference")

prop("C07", "Binary game records decode faithfully",
     "Every position encoded in a simple or packed binary file, plain or LZ4-compressed, is delivered with the board, side to move, last move, "
     "rule, value target and policy target its move sequence and evaluation imply, and positions outside the configured rules, board sizes "
     "are left out; a truncated file or malformed move group is reported as an error. With board symmetry enabled every field of the sample is transformed by the same symmetry, before any padding.",
     ["inputs", "configurations"], "All well-formed records: move sequences with passes, results, multi-PV groups, board sizes, rules.",
     NO_DATA_TESTS + "bit layouts and perspective flips depend on every field value.",
     ["dataset/simple_binary.py", "dataset/packed_binary.py", "utils/data_utils.py", "dataset/sequential_source.py"],
     [("entry parsing", "dataset/simple_binary.py, dataset/packed_binary.py")],
     ["items of the built datasets"],
     note="Records come from an independent encoder; expected samples from an independent board replay.",
     technique="property-based testing, independent encoder and reference decoder")

prop("C08", "Board symmetries act as one group on whole samples",
     "The eight square (four rectangular) board symmetries form a group: each is a bijection, composition and inverse agree between array transforms and "
     "point transforms. Augmentation applies one single symmetry to board planes, policy, sparse features, masks and move coordinates of a sample "
     "together and leaves everything that has no board position (value, side to move, pass probability) unchanged.",
     ["inputs"], "All board sizes, symmetry indices, array ranks and sample contents.",
     NO_DATA_TESTS + "a wrong axis for one index and one field is a silent label error.",
     ["utils/data_utils.py", "dataset/npz_source.py", "dataset/katago.py", "dataset/simple_binary.py", "dataset/packed_binary.py", "dataset/sparse_numpy.py"],
     [("Symmetry", "utils/data_utils.py:Symmetry")],
     ["Symmetry.apply_to_array / apply to moves, dataset samples"],
     note="Transforms are compared with coordinate maps written independently; dataset samples with the untransformed row.",
     technique="property-based testing of algebraic laws and metamorphic relations")

prop("C09", "Composite datasets keep their ratio and identities",
     "A composite of several child datasets draws records so that after every prefix each child's share differs from its configured "
     "weight by at most one scheduling period; each child delivers its own records exactly once per pass in its own order, with contents equal to that child "
     "alone. Length synchronisation and exhaustion follow the configured policy, and mapped composites index their children in order.",
     ["configurations", "inputs"], "All child counts, weights, lengths, types and sync policies.",
     NO_DATA_TESTS + "ratios and exhaustion interact over whole epochs.",
     ["dataset/composite_source.py", "dataset/__init__.py"],
     [("ratio schedule", "dataset/composite_source.py:CompositeRecordSource")],
     ["composite source next_record, MultiDataset items"],
     note="Prefix counts and per-child subsequences are compared with exact rational arithmetic.",
     technique="property-based testing with an exact rational scheduling oracle")

prop("C10", "Seeded randomness is exact, uniform and canonical",
     "Every seeded decision of the data pipeline (uniform draws, permutations, admission of a sample, pipeline state digests) is a pure "
     "function of the seed and identity, the vectorised forms agree with the scalar ones element for element, draws stay within range, and "
     "permutations are bijections. Sampling a fraction of a dataset admits the same records in every process and order, nothing at rate 0 and everything at rate 1. "
     "Canonical pipeline state bytes decode to an equal value and equal values have equal bytes.",
     ["inputs"], "All seeds, identities, bounds up to 2^63, array lengths, rates and nested state values.",
     NO_DATA_TESTS + "range, bijectivity and scalar/vector agreement quantify over all bounds and seeds.",
     ["dataset/core.py", "dataset/packed.py"],
     [("keyed generator", "dataset/core.py")],
     ["dataset.core functions"],
     note="Compared with independent big-integer references; round-trips and injectivity on generated nested values.",
     technique="property-based testing, scalar/vector differential and round-trips")

prop("C11", "Forbidden points follow the Renju rule",
     "For every board position the forbidden-point map marks exactly the empty points where a black move is forbidden under Renju: an "
     "overline, a double four, or a double three in the recursive sense, unless the move makes exactly five. The input board is left as it was and the "
     "result does not depend on other positions processed before or on batching.",
     ["inputs"], "All positions on all supported board sizes.",
     "The suite never runs the native forbidden-point code; the rule is recursive and depends on whole lines.",
     ["dataset/pipeline/forbidden_point_cpp/board.cpp", "dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp",
      "dataset/pipeline/forbidden_point.py"],
     [("forbidden point finder", "dataset/pipeline/forbidden_point_cpp/board.cpp")],
     ["forbidden_point_cpp, ForbiddenPointPipeline"],
     note="Independent recursive Python reference written from the rule; positions biased to dense line structures.",
     technique="property-based testing against an independent rule implementation, symmetry metamorphic relation")

prop("C12", "Line codes identify lines exactly",
     "For every position and line length, the line encoding of a cell and direction is a function of the stones on that line alone, "
     "takes distinct values for distinct lines (stones and distances to the walls), stays inside the advertised number of codes, and "
     "batch encoding equals per-board encoding. Preprocessing pipelines process one sample and a batch identically, and a failed or rolled-back "
     "batch leaves the pipeline state as it was.",
     ["inputs", "histories"], "All boards, sizes, odd line lengths, raw or compressed codes, pipeline stacks and failure points.",
     "Existing snapshots use one line length on a few fixed boards.",
     ["dataset/pipeline/line_encoding_cpp/line_encoding.cpp", "dataset/pipeline/line_encoding.py", "dataset/pipeline/__init__.py",
      "dataset/core.py"],
     [("line table", "dataset/pipeline/line_encoding_cpp/line_encoding.cpp"),
      ("PipelineStateComposer", "dataset/core.py")],
     ["LineEncodingPipeline, PipelineStateComposer"],
     note="Reference encodes lines in Python from the definition; transactional checks inject failures per pipeline and batch.",
     technique="property-based testing against a reference encoder; stateful testing with injected failures")

prop("C13", "Loss statistics are partition invariant and correct",
     "The value and policy losses of a batch equal their mathematical definition for every supported loss type, target form and "
     "distillation setting, up to floating-point tolerance. Splitting a batch into any parts and combining the parts' statistics gives the same loss as the whole "
     "batch, and rows marked as padding contribute nothing to losses, metrics or counts.",
     ["inputs", "configurations"], "All targets, logits, masks, loss types, weights, partitions and padding.",
     NO_TRAIN_TESTS + "the suite compares one trajectory snapshot and never a partition or a padded batch.",
     ["trainer/loss/supervised.py", "trainer/loss/utils.py", "trainer/metric/supervised.py", "utils/training_utils.py", "dataset/core.py"],
     [("sufficient statistics", "dataset/core.py"), ("losses", "trainer/loss/supervised.py")],
     ["compute_supervised_losses, compute_supervised_loss_statistics, compute_supervised_metric_statistics"],
     note="Float64 numpy reference of each formula; partitions generated.",
     technique="property-based testing against a numpy reference and partition metamorphic relation")

prop("C14", "Evaluation reports exact means of every real row, however batched",
     "Testing or validating a model over a dataset evaluates every admitted record exactly once and reports that number of entries. Every reported "
     "loss and metric is the mean over the global batches of that batch's exact mean over its real rows (maxima and VQ perplexity are exact over all real rows); padding rows "
     "and padded cells contribute nothing, and the result does not change with the number of loader workers or of ranks, or with map-style or planned reading of the same data.",
     ["configurations", "inputs"], "All datasets, batch sizes, board-size mixtures, models, losses, worker and rank counts.",
     NO_TRAIN_TESTS + "no test runs an evaluation.",
     ["trainer/base.py", "trainer/supervised.py", "trainer/metric/supervised.py", "dataset/stream.py"],
     [("metric aggregation", "trainer/base.py")],
     ["SupervisedTrainer.test / validate results, result files and log lines"],
     note="Row-by-row reference from the recorded model outputs; several ranks run as forked gloo processes; float tolerance 2e-4.",
     technique="property-based testing, row-by-row oracle and rank/worker/batch-size metamorphic relations")

prop("C15", "Filter expressions are exact and safe",
     "A filter expression evaluates, for every sample, to the value the corresponding NumPy expression has, and any expression outside the "
     "documented subset (other syntax, names, attributes, calls, excessive size, depth or result size) is rejected with an error and never executed.",
     ["inputs", "programs"], "All expressions of the grammar and all strings outside it.",
     NO_DATA_TESTS + "the language is infinite.",
     ["dataset/filter.py"], [("restricted AST evaluator", "dataset/filter.py")],
     ["evaluate_filter_condition, filter_condition option"],
     note="Grammar-based generation; oracle is Python eval over the same arrays, plus a canary for execution of rejected programs.",
     technique="grammar-based property testing and fuzzing, differential against NumPy evaluation")

prop("C16", "Exported weight files are well formed and atomic",
     "An exported weight file starts with a header whose magic, architecture hash, rule mask, board-size mask and description decode to what "
     "was requested, followed by a payload that is the same with and without compression or header. If an export fails at any point the destination keeps its "
     "previous content, and invalid requests are rejected before anything is written.",
     ["inputs", "fault_sequences"], "All models, headers, descriptions, rule and board-size sets, options and failure points.",
     "The suite has no test of export or serialization.",
     ["export.py", "model/serialization/__init__.py"],
     [("header, atomic replace", "model/serialization/__init__.py, export.py")],
     ["export functions, files on disk"],
     note="Independent header parser; faults injected at every write/replace call of an export.",
     technique="property-based testing with round-trip parser and fault injection")

prop("C17", "Exported weights equal the trained model",
     "For every supported architecture, the exported payload decodes, with the documented layout, integer types and quantisation scales, to "
     "the weights of the trained model, so that an engine reading it computes the quantised forward pass of the model; out-of-range weights are "
     "reported and never wrapped silently.",
     ["inputs", "configurations"], "All architectures with serializers, configurations and weight values.",
     "The suite has no test of serialization.",
     ["model/serialization/mixnet.py", "model/serialization/flatnet.py"],
     [("serializers", "model/serialization")],
     ["serialized bytes"],
     note="Independent decoder per architecture family and forward comparison where the payload allows it.",
     technique="property-based testing, serialize/decode round-trip against model parameters and forward")

prop("C18", "Optimizers implement their update rule and resume exactly",
     "Every optimizer the trainer can build updates parameters as its published rule prescribes for any gradients, hyper-parameters and missing gradients, "
     "up to floating-point tolerance. Saving an optimizer's state after any step and loading it into a new one continues with the identical parameters.",
     ["histories", "inputs"], "All optimizer types, hyper-parameters, parameter shapes, gradient sequences and save points.",
     NO_TRAIN_TESTS + "the trajectory snapshot uses one optimizer over few steps.",
     ["utils/muon.py", "utils/chained_optimizer.py", "utils/fused_adamw.py", "utils/training_utils.py"],
     [("build_optimizer", "utils/training_utils.py")],
     ["optimizer.step / state_dict / load_state_dict"],
     note="Float64 references of AdamW, AMSGrad, SGD and Muon; CPU paths only, the Triton kernel is exercised through its CPU reference path.",
     technique="property-based testing against reference update rules, save/restore differential")

prop("C19", "Schedules and clipping follow their definitions",
     "For every configuration, the learning rate at every iteration equals its schedule's definition also after a resume, gradient clipping scales "
     "gradients to at most the limit and keeps their direction, and weight clipping leaves every clipped weight (including the sum with its virtual weights) inside the bounds "
     "its quantisation requires while leaving all in-range weights untouched.",
     ["configurations", "inputs"], "All schedule types and parameters, iterations, gradients, models and clip bounds.",
     NO_TRAIN_TESTS + "clipping bounds only matter for weights the snapshots never reach.",
     ["utils/training_utils.py", "utils/quant_utils.py", "model/mixnet.py", "model/flatnet.py"],
     [("weight clipping", "utils/training_utils.py"), ("build_lr_scheduler", "utils/training_utils.py")],
     ["scheduler lr, gradients and parameters after clipping"],
     note="Closed-form schedule references and independent clipping oracle.",
     technique="property-based testing against closed-form references")

prop("C20", "Checkpoint files are atomic, discoverable and complete",
     "Saving a checkpoint, synchronously or in the background, either leaves the complete new file or the previous one, whatever operation "
     "fails, and what is loaded equals what was staged at the time of the save even if training continues to change it. Discovery returns the checkpoint of the highest iteration "
     "by number, ignores foreign and temporary files, and a background failure is reported to the caller by the next save or flush.",
     ["crash_points", "histories", "fault_sequences"], "All state trees, submit/flush sequences, mutation orders and failing calls.",
     NO_TRAIN_TESTS + "no fault is ever injected.",
     ["utils/file_utils.py", "utils/async_checkpoint.py", "trainer/base.py"],
     [("temp file and replace", "utils/file_utils.py"), ("staged copies", "utils/async_checkpoint.py")],
     ["files on disk, AsyncCheckpointWriter"],
     note="Faults injected at the k-th filesystem or serialisation call of generated histories.",
     technique="stateful property-based testing with fault injection at every call")

prop("C21", "Interrupted training equals uninterrupted training",
     "Training interrupted after any step or by a failure during saving, and resumed from its run directory, reaches bit-for-bit the same "
     "model, optimizer state and logged losses as training that was never interrupted. A resume with an incompatible configuration is refused.",
     ["crash_points", "histories", "configurations"], "All interruption iterations, failing calls, dataset kinds, optimizers and save intervals.",
     NO_TRAIN_TESTS + "interruption can fall at any call.",
     ["trainer/base.py", "trainer/supervised.py", "utils/file_utils.py", "dataset/planner.py", "utils/training_utils.py"],
     [("save/load of train state", "trainer/base.py")],
     ["run directories after build_trainer('supervised').run()"],
     note="Tiny models on CPU, one process; crash is an exception or a cut-off filesystem at a generated call.",
     technique="property-based testing with crash injection, interrupted vs uninterrupted differential")

prop("C22", "Checkpoint retention keeps what it promises",
     "After any training history the run directory holds every snapshot that falls on the save interval, at most the configured number of "
     "training states, and every kept state together with all models and data states it needs to resume; cleanup deletes nothing else.",
     ["histories", "configurations", "crash_points"], "All save intervals, state counts, restart points and foreign files.",
     NO_TRAIN_TESTS + "no test writes a checkpoint.",
     ["trainer/base.py", "utils/file_utils.py"],
     [("cleanup", "trainer/base.py")],
     ["files of the run directory"],
     note="Directory contents after generated histories are compared with a retention model.",
     technique="stateful property-based testing against a retention model")

prop("C23", "A model's output for a sample does not depend on its batch",
     "In evaluation mode, every model's output for a sample is the same alone, in any batch and at any position; for models that accept a board mask, padding "
     "a smaller board changes nothing inside it. The side to move enters only as configured and inference leaves the model's state untouched.",
     ["inputs", "configurations"], "All registered models, inputs, batch compositions, board sizes and paddings.",
     "Snapshots compare fixed batches with stored outputs and never vary the batch around a sample.",
     ["model"], [("forward", "model/*.py")],
     ["model forward outputs"],
     note="Float tolerance per model; configurations kept small.",
     technique="property-based testing with metamorphic relations over batches and padding")

prop("C24", "Quantisation and hashing operators match their definition",
     "Fake quantisation rounds to the nearest representable level within its range, vector quantisation picks a nearest code and returns it exactly, "
     "straight-through gradients equal their definition, and the optimised operators agree with their plain definition for every shape and value.",
     ["inputs"], "All shapes, values including ties and extremes, bit widths, code books and group layouts.",
     "The suite checks the operators on a handful of fixed shapes and random values.",
     ["model/ops", "model/vq.py", "utils/quant_utils.py"],
     [("operators", "model/ops")],
     ["operator outputs and gradients"],
     note="Numpy references; CPU code paths only.",
     technique="property-based testing against numpy references")

prop("C25", "Map-style sampling covers the dataset on every rank",
     "For mapped datasets, a training epoch visits every index exactly once over all ranks (up to the final incomplete global batch), in an order fixed by seed "
     "and epoch; saving and restoring the sampler after any committed batch continues identically, and a failed step gives its samples back. "
     "Evaluation visits every index exactly once, grouped by board shape.",
     ["histories", "configurations"], "All dataset lengths, batch sizes, world sizes, seeds, commit/rollback/save histories.",
     NO_TRAIN_TESTS + "no test uses the sampler.",
     ["utils/training_utils.py", "dataset/stream.py", "dataset/__init__.py"],
     [("ResumableSampler", "utils/training_utils.py")],
     ["sampler iteration, data loader batches"],
     note="Model-based histories over sampler operations.",
     technique="stateful property-based testing against a reference sampler")

prop("C26", "Data files are split and listed without loss",
     "Splitting a dataset into parts yields files whose rows together are exactly the rows of the input, with parallel arrays still "
     "aligned; listing data paths returns every matching file once in a stable order and refuses the same physical file given twice. Collating samples and "
     "grouping them by board size neither loses, duplicates nor reorders fields.",
     ["inputs"], "All array sets, split counts, ratios, path lists with links and directories, and sample sets.",
     "The suite never runs the tool or the listing.",
     ["tools/npzsplit.py", "utils/file_utils.py", "dataset/core.py", "dataset/__init__.py"],
     [("npzsplit", "tools/npzsplit.py")],
     ["files written, returned lists"],
     note="Row identity is planted in every array.",
     technique="property-based testing with identity-tagged rows")

prop("C27", "Training performs exactly the configured optimisation",
     "Every iteration makes exactly one optimizer step on the mean gradient of the configured loss over its accumulation steps and over all ranks, on the batches "
     "the data plan prescribes, with weights clipped beforehand, gradients clipped by norm then value, and the schedule advanced once; teacher and pretrained "
     "weights enter as configured. Logged values are the means since the last log, and rows and epochs count what was trained on. With several ranks one "
     "codebook is fitted to the batches of all of them. A loss or gradient that is not finite stops training on every rank and never reaches a checkpoint.",
     ["configurations", "inputs", "faults"],
     "All data, losses, teachers, optimizers, schedules, clipping settings, accumulation counts and rank counts, and any step at which a value stops being finite.",
     NO_TRAIN_TESTS + "no test compares a training run with a plain training loop.",
     ["trainer/base.py", "trainer/supervised.py", "model/vq.py", "utils/training_utils.py"],
     [("train step", "trainer/base.py"), ("supervised losses and teacher", "trainer/supervised.py")],
     ["snapshots, log lines, batches given to the model, error reports of every rank"],
     note="The reference is a plain training loop in float32; losses, optimizers and schedules themselves are those of C13, C18 and C19. CPU, one process or gloo ranks.",
     technique="differential property-based testing of training runs against a plain training loop")

prop("C28", "Runs are configured, recorded, evaluated and logged as written",
     "The trainer receives exactly the settings written on the command line and in the config file, nested values with their types included, the command line first; "
     "the recorded run configuration alone starts a run with the same settings and is left as it is, and unknown keys are refused. Testing from the recorded "
     "configuration evaluates the model, data and pipelines it names, with the given overrides merged in, and writes the metrics of that evaluation. TensorBoard "
     "event files hold exactly the values of the JSON log, whatever is buffered.",
     ["configurations", "inputs"], "All settings and nested YAML values, their distribution over file and command line, overrides, log intervals and scalar sequences.",
     NO_TRAIN_TESTS + "no test runs the command-line programs.",
     ["train.py", "test.py", "utils/config_utils.py", "utils/misc_utils.py", "utils/tb_writer.py", "trainer/base.py"],
     [("argument and config parsing", "train.py, test.py, utils/config_utils.py"), ("event files", "utils/tb_writer.py")],
     ["settings given to a registered trainer, run_config.yaml, result files, event files"],
     note="The programs run inside the checking process with a recording trainer or a small model.",
     technique="property-based testing with round-trip and differential oracles over generated settings")

prop("C29", "The playing and viewing tools show positions as training sees them",
     "test_play.py gives the model, at every ply, exactly the sample that a dataset record of the same position gives in training, for the recorded side, size and "
     "pipeline settings; it plays the legal move the model rates highest and prints the model's estimates and every board on the way; moves and undos keep the board "
     "consistent and impossible moves are refused. Its debug trace shows tensors of the real forward pass, in order, without changing the model or its outputs, one trace per "
     "model at a time. visualize_dataset.py draws every entry of a dataset once, in delivery order and up to the limit, with stones, policy, "
     "forbidden points and result in absolute colours.",
     ["inputs", "histories"], "All games, board sizes, model outputs, pipelines and settings; all datasets, batch sizes and limits.",
     "The suite never plays a game or draws an entry.",
     ["test_play.py", "visualize_dataset.py", "model/trace.py"],
     [("play", "test_play.py"), ("view", "visualize_dataset.py"), ("trace", "model/trace.py")],
     ["inputs recorded by a registered model, printed text, artists given to matplotlib, saved files"],
     note="The programs run inside the checking process with scripted input and a recording model; figures are judged by their artists.",
     technique="model-based property testing of scripted games and differential testing of drawn entries")

prop("C30", "The equivalence tools accept unchanged code and nothing else",
     "A snapshot taken by check_model_equivalence or check_training_trajectory is accepted when replayed on the same code, whatever the random state, and refused when "
     "any output, auxiliary output, gradient, state entry, loss or the layout of the state differs by more than the tolerances, is missing, added or not finite. The inputs "
     "the tools make are legal positions determined by the seed; the operation count of a convolution's backward pass and the quantiles are exact.",
     ["inputs", "configurations"], "All models, seeds, sizes, checkpoints, tolerances, and places where the replayed code may differ; all convolutions.",
     "The suite does not run the tools.",
     ["tools/check_model_equivalence.py", "tools/check_training_trajectory.py", "tools/model_perf.py"],
     [("snapshot and compare", "tools/check_model_equivalence.py, tools/check_training_trajectory.py"), ("inputs and measures", "tools/model_perf.py")],
     ["verdicts, artifacts, generated inputs, counts"],
     note="The changed code is the same model with a hook at the generated place. The benchmark and optimizer tools need CUDA and are not run.",
     technique="metamorphic property-based testing with generated differences")

prop("C31", "Pipeline metrics are exact and tuning stays inside its limits",
     "The metrics of an observed data pipeline count exactly what was decoded, queued, cached and transferred since the last interval, and across ranks report the mean, the "
     "slowest producer and the largest wait. Automatic tuning changes one option at a time, only within its configured limits, never an explicit value by default, not before "
     "its warm-up and cool-down, upwards only when a target is missed and downwards only when it is met; it freezes once the targets are met without a useful change or its "
     "window ends, and then changes nothing. Decisions are logged, recorded and saved as made and equal on every rank; a resumed run goes on from them, a frozen profile is reused "
     "only for a matching runtime, and tuning state of another runtime is ignored or refused.",
     ["inputs", "histories", "configurations", "ranks"], "All tuner configurations, histories of measurements, restores and restarts; all data sets, worker counts and cache limits.",
     "The suite samples a few decisions; the limits hold over whole histories of decisions, restores and restarts.",
     ["dataset/telemetry.py", "dataset/katago.py", "trainer/base.py", "utils/training_utils.py"],
     [("controller and counters", "dataset/telemetry.py (PipelineAutotuner, PipelineProfileStore, PipelineStats, aggregate_pipeline_snapshots)"),
      ("wiring", "dataset/katago.py:_build_partitioned_stream; trainer/base.py:_flush_pipeline_metrics")],
     ["settings, decisions, profiles and counters"],
     note="CPU only: durations of CUDA copies are fed to the counters directly.",
     technique="stateful property-based testing of decision histories against the stated rules, and of counters against the consumed batches")

CLAIMED = set(filter(None, os.environ.get("CLAIMED", "").split(","))) or {
    p["prop"]["id"] for p in P if os.path.exists(os.path.join(HERE, "checks", p["prop"]["id"].lower() + ".py"))}

LEVELS = {"C20": "fault_enumeration"}

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
            f.write(json.dumps(p["prop"]) + "\n")
    checks = []
    for p in P:
        i = p["prop"]["id"]
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}",
                               thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",
                               evidence_file=f"evidence/{i}.json", technique=p["technique"],
                               level=LEVELS.get(i, "exploration"), level_note=p["note"]))
    na = [dict(property=p["prop"]["id"], reason="check not built yet") for p in P if p["prop"]["id"] not in CLAIMED]
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -m vlib.build", checks=checks, not_applicable=na,
             notes="All checks: python3 run.py <id>; --replay FILE re-runs one saved case without the generator.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "claimed")
