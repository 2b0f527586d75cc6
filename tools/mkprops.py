"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, pathlib

O = "singd/optim/optimizer.py"
U = "singd/optim/utils.py"
SB = "singd/structures/base.py"
ALLS = ["singd/structures/%s.py" % s for s in
        ("base", "dense", "diagonal", "blockdiagonal", "hierarchical", "triltoeplitz", "triutoeplitz", "utils")]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


ST = [("Ks/Cs", "pre-conditioner factors", f"{O}:SINGD.__init__"),
      ("m_Ks/m_Cs", "Riemannian momenta of the factors", f"{O}:SINGD.__init__"),
      ("H_Ks/H_Cs", "statistics accumulated by backward passes, flushed by step()", f"{O}:SINGD.__init__"),
      ("steps", "number of completed step() calls", f"{O}:SINGD.step"),
      ("_grad_scales", "gradient scales of the last two steps", f"{O}:SINGD.__init__"),
      ("state[p]['momentum_buffer']", "parameter momentum", f"{O}:SINGD._step")]

prop("C01", "Every training history follows the documented update rule",
     "For every sequence of forward, backward, evaluation and step() calls on a model with Linear and Conv2d layers, in which "
     "each backward pass belongs to a forward pass since the previous step(), in "
     "every supported configuration (structure, KFAC approximation, loss averaging, update interval, momenta, damping, "
     "weight decay, normalised or scheduled pre-conditioner learning rate, KFAC-like update), the parameters after each "
     "step() equal, up to rounding, those of the SINGD update rule documented in the paper and the docstrings, applied to "
     "exactly the batches back-propagated since the previous step.",
     ["histories", "configurations"],
     "all interleavings of forward/backward/no-grad evaluation/forward-without-backward/zero_grad/step over many steps, "
     "all structures and layer geometries",
     "The reliable tests take at most one optimizer step; the training tests need MNIST or GPUs and sample one history of one configuration each.",
     [O, U] + ALLS, [("hook-based accumulation", f"{O}:SINGD._accumulate_H_terms"),
                     ("pre-conditioner update", f"{O}:SINGD._update_preconditioner"),
                     ("natural gradient", f"{O}:SINGD._compute_natural_gradient"),
                     ("parameter update", f"{O}:SINGD._step")], ST, ["model parameters after each step()"])

prop("C02", "The pre-conditioner is refreshed at exactly every T-th step",
     "The pre-conditioner of a layer and its momenta change during step() number t if and only if t is a multiple of the "
     "update interval T of the layer's group (and the step is not skipped), using the statistics of that step's backward "
     "passes only and the scheduled pre-conditioner learning rate of step t; nothing else (evaluation, extra forward or "
     "backward passes, batches of the steps in between) changes them.",
     ["histories", "schedules"],
     "all sequences of step, evaluation, extra forward/backward, overflow-skip and restore events, any T per group",
     "No reliable test runs more than one step, so the cadence, the flush and the schedule index are never exercised.",
     [O], [("hook gating on steps % T", f"{O}:SINGD._register_tensor_hook_on_output_to_accumulate_H_terms"),
           ("flush and refresh", f"{O}:SINGD._update_preconditioner"), ("step counter", f"{O}:SINGD.step")],
     ST, ["pre-conditioner matrices in state_dict()", "calls of the lr_cov schedule"])

prop("C03", "Gradient accumulation equals the full mini-batch",
     "Splitting a mini-batch into equally sized micro-batches, back-propagating them one after another in any order with "
     "the loss scaled as documented, interleaved with evaluation passes and a single step() at the end, gives the same "
     "parameters and pre-conditioners, up to rounding, as one backward pass over the whole mini-batch.",
     ["histories", "schedules", "configurations"],
     "all splits into equal micro-batches that may change from step to step, all orders of them, all configurations",
     "The only test needs MNIST, uses one fixed split with one configuration, and skips the sum reduction.",
     [O, U], [("accumulation across backward passes", f"{O}:SINGD._accumulate_H_terms"),
              ("loss-average scaling", f"{U}:process_grad_output")], ST,
     ["parameters and pre-conditioners after step()"])

prop("C04", "Attaching the optimizer does not change what the model computes",
     "Outputs, losses, activations, gradients, buffers and inputs of a model are the same with the optimizer attached as "
     "without it, for every order of forward, backward, evaluation and step calls, including in-place activations, "
     "activation checkpointing, repeated backward through a retained graph and autocast; neither passes nor step() touch "
     "gradients, random-number state or other process-wide settings.",
     ["histories", "schedules", "configurations"],
     "all orders in which several forward passes and their backward passes can interleave, all network topologies",
     "One test compares gradients with and without in-place activations after a single pass; interleavings, retained graphs and process-wide state are never checked.",
     [O, U], [("forward hook and tensor hook", f"{O}:SINGD._register_tensor_hook_on_output_to_accumulate_H_terms"),
              ("copying input processing", f"{U}:conv2d_process_input"), ("overflow warning", f"{O}:SINGD.step")],
     ST, [".grad after backward and after step()", "model outputs", "torch RNG state", "warnings.filters"])

prop("C05", "Abandoned passes followed by zero_grad() leave no trace",
     "If forward or backward passes are abandoned at any point (an exception such as out-of-memory or an interrupt in the "
     "middle, a non-finite loss, a discarded batch) and the user then calls the optimizer's zero_grad(), every later step() gives the same "
     "parameters and pre-conditioners as if the abandoned passes had never happened.",
     ["fault_sequences", "crash_points", "histories"],
     "every operation inside forward and backward as failure point, any number of abandoned passes before any step",
     "No test lets a pass fail or discards a completed backward pass.",
     [O], [("accumulators fed by tensor hooks", f"{O}:SINGD._accumulate_H_terms"),
           ("zero_grad", "torch.optim.Optimizer.zero_grad / " + O)], ST,
     ["parameters and pre-conditioners after later steps"])

prop("C06", "A step with overflowing gradients is skipped cleanly",
     "When the gradient scaler reports non-finite gradients for a step(), parameters, parameter momenta, pre-conditioners "
     "and their momenta stay exactly as they were, a warning is emitted, and nothing from the skipped step's backward passes "
     "influences any later step; training then continues as if that step had been taken with no update.",
     ["fault_sequences", "histories"],
     "overflow at any subset of steps, in any layer, at refresh and non-refresh steps, with accumulation, any structure",
     "No test ever sets found_inf or runs a GradScaler that overflows.",
     [O], [("found_inf branch", f"{O}:SINGD.step"), ("scale book-keeping", f"{O}:SINGD._remove_used_grad_scales")],
     ST, ["parameters, momenta and pre-conditioners around a skipped step"])

prop("C07", "Gradient scaling never changes the result",
     "For every sequence of gradient scales (growing, shrinking after overflow, changing between pre-conditioner refreshes), "
     "whether supplied by a GradScaler or by set_current_grad_scale, and for every initial scale given to the constructor, "
     "training gives the same parameters and pre-conditioners, up to rounding, as training without scaling; likewise if "
     "the user clips gradients after GradScaler.unscale_ (and tells the optimizer the scale).",
     ["schedules", "fault_sequences", "configurations"],
     "all scale schedules and scale-change points relative to the refresh interval, accumulation and restarts",
     "The scaler test needs MNIST and uses two schedules with T=1; the reliable tests only check that a warning is emitted.",
     [O], [("division by the previous scale in the hook", f"{O}:SINGD._accumulate_H_terms"),
           ("remaining un-scaling", f"{O}:SINGD._update_preconditioner"),
           ("gradient un-scaling", f"{O}:SINGD._compute_natural_gradient"),
           ("scale history", f"{O}:SINGD.set_current_grad_scale")], ST, ["parameters and pre-conditioners after each step()"])

prop("C08", "Crash and restart from a checkpoint continues the same run",
     "If the process dies at any instant and a new process rebuilds model and optimizer and loads the last complete "
     "checkpoint (model, optimizer, scheduler, scaler and, if any, gradients written with torch.save and read with torch.load), the continued run "
     "produces the same parameters and pre-conditioners as an uninterrupted one, for every checkpoint position including "
     "between backward passes and step().",
     ["crash_points", "histories", "configurations"],
     "every event as crash point, every event as checkpoint position, repeated crashes, torn newest checkpoint files",
     "The only checkpoint test needs MNIST and never crashes between save and load; T>1, scaling, groups and mid-accumulation saves are not covered.",
     [O], [("STATE_ATTRIBUTES, state_dict, load_state_dict", f"{O}:SINGD.state_dict / SINGD.load_state_dict"),
           ("module names as keys", f"{O}:SINGD.__init__")], ST,
     ["parameters, pre-conditioners and step counter of the continued run"])

prop("C09", "Loading a checkpoint copies it and fully replaces the state",
     "Loading a state into an optimizer leaves the given dictionary intact and shares nothing mutable with it, so the same "
     "in-memory state can be loaded any number of times and into several optimizers that then train independently; and "
     "loading into a live optimizer at any point, even right after a failed forward, backward or step, behaves exactly like "
     "loading into a fresh one.",
     ["histories", "crash_points", "fault_sequences"],
     "all interleavings of training, snapshot, repeated load, rollback, fork into several optimizers, and injected failures",
     "Tests load each state once, from disk, into a fresh optimizer.",
     [O], [("load_state_dict", f"{O}:SINGD.load_state_dict"), ("state_dict", f"{O}:SINGD.state_dict")], ST,
     ["the loaded dictionary", "trajectories of optimizers restored from one state"])

prop("C10", "Data-parallel replicas stay identical under every schedule",
     "In distributed training of the same layers on all ranks, started from equal replicas, after every step() all ranks hold the same parameters, "
     "parameter momenta and pre-conditioners, whatever the relative speed and interleaving of the ranks, the completion "
     "times and reduction order of collectives, and the (different) data each rank sees.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of ranks, stalls, collective completion times, different data per rank, with accumulation, scaling and restarts",
     "The only distributed test needs two GPUs and is never run; it samples one schedule.",
     [O, SB], [("all-reduce of statistics in the backward hook", f"{O}:SINGD._accumulate_H_terms"),
               ("all-reduce of natural gradients", f"{O}:SINGD._compute_natural_gradient"),
               ("StructuredMatrix.all_reduce", f"{SB}:StructuredMatrix.all_reduce")], ST,
     ["parameters and pre-conditioners of every rank after each step()"])

prop("C11", "Distributed training equals single-process training on all the data",
     "With equally sized shards, training on R ranks gives the same parameters and pre-conditioners, up to rounding, as a "
     "single process training on the concatenation of the shards, for every loss averaging, configuration and schedule of ranks.",
     ["schedules", "configurations", "histories"],
     "all rank counts, shard assignments, interleavings, and loss averagings including the sum",
     "The only distributed test needs two GPUs, fixes the mean loss and is never run.",
     [O, SB], [("reduction operators", f"{O}:SINGD._accumulate_H_terms"),
               ("reduction of natural gradients", f"{O}:SINGD._compute_natural_gradient")], ST,
     ["parameters and pre-conditioners after each step()"])

prop("C12", "Distributed training never deadlocks and restarts consistently",
     "If all ranks train the same layers, they issue the same collectives in the same order, so every iteration completes in a bounded number of scheduler "
     "steps once stalled ranks resume, whatever the interleaving; and if any rank dies at any point, restarting all ranks "
     "from the last complete checkpoint of one rank completes the run with the result of an undisturbed run.",
     ["schedules", "crash_points", "fault_sequences"],
     "all interleavings and stalls of ranks, rank death at any operation, repeated restarts, any T and accumulation pattern",
     "No test runs several ranks without GPUs, none stalls or kills one.",
     [O, SB], [("collectives in hooks and step", f"{O}:SINGD._accumulate_H_terms, SINGD._compute_natural_gradient"),
               ("checkpoint", f"{O}:SINGD.state_dict")], ST, ["collective sequence per rank", "progress", "final parameters"])

prop("C13", "all_reduce on a structured matrix reduces the whole matrix on all ranks",
     "After all_reduce on a structured matrix (blocking, or asynchronous once every returned handle has been waited for), "
     "every rank's matrix represents the requested reduction (sum or average) of the matrices the ranks contributed, for "
     "every structure, dimension, dtype and tensor layout, whatever the interleaving of ranks and completion times; matrices "
     "that do not take part, and the group or reduction requested, are respected.",
     ["schedules", "inputs", "configurations"],
     "all structures incl. recursive ones, dims with empty blocks, non-contiguous storage, sync/async, sub-groups, interleaved reductions",
     "No reliable test calls all_reduce.",
     [SB, "singd/structures/recursive.py"] + ALLS[1:], [("all_reduce", f"{SB}:StructuredMatrix.all_reduce"),
                                                       ("named_tensors", f"{SB}:StructuredMatrix.named_tensors, singd/structures/recursive.py")],
     (), ["dense form of the matrix on every rank"])

prop("C14", "Groups are independent and only listed parameters are trained",
     "Each layer is updated with the current hyper-parameters of its own parameter group only: a history with several groups "
     "equals separate optimizers for each group, changing a hyper-parameter or learning rate through param_groups or a "
     "scheduler takes effect for that group from the next step() on, and parameters not given to the optimizer, or in "
     "unsupported layers, are never modified.",
     ["histories", "configurations", "schedules"],
     "all partitions of layers into groups, all schedules of hyper-parameter changes between steps",
     "The test needs MNIST and uses two fixed groups with constant hyper-parameters.",
     [O], [("group lookup", f"{O}:SINGD._get_param_group_entry"), ("group check", f"{O}:SINGD._check_param_groups"),
           ("trainable selection", f"{O}:SINGD._get_trainable_parameters, SINGD._install_hooks")], ST,
     ["all model parameters after each step()"])

prop("C15", "Independent trainers in one process do not affect each other",
     "Several optimizers living in one process, on different models, on disjoint layers of one model, or one after another "
     "on the same model, driven by one thread or by several threads that are preempted at arbitrary operations, behave as if "
     "each ran alone.",
     ["schedules", "histories"],
     "all interleavings, at the granularity of single tensor operations, of two or three trainers with different configurations",
     "Tests run optimizers one after another, never interleaved inside a pass or step.",
     [O] + ALLS, [("per-instance state", f"{O}:SINGD.__init__"), ("per-instance hooks", f"{O}:SINGD._install_hooks")], ST,
     ["parameters and pre-conditioners of every trainer"])

prop("C16", "Optimizer state stays bounded over any history",
     "The size of the optimizer's state, the number of hooks on the model and the tensors kept alive by the optimizer depend "
     "only on model and configuration, not on the number of steps, evaluations, skipped steps, discarded passes or restarts; "
     "after a step() no accumulated statistics and no activations or graphs of earlier passes are retained.",
     ["histories", "schedules"],
     "all long histories mixing training, evaluation, accumulation, overflow, abandoned passes and restores",
     "No test measures state after more than one step.",
     [O], [("pop of accumulators", f"{O}:SINGD._update_preconditioner"),
           ("dropping old scales", f"{O}:SINGD._remove_used_grad_scales"), ("hook handles", f"{O}:SINGD._install_hooks")],
     ST, ["state_dict() contents", "weak references to activations", "hooks registered on modules"])

prop("C17", "Rejected or failing calls leave everything as it was",
     "A call that is rejected, i.e. a constructor with invalid arguments or a failing allocation inside it, step() with a "
     "closure, or loading a truncated, incomplete or mismatched checkpoint, raises an error and has no lasting effect: the model, its hooks and "
     "gradients, the optimizer and any other optimizer on the model continue as if the call had not been made.",
     ["fault_sequences", "histories"],
     "every kind of rejected call and damaged checkpoint at any point of any training history",
     "Tests check that two constructor errors are raised, not what they leave behind.",
     [O], [("argument checks before hook installation", f"{O}:SINGD.__init__, SINGD._check_param_groups"),
           ("closure check", f"{O}:SINGD.step"), ("load_state_dict", f"{O}:SINGD.load_state_dict")], ST,
     ["trajectory after the rejected call", "hooks on the model"])

prop("C18", "Configured structure and precision persist through any history",
     "At every point of every history (steps, skipped steps, accumulation, restores, distributed reduction, autocast), the "
     "pre-conditioner matrices and their momenta have the structure class and data type configured for their layer, for every "
     "documented pair of structures and pre-conditioner data types, while parameters and parameter momenta keep the parameter's "
     "data type and no such history makes step() fail.",
     ["histories", "configurations"],
     "all pairs of structures and pre-conditioner dtypes including mixed ones, all histories",
     "The test that trains with dtypes needs MNIST and uses equal dtypes for both factors for five plain steps.",
     [O] + ALLS, [("buffer initialisation", f"{O}:SINGD._initialize_buffers"),
                  ("casts", f"{O}:SINGD._accumulate_H_terms, SINGD._compute_natural_gradient")], ST,
     ["classes and dtypes of matrices in state_dict()"])

prop("C19", "Replacing a parameter's storage does not affect training",
     "Training depends on parameters, not on where they are stored: moving or swapping the storage of parameters between "
     "calls (weight averaging that swaps values in and out, assigning .data, flattening, freeing and re-allocating) leaves "
     "the optimizer working with the same groups and hyper-parameters and gives the same result as copying the values in place.",
     ["histories", "schedules"],
     "all points of a history at which storage is replaced, all permutations of addresses among parameters",
     "No test replaces parameter storage after constructing the optimizer.",
     [O], [("parameter to group mapping", f"{O}:SINGD._check_param_groups, SINGD._get_param_group_entry"),
           ("hook installation", f"{O}:SINGD._install_hooks")], ST, ["parameters after later steps"])

prop("C20", "Layers without a gradient are left alone and never break training",
     "Layers that take no part in the backward passes of an iteration (temporarily frozen, an unused branch, an output that "
     "needs no gradient) and whose gradients are None keep their parameters, momenta and pre-conditioners, as with other PyTorch optimizers, and passes "
     "and step() work for all the others exactly as if those layers were not there in that iteration. A layer that gets a gradient without "
     "having been called (its parameters were used directly) is trained with its current pre-conditioner.",
     ["histories", "schedules"],
     "all schedules of freezing, unfreezing and branch selection over training, relative to the refresh interval",
     "Every test back-propagates through every layer in every iteration.",
     [O], [("tensor hook registration", f"{O}:SINGD._register_tensor_hook_on_output_to_accumulate_H_terms"),
           ("per-layer step", f"{O}:SINGD._step, SINGD._update_preconditioner")], ST,
     ["parameters and pre-conditioners of frozen and active layers"])

prop("C21", "Structured matrices refine dense matrices in any history",
     "For every sequence of operations on structured matrices of any class, including recursive and user-defined ones (products "
     "with matrices and tensors, transposed products, sums, scaling, in-place updates, inner products, trace, diagonal shift, "
     "norms, initialisation, copies, saving and loading), with operands that coincide or are results of earlier operations, every "
     "result is, up to rounding, the structured projection of what the same sequence gives on dense matrices; an operation "
     "changes nothing but the matrix it updates in place, also when it fails half-way or other threads use the same operands.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "all programs over matrices of all classes, dimensions, data types and memory layouts; all failure points inside an operation; "
     "all interleavings of threads that share read-only operands",
     "Tests apply single operations to fresh matrices projected from symmetric ones; results are never operands, updated in place afterwards, or inspected after a failure.",
     ALLS + ["singd/structures/recursive.py"],
     [("structure classes", "singd/structures/*.py"), ("naive fall-backs", f"{SB}:StructuredMatrix"),
      ("recursive templates", "singd/structures/recursive.py")],
     [("registered tensors", "the tensors that represent the matrix", f"{SB}:StructuredMatrix.register_tensor")],
     ["to_dense()", "returned tensors", "all other matrices after each operation"])

prop("C24", "Layers may live on any device",
     "Training and structured-matrix operations do not depend on where layers live: for every placement of layers on accelerators "
     "and the CPU, results equal those on the CPU, all state of a layer stays on that layer's device, no operation mixes devices, "
     "an accelerator that runs out of memory in a forward or backward pass leaves the optimizer usable once gradients are "
     "zeroed, and a check-point can be loaded under any other placement.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "all placements, all kernels at which a device can fail, all check-point and re-placement histories, with accumulation and gradient "
     "scaling",
     "No test runs on more than one device, and CI has no accelerator; device failures and re-placements are not tested at all.",
     [O, U] + ALLS,
     [("device of new state", f"{O}:SINGD._initialize_buffers, SINGD.initialize_preconditioner"),
      ("loading", f"{O}:SINGD.load_state_dict"), ("hook computations", f"{O}:SINGD._accumulate_H_terms"),
      ("matrix constructors", f"{SB}:StructuredMatrix.zeros, StructuredMatrix.eye, supported_eye")], ST,
     ["parameters", "devices of all state", "results of structured operations"])

prop("C25", "Empty mini-batches add nothing",
     "A forward and backward pass over a mini-batch without any data under a summed loss (all data filtered out, nothing routed to an "
     "expert, a rank without data left) works for every supported layer and configuration and contributes nothing to the statistics of "
     "its iteration: training continues as the update rule says, ranks with and without data stay identical, and products of "
     "structured matrices with operands without columns are correct.",
     ["histories", "configurations", "inputs"],
     "all positions of empty passes, shards and operands in a history",
     "No test has an empty mini-batch or operand.",
     [O, U] + ALLS, [("processing of inputs and gradients", f"{U}:process_input, process_grad_output"),
                     ("accumulation", f"{O}:SINGD._accumulate_H_terms"),
                     ("Toeplitz products", "singd/structures/utils.py:toeplitz_matmul")], ST,
     ["parameters and pre-conditioners after step()", "results of structured operations"])

prop("C22", "Layer inputs and gradients are processed as KFAC requires",
     "The matrices formed from layer inputs and output gradients for the expand and reduce approximations equal their "
     "definitions for every geometry (kernel size, stride, padding, dilation, groups, bias, weight-sharing dimensions).",
     ["inputs"], "all layer geometries and tensors", "Tests sample a list of geometries.",
     [U], [("patch extraction", f"{U}:_extract_patches, _extract_averaged_patches"),
           ("gradient processing", f"{U}:process_grad_output")], (), ["return values"])

prop("C23", "Half-precision structured operations stay accurate",
     "Operations on structured matrices in float16 and bfloat16 give the float32 result up to a few units in the last place "
     "and do not overflow where the result is representable.",
     ["inputs"], "all half-precision matrices", "Tests sample random matrices with loose tolerances.",
     ALLS, [("lowest_precision, supported_eye", "singd/structures/utils.py")], (), ["return values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
