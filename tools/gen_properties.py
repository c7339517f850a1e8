#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = [x.strip() for x in observe.split(";")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

L = "brainstorm/layers/"
S = "brainstorm/structure/"
H = "brainstorm/handlers/"
T = "brainstorm/training/"
B = "brainstorm/"

p("C01", "Backward pass delivers the exact gradient of the losses",
  "After a training-mode forward pass and a backward pass, the gradient buffer of every parameter and the delta buffer of every input fed to the network equals the derivative of the sum of all losses with respect to that parameter or input, including every contribution when an output feeds several layers, and for a recurrent network continued from a given state as well. Repeating the passes gives the same gradients (they do not accumulate from one pass to the next).",
  ["programs", "inputs", "histories"],
  "all valid architectures built from the shipped layers and activation functions, all sizes, parameters, data, initial states and both precisions, away from non-differentiable points",
  "the unit tests gradient-check single layers on one or two fixed specs, never with a carried-over state, rarely with fan-out, several losses, size-1 or odd geometry, or a second backward pass",
  [L + "*.py", S + "network.py", S + "buffers.py", H + "numpy_handler.py", H + "_cpuop.pyx"],
  [("per-layer backward_pass", L), ("delta accumulation through shared buffers", S + "layout.py, " + S + "buffers.py"),
   ("operation derivatives", H + "numpy_handler.py")],
  "Network.backward_pass; gradients and Input output_deltas buffers")

p("C02", "Every layer computes its documented forward function",
  "For every shipped layer type and every admissible configuration, sizes and values, the outputs after a forward pass equal the layer's mathematical definition (up to rounding), in training and in evaluation mode, with outputs of the advertised shape; finite inputs of any magnitude give finite probabilities, losses and activations. Layers whose behaviour differs between the modes (dropout, batch normalisation) follow the mode requested and keep the right running statistics.",
  ["inputs", "configurations", "histories"],
  "all layer types, geometry (kernel, stride, padding, border), activation functions, time and batch sizes, parameter and input values, modes, and sequences of passes for layers with running state",
  "tests compare a handful of handler operations with slow loops and check deltas; most layers have no forward oracle at all and extreme values and odd geometry are not visited",
  [L + "*.py", H + "numpy_handler.py", H + "_cpuop.pyx"],
  [("forward_pass of each layer", L), ("shape inference at set-up", L), ("numerical kernels", H)],
  "layer outputs after Network.forward_pass")

p("C03", "Carrying the state over continues a sequence exactly",
  "Running a recurrent network over a sequence in consecutive pieces, each started from the state obtained after the previous piece, gives the same outputs as one run over the whole sequence, however it is cut (a network with clockwork layers: when cut at common multiples of their periods, which count from the start of each run). A run without a given state starts from the zero state whatever ran before, and a captured state is a snapshot that later runs do not change and that does not change when it is used.",
  ["inputs", "histories"],
  "all recurrent and LSTM architectures (including deep and bidirectional-free stacks), all ways of cutting a sequence, all interleavings with other runs, sizes and state re-use (replay of one state several times)",
  "tests never use the state API at all",
  [S + "buffers.py", S + "network.py", S + "layout.py", L + "recurrent_layer.py", L + "lstm_layer.py"],
  [("get_context / apply_context / clear_context", S + "buffers.py"), ("context slice at t=-1", L)],
  "Network.forward_pass(context=...), Network.get_context")

p("C04", "A network's results do not depend on what it processed before",
  "What a forward pass, and the backward pass following a training-mode forward pass, yields depends only on the parameters, the provided data, the mode and the given state: not on earlier batches, on earlier larger, smaller or equal sequence lengths and batch sizes, on earlier aborted passes, on a change of the compute backend in between or on what newly allocated memory happens to contain. Parameters survive every change of batch size, sequence length and backend unchanged.",
  ["histories", "programs"],
  "all histories of provide-data / forward / backward / resize / backend-change operations on all valid architectures",
  "tests use a fresh network of a single size each time; stale buffer contents only show after a particular history",
  [S + "buffers.py", S + "network.py", S + "buffer_views.py", S + "layout.py", L + "*.py"],
  [("resize and re-use of memory", S + "buffers.py"), ("clear_backward_buffers", S + "buffers.py"), ("set_handler", S + "network.py")],
  "all buffers of the network after each operation")

p("C05", "Buffers are wired soundly for every architecture",
  "For every valid architecture the input of each layer reads exactly the memory its connected producers write, with producers' outputs in their advertised shapes; buffers that are not connected never share memory, and every buffer has the shape (time, batch, features) the layer declares. The full parameter vector is the gap-free concatenation of all layers' parameters, and the full gradient vector has the same length and the same order.",
  ["programs", "configurations"],
  "all connection graphs (fan-out, fan-in, several inputs and outputs per layer, several loss layers), all layer sizes, all time/batch sizes and growth/shrink sequences",
  "layout tests check a few hand-written graphs against literal indices",
  [S + "layout.py", S + "buffers.py", S + "buffer_structure.py", S + "buffer_views.py"],
  [("hub construction and permutation", S + "layout.py"), ("view creation", S + "buffers.py")],
  "Network.buffer")

p("C06", "Saving a network and loading it back yields the same network",
  "A network saved to a file and loaded again has the same architecture, numeric precision, bit-identical parameters, weight and gradient modifiers, output name and the same outputs, gradients and trained behaviour on any data as the original at the moment of saving. Saving does not alter the network, and a saved file is independent of later changes to it.",
  ["programs", "inputs", "histories"],
  "all architectures, parameter values (including special values), handlers, modifier set-ups, save/train/load histories and repeated save-load generations",
  "no test saves or loads a network",
  [S + "network.py", B + "describable.py", B + "value_modifiers.py", B + "initializers.py", H + "numpy_handler.py", B + "hooks.py"],
  [("save_as_hdf5 / from_hdf5", S + "network.py"), ("description of parts", B + "describable.py")],
  "Network.save_as_hdf5, Network.from_hdf5")

p("C07", "Descriptions rebuild an equivalent object",
  "The description of any describable object (initializer, modifier, handler, scorer, hook, stepper, schedule, trainer, network, and containers of them) is pure JSON data, and creating an object from it, also after a trip through JSON text, gives an object of the same type with the same configuration, the same observable behaviour and the same description. Describing does not change the object, and unknown or missing types are rejected.",
  ["programs", "inputs"],
  "all describable types, all constructor arguments, all nestings",
  "tests describe synthetic toy classes; few shipped types and arguments are round-tripped",
  [B + "describable.py", B + "initializers.py", B + "value_modifiers.py", B + "hooks.py", B + "scorers.py", T + "*.py", H + "*.py", S + "network.py"],
  [("get_description / create_from_description", B + "describable.py"), ("__undescribed__, __default_values__", B)],
  "get_description, create_from_description")

p("C08", "Every sample is delivered exactly once per epoch, aligned and intact",
  "In each epoch a data iterator delivers every sequence of the data set exactly once, in batches of the requested size (the last may be smaller), with the entries of all named arrays staying aligned, in data-set order unless shuffling was asked for; where sequences are cut according to a mask only fully masked trailing time steps are dropped. Iterating never changes the data set, and malformed data are rejected when the iterator is built.",
  ["inputs", "histories", "configurations"],
  "all data set sizes, shapes, batch sizes, masks, seeds, shuffle/cut settings, numbers of epochs and partially consumed or interleaved epochs",
  "tests look at one tiny data set and mostly at validation errors",
  [B + "data_iterators.py"],
  [("Minibatches, Undivided", B + "data_iterators.py"), ("mask lengths", B + "data_iterators.py")],
  "items yielded by calling the iterator")

p("C09", "Augmenting iterators apply exactly the documented change per epoch",
  "An augmenting iterator (noise, salt-and-pepper, flip, one-hot, multi-hot, pad, crop) changes only the named arrays it was asked to change, applies its documented transformation afresh to the original data in every epoch, passes everything else through unchanged, and reports the shapes it really delivers. Neither the wrapped iterator's data nor the user's arrays are ever modified.",
  ["inputs", "histories", "configurations"],
  "all wrapped iterators, data, parameters, seeds, stacks of augmentations and numbers of epochs",
  "tests only check that bad constructor arguments are refused",
  [B + "data_iterators.py", H + "_cpuop.pyx"],
  [("AddGaussianNoise, AddSaltNPepper, Flip, OneHot, MultiHot, Pad, RandomCrop", B + "data_iterators.py")],
  "items yielded by calling the iterator")

p("C10", "Initialization gives every parameter its specified initial value",
  "Initialising a network assigns each parameter from exactly the specification that matches it by the documented rules (the one whose name or wildcard pattern selects the parameter, within a layer's own dictionary or for the whole layer; the default where none does; the fallback only where the chosen initializer cannot handle the shape), rejects ambiguous, missing or unmatched specifications, and changes nothing else, in particular not the specification passed in. Each initializer produces values of the requested shape with its documented characteristics (range, scale, sparsity, spectral radius, orthogonality, gate layout).",
  ["inputs", "configurations", "programs"],
  "all specification dictionaries over all architectures, all initializers, arguments, shapes and seeds",
  "tests check shapes for a few initializers and a few synthetic reference dictionaries",
  [B + "initializers.py", S + "view_references.py", S + "network.py"],
  [("resolve_references", S + "view_references.py"), ("evaluate_initializer", B + "initializers.py"), ("Network.initialize", S + "network.py")],
  "parameters after Network.initialize; initializer call results")

p("C11", "A fixed seed fixes the whole run",
  "Building, initialising and training with the same seeds (of the global random state or of the single objects), data and code gives bit-identical parameters, batches, activations, logs and file contents in every repetition, in the same or another process, independent of hash randomisation. Once the objects of a run exist, other objects drawing random numbers, other networks trained alongside and uses of other random generators do not change it. Different seeds, and successive draws from one seed, give different random streams; a reset or reseeded random state repeats its stream.",
  ["histories", "configurations", "schedules"],
  "all programs using seeds, all repetitions, process environments and interleavings with unrelated random activity",
  "tests check the random state class alone within one process",
  [B + "randomness.py", B + "initializers.py", B + "data_iterators.py", S + "network.py", T + "trainer.py", H + "numpy_handler.py", S + "architecture.py", S + "layout.py"],
  [("RandomState, Seedable, global_rnd", B + "randomness.py"), ("deterministic ordering of layers and buffers", S)],
  "digests of parameters, batches and logs")

p("C12", "Steppers apply exactly their update rule",
  "Each training step runs one forward pass in training mode and one backward pass and changes the parameters by exactly the stepper's documented update rule (plain gradient descent, momentum, Nesterov momentum, with constant or scheduled learning rate and momentum and optional learning-rate scaling), carrying its velocity correctly from step to step; forward-only stepping changes no parameters. Nothing besides parameters and pass results changes.",
  ["inputs", "histories", "programs"],
  "all networks, data sequences (also varying batch sizes), hyper-parameters, schedules, lengths of history and stepper re-use",
  "no test runs a stepper for more than a smoke check",
  [T + "steppers.py", T + "schedules.py", T + "trainer.py"],
  [("SgdStepper, MomentumStepper, NesterovStepper, ForwardStepper", T + "steppers.py")],
  "parameters after each TrainingStepper.run")

p("C13", "The trainer follows its documented epoch, update and hook protocol",
  "Training performs, for each epoch, one update per delivered batch with the counters advancing by one each, runs each hook exactly at the updates or epochs its timescale and interval name, in order of registration and after the update's weight modifiers, and logs every value a hook returns under the hook's name in order, together with the training losses and scores averaged over the epoch. Training ends exactly when a hook stops it, continues the counters when resumed, and unsuitable data or hook names are rejected before any update.",
  ["histories", "configurations", "schedules"],
  "all hook sets, timescales, intervals, data sizes, numbers of epochs, stop points and repeated train calls",
  "there is no trainer test",
  [T + "trainer.py", B + "hooks.py", B + "scorers.py"],
  [("Trainer.train and _emit_hooks", T + "trainer.py"), ("Hook.start / __call__", B + "hooks.py")],
  "events seen by recording hooks, Trainer.logs")

p("C14", "Stopping and saving hooks act at exactly the right moment",
  "A stopping hook ends training at the first moment its documented condition holds (epoch limit, threshold, patience without improvement, non-finite loss or parameter, quit signal) and never earlier or later; a best-network hook always holds the parameters of the best logged value seen so far under its criterion, in memory or on file; saved networks and logs equal the live ones at the time of the save.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of monitored values (including ties, plateaus and non-finite values), criteria, patience, thresholds, intervals, injected faults (NaN, signals)",
  "hook tests are absent; the condition depends on the whole history",
  [B + "hooks.py", T + "trainer.py"],
  [("EarlyStopper, StopAfterEpoch, StopAfterThresholdReached, StopOnNan, StopOnSigQuit", B + "hooks.py"), ("SaveBestNetwork, SaveNetwork, SaveLogs", B + "hooks.py")],
  "training length, hook state, files")

p("C15", "Weight and gradient modifiers enforce their constraint where installed",
  "After every update (for weights) or backward pass (for gradients) each modifier has been applied to exactly the parameters its specification selects, in the listed order: norms limited, values clipped, masked or frozen, decay added to the gradient; values that already satisfy a constraint and all other parameters stay bit-identical. Installing modifiers copies them, so that one modifier selected for several parameters keeps separate state, and does not change the specification passed in.",
  ["inputs", "histories", "configurations"],
  "all specification dictionaries, modifiers, arguments, parameter shapes (vectors, matrices, filters), values and numbers of updates",
  "one test exercises one modifier on one matrix",
  [B + "value_modifiers.py", S + "network.py", S + "view_references.py", T + "trainer.py"],
  [("ConstrainL2Norm, ClipValues, MaskValues, FreezeValues, L1Decay, L2Decay", B + "value_modifiers.py"), ("order_and_copy_modifiers", S + "view_references.py")],
  "parameters and gradients after each operation")

p("C16", "Scores and losses are the true data-set averages however it is batched",
  "Evaluating a network over a data set gives the losses and scores computed over the whole data set at once: independent of the batch size and of the order of the batches, with masked-out entries ignored; accuracy, Hamming score and mean squared error equal their definitions. Extracting buffers gives, for every sample in data-set order, exactly what the network computes for it.",
  ["inputs", "configurations"],
  "all data sets, masks, batch sizes (also with a smaller last batch), scorers, names and networks",
  "scorer tests use one fixed matrix without batches",
  [B + "scorers.py", B + "tools.py", B + "hooks.py"],
  [("gather/aggregate_losses_and_scores", B + "scorers.py"), ("evaluate, extract, extract_and_save", B + "tools.py")],
  "results of evaluate, extract and of monitoring hooks")

p("C17", "Native kernels never touch memory outside their arguments",
  "The compiled image kernels (pooling forward and backward, patch extraction and its inverse, image cropping) read and write only inside the arrays they are given, have no undefined behaviour, and compute exactly the mathematical result for every admissible geometry; also when several threads run them at the same time on disjoint data.",
  ["inputs", "configurations", "schedules"],
  "all batch, image, channel, window, stride and padding sizes admissible for the layers, both precisions, all thread interleavings",
  "tests run a few geometries without bounds checking, and the kernels are compiled with bounds checks off",
  [H + "_cpuop.pyx", H + "numpy_handler.py", B + "data_iterators.py"],
  [("maxpool/avgpool forward/backward, im2col, col2im, _crop_images", H + "_cpuop.pyx")],
  "kernel calls under AddressSanitizer/UBSan and guard zones")

p("C18", "Handler operations compute what they document, into the output only",
  "Every array operation a compute handler offers gives the documented result for all admissible shapes, values and memory layouts in both precisions, writes nothing but its output arguments, works in place where the layers rely on it, and stays finite and accurate for inputs of any magnitude where the true result is representable.",
  ["inputs", "configurations"],
  "all operations, shapes (including size-one and strided views of larger buffers), values up to the extremes of the precision",
  "tests compare with a reference on a few shapes of moderate values and do not look at memory outside the output",
  [H + "numpy_handler.py", H + "base_handler.py"],
  [("NumpyHandler operations", H + "numpy_handler.py")],
  "operation arguments before and after each call")

p("C19", "The debug handler is transparent and detects what it promises to",
  "Running any network through the debug handler gives bit-identical results to the handler it wraps, and raises no error for a correct finite computation. An operation given wrongly typed, wrongly shaped or non-finite arguments, or producing non-finite results, is reported at that operation instead of passing silently.",
  ["programs", "inputs", "fault_sequences"],
  "all architectures and data (transparency); all operations and injected argument faults (detection)",
  "tests run a few correct calls through the wrapper and never inject faults",
  [H + "debug_handler.py"],
  [("DebugHandler checks and delegation", H + "debug_handler.py")],
  "results and errors of DebugHandler operations")

p("C20", "Wiring code yields exactly the described network; bad wiring is rejected",
  "The network built from connected layer objects contains exactly the layers reachable from any of them, uniquely named, with exactly the connections and settings written down, independent of which connected layer is handed over; layers execute after everything they depend on, and rebuilding from the architecture dictionary gives the same network, and the printed network information and the drawn diagram show its true layers, shapes, parameter counts and connections, whichever way the architecture was written down. Architectures that are cyclic, disconnected, misnamed or incompletely wired, that use layer types, settings, inputs or outputs that do not exist, whose shapes do not fit, or that do not have exactly one Input are refused when the network is built.",
  ["programs"],
  "all wirings over all layer types, all namings, all starting layers, all invalid variations",
  "tests check name counting and a few small architectures",
  [S + "construction.py", S + "architecture.py", S + "layout.py", L + "base_layer.py"],
  [("ConstructionWrapper >>, -", S + "construction.py"), ("generate_architecture, canonical order, validation", S + "architecture.py"), ("shape/size validation", L + "base_layer.py")],
  "Network.architecture, Network.layers, raised errors")

p("C21", "Network shorthand builds exactly the specified network",
  "Building a network from a specification string or asking for matching input and output layers for a task gives exactly the layers, sizes, activation functions, connections, names and loss the specification and task type state, ready to be trained on data of the given shapes and optionally with a mask; malformed specifications and unknown tasks are rejected.",
  ["inputs", "configurations"],
  "all specification strings of the documented grammar, task types, shapes, names and mask options",
  "tests do not use these tools",
  [B + "tools.py"],
  [("create_net_from_spec, get_in_out_layers", B + "tools.py")],
  "architecture and outputs of the resulting network")

p("C22", "Samples do not influence each other, nor the future the past",
  "In any network without cross-sample layers, the outputs, losses and input gradients of a sequence do not depend on the other sequences in the batch or on its position in the batch; outputs at a time step do not depend on later time steps; and time steps masked out contribute nothing to the loss or to any gradient.",
  ["inputs", "programs"],
  "all architectures without batch statistics or cross-sample layers, all batches, permutations, perturbations and masks",
  "tests never compare two related runs",
  [L + "*.py", H + "numpy_handler.py", H + "_cpuop.pyx"],
  [("layers treating (time, batch) independently", L), ("Mask layer", L + "mask_layer.py")],
  "outputs and deltas of paired runs")

p("C23", "Schedules return the documented value at every step",
  "A learning-rate or momentum schedule (constant, linear, exponential, multi-step) gives exactly its documented value for every epoch and update number, changing only at its interval on its timescale and staying within its bounds; a stepper attribute driven by a schedule holds that value for every following update.",
  ["inputs", "histories"],
  "all schedules, arguments, intervals, timescales, epoch/update histories including saved and re-created schedules",
  "tests look at three fixed settings for a few steps",
  [T + "schedules.py", B + "hooks.py", T + "steppers.py"],
  [("Linear, Exponential, MultiStep, get_schedule", T + "schedules.py"), ("ModifyStepperAttribute", B + "hooks.py")],
  "schedule call results, stepper attributes during training")

p("C24", "Data preparation tools only rearrange data, consistently",
  "Shuffling several arrays permutes the samples of all of them with one and the same permutation, reproducible from its seed, and splitting cuts all of them at the same sample positions into pieces which concatenate back to the originals; no element is lost, duplicated, altered or separated from its counterparts.",
  ["inputs"],
  "all numbers of arrays, shapes, split points and seeds",
  "no test covers these tools",
  [B + "tools.py"],
  [("shuffle_data, split", B + "tools.py")],
  "returned arrays")

p("C25", "Monitoring reports the truth and never disturbs training",
  "Values logged by monitoring hooks (losses, scores, per-layer parameters, gradients, deltas and activations) equal the quantity they name, computed from the network at that moment; attaching, detaching or re-timing monitors never changes the trained parameters, the order of the data, the training log or the other monitors of losses, scores and parameters, nor when training ends; the plot visualizer draws, at each of its calls, the whole log it is asked to show, as recorded. (Monitors of gradients, deltas and activations report the buffers as they are when called; an evaluating monitor called before them refills the activations. Monitors evaluate on iterators of their own.)",
  ["programs", "histories", "configurations"],
  "all networks, monitor sets, timescales, intervals and training lengths",
  "no test trains with monitors",
  [B + "hooks.py", T + "trainer.py", B + "scorers.py"],
  [("MonitorLoss, MonitorScores, MonitorLayerParameters/Gradients/Deltas/InOuts", B + "hooks.py")],
  "Trainer.logs and parameters, with and without monitors")

p("C26", "The GPU handler agrees with the CPU handler",
  "Every operation of the PyCudaHandler (arithmetic, matrix and image operations, activations, reductions, random fills, conditional operations, allocation, copies and exchange with numpy arrays) computes on contiguous float arrays what the operation is documented to compute, up to rounding, in place where the handlers allow it, without changing its input arguments or memory beyond its outputs; its kernels access only the arrays they are given, for any number and order of threads, and no two threads access one word unsynchronised. A network computes the same outputs, losses, gradients, states and, trained with any stepper, modifiers and hooks, the same parameters with the PyCudaHandler as with a float32 NumpyHandler, keeps its parameters when moved between the two, and can be described, saved and loaded with it. Sizes, values, windows, strides, padding and the random seed are arbitrary; networks that join several outputs at one input are refused by PyCUDA and excluded.",
  ["inputs", "programs", "schedules"],
  "all operations, shapes, values, thread orders, networks, data and training set-ups",
  "the tests need a GPU and are skipped without one: nothing of this handler is ever executed by them here",
  [H + "pycuda_handler.py"],
  [("PyCudaHandler", H + "pycuda_handler.py")])

p("C27", "User-written layers work like shipped ones",
  "A layer class written by a user against the documented Layer interface is called exactly once in every forward pass, after everything it depends on, and in every backward pass, before everything it depends on, with the given training flag, the network's handler and buffers of exactly the names and shapes it declared: constant, batch-sized or time-sized, with the declared number of context rows holding the state the run was started from; its inputs hold what the connected outputs, parameters or internal buffers hold; what it stored in the forward pass is intact in its backward pass. Deltas, gradients and backward-only buffers start at zero in every backward pass and hold exactly the sum of what the connected layers and itself added, and losses of batch-sized and constant values are averaged over the sequences, or not at all. Networks with such layers are initialised, trained, saved and loaded like others; inputs, settings, shapes and connections that the class does not declare are refused when the network is built.",
  ["programs", "histories", "inputs"],
  "all layer classes following the interface, all wirings of them, all sequences of passes, sizes and states",
  "the tests use only the shipped layers, one at a time; batch-sized buffers, several context rows, internal buffers as sources and networks of user-written layers occur in no test",
  [L + "base_layer.py", S + "buffer_structure.py", S + "layout.py", S + "buffers.py", S + "network.py", S + "construction.py", L + "loss_layer.py"],
  [("Layer interface and validation", L + "base_layer.py"), ("StructureTemplate, BufferStructure", S + "buffer_structure.py"), ("get_backward_connection", S + "layout.py"), ("get_context, apply_context", S + "buffers.py")],
  "the buffers handed to the layers in each call, and Network.get")

p("C28", "Data set scripts convert the published files without loss",
  "Each data set script (MNIST, CIFAR-10, CIFAR-100, Hutter prize) turns the published raw file, which it downloads exactly when it is not in the data directory and leaves there, into an HDF5 file with the documented variants and sets in the (T, B, ...) format: every image is there once per variant, in the published order, with its own label (the fine one of CIFAR-100), in height-width-channel layout, MNIST unchanged and CIFAR normalised by the pixel-wise mean and standard deviation of the first 40000 training images, which are stored along; the rows of consecutive batches of the Hutter prize data spell the text without gap, overlap or reordering, the targets are the characters that follow, and the stored table of characters decodes them.",
  ["inputs", "configurations"],
  "all contents of the published raw files",
  "no test runs these scripts: they need downloads of hundreds of megabytes",
  ["data/create_mnist.py", "data/create_cifar10.py", "data/create_cifar100.py", "data/create_hutter.py"],
  [("conversion of MNIST", "data/create_mnist.py"), ("conversion of CIFAR", "data/create_cifar10.py"), ("convert_to_batches", "data/create_hutter.py")],
  "the HDF5 files that the scripts write")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
