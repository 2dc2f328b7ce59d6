prop("O01", "OpenCL devices compute what the CPU computes; their failures are reported",
  "Built for OpenCL (with or without clBLAS), networks, training sessions, classifyImage and tensor operations give the results of a CPU build up to rounding, whenever the device executes its commands, in whatever order it processes the elements of a command, and whatever new device memory holds; tensors have the same contents wherever they were moved in between. The configured platform and device are used or reported missing. Every failing device call, lost device, exhausted device memory or missing or damaged kernel file is reported or without effect, and no computation reads or writes outside of its tensors.",
  ["inputs", "programs", "schedules", "fault_sequences"], "all generated networks, sessions and histories of tensor operations; all device timings, work item orders and initial buffer contents; all positions and kinds of device failures, read errors, damaged kernels; all platforms and devices",
  "The tests are built without OpenCL in the normal configuration; no test runs on a device.",
  ["kernels/", "src/math/TensorMath.cpp", "src/util/Tensor.cpp", "src/util/Init.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/ActivationFunctions.cpp"],
  [m("moving tensors between memories", "src/util/Tensor.cpp MoveToGPU/MoveToCPU"), m("kernels and their launches", "kernels/*.cl, src/math/TensorMath.cpp, src/net/*PoolingLayer.cpp, src/net/ActivationFunctions.cpp"), m("device setup", "src/util/Init.cpp, src/util/CLHelper.cpp")],
  "seeded device behaviours (delayed commands, permuted work items, failures) of a simulated OpenCL runtime, compared with the CPU build", "The kernels are compiled as C++; arithmetic differences of real devices are out of scope. The CPU build of the same tree is the reference (numerical correctness itself: N02). Pooling windows with equal maxima are not compared.",
  observe=["buffers, gradients and parameters of networks", "tensors", "standard output of trainNetwork", "saved models", "written images"])
prop("A01", "Results do not depend on worker threads or their interleaving",
  "Running any network, forwards, backwards, through training, testing and its statistics, gives the same values in every buffer, gradient, parameter and statistic (up to rounding) for every number of worker threads and every interleaving of them. The same holds for complete training sessions: same losses, same test results, same saved models.",
  ["schedules", "programs"], "all numbers of worker threads, all interleavings of their memory accesses, all networks assembled from the layers",
  "The tests run each layer under one uncontrolled schedule and compare only gradients within a coarse tolerance.",
  ["src/net/", "src/math/TensorMath.cpp", "src/util/TensorStreamDataset.cpp", "src/net/Trainer.cpp"],
  [m("parallel loops of the layers", "src/net/*Layer.cpp, src/net/ActivationFunctions.cpp (omp parallel for)"), m("parallel tensor arithmetic", "src/math/TensorMath.cpp"), m("parallel sample preparation", "src/util/TensorStreamDataset.cpp")],
  "seeded schedules of a simulated OpenMP runtime, compared with one thread", "cn24 compiled with OpenMP runs on fibers that a seeded scheduler switches at instrumented memory accesses (random, round robin, priorities, reverse, and directed at accesses recorded as conflicting). Weak memory and compiler reordering are not simulated.",
  observe=["buffers, gradients and parameters of networks", "statistics", "saved models", "standard output of trainNetwork"])
prop("A02", "The same inputs always give the same results",
  "Networks, training sessions and the files they write depend on nothing but configuration, data, seeds and commands: not on the clock, what memory held before or where objects are placed, how the system splits reads and writes, the randomness of the machine, the process, or other networks in the same process. Two runs agree bit for bit, except for times and throughput.",
  ["histories", "programs", "fault_sequences"], "all states of the environment (clock rates and jumps, memory contents and placement, I/O chunking, entropy), all generated networks and command histories",
  "A test sees one environment; the property compares arbitrary pairs of them.",
  ["src/net/", "src/math/TensorMath.cpp", "src/util/Tensor.cpp", "src/util/StatAggregator.cpp", "tools/trainNetwork.cpp"],
  [m("seeding of every random generator", "src/net/ConvolutionLayer.cpp, src/net/DatasetInputLayer.cpp, src/factory/ConfigurableFactory.cpp"), m("initialisation of buffers and members", "src/util/Tensor.cpp, src/net/*.cpp"), m("matrix products that overwrite their target", "src/math/TensorMath.cpp GEMM/GEMV")],
  "paired runs under seeded environments", "The same computation runs in a reference environment and in seeded others (memory contents and placement, clocks with jumps, chunked and interrupted I/O, entropy, a second network in the process); all buffers, files and output must be identical. malloc memory of libpng/libjpeg is not varied.",
  observe=["buffers, gradients and parameters of networks", "statistics", "saved models", "standard output of trainNetwork", "CSV files"])
prop("B01", "Saved models survive crashes, failed saves and restarts",
  "A model save that reported success can be loaded in a later process, gives byte-identical parameters and the same test results, no matter which commands, faults and crashes came in between. A save that fails, or is interrupted at any point by a crash or an I/O fault, is reported (if the process survives) and leaves the previously saved model intact. A session in which nothing reported an error prints what the same session prints without faults.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of train/test/save/load/reset/set-epoch commands over several process lives, all positions of crashes, torn writes, read/write/open/close errors and full disks",
  "The tests never save and reload across processes and inject no faults; the property quantifies over crash points and command histories.",
  ["tools/trainNetwork.cpp", "src/net/NetGraph.cpp", "src/util/Tensor.cpp", "src/net/Trainer.cpp"],
  [m("parameter (de)serialisation", "src/net/NetGraph.cpp SerializeParameters/DeserializeParameters"), m("atomic replacement when saving", "tools/trainNetwork.cpp parseCommand save"), m("tensor encoding", "src/util/Tensor.cpp Serialize/Deserialize")],
  "whole-program sessions on a simulated disk with crash points", "Seeded search over command histories, crash points and I/O faults with the real trainNetwork program; oracle is the fault-free reference session, byte identity of model files and equality of test metrics across processes. Trusts: process-crash model (kernel-buffered data survives).",
  state=[st("model file", "the parameters last saved under a name", "tools/trainNetwork.cpp"), st("network parameters", "current weights and biases", "src/net/NetGraph.cpp")], observe=["model files on disk", "standard output of trainNetwork"])
prop("E01", "Training performs exactly the configured optimisation steps",
  "Over any history of training, testing, resets and epoch changes, the parameters after every epoch equal those of the configured update rule (gradient descent with momentum or QuickProp; annealed learning rate; per-layer rates; L1/L2 regularisation; averaging over mini-batches and sequential batches) applied to the gradients the network computed for the samples it was given, up to rounding. Resetting the trainer or changing the epoch forgets momentum; testing does not.",
  ["histories", "configurations"], "all histories of train/test/reset/set-epoch/parameter changes and all optimiser settings of generated networks",
  "No existing test runs the trainer; the property relates states across arbitrarily long histories of commands.",
  ["src/net/Trainer.cpp", "include/cn24/net/Trainer.h", "src/factory/ConfigurableFactory.cpp"],
  [m("update rules", "src/net/Trainer.cpp ApplyGradients"), m("learning rate annealing", "include/cn24/net/Trainer.h CalculateLR"), m("gradient accumulation over sequential batches", "src/net/Trainer.cpp Epoch")],
  "seeded command histories against a reference optimiser", "Refinement against a double-precision reference optimiser driven by gradients of a second instance of the same network, resynchronised after each epoch. Gradients themselves are trusted (N01); QuickProp runs end where a branch decision is closer than rounding.",
  state=[st("momentum", "last step and last slope of each parameter", "src/net/Trainer.cpp last_deltas_/last_gradients_"), st("epoch counter", "number of epochs trained, drives annealing", "include/cn24/net/Trainer.h epoch_")], observe=["network parameters after every epoch", "epoch number"])
prop("E02", "Observing commands never influence training",
  "Testing, saving, loading back what was just saved, changing statistics settings, printing networks, statistics or help, naming experiments and unknown or failing commands can be interleaved with training commands at will, and may fail with I/O errors, without changing the loss reported for any epoch or a single bit of the final model. How many epochs are trained per command does not matter either. Two tests with no training in between report the same results.",
  ["histories", "fault_sequences"], "all interleavings of observing with training commands and all faults that hit them",
  "No test runs commands in sequence at all; non-interference is a relation between pairs of arbitrary command histories.",
  ["tools/trainNetwork.cpp", "src/net/Trainer.cpp", "src/net/DatasetInputLayer.cpp", "src/util/StatAggregator.cpp"],
  [m("test mode of the training layer", "src/net/DatasetInputLayer.cpp SetTestingMode"), m("switching between training and testing", "src/net/Trainer.cpp Train/Test"), m("shared parameters of training and testing networks", "tools/trainNetwork.cpp Shadow")],
  "paired sessions with and without observers, faults in the observers", "The same program is run with and without the observing commands; training losses and the final model must be identical. Faults are injected into the observed session only.",
  state=[st("sample position", "next training sample of the current pass", "src/net/DatasetInputLayer.cpp current_element_"), st("training state", "parameters, momentum, epoch", "src/net/Trainer.cpp")], observe=["standard output of trainNetwork", "model files on disk"])
prop("E03", "Reset leaves nothing behind of what was trained or loaded",
  "After a reset, the parameters and the test results are those of a network on which the same number of resets is all that ever happened, no matter what was trained, tested, loaded (fully or partially) or set before and which of those commands failed.",
  ["histories", "fault_sequences"], "all command histories before a reset and all faults in them",
  "The tests never reset a trained network.",
  ["tools/trainNetwork.cpp", "src/net/NetGraph.cpp", "src/net/ConvolutionLayer.cpp", "src/net/HMaxActivationFunction.cpp"],
  [m("weight initialisation", "src/net/NetGraph.cpp InitializeWeights"), m("per-layer initialisation", "src/net/ConvolutionLayer.cpp OnLayerConnect")],
  "paired sessions: arbitrary history against resets alone", "Model files and test results after every reset are compared with those of a session consisting only of resets.",
  state=[st("network parameters", "current weights and biases", "src/net/NetGraph.cpp")], observe=["model files on disk", "standard output of trainNetwork"])
prop("F01", "Test results describe the current model on the test set",
  "Whatever was trained, loaded, reset or tested before, the loss, recognition rates, intersection over union and binary statistics printed by a test are those of the current parameters on exactly the test images, each pixel weighted by its class weight and localised error and padding ignored. Statistics of earlier tests or of training never leak into them.",
  ["histories", "fault_sequences"], "all command histories before a test, in fully convolutional and patch training mode",
  "Statistics layers are not tested; the property relates a test to the whole history of a session.",
  ["src/net/Trainer.cpp", "src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp", "src/net/DatasetInputLayer.cpp", "src/net/ErrorLayer.cpp", "tools/trainNetwork.cpp"],
  [m("test loop", "src/net/Trainer.cpp Test"), m("statistics layers", "src/net/ConfusionMatrixLayer.cpp, src/net/BinaryStatLayer.cpp"), m("shared parameters of training and testing networks", "tools/trainNetwork.cpp Shadow")],
  "sessions whose test results are recomputed from the saved model", "Loss, weighting and statistics are recomputed by the harness from the parameters saved next to the test and the generated images; network outputs come from the real layers on harness-built inputs (N02 trusted).",
  state=[st("statistics", "accumulated counts of the current test", "src/net/ConfusionMatrixLayer.cpp matrix_")], observe=["standard output of trainNetwork"])
prop("B02", "Loading a model takes all of it or reports and changes nothing",
  "A load that reports success leaves the network with exactly the parameters in the file (those of layers up to last_layer, if given; all others unchanged). A file that is truncated, damaged, of another shape, missing or unreadable is reported and leaves every parameter as it was, and no file content whatsoever crashes the program or makes it use unread memory.",
  ["inputs", "histories", "fault_sequences"], "all model files, all sequences of loads, training and resets, and all read faults",
  "The tests load no models; the property quantifies over damaged files and read faults.",
  ["src/net/NetGraph.cpp", "src/util/Tensor.cpp", "tools/trainNetwork.cpp"],
  [m("staged loading", "src/net/NetGraph.cpp DeserializeParameters"), m("tensor decoding and size checks", "src/util/Tensor.cpp Deserialize"), m("layer range", "tools/trainNetwork.cpp parseCommand load")],
  "sessions loading generated and damaged files under read faults", "Every load is bracketed by saves and compared parameter by parameter with a reference loader run on the same bytes. Altered payload values are undetectable by design (no checksum) and count as valid.",
  state=[st("network parameters", "current weights and biases", "src/net/NetGraph.cpp")], observe=["standard output of trainNetwork", "model files on disk"])
prop("D01", "Every training pass uses every sample once, correctly",
  "Between two reshuffles every training sample is used exactly once, testing uses every testing sample exactly once and in order, and neither disturbs the position of the other, whatever the order of passes, tests, mode switches and batch sizes. Every batch slot holds exactly the image, labels, position helper and class- and error-weights of its sample; padding and slots beyond the test set have weight zero. Loss sampling only ever drops whole blocks of training weights, at the configured rate.",
  ["histories", "configurations", "inputs"], "all histories of forward passes, epochs, tests, mode switches and resets over generated datasets of mixed image sizes",
  "The tests use one-image datasets and no histories of passes.",
  ["src/net/DatasetInputLayer.cpp", "src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp", "src/net/Trainer.cpp"],
  [m("sample permutation and mode switch", "src/net/DatasetInputLayer.cpp"), m("sample, helper and weight assembly", "src/util/TensorStreamDataset.cpp, src/util/TensorStreamPatchDataset.cpp"), m("number of batches per epoch and test", "src/net/Trainer.cpp Epoch/Test")],
  "seeded histories of passes against a reference sample model", "A recorder between the layer and the real dataset attributes every batch slot to a sample; the slot's tensors are compared with the harness's own copy of the images. KITTI error weights themselves are trusted.",
  state=[st("permutation and positions", "next training and testing sample", "src/net/DatasetInputLayer.cpp perm_/current_element_/current_element_testing_")], observe=["output tensors of DatasetInputLayer", "calls to the Dataset interface"])
prop("D02", "Datasets deliver exactly the samples of their files or fail loudly",
  "Whatever the format of the files behind a dataset (float or compressed tensor streams, image lists), the dataset offers exactly the samples they hold, and every sample it delivers carries the image, the labels, the position helper and the weights of that sample, in the requested batch slot and in any order of requests. Damaged, missing, unreadable or inconsistent files are rejected when the dataset is opened or the sample is requested; intact ones never are; nothing crashes, hangs or delivers data of another sample.",
  ["inputs", "configurations", "histories", "fault_sequences"], "all datasets (formats, sizes, classes, weights, selections), damages and inconsistencies of their files, request orders, and open, read, seek, close and mmap faults",
  "No test opens a dataset from files other than one float stream; the property quantifies over formats, damages, request orders and faults.",
  ["src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp", "src/util/ListTensorStream.cpp", "src/util/TensorStream.cpp"],
  [m("dataset construction and sample assembly", "src/util/TensorStreamDataset.cpp"), m("patch lookup", "src/util/TensorStreamPatchDataset.cpp"), m("labels from class colours", "src/util/ListTensorStream.cpp"), m("choice of format", "src/util/TensorStream.cpp FromFile")],
  "seeded request histories over generated, damaged and inconsistent datasets with failing I/O", "Real datasets, streams and image decoders on a simulated disk against the harness's own view of the files. KITTI error weights are trusted; samples whose image and label do not fit together need only be handled safely.",
  state=[st("sample index", "patch positions per image", "src/util/TensorStreamPatchDataset.cpp last_sample_")], observe=["Dataset interface", "sample tensors"])
prop("C01", "Tensor streams deliver exactly what was stored or fail loudly",
  "Every tensor written to a float tensor stream is read back bit for bit, for any contents, shapes and order of reads, into any slot of any batch of equal or larger size (padded with zeros, other slots untouched), whether it is memory-mapped or read. Truncated, damaged, missing or unreadable streams are rejected when they are loaded; mismatching reads return false; nothing crashes, hangs or delivers other data.",
  ["inputs", "histories", "fault_sequences"], "all stream contents and damages, all read sequences, and all open, read, seek, close and mmap faults",
  "No test reads a tensor stream; the property quantifies over file damage, read sequences and faults.",
  ["src/util/Tensor.cpp", "src/util/FloatTensorStream.cpp", "src/util/TensorStream.cpp"],
  [m("tensor encoding", "src/util/Tensor.cpp Serialize/Deserialize"), m("memory mapping", "src/util/Tensor.cpp Deserialize/DeleteIfPossible"), m("copying with padding", "src/util/Tensor.cpp CopySample/CopyMap")],
  "seeded read histories over damaged streams and failing I/O", "Real stream classes on a simulated disk are compared with an independent decoder of the format. A tensor without elements ends a stream by design; altered payload bytes are valid values.",
  state=[st("stream file", "tensors stored one after another", "src/util/FloatTensorStream.cpp")], observe=["TensorStream interface", "target tensors"])
prop("C02", "Compressed tensor streams are lossless and safe",
  "Compressing and decompressing gives back every value of every tensor (bit for bit; only the sign of zero may be lost), directly and through stream files, for any contents, in any order of random access and into any slot of equal or larger batches. Truncated, damaged or unreadable compressed streams are rejected on loading or when the damaged tensor is first accessed, and never write outside a buffer or deliver values that were not stored.",
  ["inputs", "histories", "fault_sequences"], "all tensor contents (including runs around the encoding limits and bytes equal to the codes), damages, read sequences and faults",
  "No test compresses anything; the property quantifies over contents, damages and read sequences.",
  ["src/util/CompressedTensor.cpp", "src/util/CompressedTensorStream.cpp", "src/util/TensorStream.cpp"],
  [m("run-length coder", "src/util/CompressedTensor.cpp CompressData/DecompressData"), m("direct decompression into the target", "src/util/CompressedTensorStream.cpp CopySample")],
  "seeded read histories over damaged compressed streams and failing I/O", "Real coder and streams on a simulated disk against an independent decoder written from the format description.",
  state=[st("decompression buffer", "shared by all reads of a stream", "include/cn24/util/CompressedTensorStream.h temp_tensor_")], observe=["TensorStream interface", "target tensors", "stream files"])
prop("H01", "Image files are read and written exactly or fail loudly",
  "Loading a PNG, JPEG or tensor file gives exactly the pixels it stores, and a write that reports success leaves a file that decodes to the tensor's pixels (8 bit precision; JPEG up to compression loss). Truncated, damaged (as far as the format can tell), unsupported or unreadable files and failed writes are reported, and no file content crashes the program or touches memory it should not.",
  ["inputs", "fault_sequences", "histories"], "all images and formats (depth, channels, interlacing), file damages, crafted headers, and read, write, open, close and disk-full faults",
  "No test reads or writes an image file.",
  ["src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/util/Tensor.cpp"],
  [m("PNG decoding and encoding", "src/util/PNGUtil.cpp"), m("JPEG decoding and encoding", "src/util/JPGUtil.cpp"), m("dispatch by suffix and error reporting", "src/util/Tensor.cpp LoadFromFile/WriteToFile")],
  "seeded histories of image reads and writes under faults and damage", "Real code with real libpng/libjpeg on a simulated disk; the oracle decodes the same bytes from memory. Repaired pixels of damaged JPEGs are not compared, only truncation must be noticed.",
  observe=["tensors loaded", "files written"])
prop("J01", "Networks of any shape evaluate correctly, however they are assembled",
  "In any acyclic network of layers with any number of inputs, outputs and shared outputs, added in any order, every pass evaluates each node once and only after the nodes it depends on, and gives each node the sum of the gradients of all consumers of each of its outputs (zero for outputs without consumers); passes over some of the nodes re-evaluate exactly those and whatever they still lack. The order in which nodes are added changes nothing but the order of parameters, and incomplete networks are reported as incomplete.",
  ["configurations", "histories"], "all acyclic networks, insertion orders, and histories of complete and partial passes",
  "The tests evaluate single layers and two fixed networks; the property quantifies over graphs, insertion orders and histories of passes.",
  ["src/net/NetGraph.cpp", "src/net/GradientAccumulationLayer.cpp", "include/cn24/net/NetGraphNode.h"],
  [m("evaluation order", "src/net/NetGraph.cpp FeedForward/BackPropagate"), m("insertion of gradient accumulation", "src/net/NetGraph.cpp Initialize"), m("completeness check", "src/net/NetGraph.cpp IsComplete")],
  "seeded histories of passes over random networks against an exact integer model", "The real NetGraph runs probe layers whose arithmetic is exact (integers modulo a prime), so that any lost, doubled or stale value shows; real layers are compared across insertion orders. Environment faults are limited to memory contents, as nothing else can influence a pass.",
  state=[st("visit flags", "which nodes are up to date", "include/cn24/net/NetGraphNode.h"), st("node lists", "nodes, inputs, outputs, losses", "src/net/NetGraph.cpp")], observe=["calls to layers", "output and gradient tensors"])
prop("G01", "Every statistics report covers exactly what was recorded",
  "Every report counts exactly the iterations, the time and the submitted values recorded since the previous one, on a clock that only counts recorded time and is immune to changes of the wall clock; values submitted while nothing is recorded change nothing. Every sink receives every report and experiment change exactly once and in order, and training and testing any number of epochs produce the promised number of reports with the right mode, epoch, losses and throughput.",
  ["histories", "schedules", "configurations"], "all histories of recording operations, updates, training and testing, and all clock behaviours",
  "No test touches the statistics; the property quantifies over histories and clocks.",
  ["src/util/StatAggregator.cpp", "src/net/Trainer.cpp", "include/cn24/util/StatAggregator.h", "include/cn24/net/NetStatus.h"],
  [m("recording state machine", "src/util/StatAggregator.cpp"), m("statistics of trainers", "src/net/Trainer.cpp InitializeStats/Epoch/Test/ApplyGradients")],
  "seeded histories against a reference model on a simulated clock", "Real StatAggregator and Trainer run on networks of probes that take simulated time and return scripted losses; sinks compare every report with the model. Reports while a recording is open cover the completed intervals.",
  state=[st("recording state", "uninitialised, stopped or recording", "include/cn24/util/StatAggregator.h state_"), st("accumulated statistics", "values since the last reset", "include/cn24/util/StatAggregator.h stats_")], observe=["StatSink interface"])
prop("G02", "Reports end up in the exported files, or the session says so",
  "Every report a session gives without an error is a row of the current experiment's CSV file as soon as the next prompt appears, even if the program is killed right after: with the report's mode, epoch, values and empty fields in the columns the header names, the iterations and seconds it covers, and nothing else between them. The graph command writes the complete graph or reports an error; no write error, full disk or missing directory stops a session or goes unnoticed.",
  ["histories", "fault_sequences", "crash_points"], "all sessions, write, open and close faults, short writes, full disks, and crashes at every I/O operation",
  "No test writes statistics or graphs.",
  ["src/util/CSVStatSink.cpp", "src/util/StatAggregator.cpp", "tools/trainNetwork.cpp", "src/net/NetGraph.cpp"],
  [m("statistics file", "src/util/CSVStatSink.cpp"), m("recording around commands", "tools/trainNetwork.cpp parseCommand"), m("graph export", "src/net/NetGraph.cpp PrintGraph")],
  "seeded sessions under write faults and crashes, console against files", "Values printed on the console (6 digits) are compared with the files; iterations, seconds and throughput must fit together. Beginning an experiment again starts its file anew by design.",
  state=[st("statistics file", "one row per report", "src/util/CSVStatSink.cpp csv_stream_")], observe=["csv/*.csv", "standard output of trainNetwork"])
prop("I01", "Sessions end, answer every command, and are decided by their text alone",
  "Whatever the network and dataset descriptions, the script or the input of a session contain, and wherever they are cut off or cannot be read, the session goes on or stops with a message within a bounded number of steps: it never hangs, crashes or uses memory it should not. It answers every command in order, and the same text and data always give the same session, from a script or typed, with comments and blank lines or without, however the system splits reads; missing files and read errors are reported, never taken for shorter texts.",
  ["inputs", "fault_sequences", "histories"], "all description and command texts (cut off, reordered, altered, with zero, negative and absurd sizes), all read, open, seek and mmap faults, missing files, both kinds of input",
  "The tests parse fixed, intact descriptions and never run a session.",
  ["src/util/ConfigParsing.cpp", "src/factory/ConfigurableFactory.cpp", "src/util/TensorStreamDataset.cpp", "tools/trainNetwork.cpp", "src/net/NetGraph.cpp"],
  [m("network description", "src/factory/ConfigurableFactory.cpp"), m("dataset description", "src/util/TensorStreamDataset.cpp CreateFromConfiguration"), m("commands and scripts", "tools/trainNetwork.cpp main/parseCommand"), m("connection checks", "src/net/NetGraph.cpp InitializeNode, CreateOutputs of the layers")],
  "seeded sessions over altered texts, split and failing reads, and different memory contents", "Text is altered by seeded edits of valid descriptions; acceptable endings are success, an error message or an exception. Two runs of an altered text differ in heap and stack contents and in I/O chunking. Step and CPU budgets stand for termination.",
  observe=["standard output of trainNetwork", "exit status"])

prop("L01", "Stream tools write exactly the tensors they were given, or fail loudly",
  "A stream made by makeTensorStream or makeCompressedTensorStream holds, in the order of the lists, every image's pixel values and its labels (one map per class set where the class color appears; the distance from the color for a single class; the colors themselves when asked). Compressing a stream, leaving its first tensors, and transposing, reshaping, cutting into patches and writing a tensor give exactly those tensors; stream statistics count every pixel once. Damaged or missing inputs, unreadable images and read or write errors end with an error; no tool alters its inputs, and shortening a stream leaves either the old or the new stream, even across a crash.",
  ["histories", "inputs", "fault_sequences", "crash_points"], "all histories of tool invocations over several streams, all images and class colors, read, write, open and close faults, full disks, and a crash at any I/O operation",
  "No test runs the tools.",
  ["tools/makeTensorStream.cpp", "tools/makeCompressedTensorStream.cpp", "tools/compressTensorStream.cpp", "tools/tensorStreamTool.cpp", "tools/tensorTool.cpp", "tools/tensorStreamStats.cpp"],
  [m("image and label import", "tools/makeTensorStream.cpp"), m("replacement of the stream file", "tools/tensorStreamTool.cpp"), m("tensor editing", "tools/tensorTool.cpp parseCommand"), m("serialisation", "src/util/Tensor.cpp Serialize/Deserialize")],
  "seeded histories of tool runs under I/O faults and crashes, files against an independent model", "PNG images; lists of equal length (a shorter list ends the import). tensorTool replaces the whole file by the edited tensor, by design. Negative zeros may lose their sign in compressed streams.",
  state=[st("stream files", "sequences of tensors on disk", "src/util/TensorStream.cpp")], observe=["*.Tensor files", "standard output of the tools"])
prop("K01", "Failing allocations are reported and damage nothing stored",
  "Whenever an allocation fails while a program runs (a single one or all from some moment on, of any size), the program either completes with exactly the results it has otherwise, or reports an error or ends with a failure; it never answers differently in silence. It performs no invalid memory access, ends, leaves input files untouched, leaves every model or trimmed stream either as before or complete, and leaves exported statistics files beginnings of the complete ones. Run again with enough memory, it gives exactly the results it would have given at first.",
  ["inputs", "programs", "fault_sequences"], "all generated sessions and tool invocations, and the allocations that fail, single or all from a moment on, of any or of large size",
  "No test makes an allocation fail.",
  ["tools/trainNetwork.cpp", "src/util/Tensor.cpp", "src/util/TensorStreamDataset.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/NetGraph.cpp", "src/util/CSVStatSink.cpp"],
  [m("tensor storage", "src/util/Tensor.cpp Resize"), m("saving models", "tools/trainNetwork.cpp"), m("reading descriptions", "src/factory/ConfigurableFactory.cpp"), m("stream buffers of the tools", "tools/compressTensorStream.cpp")],
  "seeded sessions and tools with failing allocations at seeded positions, against the same programs undisturbed", "Allocations inside libpng, libjpeg and libc do not fail.",
  observe=["program output", "exit status", "files"])

prop("M01", "classifyImage paints what the trained model predicts",
  "For a model saved by a training session and an image of any size, every pixel of the written image has the color of the class with the largest output of that model at that pixel (for a single class, its color scaled by the output between -1 and 1), computed as testing computes it: same padding, same position information, no dropout. A missing, cut off or mismatching model, description or image and any read or write error end with an error; the inputs are never altered.",
  ["inputs", "programs", "fault_sequences", "crash_points"], "all generated networks and images (odd, non-square, larger and smaller than the training images), memory contents, read, write, open and close faults, full disks, crashes",
  "No test runs classifyImage or Colorize.",
  ["tools/classifyImage.cpp", "src/util/Colorize.cpp", "src/net/NetGraph.cpp", "src/factory/ConfigurableFactory.cpp"],
  [m("image padding and position information", "tools/classifyImage.cpp"), m("class colors", "src/util/Colorize.cpp"), m("network for inference", "src/factory/ConfigurableFactory.cpp AddLayers")],
  "seeded models, images and faults through the real tools, against outputs computed from harness-made inputs", "Layer outputs come from the real layers (N02). Images of one pixel width or height are not generated. Written colors may differ by one step.",
  observe=["written image", "exit status"])
