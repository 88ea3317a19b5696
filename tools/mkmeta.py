#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; both files are committed)."""
import json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, spec, note, observe=None):
    P.append((id, title, statement, over, text, tests, files, mech, spec, note, observe or []))


K = "src/runtime/cpu/kernels/kernels.cpp"
CL = "src/runtime/cpu/layers/"

prop("C01", "Tensor handles, views, reshape and copy keep one consistent dense storage",
     "A tensor's total, strides and contents always describe one dense row-major block: handles copied from one another share it (also when it is reshaped or allocated anew), copyTo copies every element into another tensor of the same shape, reshape changes the shape without touching an element, and a view never reads or writes outside the memory it was given. A call whose shape is invalid or does not fit (negative dimensions, another element count, an empty or differently shaped destination) throws and changes nothing.",
     ["inputs", "histories"], "every sequence of construct, allocate, copy handle, copyTo, reshape, write and read over tensors of any rank and size",
     "the tests construct a handful of tensors and check one or two operations each; sharing, refused calls and their aftermath over sequences are never exercised",
     ["src/runtime/tensor.cpp", "include/deepworks/tensor.hpp", "include/deepworks/shape.hpp"],
     [("shared descriptor, shape checks", "src/runtime/tensor.cpp")], "TensorSpec/MC_Tensor/Tr_Tensor",
     "Design exhaustively checked on small shapes; histories generated from it replayed on the real tensors with guard cells and ASan.")
prop("C02", "Initializers fill every element as documented and nothing else",
     "zeros and constant set every element of a tensor to exactly that value; uniform fills it with independent draws spread evenly over the given range (default [0,1)), and Xavier initialisation with draws spread evenly over +-sqrt(6/(n_in+n_out)). Initialising never writes outside the tensor and successive random initialisations differ.",
     ["inputs", "histories"], "every shape, range and constant, as factory, on owned tensors and on views; every sequence of initialisations",
     "the tests only use the initializers to make inputs; none looks at the values, the range or the spread",
     ["src/initializers.cpp", "src/utils/generator.hpp", "src/runtime/tensor.cpp"],
     [("std::uniform_real_distribution over a shared generator", "src/initializers.cpp")], "InitSpec/MC_Init/Tr_Init",
     "Exact initializers are decided exactly; random ones by range and by statistics with bounds of at least 8 standard deviations (false alarm below 1e-12 per sample).")
prop("C03", "Activations compute their function and derivative elementwise",
     "ReLU, LeakyReLU, ELU and Sigmoid map every element independently by their function for tensors of any shape, and their backward pass adds to the input gradient the output gradient times the derivative at the last forward's input. The slope at exactly 0 is 0 for ReLU and 1 for LeakyReLU and ELU; no other tensor changes.",
     ["inputs", "histories"], "every input value and sign, shape, slope parameter and order of forward and backward calls",
     "the reference tests compare one random tensor per layer with a copy of the same formula, and are not among the tests that can be built here",
     [K, CL + "cpurelu.cpp", CL + "cpuleakyrelu.cpp", CL + "cpuelu.cpp", CL + "cpusigmoid.cpp"],
     [("elementwise kernels", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Piecewise-linear activations are decided exactly on fixed-point inputs; exponentials at multiples of ln2/4 within a stated tolerance.")
prop("C04", "Linear layer computes x W^T + b and its exact gradients",
     "For every batch size, feature count and input rank, a linear layer returns the input (flattened per sample) times the transposed weight plus the bias. Its backward pass adds grad W to the input gradient and sets the weight and bias gradients to grad^T x and the column sums of grad for the last forward's input.",
     ["inputs", "histories"], "every batch size, feature and unit count, input rank and call history, also with changed parameters between calls",
     "tests use one fixed small shape with random data compared to a reimplementation",
     [K, CL + "cpulinear.cpp"], [("Eigen products over row-major maps", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Exact integer semantics at several binary scales; adjointness checked on the model.")
prop("C05", "Softmax rows are probabilities, stable for any offset, with the exact Jacobian",
     "Softmax turns each row into non-negative numbers that sum to 1 in the proportions of the exponentials, also when the inputs are very large or very negative, row by row independently. Its backward pass adds the product of the output gradient with the row's softmax Jacobian to the input gradient.",
     ["inputs", "histories"], "every row count, width, offset and spread of inputs, and call history",
     "one random matrix of moderate values is compared with a copy of the formula",
     [K, CL + "cpusoftmax.cpp"], [("row maximum subtracted before exp", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Inputs are multiples of ln 2 so that the exact proportions are powers of two; offsets up to thousands.")
prop("C06", "Convolution computes every window for any kernel, padding and stride",
     "For every kernel size, zero padding, stride (each per axis), channel counts and batch size, each output element is the sum over its window of input times weight plus the channel's bias, with padding counted as zero. Backward adds the exact input gradient and sets the exact weight and bias gradients of the last forward pass.",
     ["inputs", "configurations", "histories"], "every kernel/padding/stride/channel/batch configuration, input and call history, also with a batch size or image size changing between calls",
     "tests use a few symmetric configurations; asymmetric kernels, strides and paddings and reuse of the layer are not covered",
     [K, CL + "cpuconvolution.cpp"], [("im2col/col2im and matrix products", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Exact integer semantics; the specification is written directly from the windows, not via im2col.")
prop("C07", "Max pooling selects the window maximum and routes the gradient to it",
     "Each max-pooling output is the greatest input element of its window; padding never wins, whatever the signs. Backward adds each output gradient to the input gradient exactly at the element that was selected (the first in row order on ties), for overlapping windows adding up.",
     ["inputs", "configurations", "histories"], "every kernel, padding, stride, sign pattern and tie, and call history",
     "tests use positive data, few configurations and no ties at padded borders",
     [K, CL + "cpumaxpooling.cpp"], [("im2col of -max padding and recorded argmax", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Exact semantics including negative inputs at padded borders and overlapping windows.")
prop("C08", "Global average pooling and addition are exact, forward and backward",
     "Global average pooling returns the mean of every channel plane and spreads each gradient evenly over that plane; addition returns the elementwise sum of two equally shaped inputs and adds the output gradient to both input gradients. Neither changes any other tensor.",
     ["inputs", "histories"], "every plane size, channel and batch count, rank and call history",
     "one configuration each is compared with a reimplementation",
     [K, CL + "cpuglobalavgpooling.cpp", CL + "cpuadd.cpp"], [("plane means, vector sum", K)], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Exact for addition; means within one unit of 2^-16.")
prop("C09", "Batch norm uses batch statistics in training and running ones in evaluation",
     "In training mode batch normalisation (1-D per feature, 2-D per channel over batch and plane) normalises with the mean and biased variance of the current batch, scales by gamma and adds beta, and updates each running statistic to alpha times its old value plus (1 - alpha) times the batch's; in evaluation mode it uses the running statistics and changes none. Backward adds the exact input gradient of the last training forward and sets the gamma and beta gradients.",
     ["inputs", "histories"], "every batch, feature and plane size, epsilon, alpha, mode switch and call history, also with the batch size changing between calls",
     "tests run one training forward/backward on one shape; running statistics over histories, mode switches and changing shapes are not exercised",
     [K, CL + "cpubatchnorm1d.cpp", CL + "cpubatchnorm2d.cpp"], [("running statistics, centred input kept for backward", CL + "cpubatchnorm2d.cpp")],
     "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "Inputs have integer means and perfect-square variances so that results are rational; running statistics and evaluation mode within a stated tolerance.")
prop("C10", "Dropout drops independently at rate p, rescales, and is identity in evaluation",
     "In training each element is dropped with probability p, independently of the others and afresh in every forward pass, and the kept ones are scaled by 1/(1-p); in evaluation mode the output equals the input. Backward adds the output gradient, scaled the same way, exactly where the last forward kept the element.",
     ["inputs", "histories"], "every rate, shape, mode switch and call history",
     "randomness defeats example tests; the existing one cannot be built here",
     [K, CL + "cpudropout.cpp"], [("random mask kept for backward", CL + "cpudropout.cpp")], "LayerMath/LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "The kept set is inferred from the output and must explain the backward pass; rate and independence by statistics at 8 standard deviations.")
prop("C11", "Layers share nothing: results depend only on own state and last forward",
     "Over any interleaving of calls on any number of layers, with any thread count, each forward result depends only on that layer's parameters, mode and arguments, and each backward result only on those, the last forward pass and the gradient given. Input gradients accumulate on what they held, parameter gradients are replaced, and no argument is modified.",
     ["histories", "schedules", "configurations"], "every interleaving of calls on several layer instances of all kinds, with several OpenMP thread counts and batch sizes",
     "tests call each layer once in a fresh process state",
     [CL, K], [("per-layer temporaries, OpenMP loops", K)], "LayerSpec/MC_Layer/MC_Life/Tr_Layer",
     "The model proves isolation on all small interleavings; real layers of all kinds are replayed in mixed histories with 1-8 threads.")
prop("C12", "Applying a layer infers the right shape and creates the right parameters",
     "Applying a layer to placeholders yields a placeholder of the shape its forward pass produces, remembers the layer and its arguments, and creates the layer's parameters and buffers once, with the documented shapes and initial values, trainable and with zero gradients; applying it again shares them. An unsuitable rank, a window larger than the padded input, different shapes for addition, an unknown type name or a missing attribute throws and creates nothing; a layer made by type name and attributes equals one made directly.",
     ["inputs", "programs"], "every layer type, attribute combination, input shape and sequence of applications",
     "tests check single layers with one shape; refusals, reuse and creation by name are only touched by tests that cannot be built here",
     ["src/expression/nn.cpp", "include/deepworks/base_op.hpp", "src/expression/call.cpp", "src/expression/placeholder.cpp"],
     [("outShape/init per layer, make_layer table", "src/expression/nn.cpp")], "ShapeSpec/MC_Shape/Tr_Shape",
     "Histories of applications on the real expression API, matched completely (shapes, arguments, attributes, parameters, buffers).")
prop("C17", "SGD and momentum move exactly the trainable parameters by their rule",
     "A step of SGD subtracts learning rate times gradient, a step of momentum SGD the decayed velocity plus learning rate times gradient, from every trainable parameter of the map the optimizer was built on, using the learning rate and gradients current at the step. Frozen parameters keep value and velocity, gradients are untouched, and optimizers sharing parameters keep separate state.",
     ["histories", "inputs"], "every history of steps, learning-rate changes, gradient updates, freezing and unfreezing, with several optimizers on shared parameters",
     "tests make one or two steps from fresh state",
     ["src/optimizer.cpp", "include/deepworks/optimizer.hpp", "src/model/parameter.cpp"], [("per-parameter velocity map", "src/optimizer.cpp")],
     "OptSpec/MC_Opt/Tr_Opt", "SGD exact; momentum within a tolerance that grows with the number of steps.")
prop("C18", "Adam follows the bias-corrected update over any history",
     "A step of Adam updates the first and second moment of every trainable parameter and subtracts lr * mhat / (sqrt(vhat) + eps) with bias corrections for the number of steps made so far (from the given start). Frozen parameters keep value and moments, learning-rate changes take effect at the next step, and optimizers sharing parameters keep separate state.",
     ["histories", "inputs"], "every history of steps, learning-rate changes, gradient updates, freezing, late construction and start iteration",
     "tests make a few steps with one configuration",
     ["src/optimizer.cpp", "include/deepworks/optimizer.hpp"], [("moment maps and iteration counter", "src/optimizer.cpp")],
     "OptSpec/MC_Opt/Tr_Opt", "Fixed-point model with accumulated rounding tolerance, histories of up to 40 steps.")
prop("C19", "Sequential loading delivers every full batch in order, epoch after epoch",
     "Without shuffling a data loader delivers items 0..n-1 in order in batches of the given size, each batch holding the items' data and labels at consecutive positions, reports the end when fewer items than a batch are left, and then starts over. Tensors of a wrong shape are refused without reading anything, a data set that throws leaves the position, and empty tensors are allocated.",
     ["histories", "inputs", "fault_sequences"], "every data set size, batch size, sample shape, sequence of pulls, refused tensors and failing items",
     "the loader has no test among those that can be built here",
     ["src/dataloader.cpp", "include/deepworks/dataloader.hpp"], [("position, index list, slices of the batch tensor", "src/dataloader.cpp")],
     "LoaderSpec/MC_Loader/Tr_Loader", "All small size/batch combinations in the model; histories replayed on the real loader with a recording, failing data set.")
prop("C20", "Shuffled loading delivers distinct items, uniformly, batch after batch",
     "With shuffling each batch holds distinct items of the data set, data and labels matching, an epoch has as many batches as without shuffling, and over many batches every item is delivered equally often. Refused tensors and failing items behave as in sequential loading.",
     ["histories", "inputs", "fault_sequences"], "every data set size, batch size and sequence of pulls, refused tensors and failing items",
     "randomness and long histories are out of reach of example tests",
     ["src/dataloader.cpp", "include/deepworks/dataloader.hpp"], [("random index draws without repetition", "src/dataloader.cpp")],
     "LoaderSpec/MC_Loader/Tr_Loader", "Distinctness and pairing exactly; uniformity by statistics at 8 standard deviations.")
prop("C24", "Cross entropy returns the mean negative log-probability and its exact gradient",
     "For every batch and class count cross entropy returns the mean over the rows of minus the logarithm of the target class's probability, and backward overwrites the gradient with -1/(N p) at the targets and 0 elsewhere, whatever it held before. The loss object carries nothing from call to call, arguments are never modified, and wrongly shaped predictions, targets or gradients throw without writing.",
     ["inputs", "histories"], "every batch size, class count, probability (also tiny ones), label vector, and history of calls with changing shapes on shared loss objects",
     "tests use two fixed matrices with a fresh object each",
     ["src/loss.cpp", K, "include/deepworks/loss.hpp"], [("log, gather by target, mean", K)], "EvalSpec/MC_Eval/Tr_Eval",
     "Probabilities are powers of two, so the loss is an exact multiple of ln 2 / N.")
prop("C25", "Accuracy is the fraction of rows whose first greatest score is at the label",
     "For every batch and class count accuracy returns the number of rows whose greatest score (the first one on ties) is at the row's label, divided by the number of rows; the one-hot form gives the same with the label taken from the greatest entry of the target row. Arguments are not modified, and mismatched shapes throw.",
     ["inputs", "histories"], "every score matrix including ties and negative scores, label vector (also labels that match no class) and shape",
     "tests use three tiny matrices",
     ["src/metrics.cpp", "include/deepworks/metrics.hpp"], [("row-wise maxCoeff", "src/metrics.cpp")], "EvalSpec/MC_Eval/Tr_Eval",
     "Exact counting semantics; agreement of the two forms checked on the model.")
prop("C26", "Reading an image yields its exact pixels in HWC order or throws",
     "Reading a PNG (any colour type, bit depth, interlacing) or JPEG file yields height x width x channels elements holding the decoded 8-bit channels in row, column, channel order, into an empty tensor, a new one, or an existing one with that number of elements, whose shape and storage it keeps. A missing, foreign or unsupported file or a tensor of another size throws and leaves the tensor alone; a damaged file never crashes the process or leaks the file, and a shortened PNG is never silently accepted with wrong pixels.",
     ["inputs", "fault_sequences", "histories"], "every image size, colour type, depth, interlacing, destination tensor, damage (truncation at every byte, flipped bits) and sequence of reads",
     "tests read one PNG and one JPEG and check one missing extension",
     ["src/io/image_reader.cpp", "include/deepworks/image_reader.hpp"], [("libpng/libjpeg decoding row by row", "src/io/image_reader.cpp")],
     "ImageSpec/MC_Image/Tr_Image", "PNG decoding is specified in TLA+ from the samples; JPEG is compared with libjpeg's own decoding of the same file.")
prop("C27", "Layout conversion moves every element to its place, and back",
     "Converting a 4-D tensor from NCHW to NHWC or back puts the element of every (n, c, h, w) at its position in the other layout, for every size of the four dimensions, and changes neither the source nor anything outside the destination. The two conversions are inverse to each other.",
     ["inputs"], "every combination of the four sizes, and sequences of conversions",
     "only used inside batch-norm reference tests, with one shape",
     [K, "include/deepworks/utils/utils.hpp"], [("nested loops over n, c, h, w", K)], "LayoutSpec/MC_Layout/Tr_Layout",
     "Exact; inverse law model-checked for all small sizes.")
exec(open(os.path.join(ROOT, "tools", "meta_model.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "meta_model.py")) else None

P.sort()
with open(ROOT + "/properties.jsonl", "w") as f:
    for (id, title, st, over, text, tests, files, mech, spec, note, obs) in P:
        assert len(title) <= 80, (id, len(title))
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                            "why_tests_cant": tests,
                            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                        "observe_at": obs or ["public API results compared with spec/" + spec.split("/")[0] + ".tla"],
                                        "hook_needed": None}}) + "\n")
checks = [{"property": p[0], "quick_cmd": "python3 check.py " + p[0], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p[0],
           "evidence_file": "evidence/%s.json" % p[0],
           "technique": "TLA+ specification (%s) model-checked with TLC; TLC-generated histories replayed on the real code and its traces validated against the specification" % p[8],
           "level": "model_checking",
           "level_note": p[9] + " The model is exhaustive within small bounds; the binding to the code is by trace validation of generated histories, so the code is covered for the histories run, not for all inputs."}
          for p in P]
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the checks compile /repo's sources as they are."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
t = set(re.findall(r'^    "(C\d\d)":', open(ROOT + "/check.py").read(), re.M))
assert t == {p[0] for p in P}, t ^ {p[0] for p in P}
