MM = "src/model/model.cpp"
GB = "src/model/graphbuilder.cpp"
BE = "src/runtime/cpu/cpubackend.cpp"
SZ = "src/serialization.cpp"
prop("C13", "Building a model captures exactly the graph its outputs depend on",
     "A model built from inputs and outputs (outputs computed from these inputs) contains exactly the layer applications its outputs depend on, each once, listed so that a layer comes after everything it reads, with its own inputs in argument order; inputs() and outputs() keep the user's order, also for inputs nothing uses and outputs that other layers read as well. Every layer without a name gets its lower-case type and its position in that list; each layer is found under its name, and an unknown name throws. params() and state() have exactly one entry \"layer.tensor\" per parameter (state(): and buffer) of every layer, and cfg() describes the same graph; two layers of one name, or one layer object applied twice, make the construction throw.",
     ["inputs", "histories"], "every graph of layers (fan-out, diamonds, x+x, several inputs and outputs), every naming, and several models built over parts of one graph in any order",
     "tests build a few fixed graphs; none can be built here, and sharing, orders, unused inputs and name clashes are hardly covered",
     [MM, GB, "src/expression/call.cpp", "src/expression/placeholder.cpp", "src/model/layer.cpp", "src/model/layer_info.cpp"],
     [("DFS over placeholders, topological sort, generated names", MM)], "ModelSpec/MC_Prog/Tr_Model",
     "Construction is exhaustively checked on small programs; generated programs and directed graphs are replayed on the real code (built with a stand-in for the absent ade library), which may choose any topological order.")
prop("C14", "Model forward evaluates the whole graph, whatever its shape",
     "Once compiled, forward writes to every output tensor the value of that output: each layer of the graph applied to the current values of its inputs in dependency order, with current parameters and modes, for any number of inputs and outputs in the user's order, results shared by several layers, and repeated calls with new data. It changes nothing else but the running statistics of batch-norm layers in training mode and drawn dropout masks; the caller's input tensors stay untouched. Before compile, forward throws.",
     ["inputs", "histories"], "every graph, input, parameter value and sequence of forward calls on several models",
     "tests run two or three fixed networks once or twice",
     [BE, MM, GB], [("execution of the sorted operations over bound tensors", BE)], "ModelSpec/MC_Net/MC_Prog/Tr_Model",
     "Values are recomputed exactly in fixed point from the graph; independence of the evaluation order is model-checked for all small graphs.")
prop("C15", "Model backward yields the exact gradient of every parameter in the graph",
     "After a forward run, backward with gradients for the outputs sets the gradient of every trainable parameter of the model to the derivative of the outputs weighted by these gradients: contributions over all paths add up, for results used several times, x+x, outputs that other layers read, and several outputs. Repeating it gives the same result (nothing accumulates between calls), frozen layers still pass gradients on, the tensors passed by the caller are not modified, and no parameter value changes. Before compile, backward throws.",
     ["inputs", "histories"], "every graph, input, output gradient, set of frozen layers and sequence of forward/backward calls on several models",
     "tests compare one or two fixed networks with a hand-written reference; fan-out and several outputs are not covered",
     [BE, MM], [("zeroed gradient tensors, reverse order, accumulation per consumer", BE)], "ModelSpec/MC_Net/MC_Prog/Tr_Model",
     "The model's backward is checked to be the derivative of its forward for all small graphs of linear layers and additions; on the code all gradients are compared exactly.")
prop("C16", "Parameters, modes and statistics are one state however they are reached",
     "A layer's parameters, gradients and buffers are the same storage through the layer, params(), state(), getLayer() and every model the layer is part of: a value written, a training step or a mode set through one is what all others see and compute with at their next call. Model::train switches the mode of every layer of that model (also where shared) and of no other, a frozen layer is not moved by training steps, and running or training one model never changes layers that are not part of it, nor gradients or activations of another model's last run.",
     ["histories"], "every interleaving of writes, runs, training steps, mode changes and compilations over several models sharing some of their layers",
     "tests never build two models over shared layers nor mix these operations",
     [MM, BE, "src/model/parameter.cpp", "src/model/layer.cpp", "src/model/layer_info.cpp", "src/optimizer.cpp"],
     [("shared handles to parameters and buffers", "src/model/layer_info.cpp")], "ModelSpec/MC_Net/MC_Prog/Tr_Model",
     "After every call the whole state of all layers of all models is compared.")
prop("C21", "Saving and loading a state restores every tensor bit by bit",
     "save_state followed by load_state into a state with these names and shapes restores every parameter and buffer to the saved bits (NaN, infinities, negative zero and denormals included), by path or stream, into the same or another model, also when the file replaces a longer one. Entries the file does not name keep their values, no other model, gradient or mode changes, and saving changes nothing.",
     ["inputs", "histories"], "every state dictionary, value and sequence of changes, saves and loads over several files and models",
     "one test saves and loads one small model once",
     [SZ], [("name, shape and raw data per entry", SZ)], "ModelSpec/MC_Prog/Tr_Model",
     "Values include all special floats and are compared by their bits.")
prop("C22", "Saving and loading a config or model restores the same graph",
     "A config written by save_cfg or save and read back builds a model with the same layers (names, types, attributes, shapes, wiring and argument order), the same inputs and outputs in the same order, and the same parameter and state names, in new layers of its own; save followed by load also restores every parameter and buffer bit by bit, so that both models compute the same. This holds again for a model that was itself loaded, and the saved model is not affected.",
     ["inputs", "histories"], "every model over all layer types and attributes, and every sequence of saves and loads",
     "two small models are saved and loaded once",
     [SZ, MM, "src/expression/nn.cpp", "include/deepworks/layer_info.hpp"],
     [("config of placeholders and sorted operations, make_layer by type", MM)], "ModelSpec/MC_Prog/Tr_Model",
     "Both structure and behaviour (runs and training) of the loaded model are compared with the specification.")
prop("C23", "Broken, mismatched or unwritable files are reported, never half-accepted",
     "Loading a state, config or model file that is missing, cut short at any byte, or of another kind throws; so does a state with an unknown name or another shape. A save that cannot be written completely (full device, directory, missing folder) throws. A failing call leaves all other models and files as they were, and the models keep working; no failing load changes shapes, gradients or modes.",
     ["inputs", "fault_sequences", "histories"], "every point of truncation, every mismatch of kind, name or shape, and every failing write, in any history",
     "no test loads a damaged file or saves to an unwritable place",
     [SZ], [("checked reads, state of the stream after writing", SZ)], "ModelSpec/MC_Prog/Tr_Model",
     "Files are truncated at every byte (every few bytes in the middle of files beyond 3000 bytes); failing writes use /dev/full.")
prop("C28", "What is shown is what there is: drawings, printed tensors, error texts",
     "save_dot writes a valid DOT drawing of exactly the model's graph, whatever the layers are called: one node per placeholder with its shape, one box per layer with its name and type, one edge per argument into the layer and one per result out of it, labelled with its port, and nothing else; a drawing that cannot be written completely throws, and the model is unchanged. Printing a shape or a tensor shows all dimensions, strides and elements exactly once and in order, changing nothing. The text of a thrown exception contains everything streamed into it, in order, and the place it was thrown from.",
     ["inputs", "fault_sequences", "histories"], "every model graph and set of layer names, every shape, view and element value, every sequence of streamed pieces, and failing writes",
     "no test looks at a drawing, a printed value or an exception's text",
     [SZ, "src/runtime/tensor.cpp", "include/deepworks/shape.hpp", "include/deepworks/utils/assert.hpp", "src/utils/assert.cpp"],
     [("nodes and edges written per operation", SZ), ("operator<< for Shape and Tensor", "src/runtime/tensor.cpp"), ("message built in a stream", "include/deepworks/utils/assert.hpp")],
     "ModelSpec/TensorSpec/Tr_Model/Tr_Tensor/Tr_Text",
     "The drawing is parsed as DOT and compared with the specification's graph up to the placeholders' identifiers; placeholders and layers of the same text (a layer named Placeholder_<n>) are excluded.")
prop("C29", "Separate objects can be used from separate threads",
     "Threads that work on objects of their own - tensors, layers, graphs, models, optimizers, data loaders, losses, images, initialisers, files - run without data races, and every one of them observes exactly what it would observe if it were alone.",
     ["schedules", "histories"], "every interleaving of calls made by several threads on disjoint objects, over all parts of the library",
     "no test uses more than one thread; a race depends on the schedule",
     ["src/utils/generator.hpp", "src/initializers.cpp", "src/dataloader.cpp", K, BE, "src/io/image_reader.cpp", SZ],
     [("process-wide source of random numbers", "src/utils/generator.hpp")], "ThreadSpec/MC_Threads/Tr_Threads",
     "All interleavings of the model; on the code, ThreadSanitizer reports unordered accesses of the executed calls (whatever the actual schedule), and each thread's trace is validated by the specification of its own part.")
prop("C30", "Sample data sets deliver every item under its label; test repeats training",
     "A sample data set (iris, mnist, cifar10, cifar100) delivers, over its indices, each picture or row of its source exactly once per index, with its exact values and the label of its class, the same on every pull and for every data set of the process, writing nothing beyond the slot it is given; a missing source, an incomplete row, an unknown class or a picture of another size is refused, never mislabelled. "
     "The sample programs print, per epoch, the losses and one accuracy their options ask for, and testing the saved model on the same data prints the accuracy the training ended with.",
     ["inputs", "histories"], "every tree of classes and files or table of rows, every order of opening and pulling, every batch size, epoch count and print frequency",
     "the samples have no tests at all",
     ["samples/iris", "samples/mnist", "samples/cifar10", "samples/cifar100", "src/dataloader.cpp"],
     [("iris data set", "samples/iris/utility.cpp"), ("cifar-10 data set", "samples/cifar10/utility.cpp")], "SampleSpec/MC_Sample/Tr_Sample",
     "PNG pictures only; blank rows and CR line ends may be refused or read, never mislabelled; accuracy compared as printed. The programs are linked with the ade stand-in.")
