#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay readable in review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("P01", "A matrix is a fixed-size table of cells with checked access",
  "Under any history of cell, row and column writes, a matrix reads back exactly what a rows-by-columns table holding those writes would hold, through every way of reading it (cell, row, column), and its size never changes. An index that is negative or past the end, or a row or column slice of the wrong length, is refused with an error and leaves the matrix unchanged. Building a matrix is refused unless it has at least one row and one column and all its rows have the same length.",
  ["histories", "inputs"], "all sequences of Get/Set/GetRow/GetColumn/SetRow/SetColumn calls with any integer indices and slice lengths, on matrices of any size; all slices of slices given to the constructor (whose rows may become the matrix's storage)",
  "TestMatrix and TestMatrixRowsCols do seven writes on two 3x3 matrices, never with an index out of range and never a ragged or empty constructor argument.",
  ["matrix.go"], [("index and length checks in the accessors", "matrix.go: Get, Set, GetRow, GetColumn, SetRow, SetColumn"), ("dimension checks in the constructors", "matrix.go: NewMatrix, NewMatrixFromSlice")],
  [dict(name="Rows, Cols, M", meaning="declared size and the cells", where="matrix.go: Matrix")], ["return values and errors of the accessors"])

p("P02", "Matrix arithmetic equals its mathematical definition",
  "Addition, subtraction, negation, adding, multiplying by and raising to a scalar, the matrix product, transposition, the sums over axis 0 (per column) and axis 1 (per row), each a one-row matrix, and equality give, for every shape and every value (special floating-point values included), what their element-by-element definitions give, up to rounding in sums and products. Operands whose shapes do not fit are refused with an error, and a sum over an axis other than 0 or 1 panics. No operation changes its operands, and the result shares no cells with them.",
  ["inputs"], "all pairs of matrices (any shapes from 1x1 up, values from tiny to huge, signed zeros, infinities, NaN) and scalars",
  "The tests multiply one 2x3 matrix by the identity, add one pair, and compare a few cells; a wrong index for non-square shapes, larger sizes, special values or an operand overwritten in place would pass.",
  ["matrix.go"], [("elementwise loops and shape checks", "matrix.go: Add, Sub, Neg, AddScalar, MulScalar, PowScalar, Dot, T, Sum, Equals")], (), ["result matrices, operands after the call"])

p("P03", "A layer's forward pass computes activation(XW+b)",
  "For every layer type, size, weights, biases and finite input batch, the forward pass returns one output row per input row, equal to the layer's activation of XW+b: ReLU for hidden layers, identity for linear, logistic for sigmoid, slope-scaled negatives for leaky, row-wise normalised exponentials for softmax, and plain ReLU for dropout layers run without dropout. The results are finite whenever XW+b is (softmax rows are probability distributions even for logits of magnitude hundreds or thousands, sigmoid outputs lie in [0,1]). Each output row depends only on its own input row, and neither the input nor the parameters are changed.",
  ["inputs", "configurations"], "all layer types, input/output sizes, batch sizes, finite weights, biases and inputs, including zero pre-activations and very large logits",
  "The layer tests run one forward pass on one to three rows with random weights and only check that no error came back; no output value is compared.",
  ["network.go", "activation.go"], [("forward passes", "network.go: (*HiddenLayer|LinearLayer|SigmoidLayer|LeakyLayer|SoftmaxLayer|DropoutLayer).Forward, ForwardNoDropout"), ("activation functions", "activation.go: RELU, Sigmoid, LeakyRELU, Softmax")], (), ["the returned output matrix"])

p("P04", "A layer's backward pass is the exact gradient of its forward pass",
  "After a forward pass on a batch, a layer's backward pass on the same batch with any upstream gradient returns, with the shapes of the weights, biases and input, the exact derivatives with respect to the weights, the biases and the input of the upstream-weighted sum of the layer's outputs; for softmax followed by cross-entropy the combined pass returns the derivative of the batch-average cross-entropy for one-hot targets. At a ReLU or leaky-ReLU kink either one-sided derivative is acceptable. The pass changes none of the matrices handed to it and no parameter, so repeating it gives the same answer.",
  ["inputs", "configurations"], "all layer types (dropout in its no-dropout mode and with a recorded mask), sizes with fewer or more outputs than inputs, slopes including 0 and above 1, batches, upstream gradients",
  "The layer tests only check that the backward pass returns a nil error on one 3-input 5-output layer; no gradient value or shape is compared with anything.",
  ["network.go", "activation.go"], [("backward passes", "network.go: Backward of each layer, (*SoftmaxLayer).BackwardCrossEntropy"), ("activation derivatives", "activation.go: RELUPrime, SigmoidPrime, LeakyRELUPrime")],
  [dict(name="saved forward state", meaning="pre-activations, softmax outputs, dropout mask kept from the forward pass", where="network.go: reluInputs, outputs, binaryMask")], ["the three returned gradient matrices"])

p("P05", "Dropout masks, scales and differentiates consistently, in training only",
  "In a training forward pass with dropout rate p, every output of a dropout layer is either exactly 0 or the ReLU output divided by 1-p, each unit being kept independently with probability 1-p and afresh on every pass; p=0 keeps everything and p=1 gives all zeros. The following backward pass is the exact derivative of that masked, scaled output. Prediction, loss and accuracy evaluation apply no dropout at all, and a backward pass that follows a forward pass without dropout uses no mask.",
  ["inputs", "configurations", "histories"], "all dropout rates in [0,1], layer sizes, batches, and interleavings of training and evaluation passes",
  "TestDropoutLayer does one forward and one backward pass at rate 0.1 and checks only for a nil error; the random mask makes any example-based value comparison impossible without a relation between output, mask and gradient.",
  ["network.go", "binomial.go", "model.go"], [("mask drawn and scaled", "network.go: (*DropoutLayer).Forward, binomial.go: Rand"), ("mask applied to gradients", "network.go: (*DropoutLayer).Backward"), ("evaluation path without dropout", "network.go: ForwardNoDropout; model.go: Forward(training=false)")],
  [dict(name="binaryMask", meaning="units kept in the last forward pass", where="network.go: DropoutLayer")], ["layer outputs and gradients"])

p("P06", "Each loss is the documented average over the whole batch, always finite",
  "Each loss's value is the average over all rows of the batch of its per-row definition: mean squared error and mean absolute error averaged over the columns, minus the log of the predicted probability of the target class for cross-entropy with one-hot targets, and the column-averaged two-sided log loss for binary cross-entropy. For the two cross-entropies predictions are first limited to [1e-7, 1-1e-7], so the value is finite and not negative for all predictions in [0,1], certain ones included. The value does not depend on the order of the rows, and the predictions and targets passed in are not changed.",
  ["inputs"], "all batch sizes and widths, all finite predictions (for the cross-entropies all predictions, including exactly 0 and 1 and values outside [0,1]), all targets (one-hot resp. in [0,1])",
  "The loss tests compute one value each on one or two rows, print it, and compare it with nothing.",
  ["loss.go", "matrix.go"], [("loss forward passes", "loss.go: Forward of each loss"), ("limiting of probabilities", "matrix.go: Clip")], (), ["the returned loss value"])

p("P07", "Each loss's gradient is the derivative of its value",
  "For each loss, every entry of the returned gradient is the partial derivative of the loss value with respect to that prediction: it has the shape of the predictions and agrees with the slope of the loss value for every batch size and width. At an exact match the absolute error's gradient is 0, and for the cross-entropies the gradient is finite for every prediction in [0,1], exactly 0 and 1 included. Predictions and targets are not changed.",
  ["inputs"], "all batch sizes and widths, predictions and targets (one-hot for cross-entropy, in [0,1] for binary cross-entropy, predictions strictly inside the limits for the slope comparison)",
  "The loss tests print one gradient matrix per loss and compare it with nothing; the relation to the loss value quantifies over all inputs.",
  ["loss.go"], [("loss backward passes", "loss.go: Backward of each loss")], (), ["the returned gradient matrix against differences of the loss value"])

p("P08", "SGD follows its update rule over any history of updates",
  "Under any history of updates, an SGD optimizer changes weights and biases exactly as the rule v <- momentum*v - rate*gradient, parameter <- parameter + v prescribes, with v starting at zero and rate = learningRate/(1 + decay*number of earlier updates) (momentum 0 being plain gradient descent). It neither changes nor keeps hold of the gradients it is given, and optimizers never influence one another.",
  ["histories", "inputs", "configurations"], "all learning rates > 0, decays and momentums >= 0, parameter shapes, and gradient sequences of any length, including interleaved use of several optimizers",
  "TestSGDOptimizer trains one network without decay or momentum and checks no number.",
  ["optimizers.go"], [("update rule", "optimizers.go: (*SGDOptimizer).Update")],
  [dict(name="weightMomentums, biasMomentums, iterations, currentRate", meaning="state carried between updates", where="optimizers.go: SGDOptimizer")], ["weights and biases after each update"])

p("P09", "Adam follows its update rule over any history of updates",
  "Under any history of updates, an Adam optimizer changes weights and biases exactly as the published rule prescribes: exponential averages of the gradient (beta1) and of its square (beta2), each corrected for its own zero start by 1-beta^t, and a step of rate*m/(sqrt(v)+epsilon), with rate = learningRate/(1 + decay*number of earlier updates). It neither changes nor keeps hold of the gradients it is given, and optimizers never influence one another.",
  ["histories", "inputs", "configurations"], "all learning rates > 0, decays >= 0, betas in [0,1), epsilon > 0, parameter shapes, and gradient sequences of any length, including interleaved use of several optimizers",
  "TestAdamOptimizer trains one network and checks no number, so a wrong bias correction, a forgotten decay or state shared between weights and biases goes unnoticed.",
  ["optimizers.go"], [("update rule", "optimizers.go: (*AdamOptimizer).Update")],
  [dict(name="weightMomentums, weightCache, biasMomentums, biasCache, iterations", meaning="state carried between updates", where="optimizers.go: AdamOptimizer")], ["weights and biases after each update"])

p("P10", "A model only ever holds a consistent chain of layers",
  "Adding a layer succeeds exactly when the model is empty or the layer's input size equals the current output size; the model's layer count, input size and output size always describe the layers accepted so far, and a refused layer leaves the model as it was and usable. Finalizing succeeds exactly when the loss size equals the output size and the accuracy precision is not negative, and then records the kinds and hyperparameters of loss, optimizer and accuracy given and gives each layer its own optimizer with those hyperparameters; finalizing again replaces all of them, and a refused Finalize replaces none: the model stays finalized, or not, as it was, and training goes on as if the call had not been made.",
  ["histories", "configurations"], "all sequences of add-layer and finalize calls with layers of any type and size, losses, optimizers and accuracy settings",
  "TestModel and TestTrainModel build one matching chain each and ignore the returned errors; no refused layer or loss is ever tried.",
  ["model.go", "optimizers.go"], [("size check on adding", "model.go: AddLayer"), ("loss and precision checks, optimizers per layer", "model.go: Finalize; optimizers.go: NewOptimizerFromType")],
  [dict(name="ModelSize, InputSize, OutputSize, Layers, Optimizers", meaning="what the model holds", where="model.go: Model")], ["returned errors, exported fields, behaviour of the accepted model"])

p("P11", "A model's forward pass is the composition of its layers, row by row",
  "A model's forward pass returns the input followed by the output of each layer in order, every one equal to that layer's function applied to the previous entry, for every architecture, batch and mode. Evaluating rows together, separately, split into batches or in another order gives the same output rows, and evaluating again gives the same result whatever was evaluated in between. The returned matrices are not changed by later calls.",
  ["configurations", "inputs", "histories"], "all architectures (any mix and number of layer types and sizes), inputs, splits and permutations of the batch, and histories of evaluations",
  "TestModel runs one forward pass through one architecture and only checks for a nil error.",
  ["model.go", "network.go"], [("layer loop", "model.go: Forward")], (), ["the list of outputs"])

p("P12", "A model's gradients are the true gradients of its loss",
  "For every architecture, loss, batch and parameter values, the model's backward pass after a forward pass returns for each layer, last layer first, the exact derivatives of the model's loss on that batch with respect to that layer's weights and biases. This covers the shortcut for softmax followed by cross-entropy and softmax used anywhere else. Stepping a little against these gradients therefore lowers the loss.",
  ["configurations", "inputs"], "all architectures, the four losses (outputs strictly inside [1e-7, 1-1e-7] for the cross-entropies), batches, parameter values",
  "TestModel checks for a nil error on one input row; no test compares a model gradient with the slope of the loss.",
  ["model.go", "network.go", "loss.go"], [("backward loop and softmax/cross-entropy shortcut", "model.go: Backward")], (), ["the returned gradients against an independent derivation and against differences of the loss"])

p("P13", "Fit performs exactly the mini-batch training it describes",
  "Fit runs the given number of epochs, each going once through all rows in order in consecutive batches of the given size (a shorter last batch included; size 0 meaning one batch of everything), and updates every layer's parameters once per batch with that layer's optimizer from the gradients of that batch. The parameters afterwards are those of this textbook procedure for every architecture, loss, optimizer, data size, batch size and epoch count, and optimizer state carries over from batch to batch, epoch to epoch and from one call to the next.",
  ["configurations", "inputs", "histories"], "all architectures, losses, optimizers, row counts, batch sizes (dividing, not dividing, 1, larger than the data, 0), epoch counts (0 included) and sequences of Fit calls",
  "TestTrainModel and the examples run Fit with a batch size that divides the data and check only for a nil error; a skipped last batch or an update from the wrong layer's gradients would pass.",
  ["model.go", "optimizers.go"], [("batching and update loop", "model.go: Fit")],
  [dict(name="Optimizers", meaning="per-layer state across batches and calls", where="model.go: Model")], ["layer parameters after each Fit call"])

p("P14", "Evaluating and logging never disturb the model or the caller's data",
  "Prediction, loss and accuracy calculation and forward passes, placed anywhere between training calls, and logging with or without validation data during training, leave the parameters and the outcome of all later training exactly what they would have been without them. Training and evaluation never change the training, validation or prediction data and targets the caller passed in.",
  ["histories", "configurations", "inputs"], "all histories of Fit, Predict, CalculateLoss, CalculateAccuracy and Forward calls on models of any architecture, with any logging interval and with or without validation data",
  "No test runs the same training with and without observation or compares its data before and after.",
  ["model.go", "network.go", "loss.go", "accuracy.go"], [("evaluation entry points", "model.go: Predict, CalculateLoss, CalculateAccuracy, logging part of Fit")],
  [dict(name="saved forward state, optimizer state, parameters", meaning="what an evaluation could disturb", where="network.go, optimizers.go")], ["parameters and data matrices after the history"])

p("P15", "Predictions and evaluations mean what the model's settings say",
  "A prediction is the raw output for regression models, the column number of the largest output of each row for categorical models, and 0 or 1 by comparing each output with 0.5 (0.5 counting as 1) for binary models. The calculated loss is the chosen loss of the raw outputs against the targets, and the calculated accuracy is the chosen accuracy of the raw outputs; both are computed without dropout. An unknown accuracy kind is refused with an error.",
  ["configurations", "inputs"], "all architectures, the three accuracy kinds and unknown ones, the four losses, inputs and targets, with outputs that are negative, tied or exactly at a threshold",
  "TestModel calls Predict once and looks at no value; CalculateAccuracy is only reached through logging.",
  ["model.go", "misc.go", "accuracy.go"], [("dispatch on the accuracy kind", "model.go: Predict, CalculateAccuracy, CalculateLoss")], (), ["returned predictions, losses and accuracies"])

p("P16", "Accuracy metrics are exact fractions of correct entries",
  "Regression accuracy is the fraction of entries whose absolute error is strictly below the given precision, categorical accuracy the fraction of rows whose largest prediction stands in the column the target marks with 1, and binary accuracy the fraction of entries whose prediction, rounded at 0.5, equals the target. Every result lies in [0,1], does not depend on the order of the rows, and is 1 when the predictions are the targets themselves (with a positive precision, and one-hot or 0/1 targets). The predictions and targets passed in are not changed.",
  ["inputs"], "all prediction and target matrices of equal shape (one-hot resp. 0/1 targets), precisions, and row permutations, with negative predictions and entries exactly at a threshold",
  "Each metric is tested on a single 2x2 example with positive predictions.",
  ["accuracy.go", "misc.go"], [("counting loops", "accuracy.go: RegressionAccuracy, CategoricalAccuracy, BinaryCategoricalAccuracy"), ("row maxima and rounding", "misc.go: RowMax, OutputBinaryValues")], (), ["returned fractions; arguments after the call"])

p("P17", "Saving and loading a model or layer loses nothing but optimizer state",
  "Every model or layer that is saved without an error loads back with the same architecture, layer types, sizes, slopes and dropout rates, bit-identical weights and biases, loss, accuracy and optimizer kind and settings; its outputs, losses and predictions are identical, and training it further gives exactly what training the original with fresh optimizers gives. Loading reads exactly the bytes that were written, so several models or layers written one after another into a buffer load back in order, and saving a loaded model again preserves the same content. A model that the format cannot represent is refused with an error when saving.",
  ["configurations", "inputs", "histories"], "all architectures (any number of layers of any type and size), all parameter bit patterns including NaN payloads, infinities, signed zeros and subnormals, all losses, optimizers and accuracy settings",
  "The round-trip tests save one three-layer ReLU/linear model and only check that the loaded model computes some loss without an error.",
  ["model_data.go", "layer_data.go"], [("serialisation", "model_data.go: Serialize, NewSavedModelData; layer_data.go: SerializeLayer"), ("loading", "model_data.go: LoadModel; layer_data.go: LoadLayer")], (), ["the loaded model's exported fields, parameters and behaviour"])

p("P18", "Saved bytes follow the documented format in both directions",
  "The bytes a model or layer is saved as are exactly the documented layout: magic bytes, five-byte version, the documented little-endian fields in the documented order and sizes, optimizer settings as length-prefixed keys with their values in any order, then per layer its header, weights and biases row by row, with the published type codes. Conversely every byte sequence written to that layout by an independent program loads to the model it describes, whatever the order of the optimizer settings and also when it carries another five-byte version.",
  ["inputs", "configurations"], "all models and layers, written by the library and read by an independent decoder, and written by an independent encoder and read by the library",
  "The tests only read back what the same code wrote, so a change made to both sides goes unnoticed although it breaks every existing file.",
  ["model_data.go", "layer_data.go", "ModelData.md", "LayerData.md"], [("field-by-field writer and reader", "model_data.go, layer_data.go")], (), ["serialised bytes, loaded models"])

p("P19", "No input to the loaders can crash them or pass as complete when cut off",
  "For every byte sequence whatsoever, loading a model or layer either returns an error or returns a model or layer that can be evaluated, saved and loaded again; it never panics, never fails to return and never allocates memory out of proportion to the input. Every proper prefix of a saved model or layer, and every input with wrong magic bytes, an unknown layer, loss or optimizer code, or layer sizes that do not chain, is refused with an error. None of this requires logging to have been set up.",
  ["inputs"], "all byte sequences: arbitrary, truncated at every position, and saved models with any bytes of any field replaced, including negative and enormous sizes and lengths",
  "No test gives the loaders a malformed input.",
  ["model_data.go", "layer_data.go", "nn.go"], [("error returns while reading", "model_data.go: loadModelBuffer, LoadModel; layer_data.go: loadLayerBuffer, LoadLayer"), ("size checks", "matrix.go: NewMatrix; model.go: AddLayer, Finalize")], (), ["returned error or model; memory allocated"])

p("P20", "Model files survive overwriting and failed saves",
  "A model saved to a file is what loading that file returns, also when the file held a longer or shorter model or other content before and after any history of saves to any of several files. A save that reports success can be loaded; a model that cannot be saved makes the save return an error and leaves what the file held before untouched; a save to a place that cannot be written and a load of a missing, empty, or non-file path return errors. Loading never changes the file.",
  ["histories", "fault_sequences"], "all histories of saves and loads of valid and unsavable models over several paths, with full devices, missing directories and directories as paths",
  "TestModelSaveLoad saves one model to one new file.",
  ["model_data.go"], [("file writing and reading", "model_data.go: SaveFile, LoadFile")], (), ["file contents, returned errors and models"])

p("P21", "Shuffling permutes samples and targets together",
  "Shuffling a dataset returns the same rows in another order, each sample still paired with its own target and every row kept exactly once with its values unchanged. Every order can come up: over many shuffles each row is about equally likely to land in each place, and repeated shuffles differ.",
  ["inputs", "histories"], "all dataset sizes and widths, contents with duplicates, and repeated shuffles",
  "TestShuffleDataset calls the function and checks nothing; its result is random.",
  ["misc.go"], [("joint swap", "misc.go: ShuffleDataset")], (), ["returned matrices"])

p("P22", "Initialisation draws He-distributed weights and nothing else",
  "Initialising a layer of any type, directly or through its model, gives every weight an independent normal value with mean 0 and standard deviation sqrt(2/inputs), and leaves biases, sizes, slope and dropout rate as they were. Initialising again or another layer gives different weights.",
  ["configurations", "inputs"], "all layer types and sizes",
  "Tests call Init and never look at the distribution; it is random, so only a statistical relation over many generated sizes can settle it.",
  ["network.go", "model.go"], [("random weights", "network.go: Init of each layer; model.go: InitLayers")], (), ["layer weights and biases"])

p("P23", "The training log tells the truth and goes where it was sent",
  "With a logging interval of n>0, training writes exactly one entry for each epoch whose number is a multiple of n, in order, giving the epoch number and the loss and accuracy over the whole training set with the parameters at that point, and with validation data a second entry with those of the validation set; with interval 0 it writes none. Entries go to the configured destination only: appended to the log file, to standard output when verbose, or nowhere; if the log file cannot be opened an error is returned and logging stays as it was. Loading a model written by another version leaves a warning naming that version there. Nothing fails because logging was never set up.",
  ["configurations", "histories", "inputs"], "all logging intervals, epoch counts, models, datasets, validation sets, and histories of logger set-ups",
  "Tests send the log to a file and never read it.",
  ["nn.go", "model.go"], [("logger set-up", "nn.go: InitLogger"), ("log entries", "model.go: Fit")],
  [dict(name="InfoLogger, WarningLogger, ErrorLogger", meaning="package-wide loggers", where="nn.go")], ["log file content and standard output"])

p("P24", "Models, layers, losses and optimizers do not affect one another",
  "Whatever is done with one model, layer, loss or optimizer, in any interleaving and also at the same time from several goroutines each using its own, every other one behaves exactly as if it were alone. A matrix returned earlier keeps its values whatever is computed later with other objects.",
  ["histories", "schedules"], "all interleavings of operations on several objects, compared with each object's operations run alone, and concurrent runs with one object per goroutine",
  "Every test uses one model at a time, so shared package-level state or reused buffers never show.",
  ["network.go", "model.go", "optimizers.go", "loss.go", "matrix.go"], [("all state kept per object", "structs in network.go, optimizers.go, model.go")], (), ["results of each object alone and interleaved"])

p("P25", "Inputs of the wrong shape are refused, not half-processed",
  "Layer forward and backward passes, loss values and gradients, optimizer updates, and a model's passes, training (validation data that is logged included), prediction, loss and accuracy calculation return an error when the matrices given do not have the column and row counts required by the sizes involved or do not match each other (including a backward pass whose derivative needs the preceding forward pass, when there was none or it had another number of rows). They do not panic, and parameters, optimizer state and caller data are as if the call had not been made.",
  ["inputs", "histories"], "all operations that report errors, with every combination of mismatched row and column counts, placed anywhere in a history of correct calls",
  "The tests never pass a matrix of the wrong shape.",
  ["network.go", "loss.go", "optimizers.go", "model.go", "matrix.go"], [("dimension checks", "network.go, loss.go, optimizers.go, model.go")], (), ["returned errors; state afterwards"])

p("P26", "Label conversions are exact",
  "Converting class numbers to one-hot rows puts a single 1 in the column each row names and 0 elsewhere, and refuses a size below 1 or a class number that is negative or not below the size with an error. Taking row maxima returns for every row the number of the first column holding its largest value, so it undoes the one-hot conversion, whatever the signs of the values. Rounding to binary values maps every entry below 0.5 to 0 and every other to 1.",
  ["inputs"], "all matrices of class numbers and sizes, and all matrices of finite values with negative rows, ties and thresholds",
  "One example each, with positive maxima and valid class numbers only.",
  ["misc.go"], [("conversions", "misc.go: SparseToOneHot, RowMax, OutputBinaryValues")], (), ["returned matrices and errors"])

p("P27", "Invalid sizes and hyperparameters are refused, valid ones recorded",
  "Constructors refuse with an error exactly: layer sizes below 1, a negative leaky slope, a dropout rate outside [0,1], loss sizes below 1, a learning rate that is not positive, a negative decay or a negative momentum, and an optimizer kind that does not exist. Everything else is accepted and the object behaves according to precisely the values given: new layers have zero weights and biases of the right shapes, and the settings are what is saved with a model and used in training.",
  ["inputs", "configurations"], "all integer sizes and finite hyperparameter values, including values exactly at each limit",
  "Every constructor call in the tests is valid and its error is ignored.",
  ["network.go", "loss.go", "optimizers.go"], [("constructor checks", "network.go: New*Layer; loss.go: New*Loss; optimizers.go: New*Optimizer, NewOptimizerFromType")], (), ["returned errors, fields and behaviour of the objects"])

p("P28", "Training learns: descent on convex problems reaches the optimum",
  "On a linear regression problem with a small enough learning rate, each full-batch SGD epoch lowers the loss (or leaves it at its minimum) and enough epochs bring it to the least-squares optimum; on a softmax or logistic classification of separable data, training brings the loss down and the accuracy to 1. The same holds for Adam's final loss, for mini-batches on realisable data, and for a model saved and loaded half-way.",
  ["configurations", "inputs", "histories"], "generated well-conditioned regression and separable classification problems, optimizers, batch sizes, and interruptions by save and load",
  "The examples train on three fixed datasets and check only for a nil error: a network that learns nothing passes.",
  ["model.go", "network.go", "loss.go", "optimizers.go"], [("the training loop as a whole", "model.go: Fit")], (), ["loss and accuracy reported by the model"])

p("P29", "The activation functions and Clip compute their definitions",
  "Applied to any matrix of finite values, RELU gives max(x,0), LeakyRELU x for positive and slope*x for negative values, Sigmoid the logistic function (within [0,1]) and Softmax each row's normalised exponentials (without overflow for large values), in a matrix of the same size. RELUPrime and LeakyRELUPrime multiply the gradients given first by the derivative at the values given second, SigmoidPrime the gradients given second by the derivative of the logistic function at the values given first; the matrix given second is left as it was. Clip gives the values limited to 1e-7 and 1-1e-7 and those within exactly. Every row is treated for itself.",
  ["inputs"], "matrices of any size with finite values from tiny to huge, zeros included, all slopes and upstream gradients",
  "No test calls an activation function; the layer tests that use them compare no value.",
  ["activation.go", "matrix.go"], [("element-wise loops", "activation.go: RELU, RELUPrime, Sigmoid, SigmoidPrime, LeakyRELU, LeakyRELUPrime, Softmax; matrix.go: Clip")], (), ["the returned matrix, and the second argument after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
