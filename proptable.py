prop('C01', 'Element-wise tensor operations compute their definition at every position',
 'Building and executing an element-wise operation (absolute value, negation, activation, addition, subtraction, multiplication, division, with a tensor or with a scalar) yields a tensor of the operand shape whose every element is the scalar operation, in the arithmetic of the element type (real or integer), applied to the elements at the same coordinates, whatever the values are at execution time; the immediate methods compute the same at once. Operands of different shape, or an operand that fails to build, are reported as an error and nothing else is.',
 ['inputs', 'programs'], 'every rank, shape, position, operand value and operand expression',
 'the tests multiply two or three fixed shapes with one set of values; the guarantee quantifies over all shapes, positions, later input changes and operand expressions',
 ['tensor/abs.go', 'tensor/neg.go', 'tensor/activate.go', 'tensor/oper2.go', 'tensor/oper_scalar.go', 'tensor/math.go', 'operation/', 'tools/tools.go'],
 [('TensorOp2.BuildGraph', 'tensor/oper2.go'), ('TensorOpScalar.BuildGraph', 'tensor/oper_scalar.go'), ('operation.*.Cal', 'operation/')],
 VG, 'proof', REAL)

prop('C02', 'Reductions and soft-max compute their definition for every tensor',
 'Sum, average, maximum and minimum over a whole tensor, or over everything behind a chosen dimension, and the soft-max normalisation give exactly the mathematical reduction of the elements the operand holds when the graph is executed (or the immediate method is called), with the documented result shape; for integer elements the average is the truncated quotient of the whole sum. An invalid dimension is reported as an error. The distance of two value lists is the root of the sum of the squared differences, and lists of different length are an error.',
 ['inputs', 'histories'], 'every non-empty shape, every dimension, every value, every number of executions',
 'tests reduce one or two small tensors once; an error that needs negative values, a second execution or another dimension stays unseen',
 ['tensor/dim_math.go', 'tensor/tensor_math.go', 'tensor/softmax.go', 'operation/sum.go', 'operation/avg.go', 'operation/max_min.go'],
 [('TensorDimMath.BuildGraph', 'tensor/dim_math.go'), ('TensorMath.BuildGraph', 'tensor/tensor_math.go'), ('Sum/Avg/Max/Min.Cal', 'operation/')],
 VG, 'proof', REAL)

prop('C03', 'Tensor contraction is the sum of products over the contracted dimensions',
 'A dot product over chosen dimensions has the shape of the first operand without its dimension followed by the second without its own, and each element is the sum of products along the contracted dimensions; two vectors give their inner product; the immediate methods give the same. It fails with an error exactly when a dimension does not exist, an operand is empty or the contracted extents differ.',
 ['inputs'], 'every pair of shapes, every pair of dimensions, every value',
 'the tests only contract the default dimensions of two matrices; inner dimensions, higher ranks and rejected arguments are never sampled',
 ['tensor/dot_product.go', 'tools/tools.go'],
 [('TensorDotProduct.BuildGraph', 'tensor/dot_product.go'), ('buildLastDim', 'tensor/dot_product.go'), ('buildVector', 'tensor/dot_product.go')],
 VG + ' with enumerated ranks', 'other', 'Ranks 0 to 3 and every dimension pair are enumerated, extents, positions and values stay symbolic. ' + REAL)

prop('C04', 'Rearranged tensors are live views of the right source cells',
 'Transposing, reshaping, flattening, concatenating and taking sub-tensors give tensors whose elements are the very cells of the operand at the mapped coordinates (padding where the source ends), so later writes and executions are seen through them; copying and filling write exactly the destination cells. Arguments that do not fit are reported as an error.',
 ['inputs', 'histories'], 'every shape, dimension, range, position and later change of the source',
 'tests compare a few elements of constant tensors; they cannot distinguish a view from a snapshot nor cover all dimensions and ranges',
 ['tensor/transpose.go', 'tensor/reshape.go', 'tensor/concat.go', 'tensor/sub_tensor.go', 'tensor/copy.go', 'tensor/fill.go'],
 [('TensorTanspose.BuildGraph', 'tensor/transpose.go'), ('TensorReshape.BuildGraph', 'tensor/reshape.go'), ('TensorConcat.BuildGraph', 'tensor/concat.go'), ('TensorSubTensor.BuildGraph', 'tensor/sub_tensor.go'), ('TensorCopy.BuildGraph', 'tensor/copy.go')],
 VG, 'other', 'Transposition, reshape, flatten, copy and fill are shown for every rank; concatenation and sub-tensors for ranks 0 to 3. ' + REAL)

prop('C05', 'Immediate tensor methods agree with the graph and leave operands alone',
 'The immediate methods of a tensor (arithmetic, reductions, dot, concatenation, transposition, reshape, sub-tensors, soft-max, activation) return a new tensor holding exactly what the corresponding graph operation would compute, with the same shape and the same rejected arguments. Result cells are fresh: neither the operands\' values, cells nor shapes change, and writing to the result never reaches an operand.',
 ['inputs', 'histories'], 'every shape, position, value, argument and later write to result or operand',
 'the tests check a handful of result values and never write to a result or look at the operand afterwards',
 ['tensor/'],
 [('TensorMat methods', 'tensor/*.go'), ('reducers', 'tools/tools.go')],
 VG, 'other', 'Contractions, concatenation and sub-tensors are shown for ranks 0 to 3, everything else for every rank. ' + REAL)

prop('C06', 'Building schedules each operation once, after what it depends on',
 'Building a tensor expression schedules the operations of its operands before its own, each exactly once: a sub-expression that is used twice or built again adds nothing. A graph executes exactly the operations that were scheduled, in that order and once per execution; appending or copying graphs concatenates their schedules in order without sharing them, and building a graph reports an error exactly when the tensor cannot be built.',
 ['histories', 'programs'], 'every expression, every number and order of scheduled operations, builds and executions',
 'tests build one expression once and run it; double scheduling or a wrong order only shows with shared sub-expressions, repeated builds or chained graphs',
 ['context/context.go', 'graph/graph.go', 'tensor/'],
 [('Context.Push/GetOps', 'context/context.go'), ('Graph.Exec/AddFromGraph/PushOperations', 'graph/graph.go'), ('BuildGraph', 'tensor/*.go')],
 VG, 'other', 'The schedule queue is shown for 0 to 6 pushed operations and for appended symbolic schedules of any length; contractions, concatenation and sub-tensors for ranks 0 to 3. ' + REAL)

prop('C07', 'Coordinates address row-major cells, and bad coordinates are errors',
 'Element access by coordinates reaches exactly the cell at the row-major position, for reading, writing and taking the operand; a wrong number of coordinates or a coordinate outside its extent is reported as an error, changes nothing and never crashes. The index helpers are inverse to each other on valid positions, and the shape and multiplier lists that a tensor hands out are its own values at that moment.',
 ['inputs'], 'every shape, every coordinate list (valid or not) and every value',
 'tests read a few valid positions of fixed tensors',
 ['tensor/tensor_mat.go', 'tools/tools.go'],
 [('TensorMat.Get/Set/GetOperand', 'tensor/tensor_mat.go'), ('GetIndexMul/GetIndex/ReverseIndex', 'tools/tools.go')],
 VG, 'proof', REAL)

prop('C08', 'Tensor constructors give a complete tensor of the requested shape',
 'Every constructor yields a tensor of exactly the requested shape with row-major multipliers and one separate cell per position, holding zeros, ones, the given values in order, or random numbers drawn separately per position (uniform ones between the bounds). The arguments are not kept: changing a shape or value list later does not change the tensor. A new scalar is a cell of its own with the given value, zero, one or a random number between the bounds.',
 ['inputs', 'histories'], 'every shape, value list, random draw and later write',
 'tests construct fixed shapes and look at the size',
 ['tensor/constructor.go'],
 [('NewZeros/NewOnes/NewRand/NewNormRand/NewFromValues', 'tensor/constructor.go')],
 VG, 'proof', 'Random sources are read as arbitrary numbers in their documented range. ' + REAL)

prop('C11', 'Scalar operations compute their function afresh at every execution',
 'Executing a scalar operation (addition, subtraction, multiplication, division, equality, absolute value, negation, assignment, function application, multiplication by a constant, sum, average, maximum, minimum) writes the mathematical result of the values its arguments hold at that moment into its output, and touches nothing else.',
 ['inputs', 'histories'], 'every argument value, every number of arguments and executions',
 'tests evaluate each operation on one or two constants, once',
 ['operation/'],
 [('Cal methods', 'operation/*.go')],
 VG, 'proof', REAL)

prop('C12', 'Activations are their textbook functions and derivatives match them',
 'Each activation function computes its documented mathematical function for every argument, and its derivative is exactly the derivative of the function it computes (at every point where that exists).',
 ['inputs'], 'every real argument',
 'tests cannot compare a function with its derivative at every argument; a derivative that is wrong in one branch or by a factor only makes training worse',
 ['activation/'],
 [('Activate/Derive', 'activation/*.go')],
 'symbolic differentiation of the extracted SSA value graph', 'proof', REAL)

LAYERS = 'Dense, Conv2D, Deconv2D, MaxPool2D, UpSampling2D, Flatten, SubTensor, SoftMax and normalisation layers'
L3NOTE = ('The predecessor of the layer is an arbitrary layer with symbolic outputs, errors and derivatives; window layers take rank-3 inputs, sub-tensor layers ranks 1 to 3. ' + REAL)

prop('C13', 'Every layer outputs its mathematical definition for every input',
 'After building and executing the forward pass, the output of a layer has the documented shape and each element is the layer\'s definition applied to the predecessor\'s output and the current weights and bias: activated weighted sum (Dense), activated cross-correlation with stride (Conv2D), activated transposed convolution (Deconv2D), window maximum (MaxPool2D), nearest-neighbour repetition (UpSampling2D), the selected part (SubTensor), the predecessors\' outputs side by side (Concat), the input itself (Input), the flattened, soft-max or normalised input. Inputs that do not fit and failures of the predecessor are reported as errors and nothing else is; neither input, error nor parameters change, and the predecessor and the layer itself are scheduled once however often they are built.',
 ['inputs', 'histories'], 'every input shape, kernel, stride, filter count, position, input value and parameter value',
 'the tests run a few fixed sizes (mostly square windows that divide the input) with random weights; other strides, extents and borders are never sampled',
 ['layer/', 'tensor/', 'operation/'],
 [('BuildFeedforward', 'layer/*.go'), ('PreBuild, PreBuildFeedforward', 'layer/base.go')],
 VG, 'other', L3NOTE)

prop('C14', 'Back propagation adds the adjoint of the layer to the predecessor\'s error',
 'The backward pass of a layer adds to the error of its predecessor the transpose of its own linearisation applied to its error (averaged over its consumers), times the derivative the predecessor offers where the layer has weights; MaxPool2D routes the error to the maximal elements, UpSampling2D sums over the repeated elements, SubTensor, Flatten and Concat share or move the error to the positions their output came from. The derivative a layer offers to its consumers is that of its own activation or of its input routed like the output. Input, own error and weights stay as they are, the predecessor is scheduled once, after its error is complete, and failures of the predecessor are reported.',
 ['inputs', 'histories'], 'every shape, kernel, stride, number of consumers, error value and position',
 'a wrong index or missing term in a gradient only makes training slower; no test compares gradients with the definition',
 ['layer/', 'tensor/', 'operation/'],
 [('BuildBackpropagation, BuildDer', 'layer/*.go'), ('PostBuildBackpropagation', 'layer/base.go')],
 VG, 'other', L3NOTE + ' The value of MaxPool2D\'s own derivative is undecided.')

prop('C15', 'Clearing reaches every layer once and leaves the parameters alone',
 'Preparing a training step sets every element of a layer\'s error to zero, leaves weights and bias as they are and reaches the predecessor exactly once; resetting the visited marks reaches it once as well, and failures of the predecessor are reported.',
 ['inputs', 'histories'], 'every shape, previous error value and layer kind',
 'tests never look at accumulated errors between two training steps',
 ['layer/'],
 [('ResetFit, Reset', 'layer/base.go')],
 VG, 'other', L3NOTE)

prop('C16', 'A training step updates weights and bias by the gradient with momentum',
 'The backward pass calculates for every weight and bias the new value old + alpha * gradient + momentum * last update (gradient: error times input, summed over all positions that share the weight, averaged over the consumers) and remembers the update, without touching the current parameters. Fit then takes over exactly these values if the layer is trainable, and leaves weights and bias of a frozen layer untouched; it reaches the predecessor once and reports its failures.',
 ['inputs', 'histories'], 'every shape, kernel, stride, rate, momentum, previous update, error and input value',
 'tests only look whether the loss of a toy problem falls; momentum, shared weights and frozen layers are not checked',
 ['layer/'],
 [('BuildBackpropagation', 'layer/dense.go'), ('BuildBackpropagation', 'layer/conv2d.go'), ('BuildBackpropagation', 'layer/deconv2d.go'), ('Fit', 'layer/base.go')],
 VG, 'other', L3NOTE)

prop('C17', 'A loaded network has the saved parameters in every layer',
 'Saving writes every layer reachable from the last one exactly once, predecessors first, and loading a network of the same structure reads back exactly the items written: each layer reads at the place where it wrote and afterwards has the saved weights and bias, element by element. A second Save or Load before the marks are reset does nothing, ResetSave and ResetLoad reach every layer, and an error of a predecessor is reported.',
 ['inputs', 'histories'], 'every layer kind, shape, parameter value and number of save/load rounds',
 'no test saves or loads a network',
 ['layer/', 'tensor/tensor_mat.go'],
 [('Save/Load/ResetSave/ResetLoad', 'layer/base.go'), ('Save/Load/ResetSave/ResetLoad', 'layer/concat.go')],
 VG + ' over a typed stream model', 'other', L3NOTE + ' Streams are sequences of typed items; foreign data is out of scope.')

MODELNOTE = 'Layers are any implementation of the Layer contract (their own behaviour: C13-C17); chains of up to four layers and three models are enumerated, everything else is symbolic.'

prop('C18', 'A prediction is one forward pass over exactly the given input',
 'Predict loads the given input into the first layer, runs the whole forward pass once and returns a copy of the last output taken after the pass, however often it is called and whether or not the model was compiled before; it runs no part of training. The model is compiled exactly once and counts as one consumer of its last layer. Inputs that do not fit and failures of a layer while compiling are returned as errors and then nothing is executed. In a chain of models all forward passes run from first to last. ResetIS runs the reset of every layer and nothing else. Graphs execute what was scheduled, once each and in order.',
 ['inputs', 'histories'], 'every layer, input, failing part and sequence of calls',
 'tests call Predict on one fixed network; they do not see double compilation, stale results or swallowed errors',
 ['model/', 'graph/', 'context/'],
 [('Model.Compile', 'model/model.go'), ('Model.Predict', 'model/model.go'), ('FromModels', 'model/model.go'), ('Graph.Exec', 'graph/graph.go')],
 VG + '; symbolic event traces', 'other', MODELNOTE)

prop('C19', 'A training step runs every phase once, in order, with the given settings',
 'TrainOne and ExecFit clear the old errors, load the given input and target, run the forward pass, set the error of the last layer to target minus output, run the backward pass with the given rate and momentum and then fit, each exactly once and in an order in which no phase uses stale data; the loss is the sum of the absolute errors of that step and is what TrainOne returns. Data that does not fit is rejected with an error and changes no parameter; every failure is reported. Train makes epochs times batch such steps (batch 0: one per input), each on an input and the target that belongs to it, stops at the first failure and rejects empty or unequal lists. In a chain of models the errors of all models are cleared and the backward passes run, and are compiled, from the last model to the first.',
 ['inputs', 'histories'], 'every layer, data, rate, momentum, epoch and batch count, failing part and history of steps',
 'tests only look whether the loss of a toy problem falls; a swapped phase or stale rate still learns',
 ['model/', 'graph/', 'context/'],
 [('Model.TrainOne', 'model/model.go'), ('Model.ExecFit', 'model/model.go'), ('Model.Train', 'model/model.go'), ('Model.CompileBackPropagation', 'model/model.go')],
 VG + '; symbolic event traces', 'other', MODELNOTE)

prop('C22', 'Models are wired as they were assembled and behave as one layer',
 'Push connects each layer to the one pushed before and nothing else; FromInOut leaves the wiring alone; FromModels connects the first layer of each model to the last layer of the one before, compiles every model that is not compiled exactly once and reports failures. SetTrainable switches every layer from the last one back along the chain of predecessors to the first one of the model, and no layer outside. Used as a layer, a model passes every operation to its last layer (inputs, predecessor and Connect: to its first layer) with the same arguments and returns its results and errors.',
 ['inputs', 'histories'], 'every layer and chain of layers',
 'tests only assign a model to a layer variable',
 ['model/'],
 [('Model.Push', 'model/model.go'), ('FromModels', 'model/model.go'), ('Model.SetTrainable', 'model/model_layer.go')],
 VG + '; symbolic event traces', 'other', MODELNOTE)

prop('C20', 'Saving a tensor and loading it again restores it completely',
 'Loading what a tensor saved restores every element (and, for the full form, the shape and multipliers, whatever the loading tensor looked like before), consumes exactly what was written and leaves the saved tensor unchanged, for every element type of fixed size. An item that cannot be written or read is reported as an error.',
 ['inputs', 'histories'], 'every shape, value and state of the receiving tensor',
 'tests save and load one tensor into a fresh one of the same shape',
 ['tensor/tensor_mat.go'],
 [('TensorMat.Save/Load/SaveFull/LoadFull', 'tensor/tensor_mat.go')],
 VG + ' over a typed stream model', 'proof', 'Streams are sequences of typed items that may break at any item; foreign data is out of scope. ' + REAL)

prop('C21', 'Loading, copying, filling and binding move exactly the right values',
 'Loading values or another tensor into a tensor writes every element in position order and nothing else; data of another size or shape is rejected with an error and changes nothing. A copy has the values and the shape but cells of its own, filling sets every element, binding makes both tensors share the source cells, and building or executing a stored tensor never changes what it holds.',
 ['inputs', 'histories'], 'every shape, value list and later write to either tensor',
 'tests load one tensor and compare a few values; they never write afterwards',
 ['tensor/tensor_mat.go', 'tensor/copy.go', 'tensor/fill.go'],
 [('TensorMat.LoadData/LoadFromTensor/Copy/Fill/Bind', 'tensor/tensor_mat.go'), ('CopyTo', 'tensor/copy.go'), ('FillWith', 'tensor/fill.go')],
 VG, 'proof', REAL)

prop('C23', 'Independent tensors, graphs and models share no hidden state',
 'After the packages are initialised no function of the library writes a package-level variable or memory reachable from one. So what one tensor, graph, layer or model does can never change the result of another one that it is not connected to, neither earlier use nor use at the same time in other goroutines; the only inputs of a computation are its arguments and the objects they refer to.',
 ['schedules', 'histories'], 'every call of every function, every interleaving of calls on unconnected objects',
 'no test runs two computations at the same time, and a cache or scratch buffer shared between calls gives right results as long as they do not',
 ['tensor/', 'tools/', 'operation/', 'layer/', 'model/', 'graph/', 'context/', 'activation/', 'number/', 'scalar/', 'img/', 'errors/', 'prints/'],
 [('every function', '*.go')],
 'effect analysis over SSA: which stores, map updates and copying built-ins reach memory rooted in a package-level variable, with summaries through calls', 'other',
 'Calls into the standard library are taken to leave variables of this library alone unless they are handed such memory.')

prop('C24', 'Boxed scalars compute in their own format and leave their operands alone',
 'Arithmetic on the boxed scalars F16, F32 and F64 takes both operands in the computing format of the receiver, applies exactly the named operation and stores the result in the format of the receiver: the plain methods in a new scalar of the same kind that shares nothing with its operands, the Self methods in the receiver. The argument is never changed, comparisons order by value, setters and getters store and give the converted number, and a copy is a scalar of its own.',
 ['inputs', 'histories'], 'every value, every pair of kinds (an arbitrary other implementation as the argument included), every later write',
 'no test uses the scalar package',
 ['scalar/'],
 [('F16/F32/F64 methods', 'scalar/f16.go'), ('F32 methods', 'scalar/f32.go'), ('F64 methods', 'scalar/f64.go')],
 VG, 'proof', 'The bit-level conversions between half precision and float32 are opaque symbols here; that they round properly is C27. ' + REAL)

prop('C25', 'Images keep every pixel in its place when loaded, scaled and exported',
 'Loading an image gives a tensor of four channels, width and height in which every element is the channel of the pixel at that place (counted from the corner of the image), as a share of the largest colour. Simple scaling takes for every new pixel the source pixel at the proportional place; smooth scaling mixes the four source pixels around that place with weights that fall linearly with distance, where the last row and column stand for what lies behind them. Scaling a tensor keeps its channels. Exporting puts the channels of each element into the pixel at its place, and saving writes exactly that picture. Tensors without three dimensions (or, to export, without four channels) and failures of opening, decoding or writing are errors, nothing else is, and the source is unchanged.',
 ['inputs'], 'every image, image size, target size, channel count and pixel value',
 'no test touches the img package',
 ['img/'],
 [('LoadImage/LoadSimpleScaled/LoadSmoothScaled', 'img/image.go'), ('SimpleScale', 'img/simple_scale.go'), ('SmoothScale', 'img/smooth_scale.go'), ('ToImg', 'img/save.go')],
 VG, 'proof', 'Positions are exact ratios; the colour model of the image package is an opaque function of the place. ' + REAL)

prop('C26', 'The description of a network lists every layer once, predecessors first',
 'Describing a network writes every layer reachable from the last one exactly once, each after its predecessors, however the layers branch and meet again; describing it again before the marks are reset writes nothing, ResetPrinted reaches every layer, and every call of String on a model describes all its layers anew. Describing a layer never crashes, whether it is built or not, and changes nothing else.',
 ['inputs', 'histories'], 'every layer kind, every network (by induction over the predecessors) and number of descriptions',
 'no test describes a network',
 ['layer/base.go', 'layer/concat.go', 'model/model.go', 'model/model_layer.go'],
 [('Base.PushToString/ResetPrinted', 'layer/base.go'), ('Concat.PushToString/ResetPrinted', 'layer/concat.go'), ('Model.String', 'model/model.go')],
 VG + '; writes to the text are counted in order', 'other', 'What the words of a description are is not decided, only who writes when. ' + L3NOTE)

prop('C27', 'Half precision numbers convert exactly, or to the nearest with ties to even',
 'Reading a half precision scalar as float32 gives exactly the number its bits denote: signed zeros, subnormal and normal numbers and infinities, and NaN of the same sign for NaN. Making or setting one from a float32 stores the nearest half precision number with ties to even, a signed zero below the smallest and an infinity beyond the largest, and NaN of the same sign for NaN; storing what was read changes nothing. The predicates (NaN, quiet NaN, infinity of a sign, finite, normal, sign bit) and the special constants agree with the representation.',
 ['inputs'], 'every one of the 65,536 stored patterns and 4,294,967,296 float32 patterns, every sign argument',
 'no test uses the scalar package; subnormal numbers, ties and the borders of the range are the last thing samples meet',
 ['scalar/f16.go'],
 [('F16fromF32/S32', 'scalar/f16.go'), ('F16.G32', 'scalar/f16.go'), ('F16 predicates', 'scalar/f16.go')],
 'bit-precise dataflow over the SSA form (each bit of each value a decision diagram over the argument bits)', 'proof', 'math.Float32bits and Float32frombits give and take the representation; the payload of a NaN is not decided; the rounding from float64 to float32 is that of the language.')

na('C30', 'Computed network outputs stay within a bound of the exact result',
 'A computed network output stays within a stated error bound of the exact result, whatever the rounding of the intermediate values.',
 ['inputs'], 'every network and every input',
 'tests compare a few outputs with a tolerance',
 ['tensor/', 'layer/'], [('graph execution', 'graph/graph.go')],
 'The guarantee is about accumulated rounding errors of sums of run-time length and run-time magnitudes; no source-level dataflow in reach bounds them (the representable part, half precision conversion, is C27).')
