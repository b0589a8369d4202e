import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook)))
OV="none in /repo: the seam is the io.Reader/io.Writer argument; the build overlay adds statement-level yield points"
p("C01","Checkpoint round trip is exact on any stream",
"Saving a network and loading the saved bytes into another network of the same architecture makes every parameter bit-identical and makes both networks predict bit-identically, whatever training happened before and however the writer and reader fragment the stream. Loading consumes exactly the bytes that saving produced, so several checkpoints can follow each other in one stream. Every save, prepared for anew, produces a complete checkpoint, also when the same network has been saved or loaded before and also when it has not been used yet.",
["histories","fault_sequences","configurations"],"all architectures built from the library's layers (chains, convolutional, branching/concatenating, composed models), all save/load/train histories, all legal read fragmentations (1-byte reads, zero-byte reads, data together with end-of-file)",
"No test calls Save or Load at all; fragmentations and repeated-save histories are unbounded.",
["layer/base.go","layer/concat.go","model/model_layer.go","tensor/tensor_mat.go"],
[("recursive Save/Load in layer order, weights then bias","layer/base.go:Load,Save"),("branch order and visited flags","layer/concat.go:Load,Save"),("fixed-size little-endian scalar encoding","tensor/tensor_mat.go:Save,Load")],
[dict(name="saved/loaded",meaning="visited marks of one save/load pass",where="layer/base.go")],["Model.Save","Model.Load","Model.Predict"],OV)
p("C02","A failed save is never reported as success",
"If the destination of a save fails at any byte, for whatever error, the save returns an error; it returns success only if the destination has accepted a complete, loadable checkpoint. A failed save changes no parameter, and after preparing again a save to a healthy destination produces the complete checkpoint.",
["fault_sequences","histories","configurations"],"every byte position and error kind of a write failure (full disk, I/O error, interrupted call, closed pipe, transient failure, partially accepted write), for every architecture and any number of failed attempts before the good one",
"No test exercises a failing writer.",
["layer/base.go","layer/concat.go","model/model_layer.go","tensor/tensor_mat.go"],
[("every write error is returned up the layer chain","layer/base.go:Save"),("ResetSave clears the visited marks on every path","layer/base.go:ResetSave, layer/concat.go")],
None,["Model.Save return value","bytes accepted by the writer"],OV)
p("C03","An incomplete checkpoint is never accepted",
"If the source of a load ends early or fails at any byte, the load returns an error and does not panic; it returns success only if every parameter now holds its checkpointed value, also on a network that has not been used yet. After preparing again, loading an intact checkpoint restores every parameter.",
["fault_sequences","crash_points","histories","configurations"],"every truncation point and read-error position/kind, every architecture, any number of failed attempts before the good one",
"No test loads a checkpoint, let alone a torn one.",
["layer/base.go","layer/concat.go","model/model_layer.go","tensor/tensor_mat.go"],
[("every read error is returned up the layer chain","layer/base.go:Load"),("full reads of fixed-size values","tensor/tensor_mat.go:Load"),("ResetLoad clears the visited marks on every path","layer/base.go:ResetLoad, layer/concat.go")],
None,["Model.Load return value","parameters after Load"],OV)
p("C04","Stand-alone tensor persistence is exact and fails safe",
"For every supported fixed-size number type, a tensor saved with its shape and loaded back has the same shape and bit-identical values, and one saved without its shape loads back bit-identically into a tensor of equal size, however the stream is fragmented; loading consumes exactly what saving wrote. A write fault, a truncated or failing source, or a damaged header is never reported as success with wrong contents out of step with its shape, never panics, and a failed load with shape leaves the receiving tensor as it was.",
["inputs","fault_sequences"],"all shapes (including zero-length dimensions and no dimension), float32/float64/int16/int32/int64, every fault position and kind, damaged header bytes, tensors that held something else before",
"No test calls SaveFull/LoadFull/Save/Load (SaveFull could not even succeed at the pinned commit).",
["tensor/tensor_mat.go","tools/tools.go"],
[("shape then values, fixed-size little endian","tensor/tensor_mat.go:SaveFull,LoadFull,Save,Load")],None,["SaveFull/LoadFull/Save/Load"],OV)
p("C05","Crash and restart from a checkpoint reproduces the training run",
"A training process that periodically checkpoints, is killed at any instant, and is restarted as a fresh process that loads the last durable checkpoint and replays the remaining samples (momentum zero), ends with bit-identical parameters to the run that was never interrupted, as long as the parameters stay finite. A checkpoint torn by the crash is recognised as such when it is loaded.",
["crash_points","fault_sequences","histories","configurations"],"every statement of the library as a crash point, any number of crashes, any loss of unsynced bytes, every architecture and checkpoint interval",
"Tests never restart; hidden state carried from step to step outside the saved parameters only shows after a restart.",
["layer/base.go","layer/concat.go","layer/dense.go","layer/conv2d.go","layer/deconv2d.go","model/model.go"],
[("gradients are cleared at the start of every step","layer/base.go:ResetFit"),("parameters are the only persistent state","layer/base.go:Save,Load"),("step = reset, load sample, forward, backward, commit","model/model.go:ExecFit")],
[dict(name="Dif/Der/Neta scalars",meaning="per-step scratch that must not leak into the next step",where="layer/*.go")],["Model.TrainOne","Model.Save","Model.Load"],
"none in /repo: statement-level yield points (crash points) are woven in by the build overlay; disk is simulated")
p("C06","A training step is all or nothing",
"A training step that does not complete, because a sample is rejected or because a user-supplied activation function panics at any call during the step, leaves every parameter bit-identical to before and (momentum zero, parameters finite) leaves no trace: all later steps and predictions are as if it had never been attempted. A step that completes updates all trainable layers of the network, on every branch.",
["crash_points","fault_sequences","histories","configurations"],"every activation call of every step as interruption point, rejected inputs and rejected targets, any mix of completed and interrupted steps, every architecture",
"Tests only run steps that succeed.",
["model/model.go","layer/base.go","layer/concat.go","layer/dense.go","layer/conv2d.go"],
[("new parameters are staged and committed only after the whole backward pass","layer/base.go:Fit, model/model.go:ExecFit"),("commit reaches every branch","layer/concat.go")],
[dict(name="NWeights/NBias",meaning="staged parameters",where="layer/base.go")],["Model.TrainOne","Model.Save","Model.Predict"],"none in /repo: activation functions are user supplied")
p("C07","Batch training is exactly a sequence of paired single steps",
"Training for E epochs of batch size B (the data-set size when B is zero) performs exactly E*B single training steps, each on one input of the data set with its own target, every sample being eligible at every step, and ends with the same parameters as performing those single steps one by one. If a sample is rejected the training stops with an error and exactly the steps before it have taken effect; mismatched data sets are rejected before anything changes. A single step reports the absolute error of the prediction made just before its update.",
["histories","fault_sequences","inputs"],"all data sets, epoch/batch sizes, random streams, positions of a bad sample, also as the first call on a new network",
"Tests only look at the distance between prediction and target after thousands of steps.",
["model/model.go"],[("sampling loop and shared step routine","model/model.go:Train,TrainOne,ExecFit")],None,["Model.Train","Model.TrainOne","value accesses of the data-set tensors"],
"none in /repo: randomness is routed to the simulator by the build overlay")
p("C08","Training is unaffected by clock, terminal and output failures",
"Given the same random stream, training ends with bit-identical parameters and never fails or panics, whatever the clock does during training (stands still, jumps forwards or backwards), whether or not the output is a terminal, whatever width the terminal has, and even if every write to the output fails.",
["schedules","fault_sequences","configurations"],"all clock behaviours, terminal widths (including none, zero and very small), output faults, epoch/batch sizes, diverging losses",
"Under the test runner the output is never a terminal, so the progress code never runs; the clock is whatever it is.",
["model/model.go","tools/bar.go"],[("progress line computed from clock and terminal width","model/model.go:Train"),("bar of a given width","tools/bar.go:Bar")],None,["Model.Train","parameters afterwards"],
"none in /repo: time, terminal size, stdout and math/rand are redirected by the build overlay")
p("C09","Predictions depend only on parameters and input",
"The prediction for an input is a function of the current parameters and that input alone: it is bit-identical after any history of other predictions, compilations, rejected inputs, saves, and predictions or training steps interrupted by a panicking activation function, and equals that of another network holding the same parameters. Predicting changes no parameter and does not change its input, and a prediction handed out earlier is never altered by later activity.",
["histories","crash_points","configurations"],"all call histories over one network, every interruption point, every architecture",
"Tests predict once after training.",
["model/model.go","layer/base.go","graph/graph.go"],[("every forward scalar is recomputed from input and parameters","layer/*.go:BuildFeedforward"),("result is copied out","model/model.go:Predict")],None,["Model.Predict"],"none in /repo")
p("C10","Frozen parameters never change",
"Parameters of a layer that is marked non-trainable, directly or by freezing the model that contains it, keep their bits through any training of that network or of a network composed with it, completed or interrupted, until the layer is made trainable again or a checkpoint is loaded. Freezing a model covers every layer of it, including the first one and those on branches, and unfreezing makes all of them learn again.",
["histories","crash_points","configurations"],"all interleavings of freezing, unfreezing and training of parts and wholes, interruption of steps, every architecture including adversarial (generator/discriminator) compositions",
"No test freezes anything.",
["model/model_layer.go","layer/base.go","layer/concat.go","model/model.go"],[("commit is skipped for non-trainable layers","layer/base.go:Fit"),("freeze walks the layers of the model","model/model_layer.go:SetTrainable")],[dict(name="Trainable",meaning="layer may commit new parameters",where="layer/base.go")],["layer parameters","Model.Save"],"none in /repo")
p("C11","Independent objects do not interfere under any interleaving",
"Callers that work concurrently on objects of their own (networks being built, trained, predicted with, saved and loaded; tensor graphs; images) each observe exactly the results they would observe alone, for every interleaving of their execution.",
["schedules","histories"],"all interleavings, at statement granularity, of 2-4 callers with random workloads, each with its own random stream",
"Tests are single-threaded; interference needs a preemption inside the library.",
["tensor/*.go","layer/*.go","model/*.go","graph/graph.go","context/context.go","tools/*.go","img/*.go"],[("no mutable package-level state","all packages")],None,["results of every call of every caller"],
"none in /repo: yield points before every statement are woven in by the build overlay")
p("C12","A computational graph always computes its expression",
"Every execution of a built graph makes its result equal to the value of the tensor expression on the current contents of its input tensors, after any history of input updates, earlier executions and executions interrupted at any point by a panicking user function, and while other callers execute other graphs that only share inputs with it. Composing graphs executes their parts in order and leaves the parts as they were. An expression whose operands have incompatible shapes is rejected with an error every time it is built.",
["programs","schedules","crash_points","histories"],"random expression DAGs over all graph operations and number types, random update/execute/interrupt histories, statement-level interleavings of callers sharing inputs",
"Tests execute each operation once on one shape.",
["graph/graph.go","context/context.go","operation/*.go","tensor/*.go"],[("operations are pushed in dependency order and executed in that order","tensor/*.go:BuildGraph, context/context.go, graph/graph.go:Exec"),("operations write only their own result scalar","operation/*.go")],None,["tensor contents after Graph.Exec","NewGraph error"],"none in /repo")
p("C13","A failed image save is never reported as success",
"Saving an image returns success only if the file holds the complete encoded image: a failure to create, write, or close the file at any point is returned as an error, without panicking and without leaking the file. An opaque image with channels between 0 and 1 that is saved as PNG loads back with the same width, height and orientation and every channel within one 8-bit quantisation step (two where the image is translucent).",
["fault_sequences","inputs"],"every failing file operation and byte position, disk-full capacities, delayed errors reported on close, image sizes, opaque pixel values in [0,1]",
"No test touches the image package.",
["img/save.go","img/image.go"],[("encode into a created file, return the encoder's error","img/save.go:PngSave,JpgSave")],None,["PngSave/JpgSave result","file contents","open handles"],"none in /repo: file operations are redirected by the build overlay")
p("C14","A damaged or unreadable image file is never loaded",
"Loading an image, plain or scaled, from a PNG or JPEG file that is missing, ends early, or fails at any read returns an error and no tensor, without panicking; loading succeeds only with the pixels of the complete file, however the reads are fragmented. Every file opened for loading is closed on every path.",
["fault_sequences","inputs"],"every truncation and read-fault position in PNG and JPEG files, every fragmentation of reads",
"No test touches the image package.",
["img/image.go"],[("decode error is returned, file closed by defer","img/image.go:LoadImage,LoadSimpleScaled,LoadSmoothScaled")],None,["Load* result","open handles"],"none in /repo: file operations are redirected by the build overlay")
p("C15","A composed model is the pipeline of its parts under any use",
"The prediction of a model composed from fresh models equals feeding the prediction of each part into the next, at any moment of any history in which callers predict with, train, freeze, save and load the whole or predict with and train the parts, with any of these calls rejected or interrupted. Training the whole updates the trainable layers of all parts, training one part on its own updates the layers of that part only, and a checkpoint of the whole restores all parts.",
["histories","crash_points","configurations"],"random compositions of 2-3 models composed before first use, random interleavings of calls on parts and whole, interruption at every activation call",
"No test composes models.",
["model/model.go","layer/input.go","layer/base.go"],[("parts are connected and their graphs concatenated","model/model.go:FromModels"),("input layer forwards to the part before it","layer/input.go")],None,["Model.Predict on parts and whole","Model.Save"],"none in /repo")
p("C16","Results are reproducible from the random stream",
"What a program observes from the library (initial parameters, training results, predictions, checkpoint bytes, graph and tensor results, loaded images, saved image files) is a function of its calls, its data and its math/rand stream alone: it is bit-identical in every process that makes the same calls with the same data from the same stream, whatever the clock shows, whatever terminal and output do, however many processors there are, and whatever the process has done with other objects of the library before; the same calls also take the same draws from the stream. The initial parameters of a network come from that stream: another stream gives other parameters.",
["schedules","histories","configurations"],"all programs over networks, graphs, tensors and images; all clocks, terminals, outputs, processor counts, and earlier uses of the library in the same process",
"Tests run each program once, in one environment, in a process that did little before.",
["tensor/constructor.go","number/constructors.go","model/model.go","layer/*.go"],[("all random draws go to the math/rand top level","tensor/constructor.go, number/constructors.go, model/model.go:Train"),("no package-level state, no use of the clock but for progress","all packages")],None,["results of every call","position of the random stream"],"none in /repo: time, terminal size, stdout, math/rand, process and processor information are redirected by the build overlay; package-level variables are reset between simulated processes")
p("C17","Calls do not get more expensive with use",
"However often an object is used (networks predicting, training, saving, loading, compiled again; graphs executed and composed; new graphs built over the same tensors; images saved and loaded), and whether the calls complete, are rejected, fail or are interrupted, nothing accumulates: the number of statements a repeated call executes, the values reachable from the object and from package-level variables, the goroutines and the open files do not keep growing with the number of calls.",
["histories","fault_sequences","crash_points"],"all objects and all repeated calls, completed or failing at any point",
"Tests make a handful of calls and do not look at cost.",
["model/model.go","layer/base.go","layer/concat.go","graph/graph.go","tensor/*.go","img/*.go"],[("graphs are built once and executed in place","model/model.go:Compile, graph/graph.go"),("composition copies operations and leaves the parts alone","graph/graph.go:NewFromGraph,AddFromGraph")],None,["statements per call","values reachable from the object","goroutines","open handles"],"none in /repo: the build overlay counts statements and registers package-level variables")
p("C18","A network that cannot work is rejected every time",
"A network with a layer that cannot work where it stands (an image layer on something that is no image, a kernel larger than the image, a slice or a join that does not fit its inputs, a first layer that is no input), alone or as part of a composed or nested model, is reported as an error by every call that needs it compiled (compile, predict, train, save, load, compose), the first time and every time it is tried again, without a panic.",
["histories","configurations"],"all architectures with one such layer at any place, all sequences of calls on the rejected network",
"No test uses a rejected network a second time, and few build one.",
["model/model.go","model/model_layer.go","layer/*.go","tensor/concat.go","tensor/sub_tensor.go"],[("errors of building are returned up the layer chain","layer/*.go:Build,BuildFeedforward"),("a failed compilation is remembered","model/model.go:Compile")],[dict(name="build/ffBuilded",meaning="layer has been visited while building",where="layer/base.go")],["error results of Model calls"],"none in /repo")
# not applicable
def na(id,title,statement,over,text,why,files,mech):
    p(id,title,statement,over,text,why,files,mech)
na("C20","Eager tensor operations agree with the graph operations",
"Every eager matrix operation returns the same shape and values as building and executing the corresponding graph operation on the same operands, or both reject the operands.",["inputs"],"all operand shapes and values","tests sample one shape per operation",["tensor/*.go"],[("hot variants of each operation","tensor/*.go")])
na("C21","A training step is a gradient-descent step with momentum",
"The parameter update of a training step is the learning rate times the negative gradient of half the squared error plus momentum times the previous update.",["inputs","configurations"],"all networks, parameters, samples","tests only check convergence on toy data",["layer/*.go"],[("backward operations","layer/*.go:BuildBackpropagation")])
na("C22","Layers compute their documented forward function and shape",
"Each layer's output shape and values follow its documented formula for every input shape and kernel/stride configuration.",["inputs","configurations"],"all shapes/configurations","tests use one configuration each",["layer/*.go"],[("forward operations","layer/*.go:BuildFeedforward")])
na("C23","Activation derivatives match the activation functions",
"The derivative reported by every activation function is the derivative of that function at every point.",["inputs"],"all real inputs","no test of the activation package",["activation/*.go"],[("Derive","activation/*.go")])
na("C24","Half-precision conversion is correctly rounded",
"Converting to half precision rounds to nearest even and converting back is exact, for every bit pattern.",["inputs"],"all bit patterns","no test of the scalar package",["scalar/f16.go"],[("bit conversions","scalar/f16.go")])
na("C25","Image scaling samples inside the image",
"Scaling an image tensor to any positive size succeeds and every output pixel is an interpolation of source pixels.",["inputs"],"all sizes","no test of the image package",["img/simple_scale.go","img/smooth_scale.go"],[("scaling loops","img/*_scale.go")])
na("C26","Index mapping is a bijection and rejects bad indexes",
"Multi-dimensional index to offset mapping and its inverse are mutually inverse on every shape and out-of-range indexes are rejected with an error.",["inputs"],"all shapes and indexes","tests check three points",["tools/tools.go"],[("GetIndex/ReverseIndex","tools/tools.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["title"]
