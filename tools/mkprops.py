import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","FIFO bucket holds exactly the most recent ids, in ring order",
"After any sequence of insertions and resets, a FIFO bucket holds exactly the last 128 ids inserted since the last reset (or all of them if fewer), where the n-th insertion occupies slot (n-1) mod 128 and the insertion reports that slot. Reading one slot, reading a slot that was never filled (0), reading past the capacity (-1) and listing the bucket all agree with that content, and no read changes it.",
["histories"],"all histories of insert / reset / read operations, of any length, including many wrap-arounds",
"TestFifoBucketAdd does one fixed history of 130 insertions on a fresh bucket; it never resets, never wraps more than two slots, and never repeats reads.",
["bucket/fifo/fifo.go"],[("ring index on overflow","FifoBucket.Add"),("truncate on reset","FifoBucket.Reset"),("bounds answers","FifoBucket.Retrieve")],
["fifo.New/Add/Reset/Retrieve/GetAll"],[("slots","ids in the ring","FifoBucket.slice"),("count","insertions since reset","FifoBucket.count")])

p("C02","Fixed-array bucket keeps the most recent ids, terminator and total count",
"After any sequence of insertions and resets, the fixed-array bucket holds the last 128 ids inserted since the last reset, the n-th insertion landing in (and reporting) slot (n-1) mod 128, and its size is the number of insertions since the reset. Listing a never-filled or freshly reset bucket gives nothing; otherwise it gives the 128 slots in order, where, while fewer than 128 ids are stored, the slot after the last id holds the -1 terminator. A reset leaves nothing of the earlier content observable.",
["histories"],"all histories of insert / reset / list / read-slot / size operations",
"TestBucketAdd runs one fixed history of 130 insertions on a fresh bucket and never resets it.",
["bucket/bucket.go"],[("ring index","Bucket.Add"),("terminator","Bucket.GetAll"),("wipe","Bucket.Reset")],
["bucket.New/Add/Reset/GetSize/Retrieve/GetAll"],[("arr","slots","Bucket.arr"),("counts","insertions since reset","Bucket.counts")])

p("C03","LSH tables record every insertion in its own bucket and nowhere else",
"At every moment each bucket of each hash table holds exactly the last (at most 128) ids inserted at that table and index since the last clear: a bulk insertion puts the id once in every table at that table's own index, a single insertion touches one bucket of one table, and both report the slots used. Retrieval returns exactly the addressed bucket of each table, in slot order, and clearing empties every bucket of every table. A clone of the tables holds what they held and is on its own from then on.",
["histories","configurations"],"all interleavings of bulk/single insertions, clears and reads, over all table counts, code lengths and bucket-range sizes",
"lsh_test.go inserts at most two ids in one fixed 4-table layout and clears a single bucket; cross-table interference, overflow and complete clearing are never exercised.",
["lsh/lsh.go","bucket/fifo/fifo.go"],[("one bucket array per table","lsh.New"),("per-table addressing","LSH.Add / AddSingle / RetrieveRaw / Retrieve"),("clear all","LSH.Clear")],
["lsh.New, Add, AddSingle, RetrieveRaw, Retrieve, Clear, Clone"],[("buckets","table x index -> bucket","LSH.buckets")])

p("C04","Hash codes address buckets injectively, in range and table by table",
"For winner-take-all style codes (each 0..7) and for sign codes (0/1), two different code tuples of a table never share a bucket index and the index always lies below 8^K (respectively 2^K); for min-hash codes (any integers) the index always lies inside the configured bucket range, and every one of the K codes counts: tuples that differ in one or two places are rarely addressed alike. The index computed for a table depends only on that table's own K codes, it is the same every time (before and after the tables are cleared), and there is exactly one index per table.",
["inputs","configurations"],"all code vectors, all K and L, all four hash families, all bucket ranges large enough for the code length",
"TestLSHHashesToIndex only checks that four indices come back for one vector; neither range nor distinctness nor locality is asserted.",
["lsh/lsh.go"],[("positional packing of codes","LSH.HashesToIndex"),("bits per winner code","logBinSize"),("mask for min-hash","LSH.HashesToIndex")],
["lsh.HashesToIndex"])

p("C05","A vector's hash does not depend on how the vector is written down",
"For every hash family, hashing the same vector gives the same codes every time on the same hasher, whatever order its sparse entries are listed in. A vector whose every coordinate is listed sparsely gets the same codes as its dense form, and for winner-take-all and random-projection hashing coordinates left out of the sparse form count as zeros, so neurons (hashed densely) and queries (hashed sparsely) live in the same code space. Hashing alters neither the vector it is given nor the codes it answered before.",
["inputs","configurations"],"all vectors with distinct coordinate values, all entry orders, all dimensions and hash counts, all four families, all hidden random choices of a hasher",
"The hash tests check only the number of codes returned (their own comment: 'Just ensure no error is raised'); sparse entries in them are always complete, sorted and positional.",
["wta_hash/wta_hash.go","densified_wta_hash/densified_wta_hash.go","densified_minhash/densified_minhash.go","sparse_random_projection/sparse_random_projection.go"],
[("sparse hashing keyed by feature index","GetHash / GetHashEasy / GetHashSparse"),("dense hashing","GetHashDense / GetHashEasy / GetHashEasyDense / GetHash")],
["the exported hashing methods of the four hash packages"])

p("C06","Winner-take-all codes name the winner of a fixed random window",
"Each winner-take-all code (plain or densified) is in 0..7 and is the position, within one fixed window of 8 slots, of the largest coordinate assigned to that window; the windows cut random permutations of all the coordinates (drawn afresh for every round of windows and every hasher) into consecutive groups of 8, so no coordinate is in a window twice unless the window spans two permutations and every coordinate of a complete permutation is used exactly once. Hence the codes depend only on the order of the coordinate values, and in the densified form a window with no listed coordinate borrows the code of the first non-empty window in its probing sequence (every probe being a valid window), or 0 if 100 probes find none.",
["inputs","configurations"],"all vectors (dense, sparse, any support down to one entry), all dimensions and hash counts, all hidden permutations",
"TestWtaHashGetHash compares three fixed vectors; the densified tests check only lengths, and none has an empty window.",
["wta_hash/wta_hash.go","densified_wta_hash/densified_wta_hash.go"],[("windows from shuffles","New"),("argmax scan","GetHash / GetHashDense / GetHashEasy"),("densification","GetHash loop and GetRandDoubleHash")],
["wta_hash.New/GetHash/GetHashDense, densified_wta_hash.New/GetHash/GetHashEasy/GetRandDoubleHash"])

p("C07","Densified min-hash summarises the top-k coordinates by bin",
"The code of a bin is the largest coordinate index, among the top-k coordinates by value (all of them when the vector has fewer than k; every listed one for the plain form), that is mapped to that bin; an empty bin borrows the code of the first non-empty bin in its probing sequence, every probe being a valid bin. The bin map of a hasher is the same every time it is asked for and always maps every coordinate to a valid bin, whatever the dimension and hash width.",
["inputs","configurations"],"all vectors with distinct values, all k, all bin maps, all widths and hash counts",
"densified_minhash tests use one fixed vector and only check the length; GetMap is checked for 5 coordinates at one width.",
["densified_minhash/densified_minhash.go","densified_minhash/index_value_pairs.go"],[("top-k heap","GetHashEasy/GetHashEasyDense + indexValuePriorityQueue"),("max per bin","GetHash*"),("densification","GetRandDoubleHash"),("bin map","GetMap")],
["densified_minhash.New/GetHash/GetHashEasy/GetHashEasyDense/GetMap/GetRandDoubleHash"])

p("C08","Random-projection codes are signs of fixed sparse +/-1 projections",
"Each random-projection code is 0 when a fixed signed sum of a fixed subset of the coordinates is non-negative and 1 otherwise; the subset has ceil(dimension/ratio) distinct coordinates and is the same for every vector. Subset and signs are drawn at random for every code, independently of the other codes and of earlier hashers. Sparse and dense hashing use the same projection, and entries outside the subset never influence the code.",
["inputs","configurations"],"all vectors dense or sparse, all dimensions, ratios and hash counts, all hidden projections",
"TestSparseRandomProjectionGetHash* check only lengths for one vector each.",
["sparse_random_projection/sparse_random_projection.go"],[("random subset and signs","New"),("projection","GetHash"),("merge of sorted sparse entries","GetHashSparse")],
["sparse_random_projection.New/GetHash/GetHashSparse"])

p("C09","LSH-guided selection activates labels, retrieved neurons and a floor of fill-ins",
"In the threshold mode a sparse layer activates exactly the true-label neurons (output layer only) plus the neurons found in more than two of the queried buckets; in the sampling mode it activates every label and every retrieved neuron and, only when these are fewer than 1000, adds other neurons until exactly 1000 (or the whole layer if smaller) are active. The fill-ins are drawn at random, so that over enough queries every neuron of the layer comes up. The active list never repeats a neuron, even when labels repeat, never leaves the layer, and the reported retrieval size is the number of label and retrieved neurons (in the threshold mode: of activated ones).",
["inputs","histories","configurations"],"all table contents, queries, label lists, layer sizes and numbers of tables, all random fill choices",
"The layer package has no tests at all.",
["layer/layer.go","lsh/lsh.go"],[("candidate counting and threshold","LayerMode1 branch of QueryActiveNodeAndComputeActivations"),("candidate union and fill","LayerMode4 branch")],
["layer.QueryActiveNodeAndComputeActivations"])

p("C10","Dense, random and exact-top selection pick the right number of neurons",
"With sparsity 1 every neuron of the layer is active exactly once, in order. In the random and exact-top modes a sparse output layer activates exactly floor(size x sparsity) distinct neurons of the layer, always including the true labels as far as they fit; in the random mode the remaining places are drawn at random and without a pattern, every neuron of the layer having its chance; in the exact-top mode all remaining places go to the neurons with the highest scores for that input.",
["inputs","configurations"],"all layer sizes, sparsities, label lists (repeated or more than fit included), inputs and random choices",
"The layer package has no tests at all.",
["layer/layer.go"],[("dense branch","QueryActiveNodeAndComputeActivations"),("LayerMode2 random fill","QueryActiveNodeAndComputeActivations"),("LayerMode3 sort by score","QueryActiveNodeAndComputeActivations")],
["layer.QueryActiveNodeAndComputeActivations"])

p("C11","Forward pass computes ReLU and softmax over exactly the active neurons",
"For every active neuron the activation is the weighted sum of the active inputs plus the bias, cut at zero in a rectified layer; in the output layer it is the exponential of that sum minus the largest one, and the layer's normalisation constant for that example is the sum of those exponentials, so the scores divided by it form a probability distribution even when all sums are very negative. An input listed twice counts twice, and no input at all leaves the bias. A neuron never activated for a batch slot, or back-propagated there since, reports activation 0 for it, and examples of a batch never influence each other's activations.",
["inputs","configurations"],"all weights, biases, inputs, active sets, batch slots and orders of examples",
"Neither node, layer nor network has tests.",
["node/node.go","layer/layer.go"],[("weighted sum and ReLU","Node.GetActivation"),("softmax over active set","QueryActiveNodeAndComputeActivations"),("per-example slot","NodeTrain")],
["layer.QueryActiveNodeAndComputeActivations, GetNomalizationConstant, Node.GetLastActivation"])

p("C12","A training step applies exactly the summed batch gradient, once",
"Training on a batch changes every weight and bias as the textbook step prescribes: the softmax cross-entropy gradient of each example (targets shared equally among its labels, divided by the configured batch size) is propagated through the parameters as they were when the batch started, summed over the batch's examples (those that list no feature, or one twice, included), and applied once at the end, by Adam with bias correction for the given iteration number or by plain gradient descent. Afterwards the gradient accumulators are empty and the running moments carry over to the next batch.",
["inputs","histories","configurations"],"all architectures, parameters, batches, label sets, learning rates, both optimizers, and sequences of batches",
"No test runs a training step.",
["network/network.go","node/node.go","layer/layer.go"],[("output error","Node.ComputeExtaStatsForSoftMax"),("back-propagation","Node.BackPropagate / BackPropagateFirstLayer / IncrementDelta"),("optimizer","Network.ProcessInput update loop"),("deferred weights","mirrorWeights / CopyWeightsAndBiasFromMirror")],
["network.ProcessInput; Node.Weights/Bias/GetT/GetAdamAvgMom/..."],[("t, tBias","gradient accumulators","node.baseNode"),("adamAvgMom/Vel","running moments","node.baseNode")])

p("C13","Sparse training touches only selected neurons and their active inputs",
"When training starts from zero moments (or without Adam), a batch changes a weight only if, for some example of the batch, its neuron was selected and the weight's input was a listed feature or a selected neuron with positive activation, and changes a bias only if its neuron was selected for some example. Everything else, including the whole of every unselected neuron, stays bit-for-bit as it was.",
["inputs","histories","configurations"],"all sparse layers, table contents, batches and both optimizers",
"No test runs a training step.",
["network/network.go","node/node.go","layer/layer.go"],[("loops over active lists only","Network.ProcessInput back-propagation"),("zero gradient gives zero step","Network.ProcessInput update loop")],
["network.ProcessInput; Node.Weights/Bias"])

p("C14","A neuron takes gradient only for examples it is active on, and resets after",
"For every neuron and batch slot, gradient operations are refused (the program panics and nothing changes) unless the neuron was activated on that slot since its last back-propagation there; back-propagation adds the slot's error times each input exactly once to the accumulators and then leaves the slot inactive with zero error and activation. Slots are independent of one another, and a neuron with zero activation takes no error from the layer above.",
["histories"],"all histories of activate / set-activation / output-error / add-error / back-propagate operations over all slots and both neuron types",
"The node package has no tests.",
["node/node.go"],[("active flag guard","Node.IncrementDelta/ComputeExtaStatsForSoftMax/BackPropagate/BackPropagateFirstLayer"),("slot reset","Node.BackPropagate*")],
["the exported methods of node.Node"],[("active flag, error, activation per slot","per-example scratch state","node.NodeTrain")])

p("C15","Copy-on-write: changing a neuron under a new owner leaves the original intact",
"Any operation applied to a neuron under an owner id different from its own leaves every value observable through the original handle exactly as it was, and returns a handle that shows the original's values except for the effect of that operation. This holds through any chain or tree of derived owners, as long as no two holders share an id, for every kind of value a neuron carries (weights, bias, gradient accumulators, moments, per-example state).",
["histories"],"all operation sequences over a tree of handles in which each derived handle gets a fresh owner id",
"The node package has no tests; copy-on-write is never exercised (the program itself uses a single owner id).",
["node/node.go"],[("clone on foreign owner","Node.cloneIfNeeded / baseNode.cloneIfNeeded / NodeTrain.cloneIfNeeded"),("deep copies","copyFloat64Slice")],
["the exported methods of node.Node"],[("cowId","owner tag","Node, baseNode, NodeTrain")])

p("C16","Copy-on-write: training a network under a new owner forks it",
"Training, predicting with, or updating a network or layer under a new owner id, one no other holder uses, leaves the original network's parameters, optimizer state, hash tables, hash functions and the activations its layers hold exactly as they were. The returned network is the one that the same operation performed in place on an identical network would have given.",
["histories","configurations"],"all trees of forks and sequences of training / prediction steps, each fork under a fresh owner id",
"The network and layer packages have no tests and the program uses one owner id.",
["network/network.go","layer/layer.go","node/node.go","lsh/lsh.go"],[("clone on foreign owner","Network.cloneIfNeeded / Layer.cloneIfNeeded"),("owned copies put back in their layer","Network.ProcessInput")],
["network.ProcessInput/PredictClass, layer.QueryActiveNodeAndComputeActivations/UpdateTable"])

p("C17","Prediction counts argmax hits and changes nothing that is learned",
"Prediction returns exactly the number of examples whose best-scoring active output neuron (none if no neuron is active) is one of their labels. It never changes weights, biases, optimizer state or hash tables, so predicting again gives the same answer and training after it gives exactly the result it would have given without it.",
["inputs","histories"],"all networks, example lists, and interleavings of training and prediction",
"The network package has no tests.",
["network/network.go","layer/layer.go","node/node.go"],[("argmax and label test","Network.PredictClass"),("inference leaves accumulators alone","Node.GetActivation")],
["network.PredictClass, network.ProcessInput"])

p("C18","Hash tables always index every neuron under the hash functions in use",
"Right after a network is built and after every training step that rehashes or rebuilds, every table of every sparse layer contains exactly the layer's neurons, each once (up to bucket overflow, newest kept), in the bucket given by the layer's current hash functions applied to the neuron's current weights. A step that neither rehashes nor rebuilds changes neither tables nor hash functions; a rebuild draws new hash functions and a mere rehash keeps them; fully dense layers are left alone.",
["histories","configurations"],"all sequences of training steps with any combination of rehash and rebuild, all hash families, sizes and sparsities",
"No test builds or trains a network.",
["network/network.go","layer/layer.go","lsh/lsh.go"],[("initial insertion","layer.New / addToHashTable"),("clear, new functions, re-insert","Network.ProcessInput tail"),("new hash functions","Layer.UpdateTable")],
["layer.GetHashForInputProcessing/HashesToIndex; table contents"],[("hash tables","neurons by bucket","Layer.hashTables"),("hashers","current hash functions","Layer.wtaHasher/dwtaHasher/minHasher/srp")])

p("C19","The dataset reader yields each line faithfully or stops with the right error",
"For any input, each successful read yields exactly the labels and feature pairs of the next line, in order, all within the bounds declared by the header; the first bad thing in the file (header, label, feature, missing features, I/O failure) stops reading for good with the error naming its kind, and nothing of that line or later ones is delivered. Numbers that do not fit their type (a label or index beyond the integer range, a value beyond the range of float64) are malformed; every other value arrives exactly, signed zero, infinities and NaN included. The line number always counts the lines consumed, so it names the offending line.",
["inputs","histories","fault_sequences"],"all byte streams (any mix of well-formed and malformed tokens, lines and headers), read failures at any point, and continued calls after an error",
"The dataset packages have no tests.",
["dataset/xcrepo/xcrepo.go"],[("header check","scanHeader"),("token checks","parseLabels/parseFeatures"),("latched error","Scanner.err / Err")],
["xcrepo.NewScanner, Scan, Example, Err, LineNumber, TotalPoints, NumFeatures, NumLabels"],[("err, lineNumber","latched failure and position","xcrepo.Scanner")])

p("C20","A configuration file overrides exactly the settings it mentions",
"Loading a configuration gives every setting named in the file the file's value and every other setting its built-in default, whatever was loaded or modified before; loaded configurations never share state with each other or with the defaults. A missing, malformed or ill-typed file yields an error and no configuration, and leaves the one in force untouched.",
["inputs","histories"],"all subsets of settings, all values, all sequences of loads and modifications, malformed files",
"The configuration package has no tests.",
["configuration/configuration.go"],[("fresh defaults then overlay","FromJsonFile"),("fresh default value","Default")],
["configuration.FromJsonFile, Default, Global"])

p("C21","The training program follows the configured schedule exactly",
"Each epoch trains, from the start of the training file, the configured number of whole batches of consecutive records with globally increasing iteration numbers; a test evaluation from the start of the test file happens before every Stepsize-th iteration (20 batches, never before the first batch of an epoch), after each epoch (50 batches) and after the last one (the whole configured test set), and its report names the number of iterations trained so far. In the LSH modes a rehash (rebuild) accompanies exactly every Rehash/BatchSize-th (Rebuild/BatchSize-th) iteration, every iteration when that is below one, and never in other modes; a bad record stops the program, before its batch is used, with a non-zero exit naming its line.",
["configurations","histories","inputs"],"all configurations (batch size, epochs, step size, rehash/rebuild periods, modes, record counts) and datasets",
"The main package has no tests and the repository has no dataset.",
["goslide.go","dataset/xcrepo/xcrepo.go","network/network.go"],[("epoch and batch loop","main / trainSvmEpoch"),("evaluation loop","evaluateSvm"),("period arithmetic","trainSvmEpoch")],
["the goslide program run on small datasets; its ProcessInput/PredictClass calls"],None,"one guarded call at the start of ProcessInput and the end of PredictClass")

p("C22","Reported accuracy is the fraction of evaluated test examples that were right",
"The program reports a running accuracy after every batch it evaluates, and an overall one and a closing line at the end of every evaluation it completes. Every accuracy it reports is the number of correctly predicted examples divided by the number of test examples actually evaluated so far in that evaluation, also when the test file is shorter than the evaluation asks for or the last batch is incomplete.",
["inputs","configurations"],"all test-set sizes, batch sizes and evaluation lengths",
"The main package has no tests.",
["goslide.go"],[("accuracy bookkeeping","evaluateSvm")],
["the goslide program's log output"],None,"as for C21: the number of correct predictions per batch")
p("C23","A network starts with the configured shape, blank, and shares nothing",
"A freshly built network has exactly the configured layers: each with its number of neurons, one weight per neuron below (inputs for the first), its kind, L hash tables with 2^RangePow buckets addressed by codes of K x L, and batch-size example slots. Gradients, moments and slots start empty; the parameters are exactly the given ones, row by row, or independent normal draws with mean 0 and deviation 0.01. No two neurons, slots or networks share storage: writing one value changes no other. The program builds the network its configuration file describes (ReLU layers and a softmax output), with the default for every setting left out.",
["configurations","inputs"],"all layer counts, sizes, batch sizes, hash settings, with and without Adam and given parameters, and every single cell written",
"No test builds a layer, a network or runs the program.",
["layer/layer.go","network/network.go","node/node.go","goslide.go"],[("layer construction","layer.New"),("network construction","network.New"),("neuron initialisation","Node.Update"),("configuration to network","main / makeLayersTypes")],
["network.New, layer.New, the getters of layers and neurons; the arguments the program builds its network from"],None,"one guarded call at the start of network.New")

p("C24","The statistics reported on the way are those of the data",
"After a training batch that rehashes, the average sample size reported for each layer is the number of candidates its table-guided selection retrieved (true labels on the output layer included, fill-ins not), averaged over exactly the examples of that batch; a dense layer reports 0. Every batch evaluated is announced with the true number of its records, features and labels, the incomplete last batch included. The training time told with every evaluation goes up with every batch trained and is at most the time the program has been running.",
["inputs","configurations"],"all table contents, batches, layer counts and modes; all test-set and batch sizes",
"No test trains a network or runs the program.",
["network/network.go","layer/layer.go","goslide.go"],[("retrieval bookkeeping","Network.ProcessInput"),("retrieval size","Layer.QueryActiveNodeAndComputeActivations"),("batch announcement","evaluateSvm")],
["standard output of network.ProcessInput; the goslide program's log output"],None,"as for C21: the examples of each evaluated batch")
p("C25","Owners working at the same time on forks of one network stay undisturbed",
"While the original network is at rest, any number of other owners may train it, predict with it and keep working on what they got, all at the same time. Each owner gets exactly the results it would have got working alone, the original stays exactly as it was, and no two of them ever touch the same memory with one of them writing.",
["schedules","histories"],"all interleavings of training and prediction by several owners, each under its own fresh id, on forks (and forks of forks) of one network, all hash families and modes",
"No test trains a network, let alone from more than one goroutine.",
["network/network.go","layer/layer.go","node/node.go","lsh/lsh.go","lsh_bucket/array_bucket/array_bucket.go","hash/densified_wta_hash/densified_wta_hash.go"],[("clone before the first write","Network/Layer/Node.cloneIfNeeded, lsh buckets"),("shared parts are only read","hashers, parameters, tables of another owner")],
["network.ProcessInput/PredictClass called from several goroutines, built with the race detector"])

p("C26","The program starts only on a sound request; success means all of it was done",
"The program runs only with exactly one argument naming a readable, well-formed configuration. Anything else, like a dataset file that cannot be opened or lacks a good header, or a profile that cannot be written, ends it with a non-zero status and an explanation, and nothing of the part in question is used. Exit status 0 means that the training, evaluations and profiles asked for were all done. Input files are never changed, and the only files written are the profiles asked for, complete and replacing what was there.",
["inputs","configurations","fault_sequences"],"all argument lists, configuration and dataset files (missing, unreadable, malformed, short), profile settings (absent, writable, unwritable, already there)",
"The main package has no tests.",
["goslide.go","configuration/configuration.go","dataset/xcrepo/xcrepo.go"],[("arguments and configuration","main"),("dataset errors are fatal","trainSvmEpoch / evaluateSvm"),("profiles","main")],
["the goslide program: arguments, exit status, standard error, files"],None,"as for C21: the calls the program made")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
