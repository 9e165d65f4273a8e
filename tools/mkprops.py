"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
T = 'src/CTL/tensor/'
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                    "observe_at": observe, "hook_needed": None}})

p("C01", "Pairwise contraction equals the sum over exactly the shared bonds",
  "Contracting two tensors (contractTwoTensors, or the @ operator) yields exactly the tensor obtained by summing the product of the two over the bonds joining them, or over the explicitly given bonds, with the remaining legs of both tensors as the legs of the result, each carrying its own label, dimension and index. "
  "If no bond is shared the result is the full outer product. "
  "This holds for every rank, dimension, leg order, link direction, operand order, real or complex data, and any mix of dense and diagonal tensors, and no leg that was linked to a third tensor loses that link.",
  ["inputs"], "all pairs of tensors: ranks 0..5, dimensions 1..4, any subset of legs linked in any order and direction, duplicate labels, dense/diagonal and real/complex mixes, links to third tensors",
  "The tests contract a handful of fixed shapes with all-ones data, which cannot see a transposed, conjugated, mis-paired or truncated index; the space of leg orders and link directions is combinatorial.",
  [T+"contract/contract.py", T+"tensor.py", T+"diagonalTensor.py"],
  [("shareBonds orients every shared bond and contractTwoTensors turns both operands into matrices", T+"contract/contract.py"), ("complementLegs keeps original legs on the result", T+"tensor.py")],
  ["contractTwoTensors(ta, tb, bonds)", "ta @ tb", "result.legs / result.toTensor(labels)"])

p("C02", "A diagonal tensor behaves exactly like the dense tensor it represents",
  "Every operation offered by a DiagonalTensor (element access through toTensor/toMatrix, trace, norm, summing out legs with or without weights, renaming and reordering legs, copying, contraction with dense or diagonal partners, and contraction inside a network by any strategy) gives the same values, labels and shape as the same operation on the dense tensor having those values on its main diagonal and zero elsewhere. "
  "This includes diagonal tensors with a single leg, scalar diagonal tensors without legs, complex data, and outer products.",
  ["inputs", "histories"], "all diagonal tensors of rank 0..4, dimension 1..4, real or complex, every operation sequence up to a bounded length, every partner",
  "The diagonal tests fix shapes and mostly unit data; equivalence must hold for every rank, partner shape and number of shared legs.",
  [T+"diagonalTensor.py", T+"contract/contract.py", "src/CTL/funcs/funcs.py"],
  [("einsum based broadcast of the diagonal", T+"contract/contract.py"), ("diagonalNDTensor expands the diagonal", "src/CTL/funcs/funcs.py")],
  ["DiagonalTensor methods", "contractTwoTensors", "contractAndCostWithSequence"])

p("C03", "Network contraction does not depend on the contraction order or strategy",
  "Contracting a list of linked tensors to one tensor gives the same labelled result, equal to the full sum over all internal bonds, whichever sequence is used: the default optimal search, brute force, greedy, any assumed typical bond dimension or the real dimensions, or any valid user-supplied sequence of pairs, in place or not. "
  "This holds for any connected or disconnected network, multi-bonds, dimension-1 bonds, closed networks (scalar results), diagonal members, a single tensor, and any order of the input list.",
  ["inputs", "programs"], "all tensor networks of 1..7 tensors with arbitrary multigraph topology, dimensions, diagonal flags and list order; all sequences",
  "The tests contract a few hand-drawn networks with ones or random data and compare two strategies; they do not range over topologies, sequences or disconnected parts.",
  [T+"contract/optimalContract.py", T+"contract/tensorGraph.py", T+"contract/contract.py"],
  [("sequence indices refer to the slot of the smaller operand", T+"contract/optimalContract.py"), ("bitmask dynamic programming / capping / greedy search", T+"contract/tensorGraph.py")],
  ["contractTensorList", "contractWithSequence", "contractAndCostWithSequence", "generateOptimalSequence", "generateGreedySequence"])

p("C04", "Reported contraction costs are exact and 'optimal' sequences are optimal",
  "The cost reported for a contraction is the sum over its pairwise steps of the documented step cost (the product of the dimensions of all distinct legs involved; for one diagonal operand the size of the output; for two diagonal operands their bond dimension), and it is the same for a network of data-less TensorLikes. "
  "The sequence returned by the default search and by brute force contains n-1 valid pairs and its total cost is the minimum over all pairwise contraction orders under the same cost measure (real dimensions, or every bond of the typical dimension), and the cost the search itself reports is the cost of its sequence. "
  "The greedy sequence at each step joins a bond-sharing pair whose result is the smallest (or, when no bonds are left, the pair with the smallest product).",
  ["inputs"], "all networks of 2..6 tensors with arbitrary topology, dimensions and diagonal members; typicalDim in {None, 2..50}; minimum over all orders computed by an independent dynamic program",
  "Optimality is a universally quantified statement over all contraction orders; the tests compare two costs on three fixed graphs.",
  [T+"contract/optimalContract.py", T+"contract/tensorGraph.py"],
  [("getCost/getCostTypical and the capping search with growing cost bound", T+"contract/tensorGraph.py"), ("contractCost", T+"contract/optimalContract.py")],
  ["contractAndCostWithSequence", "TensorGraph.optimalContractSequence", "TensorGraph.optimalCostResult", "contractCost"])

p("C05", "Non-in-place contraction and list copying leave the inputs intact",
  "Contracting a network with inplace=False, copying a tensor list, or making a tensor graph from it leaves every input tensor with the same legs, leg order, labels, data and links it had before, so the contraction can be repeated with the same result, interleaved with others in any order. "
  "copyTensorList returns tensors with equal data, labels, names, degree of freedom and kind, linked among themselves exactly as the originals are (and, only if requested, taking over the outgoing bonds), sharing no data or legs with the originals.",
  ["inputs", "histories"], "all networks and sub-lists of networks; all sequences of up to 6 repeated non-in-place contractions and copies",
  "Tests contract once or twice and look at the result, not at the inputs' link structure and data afterwards.",
  [T+"contract/optimalContract.py", T+"tensor.py"],
  [("copyTensorList rebuilds bonds by leg position", T+"contract/optimalContract.py"), ("Tensor.copy copies data and creates fresh legs", T+"tensor.py")],
  ["contractWithSequence(inplace=False)", "copyTensorList", "makeTensorGraph"])

p("C06", "A FiniteTensorNetwork computes what its recorded operations say, every time",
  "After any history of adding/removing tensors, links, pre/post renamings and post outer-products, locking and unlocking, each call of contract with a dictionary of tensors returns the tensor obtained by renaming, linking, contracting all tensors, combining and renaming legs as recorded, independent of earlier contractions, of the dictionary order, of changed bond dimensions and of whether real or typical costs are used. "
  "Contracting never modifies the tensors passed in, the same tensor object may be used in several places, and a contracted (locked) network refuses modification until unlocked. A contraction that cannot be carried out (a tensor missing, an unknown leg, differing dimensions) is refused and leaves the tensors and later contractions unharmed. "
  "Distinct networks never share state.",
  ["histories"], "all operation histories up to length ~25 over up to 5 tensors, several live networks, tensors of changing dimensions, dense or diagonal",
  "The tests build one network and contract it once or twice; the cached sequence and lock make behaviour history dependent.",
  ["src/CTL/tensornetwork/tensornetwork.py", "src/CTL/tensornetwork/tensordict.py"],
  [("optimalSeq cache invalidated by bond dimension changes", "src/CTL/tensornetwork/tensornetwork.py"), ("lock/checkLock", "src/CTL/tensornetwork/tensornetwork.py")],
  ["FiniteTensorNetwork.contract", "addTensor/removeTensor/addLink/addPreNameChange/addPostNameChange/addPostOutProduct/lock/unlock"])

p("C07", "Tensor construction yields the documented consistent tensor or a ValueError",
  "For every combination of shape, labels, data and legs, constructing a Tensor, DiagonalTensor or their data-less (TensorLike) forms either raises ValueError because the arguments contradict each other or are insufficient, or gives a tensor whose shape, labels, legs and data all agree and follow the documented priorities (legs, then shape, then data; data of the right total size is reshaped in order; 1-D data of a diagonal tensor are its diagonal). "
  "The data are a copy: later changes to the argument never show in the tensor and vice versa, the dtype of given data is kept, and every leg belongs to the new tensor.",
  ["inputs"], "all argument combinations over ranks 0..4 with agreeing and contradicting shapes, label counts, leg dimensions and data shapes, integer shapes for diagonal tensors, real/complex/float32 data",
  "The deduction rules form a decision table with hundreds of cells, of which the tests visit about twenty.",
  [T+"tensor.py", T+"diagonalTensor.py", T+"leg.py"],
  [("Tensor.deduction / generateData", T+"tensor.py"), ("DiagonalTensor.deduction / deduceDimension / generateData", T+"diagonalTensor.py")],
  ["Tensor(...)", "DiagonalTensor(...)", "TensorLike(...)", "DiagonalTensorLike"])

p("C08", "Leg operations never change which value belongs to which labelled index",
  "Through any sequence of reordering (reArrange, moveLabelsToFront, moveLegsToFront, toTensor with labels), renaming (single, or several at once, simultaneously), tagging, merging legs by outer product, summing out legs (one or several, with or without weights), matrix/vector views, norms, traces and copies, a tensor stays equal to the labelled array obtained by the same operation on a dictionary-indexed model: labels, dimensions and every element agree. "
  "Reordering and viewing change no values, merging legs enumerates the merged legs in the order given (first slowest), the relative order of untouched legs is kept, and a trace over rows and columns of different total dimensions is refused.",
  ["histories", "inputs"], "all operation histories up to length ~12 on tensors of rank 1..5 with any labels (including duplicated labels where documented), real or complex",
  "A test applies one or two operations to a fixed tensor; index permutation errors cancel or vanish on symmetric data and appear only for particular orders and sequences.",
  [T+"tensor.py", "src/CTL/funcs/funcs.py"],
  [("moveLegsToFront moves data axes and legs together", T+"tensor.py"), ("outProduct = move to front + reshape", T+"tensor.py"), ("generateIndices resolves repeated labels", "src/CTL/funcs/funcs.py")],
  ["Tensor.reArrange/moveLabelsToFront/moveLegsToFront/renameLabels/outProduct/sumOutLegByLabel/toMatrix/toVector/trace/addTensorTag/removeTensorTag/copy"])

p("C09", "Data-less TensorLikes shadow real tensors exactly",
  "For any program of tensor operations (linking, contraction of pairs and networks, merging bonds, Schmidt decomposition, leg reordering, renaming, outer product, summing out, copying), running it on TensorLike counterparts yields the same labels, shapes, link structure, total sizes, contraction sequences and costs as on the real tensors, without ever holding or needing data; where truncation depends on the values, the TensorLike dimension is the largest the real one can have. "
  "Mixing a TensorLike with a tensor holding data is refused, and operations that need values are refused on a TensorLike.",
  ["programs"], "all operation programs up to length ~10 over dense and diagonal tensors and their TensorLike counterparts",
  "The tests check three or four TensorLike shapes; agreement must hold for every program.",
  [T+"tensor.py", T+"diagonalTensor.py", T+"contract/contract.py", T+"contract/optimalContract.py", "src/CTL/examples/Schimdt.py"],
  [("tensorLikeFlag branches next to every numeric operation", T+"tensor.py")],
  ["TensorLike", "toTensorLike", "contractTwoTensors", "merge", "SchimdtDecomposition"])

p("C10", "Merging bonds preserves the contraction; truncated merging is optimal",
  "merge and mergeLink replace all bonds between two tensors by exactly one bond, named as requested (or by joining the old names with '|'), keep every other leg and link, and leave the contraction of the two tensors unchanged when no truncation is requested or the rank fits in chi. "
  "With a bond limit chi the merged bond has at most chi (and at most rank) states and the product of the two results is a best rank-chi approximation of the original product. "
  "Two tensors sharing no bond are returned unchanged, and merging several bonds of a diagonal tensor is refused and leaves both tensors as they were.",
  ["inputs"], "all pairs of tensors joined by 0..4 bonds in any leg order, real or complex, any chi >= 1, any requested name form",
  "Tests merge one or two fixed pairs; pairing errors between the two leg orders only show for asymmetric orders and data.",
  [T+"contract/link.py", T+"contract/contract.py"],
  [("mergeLink builds both outer products in the same bond order", T+"contract/link.py"), ("merge truncates by SVD with square-root separation", T+"contract/contract.py")],
  ["merge", "mergeLink"])

p("C11", "Matrix and tensor decompositions reconstruct, are isometric and report the error",
  "For every real or complex matrix and bond limit, SVDDecomposition gives two factors (or two isometries with the leading singular values in descending order) whose product is a best approximation of that rank, and the reported error is the stated ratio of discarded to total singular-value powers (zero when nothing is discarded). "
  "tensorSVDDecomposition gives tensors with the documented labels whose product u, s, v reproduces the tensor over the requested row and column legs under the same guarantees; solveEnv returns orthonormal leading eigenvectors with the discarded weight as error; isIsometry answers exactly whether the tensor is an isometry over the given labels.",
  ["inputs"], "all matrices up to 8x8 incl. rank-deficient, wide/tall, complex, degenerate; all row/column splits of tensors up to rank 4; chi 1..10; error orders 1..4",
  "Tests run decompositions only inside RG loops and look at final numbers with loose tolerance.",
  ["src/CTL/funcs/decompose.py", T+"tensorFunc.py", "src/CTL/funcs/linalg.py"],
  [("numpy svd/eigh truncated to chi", "src/CTL/funcs/decompose.py"), ("label bookkeeping of the three factors", T+"tensorFunc.py")],
  ["SVDDecomposition", "tensorSVDDecomposition", "solveEnv", "isIsometry"])

p("C12", "Schmidt decomposition preserves the two-site state and yields canonical factors",
  "SchimdtDecomposition of two linked tensors returns tensors linked in a chain (directly, or through a diagonal tensor of descending non-negative Schmidt values) that keep all outer legs with their labels and links, whose contraction equals the original pair if chi permits and otherwise is its best approximation, where without square-root separation both side tensors are isometries toward the middle. "
  "With swapped labels the two named outer legs exchange sides while the contracted state over legs is unchanged; matrixSchimdtDecomposition likewise reconstructs the vector or matrix with a left isometry.",
  ["inputs"], "all pairs of linked tensors (1..3 shared bonds, outer rank 1..3, any leg order), real or complex, any chi, with or without swaps and square-root separation",
  "Tests only exercise it indirectly through small MPS with ample chi.",
  ["src/CTL/examples/Schimdt.py"],
  [("tags a-/b- keep track of sides through the contraction", "src/CTL/examples/Schimdt.py")],
  ["SchimdtDecomposition", "matrixSchimdtDecomposition"])

p("C13", "MPS operations preserve the represented state and keep the MPS form",
  "For a FreeBoundaryMPS with a sufficient bond limit, any history of canonicalize, swap, moveTensor and makeAdjacent leaves the represented state unchanged as a function of its physical legs, with swaps permuting exactly the sites asked for; the list stays a valid chain with internal legs l/r, outer legs o and bonds no larger than chi. "
  "After canonicalize(i) every tensor except the i-th is an isometry toward i and checkCanonical says so; checkCanonical is false for chains that are not canonical. "
  "Under truncation bonds respect chi, canonicalization never increases the norm, and a swap at the canonical centre is the best approximation with chi states.",
  ["histories"], "all histories up to length ~10 on chains of 1..6 sites with any virtual/physical dimensions and chi, real or complex",
  "Tests follow one or two fixed sequences on random chains and mostly check canonical form.",
  ["src/CTL/examples/MPS.py", "src/CTL/examples/Schimdt.py"],
  [("sweeps of SchimdtDecomposition", "src/CTL/examples/MPS.py"), ("swap = Schmidt with swapped outer labels", "src/CTL/examples/MPS.py")],
  ["FreeBoundaryMPS methods", "makeRandomMPS", "copyOfTensors", "toTensor"])

p("C14", "MPS-based contraction is exact when chi is large enough",
  "createMPSFromTensor represents the tensor exactly over the same legs; mergeMPS leaves exactly one bond between two chains and the joint contraction unchanged; contractMPS joins two chains sharing one bond into the chain of their contraction; and contractWithMPS of any linked tensor network equals its exact contraction, whatever the sequence of contractions of tensors sharing bonds. "
  "All of this holds for any topology as long as chi is not smaller than the ranks involved.",
  ["inputs", "histories"], "networks of 2..5 tensors with multi-bonds and open legs; any sequence; tensors of rank 1..5; ample chi",
  "Tests contract one or two fixed networks and compare a scalar.",
  ["src/CTL/examples/MPS.py"],
  [("doubleMerge/mergeMPS/contractMPS", "src/CTL/examples/MPS.py")],
  ["createMPSFromTensor", "mergeMPS", "contractMPS", "contractWithMPS"])

p("C15", "Ising tensor networks reproduce the exact partition function of any graph",
  "For any undirected graph (trees, cycles, multi-edges, isolated sites, several components) with any real couplings, positive, zero or negative, contracting the Ising tensor network built from the graph gives the partition function, i.e. the sum over all spin configurations of the product of edge Boltzmann weights, and exactZFromGraphIsing/getIsingWeight give the same by enumeration. "
  "The lattice generators (periodic, free, double square, complete) build exactly the documented vertices, edges and directional weights, and the square, plaquette and site tensors carry the Boltzmann weights and observables of their four or more spins at the documented labels.",
  ["inputs"], "all multigraphs up to 7 vertices and 11 edges; couplings in [-1.5,1.5]; lattice sizes 1..4 with anisotropic weights; site degrees 0..5",
  "Tests use a few ferromagnetic lattices with uniform weight.",
  ["src/CTL/models/Ising.py", "src/CTL/funcs/graphFuncs.py", "src/CTL/funcs/graph.py"],
  [("edge matrix is the square root of the bond Boltzmann matrix", "src/CTL/models/Ising.py"), ("lattice index functions", "src/CTL/funcs/graphFuncs.py")],
  ["IsingTNFromUndirectedGraph", "exactZFromGraphIsing", "squareLatticePBC/FBC, doubleSquareLatticeFBC, completeGraph", "plaquetteIsingTensor", "squareIsingTensor", "IsingSiteTensor"])

p("C16", "CTMRG gives the exact finite-lattice partition function, in any query order",
  "For a real reflection-symmetric local tensor with one dimension on all four legs, CTMRG.getZ(L) equals the exact contraction of the L by L lattice with freely summed boundary whenever chi is large enough to avoid truncation. "
  "The value for a given L does not depend on which other sizes were asked for before, nor on how often.",
  ["inputs", "histories"], "symmetric positive local tensors of dimension 2..3 and Ising plaquettes with two couplings; L = 1..7; every order of queries",
  "Tests query ascending L for two or three weights.",
  ["src/CTL/examples/CTMRG.py", T+"contract/contractExp.py"],
  [("records of corner/edge tensors with log scales", "src/CTL/examples/CTMRG.py")],
  ["CTMRG.getZ"])

p("C17", "TRG coarse graining is exact on finite tori while nothing is truncated",
  "As long as chi does not truncate, SquareTRG and TriangleTRG report after every step the exact log partition function per degree of freedom of the corresponding finite closed lattice contracted from the initial tensors. "
  "The reported truncation errors are then zero and, with truncation, lie in [0,1].",
  ["inputs"], "local tensors of dimension 2..3 with positive generic entries (symmetric or not), one or two tensor types; 0..3 steps; triangle parameter alpha",
  "Tests compare converged values to two or three reference numbers with loose tolerances.",
  ["src/CTL/examples/TRG.py", T+"contract/contractExp.py", "src/CTL/funcs/decompose.py"],
  [("SVD split and square recombination", "src/CTL/examples/TRG.py")],
  ["SquareTRG.iterate/logZDensity", "TriangleTRG.iterate/logZDensity", "errors"])

p("C18", "HOTRG and impurity iteration are exact on finite tori while nothing is truncated",
  "Without truncation HOTRG reports after every step the exact log partition density of the corresponding finite torus. "
  "The impurity network built on the same HOTRG reports for order k the exact expectation of the k-th power of the site-averaged observable represented by the impurity tensors (inserted uniformly over all position assignments), for every step, order and impurity tensor.",
  ["inputs"], "local tensors of dimension 2 with positive symmetric entries; impurities of orders 0..3; steps 0..2 or more with projectors of full rank",
  "Tests check the Ising magnetisation at a few temperatures with loose tolerance.",
  ["src/CTL/examples/HOTRG.py", "src/CTL/examples/impurity.py", "src/CTL/funcs/funcs.py", "src/CTL/funcs/linalg.py"],
  [("projector from environment eigenvectors", "src/CTL/examples/HOTRG.py"), ("multinomial weights over parts", "src/CTL/examples/impurity.py")],
  ["HOTRG.iterate/logZDensity", "ImpurityTensorNetwork.iterate/measureObservables"])

p("C19", "Graphs and textual networks describe exactly the network they came from",
  "An undirected graph reports each added edge exactly once with its weight and endpoints, at both endpoints, however additions and queries are interleaved; the tensor graph of a list of tensors has one vertex per tensor and one edge per bond or free leg with the leg dimensions, and its exported networkx form has the same vertices and adjacency. "
  "Parsing a network text gives one TensorLike per capital letter, with the listed leg names and dimensions in order, and links equal leg names.",
  ["inputs", "histories"], "all add/query histories on graphs up to 7 vertices; all texts of up to 5 tensors with plain and braced names and sizes; all networks",
  "Tests parse two texts and build one graph.",
  ["src/CTL/funcs/graph.py", T+"contract/tensorGraph.py", T+"contract/optimalContract.py"],
  [("cached edge list invalidated by updates", "src/CTL/funcs/graph.py"), ("decodeSubText state machine", T+"contract/tensorGraph.py")],
  ["UndirectedGraph.getEdges", "makeTensorGraph", "createTensorListFromText", "makeTensorGraphFromText", "tensorNetworkGraph"])

p("C20", "Switching the numeric backend redirects every computation and nothing else",
  "After setXP(lib), every numeric array that tensors, contractions, decompositions and models create or compute comes from lib, the results are equal to those of numpy, tensors created before the switch keep working if lib can handle their arrays, and switching back restores the previous behaviour. "
  "No module keeps a private reference to the old library.",
  ["histories", "configurations"], "all interleavings of backend switches with tensor construction, contraction, decomposition, RG and model programs",
  "One test sets the backend to None and back, the cupy tests need a GPU and skip.",
  ["src/CTL/__init__.py", "src/CTL/funcs/xplib.py"],
  [("late lookup through xplib.xp", "src/CTL/funcs/xplib.py")],
  ["CTL.setXP", "all numeric functions"])

p("C21", "The predefined contraction networks contract the pictures they are named for",
  "Each ready-made network (triangle, square, square with outer legs, CTMRG edge/corner extension, building and closing networks, HOTRG projection and contraction networks, Evenbly TNR environment) and trace helper returns, for arbitrary tensors with the documented leg names, the contraction of the documented geometry with the documented outer labels, combined legs being enumerated consistently on opposite sides so that the result can be tiled again. "
  "They may be reused with tensors of other dimensions and do not change their inputs.",
  ["inputs"], "arbitrary asymmetric tensors with independent dimensions per bond, real or complex; repeated use with changing dimensions",
  "Tests use symmetric Ising tensors or all-ones, for which most leg mix-ups are invisible.",
  [T+"contract/contractExp.py", T+"tensorFactory.py"],
  [("declarative links and post operations", T+"contract/contractExp.py")],
  ["triangleContractFTN, squareContractFTN, squareContractOutFTN, CTMRG*FTN, square{Horizontal,Vertical}ContractFTN, HOTRG*ContractFTN, EvenblyTNRQEnvFTN", "triangleTensorTrace, squareTrace, selfTrace", "makeSquareTensor, makeTriangleTensor, makeSquareOutTensor"])

p("C22", "Utility functions compute the mathematical function they document",
  "The list, combinatorial, digit, index, diagonal-matrix, comparison, search and numeric-type helpers return for every admissible argument what their documentation states: list differences/commons respect multiplicity rules, divisions of n into k parts are complete and duplicate-free with matching multinomial counts, bit and base-D digit tuples invert to the number, diagonal products equal multiplication by the diagonal matrix, float comparisons are symmetric in sign, and repeated names resolve to distinct positions. "
  "They do not modify their arguments unless documented, and string sets never hand out a name twice.",
  ["inputs", "histories"], "all arguments of small size for each documented helper, and all add/remove/new histories of string sets",
  "The helper tests check a single example of a single function.",
  ["src/CTL/funcs/funcs.py", "src/CTL/funcs/stringSet.py", "src/CTL/models/Ising.py"],
  [("pure functions", "src/CTL/funcs/funcs.py"), ("StringSet", "src/CTL/funcs/stringSet.py")],
  ["CTL.funcs.funcs.*", "StringSet"])

p("C23", "Leg and bond structure stays well-formed through every operation",
  "At every point of any program built from linking free legs, contraction, merging, decomposition, reordering, outer product, summing and copying: each leg of a live tensor names that tensor as its owner, has the dimension of its data axis and appears once; a linked leg and its other side point to each other through one bond object, with equal dimensions; and the legs of a contraction result are the very leg objects of the operands, so existing links to other tensors stay usable. "
  "Links between tensors that take no part in an operation survive it unchanged. Refused operations (linking legs of different dimensions, merging several bonds of a diagonal tensor, unknown labels) leave all legs as they were, and copies never share legs with their originals: copying a list of tensors mirrors exactly the links inside the list.",
  ["programs", "histories"], "all operation programs up to length ~20 over a pool of up to 7 dense, diagonal or data-less tensors",
  "The invariant concerns every intermediate state of every program; the tests check a few end results.",
  [T+"leg.py", T+"bond.py", T+"contract/link.py", T+"contract/contract.py", T+"tensor.py"],
  [("Bond constructor sets both legs", T+"bond.py"), ("deduction takes over given legs", T+"tensor.py")],
  ["Leg.tensor/anotherSide/bond", "Tensor.legs", "makeLink"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
