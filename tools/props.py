prop('C01', 'Contracting two tensors sums exactly over the shared bonds',
     'Contracting two tensors gives a tensor whose legs are exactly the remaining legs of both (keeping their labels and their bonds to other tensors) and whose entries are the sum over the contracted bonds of the product of the entries, for dense and diagonal, real, integer and complex tensors in any combination and argument order. Contracting over an explicit subset of the shared bonds, in any order and direction, sums only over those; with no shared bond the result is the outer product, announced by a warning unless that is disabled. Tensors with data and tensors without cannot be mixed, and legs of different dimensions cannot be linked.',
     ['inputs', 'programs'], 'all pairs of tensors (rank, leg order, dimensions, diagonal or dense, dtype), all sets of bonds between them, all subsets of bonds and both argument orders',
     'Tests contract a handful of fixed shapes with real data; correctness must hold for every leg order, rank, dtype and diagonal/dense combination.',
     [K + 'contract.py', K + 'link.py', T + 'tensor.py', T + 'diagonalTensor.py'],
     [('pairwise contraction', K + 'contract.py:contractTwoTensors'), ('shared bonds', K + 'contract.py:shareBonds'), ('links', K + 'link.py:makeLink')],
     ['values of the result read through its labels', 'bonds of the result', 'warnings'],
     'Each observed contraction is compared with a dense numpy reference over randomly generated pairs; trusts numpy.einsum. Ranks up to 6, dims up to 30.')
prop('C02', 'A network has one value, whatever the contraction schedule',
     'Contracting a list of linked tensors gives the tensor defined by the network (sum over all bonds of the product of all entries, one leg per free leg), whatever contraction sequence is used: supplied by the caller, planned exactly (by either exact planner, with real or typical dimensions) or greedily. This holds for one tensor, disconnected networks, multiple bonds, bonds of dimension one, diagonal tensors, part of a larger network, and with in-place or copying contraction.',
     ['inputs', 'schedules', 'programs'], 'all networks of dense/diagonal tensors and all valid pairwise contraction sequences and planning options',
     'The tests check a few fixed networks with one or two strategies; the schedule space grows factorially.',
     [K + 'optimalContract.py', K + 'tensorGraph.py', K + 'contract.py'],
     [('sequence execution', K + 'optimalContract.py:contractAndCostWithSequence'), ('planners', K + 'tensorGraph.py:TensorGraph.optimalContractSequence'), ('network copy', K + 'optimalContract.py:copyTensorList')],
     ['value and legs of the contracted tensor for several schedules of the same network'],
     'Random multigraph networks up to 7 tensors (25 for rings, trees, ladders, grids) under several schedules each, compared with an independent dense reference.')
prop('C03', 'Contraction plans are valid, truthfully costed and optimal',
     'Every plan for n tensors consists of n-1 pairwise steps that consume each tensor once, and the cost reported for it equals the cost observed when it is executed. The plans of both exact planners have the minimal total cost over all pairwise plans (never building outer products of diagonal tensors while bonds are still open), with real dimensions as well as with a typical dimension; the greedy planner contracts linked tensors, smallest result first, before taking any outer product.',
     ['inputs', 'schedules'], 'all networks (structure, dimensions, diagonal flags) and all pairwise contraction plans for them',
     'Tests compare the two planners on a few fixed networks; optimality quantifies over all plans and all networks.',
     [K + 'tensorGraph.py', K + 'optimalContract.py'],
     [('exact and greedy planners', K + 'tensorGraph.py:TensorGraph.optimalContractSequence'), ('cost of one step', K + 'optimalContract.py:contractCost')],
     ['returned sequences', 'reported costs', 'per-step costs while executing'],
     'Compared with an independent dynamic programme over all plans, up to 8 tensors; greedy up to 15 tensors.')
prop('C04', 'Operations that are not in place leave their inputs untouched',
     'Contracting without the in-place option, planning, costing, copying, converting, measuring or printing leaves every given tensor exactly as it was (data, labels, leg order, legs, bonds, metadata) as well as the list or dictionary that held them and every other list or array given as an argument, so repeating it gives the same result. Copies carry all data and metadata but share neither memory nor legs with the original; copying a list of tensors reproduces exactly the bonds inside the list; a tensor shares no memory with the array it was made from, and a list that is returned belongs to the caller.',
     ['histories', 'inputs'], 'all networks and all sequences of non-in-place operations on them',
     'Tests rarely look at the inputs again after an operation.',
     [K + 'optimalContract.py', T + 'tensor.py', T + 'diagonalTensor.py', 'src/CTL/tensornetwork/tensornetwork.py'],
     [('network copy', K + 'optimalContract.py:copyTensorList'), ('tensor copy', T + 'tensor.py:Tensor.copy'), ('data copy', T + 'tensor.py:Tensor.generateData')],
     ['snapshots of all input tensors before and after', 'memory aliasing by overwriting results'],
     'Snapshot monitors around random sequences of operations; aliasing is detected by overwriting results and sources.')
prop('C05', 'Legs, bonds and tensors stay mutually consistent through any history',
     'After any sequence of creating, linking, contracting, renaming, moving, combining, summing out, merging, tagging and copying, every leg belongs to the tensor that lists it and has the dimension of that axis, every bond joins exactly two legs that both refer to it and lie on tensors of the network, and the tensors and bonds are exactly those the history implies. The value of every tensor, and of the whole network when contracted at the end, is the one the history implies.',
     ['histories'], 'all histories of tensor operations over a pool of tensors',
     'Unit tests run one or two operations on fresh tensors; stale bonds or owners show only after several steps.',
     [T + 'tensor.py', T + 'leg.py', T + 'bond.py', K + 'link.py', K + 'contract.py'],
     [('bond registration', T + 'bond.py:Bond.__init__'), ('leg ownership', T + 'tensor.py:Tensor.deduction'), ('merging of bonds', K + 'link.py:mergeLink')],
     ['leg/bond/owner graph after every operation', 'tensor values'],
     'Stateful model-based monitoring of random histories (4-80 operations).',
     state=[('bond of a leg', 'the link a leg takes part in, or none', T + 'leg.py:Leg.bond'), ('owner of a leg', 'tensor the leg belongs to', T + 'leg.py:Leg.tensor')])
prop('C06', 'A tensor is an array with named axes under every leg operation',
     'Moving, rearranging, combining, summing out (with or without weights), renaming and tagging legs, and every matrix, vector, trace, norm or scalar view, give what the same operation gives on an array with named axes, for any order and split of the legs, given by label or by leg. Lookups of a label return the first leg of that name (the last when searching backward), repeated labels are consumed in order, and unknown labels are reported without changing the tensor.',
     ['inputs', 'histories'], 'all tensors (rank 0-5, dense or diagonal, repeated labels) and all sequences of leg operations',
     'Tests check single operations on a few shapes; the laws are over all permutations, splits and sequences.',
     [T + 'tensor.py', T + 'diagonalTensor.py', 'src/CTL/funcs/funcs.py'],
     [('leg moves', T + 'tensor.py:Tensor.moveLegsToFront'), ('matrix view', T + 'tensor.py:Tensor.toMatrix'), ('label search', 'src/CTL/funcs/funcs.py:generateIndices')],
     ['labels, shape, data, norm after every operation', 'warnings and exceptions'],
     'Random operation sequences compared step by step with a numpy named-axis model.')
prop('C07', 'Tensor creation accepts consistent descriptions and refuses contradictions',
     'Given any consistent combination of legs, shape, labels and data, the created tensor has exactly the described labels, shape, data, data type, metadata and the given legs; what is left out is filled in as documented (alphabetic labels, shape from data, random or unit data, identity for diagonal tensors). The tensor shares no list or array with what it was made from; contradictory or insufficient descriptions are refused with a value error.',
     ['inputs', 'configurations'], 'all combinations of given and omitted arguments, consistent or contradictory, for dense, diagonal and data-free tensors of all ranks including 0',
     'Tests try a few of the argument combinations for a few shapes.',
     [T + 'tensor.py', T + 'diagonalTensor.py', T + 'tensorFactory.py'],
     [('deduction', T + 'tensor.py:Tensor.deduction'), ('diagonal deduction', T + 'diagonalTensor.py:DiagonalTensor.deduction')],
     ['attributes and data of the created tensor', 'exceptions'],
     'Random argument combinations; expectations are computed from the documented priorities.')
prop('C08', 'A diagonal tensor is by value the dense tensor it stands for',
     'Replacing diagonal tensors by their dense forms (equal indices hold the stored vector, all other entries are zero) changes no value: of any network contraction, view, norm, trace or summed-out leg. Data given in full loses only its off-diagonal entries. Contracting linked diagonal tensors keeps the compact diagonal form, and networks made only of diagonal tensors never cost more than their dense forms.',
     ['inputs', 'schedules', 'programs'], 'all networks containing diagonal tensors and all operations on diagonal tensors',
     'Tests use real diagonal tensors in a few fixed pairs; ranks, hyperedges and schedules of diagonal tensors multiply quickly.',
     [T + 'diagonalTensor.py', K + 'contract.py'],
     [('diagonal contraction', K + 'contract.py:contractTwoTensors'), ('dense view', T + 'diagonalTensor.py:DiagonalTensor.toTensor'), ('summing out a leg', T + 'diagonalTensor.py:DiagonalTensor.sumOutLeg')],
     ['values and labels of both versions', 'diagonal flag and storage size', 'costs'],
     'The same random network or operation history is run in diagonal and dense form and compared, also with an independent reference.')
prop('C09', 'Data-free tensors shadow tensors exactly',
     'A tensor without data goes through every operation (contraction, merging, moving, combining, summing out, renaming, tagging, copying, network contraction) with the same legs, labels, shapes, bonds, kind (dense or diagonal) and costs as a tensor with data, and never gets data. Asking for its values is refused.',
     ['inputs', 'histories', 'schedules'], 'all networks and operation histories, run with and without data',
     'Tests check data-free contraction costs of a few networks; divergence shows in combinations of operations.',
     [T + 'tensor.py', T + 'diagonalTensor.py', K + 'contract.py', K + 'optimalContract.py'],
     [('data-free conversion', T + 'tensor.py:Tensor.toTensorLike'), ('data-free merge', K + 'contract.py:merge'), ('cost of a step', K + 'optimalContract.py:contractCost')],
     ['labels, shapes, flags, links and costs of both versions after every step'],
     'Lock-step comparison of random histories on tensors and their data-free counterparts.')
N = 'src/CTL/tensornetwork/'
X = 'src/CTL/examples/'
F = 'src/CTL/funcs/'
prop('C10', 'A finite tensor network is a reusable function of the tensors put into it',
     'Contracting a network description with any tensors that fit it (renaming their legs, and combining and naming the output legs, as given) yields the value of the described network in terms of those tensors, every time it is used and whatever was contracted with it before, also when dimensions change between uses. The given tensors are left as they were, and tensors whose bonded dimensions do not fit, or that are missing, are refused without harming later uses.',
     ['inputs', 'histories', 'schedules'], 'all network descriptions, all fitting assignments of tensors, and all sequences of uses with changing tensors and dimensions',
     'Tests use one description once or twice with the same dimensions; stale plans and leftovers of earlier uses only show over sequences of uses.',
     [N + 'tensornetwork.py', N + 'tensordict.py', K + 'optimalContract.py'],
     [('contraction of a description', N + 'tensornetwork.py:FiniteTensorNetwork.contract'), ('tensor dictionary', N + 'tensordict.py:TensorDict')],
     ['value and labels of each contraction', 'snapshots of the given tensors', 'plans and their costs'],
     'Random descriptions and sequences of uses compared with an independent dense reference.')
prop('C11', 'Edits to a finite tensor network take effect; a used one cannot be edited',
     'After any history of adding and removing tensors, links, output legs and renamings, contracting gives the value of the network as edited, and separate networks never influence each other. A network in use (locked) refuses edits and stays exactly as it was until it is released; invalid edits are refused and leave the network as it was.',
     ['histories'], 'all histories of edits, locks, releases and contractions of several networks',
     'Tests build one network and use it; edits after a use and the interplay of several networks are not covered.',
     [N + 'tensornetwork.py'],
     [('network edits', N + 'tensornetwork.py:FiniteTensorNetwork')],
     ['value of each contraction after edits', 'exceptions'],
     'Stateful model-based monitoring of random edit histories.',
     state=[('edit lock', 'whether a network may still be edited', N + 'tensornetwork.py:FiniteTensorNetwork.locked')])
prop('C12', 'Predefined network diagrams compute the diagrams they are named for',
     'The predefined triangle, square, corner, edge, closing, environment and trace networks compute, for any tensors of fitting dimensions (dense or diagonal, real or complex, any leg order), the contraction their diagram depicts, with the documented output legs, also when the legs are named differently. Cells built from corner and edge tensors give the same tensor as contracting the drawn diagram directly, and can be used any number of times.',
     ['inputs', 'configurations'], 'all tensors that fit each predefined network, all leg names and orders',
     'Tests only reach these networks through a few renormalisation runs with symmetric tensors, which hide wrong wiring.',
     [N + 'tensornetwork.py', X + 'TRG.py', X + 'TNR.py', X + 'CTMRG.py', X + 'FullCTMRG.py', X + 'impurity.py', K + 'contractExp.py', T + 'tensorFactory.py'],
     [('network descriptions', N + 'tensornetwork.py:FiniteTensorNetwork'), ('self trace', T + 'tensor.py:Tensor.trace')],
     ['value and labels of each output'],
     'Every predefined network is compared with its diagram written out as an index expression, on non-symmetric random tensors.')
prop('C13', 'Decompositions are accurate, optimal, and truthful about their error',
     'Splitting a matrix or tensor into isometries and singular values gives exact isometries and the largest singular values in order, the product of the factors is the best approximation for the kept number (which respects the requested limit and threshold), and a reported error is the true one. Environment-based truncation keeps the dominant eigenvectors of the given positive matrix within the limit, and the isometry test accepts exactly the isometries.',
     ['inputs', 'configurations'], 'all real and complex matrices and tensors (rank-deficient, degenerate, zero, thin and wide), row/column splits and truncation parameters',
     'Tests never look at truncated decompositions of degenerate, rank-deficient or complex input.',
     [F + 'linalg.py', F + 'decompose.py', T + 'tensorFunc.py'],
     [('truncated SVD', F + 'decompose.py:SVDDecomposition'), ('environment', F + 'linalg.py:solveEnv'), ('tensor split', T + 'tensorFunc.py:tensorSVDDecomposition'), ('isometry test', T + 'tensorFunc.py:isIsometry')],
     ['factors, singular values, reported error'],
     'Checked against Gram-matrix eigenvalues computed independently.')
prop('C14', 'Merging the bonds between two tensors keeps their product',
     'Merging the bonds between two tensors (of any number, including none, in place or not) replaces them by one bond with the chosen or derived names, and changes neither the product of the two tensors nor the value of the network around them; with a limit on the dimension the new bond respects it and the product is the best approximation of that rank. All other legs and bonds stay as they were.',
     ['inputs', 'histories', 'configurations'], 'all pairs of bonded tensors within networks, all limits, names and repeated merges',
     'Tests merge a few fixed pairs; optimality and the untouched rest hold for every shape, dtype and diagonal/dense combination.',
     [K + 'contract.py', K + 'link.py'],
     [('merge', K + 'contract.py:merge'), ('merging of parallel bonds', K + 'link.py:mergeLink')],
     ['product of the pair', 'network value', 'bond dimension and names'],
     'Random networks; truncated merges are compared with the optimal low-rank approximation.')
prop('C15', 'The Schmidt decomposition splits a bonded pair exactly and optimally',
     'Decomposing two bonded tensors gives two isometries and the Schmidt coefficients in descending order within the requested limit, whose contraction is the product of the pair (or its best approximation when truncated), with the bonds to the rest of the network preserved and the given tensors unchanged. Swapped legs end up on the opposite side; the same holds for tensors without data in shape.',
     ['inputs', 'configurations'], 'all bonded pairs of tensors in a network, all limits, modes and swaps',
     'Tests decompose one or two shapes with real data.',
     [X + 'Schimdt.py', K + 'contract.py', T + 'tensor.py', F + 'linalg.py'],
     [('decomposition', X + 'Schimdt.py:SchimdtDecomposition'), ('matrix view of legs', T + 'tensor.py:Tensor.toMatrix')],
     ['isometry of both factors', 'coefficients', 'product'],
     'Random pairs; pairs whose product vanishes entirely are outside the property.')
prop('C16', 'Matrix product states keep their state and form through any history',
     'Moving the canonical centre, moving, swapping and merging tensors, and scaling leave the represented state as the operation implies; tensors left of the centre are left isometries and those right of it right isometries. Truncation respects the limit and loses no more weight than the discarded singular values imply; malformed chains are refused.',
     ['histories', 'inputs'], 'all chains of tensors (lengths, dimensions, leg orders, dtypes) and all histories of operations on them',
     'Tests run one fixed history on real data.',
     [X + 'MPS.py', X + 'Schimdt.py', K + 'contract.py', T + 'tensor.py'],
     [('matrix product state', X + 'MPS.py:FreeBoundaryMPS')],
     ['dense state', 'isometry of each tensor', 'bond dimensions'],
     'Stateful monitoring of random histories against a dense state. One recorded finding: see known_findings.txt.')
prop('C17', 'Contracting a network through matrix product states gives its value',
     'Converting a tensor to a matrix product state and back reproduces it when nothing is truncated, and the truncation error is bounded by the discarded weight. Contracting a network by merging matrix product states gives the network\'s value (closed or with open legs) when the limit is not reached, whatever order the tensors are merged in.',
     ['inputs', 'schedules'], 'all tensors and connected networks, merge orders and leg orders',
     'Tests contract two fixed networks.',
     [X + 'MPS.py', X + 'Schimdt.py', K + 'contract.py', K + 'tensorGraph.py'],
     [('network through matrix product states', X + 'MPS.py:contractWithMPS'), ('tensor to matrix product state', X + 'MPS.py:createMPSFromTensor')],
     ['value of the network', 'intermediate states'],
     'Random networks compared with a dense reference. One recorded finding: see known_findings.txt.')
prop('C18', 'Ising tensors and networks have exactly the weights of their spins',
     'The tensor of an Ising site, edge, plaquette or three-spin cell holds the Boltzmann weights of the spins it stands for, and the network built for any graph or lattice (square, double, complete, periodic or free, isolated spins, self-loops, parallel and later added edges, couplings of either sign) contracts to the partition function, or to the requested correlation where spins are measured. The lattice builders create exactly the sites and edges of the lattice they are named for, and separately built ones share nothing.',
     ['inputs', 'configurations'], 'all graphs and lattices (up to 12 spins), all real couplings of any numeric type, all options',
     'Tests compare a few ferromagnetic lattices with known numbers; wrong wiring or signs hide behind symmetric couplings.',
     ['src/CTL/models/Ising.py', F + 'graph.py', F + 'graphFuncs.py', K + 'optimalContract.py'],
     [('site tensor', 'src/CTL/models/Ising.py:IsingSiteTensor'), ('network of a graph', 'src/CTL/models/Ising.py:IsingTNFromUndirectedGraph'), ('lattices', F + 'graphFuncs.py')],
     ['contracted values', 'tensor entries', 'edges of the lattices'],
     'Partition functions are summed over all spin configurations with edge lists of the check\'s own.')
prop('C19', 'Renormalisation is exact as long as nothing has to be truncated',
     'Corner transfer matrices, triangular and square TRG, TNR and HOTRG give the exact value of the lattice they stand for (all sizes asked for, in any order, any number of times), as long as the bond limit exceeds what is needed; with a limit, bonds never exceed it, and low-rank tensors that fit the limit stay exact. Normalisation factors are accounted for exactly.',
     ['inputs', 'schedules', 'configurations'], 'all real local tensors of small dimension, sizes, iteration counts and bond limits',
     'Tests run the critical Ising model and compare a few digits of the free energy.',
     [X + 'CTMRG.py', X + 'FullCTMRG.py', X + 'TRG.py', X + 'HOTRG.py', X + 'TNR.py', N + 'tensornetwork.py', F + 'linalg.py', F + 'decompose.py', T + 'tensorFunc.py'],
     [('corner transfer matrices', X + 'CTMRG.py'), ('TRG', X + 'TRG.py'), ('HOTRG', X + 'HOTRG.py'), ('TNR', X + 'TNR.py'), ('networks they use', N + 'tensornetwork.py:FiniteTensorNetwork.contract')],
     ['values of finite lattices', 'bond dimensions after each iteration'],
     'Compared with direct dense contraction of the same finite lattice. Two recorded findings: see known_findings.txt.')
prop('C20', 'Impurity networks sum all placements of the impurities',
     'Coarse graining a lattice together with impurity tensors of several orders gives, at every iteration and order, the sum over all placements of the impurities on the lattice as long as nothing is truncated; measured observables agree with sums over all spin configurations, and the given tensors can be used again.',
     ['inputs', 'schedules'], 'all local tensors with impurities of orders up to 3, iteration counts and orders',
     'Tests compare one magnetisation curve with a few digits.',
     [X + 'impurity.py', X + 'HOTRG.py', F + 'funcs.py', N + 'tensornetwork.py'],
     [('impurity network', X + 'impurity.py'), ('ways to place impurities', F + 'funcs.py:calculateDivisionTimes')],
     ['values of every order after each iteration', 'observables'],
     'Compared with explicit sums over placements. One recorded finding: see known_findings.txt.')
prop('C21', 'Another numpy-like library can do all the numerics with the same results',
     'After choosing another numpy-like array library, every computation (creating, contracting, merging, decomposing, renormalising, Ising tensors, matrix product states, measuring) runs on arrays of that library only, gives the same values, shapes, labels and data types as with numpy, and warns or refuses in the same cases. Switching back restores numpy.',
     ['configurations', 'programs'], 'all computations of the other properties, run with the default and with a replacement library',
     'Tests of the replacement library need a graphics card and are skipped everywhere else.',
     [F + 'xplib.py', F + 'funcs.py', F + 'linalg.py', F + 'decompose.py', T + 'tensor.py', T + 'diagonalTensor.py', K + 'contract.py', 'src/CTL/models/Ising.py', 'src/CTL/__init__.py'],
     [('choice of the library', F + 'xplib.py'), ('array creation', T + 'tensor.py:Tensor.generateData')],
     ['type and value of every array that comes out', 'calls received by the replacement library'],
     'Lock-step runs with a strict stand-in library that refuses to mix with numpy arrays.')
prop('C22', 'Contraction is exact algebra that keeps type and precision',
     'The value of a network is linear in every tensor, is conjugated when all tensors are, and does not change when a bond is multiplied by a matrix on one side and its inverse on the other, when a bond is cut and summed over, or when tensors, legs and names are permuted; powers of two factor out, however large or small. Results have the data type numpy promotes the inputs to and the precision of that type; integer networks are exact also beyond the precision of floating point numbers.',
     ['inputs', 'schedules'], 'all networks (up to 13 tensors, dense and diagonal, any data types) and all these transformations of them',
     'Tests compare double precision values of a few networks with tolerance; type changes and lost precision stay invisible.',
     [K + 'contract.py', K + 'optimalContract.py', T + 'tensor.py', T + 'diagonalTensor.py', F + 'funcs.py', F + 'decompose.py'],
     [('pair contraction', K + 'contract.py:contractTwoTensors'), ('weighted sum of a leg', F + 'funcs.py:sumOnAxis'), ('diagonal form', F + 'funcs.py:diagonalNDTensor')],
     ['values of the original and the transformed network', 'data types', 'exact integers'],
     'Metamorphic relations between two contractions with different plans; exact integer reference.')
prop('C23', 'Names are fresh, and label operations change names only',
     'A generated name has the requested length, consists of ASCII letters and is never one in use, whatever was added, removed or generated before; adding a used name or removing an unused one is refused and changes nothing. Renaming and tagging the legs of a tensor change exactly the asked names (first match first) and nothing else, lookups by label answer for the current names, and printed forms show kind, name, shape and labels.',
     ['histories', 'inputs'], 'all histories of adding, removing and generating names, and of renaming and tagging legs with repeated or missing labels',
     'Tests never exhaust a name space nor repeat labels.',
     [F + 'stringSet.py', F + 'funcs.py', T + 'tensor.py', T + 'diagonalTensor.py', T + 'leg.py'],
     [('set of names', F + 'stringSet.py:StringSet'), ('renaming', T + 'tensor.py:Tensor.renameLabel'), ('tags', T + 'tensor.py:Tensor.addTensorTag')],
     ['names', 'labels after every operation', 'warnings and exceptions'],
     'Stateful comparison with model sets and label lists, with name spaces small enough to run full.',
     state=[('names in use', 'names that must not be generated again', F + 'stringSet.py:StringSet.stringSet')])
prop('C24', 'Graphs and textual network descriptions say exactly what was put in',
     'A graph lists exactly the added vertices and edges with their weights, after any interleaving of additions and queries, and refuses unknown vertices. The graph of a list of tensors has one edge per bond inside the list and a free edge for every other leg; a network written as text creates the tensors, labels, dimensions and bonds it spells; both can be exported, and planning on them gives the cost of the network they describe.',
     ['histories', 'inputs'], 'all graphs, all lists of tensors (complete or part of a network), all valid and some invalid texts',
     'Tests parse three texts and count edges of one graph.',
     [F + 'graph.py', K + 'tensorGraph.py', K + 'optimalContract.py'],
     [('edges of a graph', F + 'graph.py:UndirectedGraph.getEdges'), ('text to tensors', K + 'tensorGraph.py:createTensorListFromText'), ('tensors to graph', K + 'optimalContract.py:makeTensorGraph')],
     ['edges, weights and incidence after every operation', 'tensors and bonds created from text', 'planned costs'],
     'Random histories and generated texts against plain edge lists; costs by independent dynamic programming.',
     state=[('edge cache', 'whether the listed edges are current', F + 'graph.py:UndirectedGraph.updated')])
prop('C25', 'Utility functions mean what they say for every input',
     'The list, tuple, integer, floating point, matrix, search, naming and message helpers return what their documentation defines for every input: multisets are respected, digits and indices recompose, combinatorial counts are exact and consistent, comparisons hold for negative and complex numbers, errors and products agree with direct sums, and inputs are never changed. Tensor factories put the data under the documented labels without sharing memory, and changing a result changes no later one.',
     ['inputs'], 'all arguments in the documented domains (lists with repetitions, empty input, negative, zero, complex and large numbers)',
     'Tests call one of these functions once; most are only exercised indirectly with benign values.',
     [F + 'funcs.py', T + 'tensorFactory.py'],
     [('helpers', F + 'funcs.py'), ('tensor factories', T + 'tensorFactory.py')],
     ['returned values', 'inputs after the call', 'warnings and exceptions'],
     'Independent definitions evaluated on random arguments.')
