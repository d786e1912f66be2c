prop('C05', 'A shape-only tensor predicts exactly what the real tensor does',
     'Running any history of structural operations (contraction, outer product of legs, merging bonds, splitting and summing legs, decomposing generic data, renaming, reordering, copying) on shape-only '
     'tensors gives the same labels, dimension per label, connections and diagonal/dense kind as running it on the real tensors, '
     'and the same contraction costs. Operations needing data, and contracting shape-only with real tensors, are refused.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound over small networks of dense and diagonal tensors',
     'The tests check single operations on fixed shape-only tensors; the two code paths can drift apart on any combination.',
     [T + 'tensor.py', T + 'diagonalTensor.py', C + 'contract.py'],
     [('tensorLikeFlag branches', C + 'contract.py'), ('toTensorLike', T + 'tensor.py')],
     'lock-step exploration of all operation sequences on real and shape-only tensors', NP)

prop('C06', 'Tensor operations follow the labelled-array semantics in every history',
     'After any sequence of renaming, tagging, reordering, combining legs, summing out legs (weighted or not), taking matrices, vectors, traces and '
     'norms, a dense tensor equals the labelled array those operations define, axes staying attached to their labels. '
     'Requests naming a label that does not exist leave the tensor unchanged.',
     ['histories'], 'all operation sequences up to the depth bound from dense tensors of rank 0..4, states deduplicated',
     'The tests execute a few fixed sequences; leg order is hidden state that only longer histories expose.',
     [T + 'tensor.py', F + 'funcs.py'],
     [('moveLegsToFront / outProduct / toMatrix / sumOutLeg', T + 'tensor.py'), ('sumOnAxis', F + 'funcs.py')],
     'explicit-state breadth-first exploration of operation histories on the real tensor against a labelled-array model', NP)

prop('C07', 'A diagonal tensor behaves as the dense tensor it denotes',
     'Every operation that a diagonal tensor supports - renaming, reordering, summing out (weighted or not), copying, converting to an '
     'array, matrix, norm and contraction with others - gives what the same operation gives on the dense tensor with the same diagonal, in every history. '
     'Combining legs of a diagonal tensor is refused and leaves it unchanged.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound from diagonal tensors of rank 0..4 and dimension 1..3',
     'The compressed storage hides the dense meaning; tests compare a few shapes after single operations.',
     [T + 'diagonalTensor.py', F + 'funcs.py'],
     [('DiagonalTensor', T + 'diagonalTensor.py'), ('diagonalNDTensor', F + 'funcs.py')],
     'explicit-state exploration of operation histories on the real diagonal tensor, its dense twin and a labelled-array model', NP)

prop('C08', 'Tensor construction accepts exactly the consistent specifications',
     'For every combination of legs, shape, labels and data, constructing a dense or diagonal tensor either raises a ValueError, exactly '
     'when the given pieces contradict each other or (for real tensors) leave the shape undetermined, or yields a tensor whose legs, labels, shape and data agree with all of them. '
     'Missing pieces are filled by the documented priorities and data is stored as an independent copy of the same type.',
     ['inputs', 'configurations'], 'the full product of present/absent/contradictory legs, shape, labels and data for ranks 0..3, dense/diagonal, real/shape-only',
     'The deduction is a decision table over four optional inputs; the tests check about ten of its cells.',
     [T + 'tensor.py', T + 'diagonalTensor.py'],
     [('deduction', T + 'tensor.py'), ('deduction', T + 'diagonalTensor.py')],
     'exhaustive enumeration of the construction decision table against an independent specification', NP)

prop('C09', 'Legs, bonds and tensors stay mutually consistent in every history',
     'After any sequence of building, linking, contracting, reordering, copying, summing out and merging, every leg of every live tensor points '
     'to its tensor, dimension and data axis agree, and every bond of a leg has exactly two legs of equal dimension, the given one and another that knows the same bond. '
     'Linking free legs of different dimension is refused without side effect; combining and summing apply to free legs.',
     ['histories'], 'all operation sequences up to the depth bound over pools of small tensors',
     'The web of references is mutated in place by every operation; tests look at values, not at the web, and only along a few histories.',
     [T + 'leg.py', T + 'bond.py', C + 'link.py', C + 'contract.py'],
     [('makeLink / mergeLink', C + 'link.py'), ('Bond', T + 'bond.py')],
     'explicit-state exploration of link/contract histories with a structural invariant checked in every state', NP)

prop('C10', 'Merging parallel bonds keeps the network value and truncates optimally',
     'Merging the bonds between two tensors leaves exactly one bond between them named as requested, and, without truncation, the exact value of the network, the other '
     'legs and their connections unchanged. With truncation the new bond has at most the requested dimension and the contracted pair is a best approximation of '
     'that rank. A merge the tensors cannot take (several bonds of a diagonal tensor, or a real with a shape-only tensor) is refused and leaves both as they were.',
     ['inputs', 'configurations'], 'every pair of tensors with 1..3 shared bonds and 0..2 outer legs each, dimensions from a menu, every truncation size',
     'The tests merge two fixed pairs; leg order, number of bonds and truncation size form the space where it can go wrong.',
     [C + 'contract.py', C + 'link.py'], [('merge', C + 'contract.py'), ('mergeLink', C + 'link.py')],
     'exhaustive enumeration of pairs, bonds and truncation sizes on the real code against dense linear algebra', NP)

prop('C11', 'Tensor decompositions reproduce the tensor and truncate optimally',
     'Every singular value / Schmidt decomposition of a tensor or tensor pair returns factors with isometric outer parts whose product is the original '
     'when the bond limit allows it, and otherwise a best approximation of the allowed rank with the reported error; the inner bond never exceeds the limit. '
     'Outer legs keep their labels and connections.',
     ['inputs', 'configurations'], 'every matrix shape up to a bound over a small entry alphabet, every row/column split, every bond limit',
     'Rank deficiency, degenerate spectra, non-square shapes and row/column choices form a product space the tests sample once.',
     [F + 'decompose.py', T + 'tensorFunc.py', X + 'Schimdt.py'],
     [('SVDDecomposition', F + 'decompose.py'), ('tensorSVDDecomposition', T + 'tensorFunc.py'), ('SchimdtDecomposition', X + 'Schimdt.py')],
     'exhaustive enumeration of small matrices/tensors and splits on the real code against the Eckart-Young optimum', 'Floating-point comparison with tolerance 1e-9; bounded entry alphabet and shapes.')

prop('C12', 'An MPS keeps its state under every sequence of operations',
     'Canonicalising, swapping sites, moving sites, making sites adjacent and merging in any order leaves the tensor represented by an MPS unchanged up '
     'to the requested permutation of its sites, as long as the bond limit allows it. Bond dimensions never exceed the limit and the canonical centre reported is truly one.',
     ['histories'], 'all operation sequences up to the depth bound on chains of 1..4 sites',
     'The tests run one or two operations on one chain; gauge and bookkeeping errors need sequences.',
     [X + 'MPS.py', X + 'Schimdt.py'], [('FreeBoundaryMPS', X + 'MPS.py')],
     'explicit-state exploration of operation histories on the real MPS against the dense tensor', 'Floating-point comparison with tolerance 1e-8.',
     state=[('activeIdx', 'canonical centre', X + 'MPS.py')])

prop('C13', 'Contracting with MPS machinery equals exact contraction',
     'With a bond limit large enough not to truncate, converting tensors to MPSes, merging their common bonds, and contracting them pairwise or as a network '
     'gives the exact value of the network for every order along its bonds. The tensors and MPSes given are consumed.',
     ['inputs', 'configurations'], 'every connected simple graph on up to 4 tensors, all sequences, several leg orders',
     'The tests compare two fixed networks.', [X + 'MPS.py'],
     [('contractMPS', X + 'MPS.py'), ('mergeMPS', X + 'MPS.py'), ('contractWithMPS', X + 'MPS.py')],
     'exhaustive enumeration of small networks and sequences on the real code against exact einsum', 'Floating-point comparison with tolerance 1e-8.')

prop('C14', 'A finite tensor network gives the value its current definition demands',
     'Whatever the history of defining, locking, unlocking, modifying and contracting a finite tensor network, and of changing tensors and dimensions between '
     'contractions, every contraction returns the exact value and labels of the network as currently defined, as a fresh object would, with real costs along an order cheapest for the current dimensions, and leaves the given tensors unchanged. '
     'Modifying a locked network is refused and separate networks do not influence each other.',
     ['histories'], 'all operation sequences up to the depth bound over small networks',
     'The cached order and the lock are state across calls; the tests contract fixed networks a few times.',
     ['src/CTL/tensornetwork/tensornetwork.py', 'src/CTL/tensornetwork/tensordict.py'],
     [('FiniteTensorNetwork.contract', 'src/CTL/tensornetwork/tensornetwork.py')],
     'explicit-state exploration of network definition/contraction histories against einsum and a fresh object', NP,
     state=[('optimalSeq, bondDims, locked', 'cached order and lock', 'src/CTL/tensornetwork/tensornetwork.py')])

prop('C15', 'Ising networks contract to the exact partition function on every graph',
     'For every graph without self loops and every assignment of couplings the tensor network built for the Ising model contracts to the exact partition function '
     'obtained by summing over all spin configurations; the plaquette, square and site tensors carry exactly the Boltzmann weights they stand for.',
     ['inputs', 'configurations'], 'every labelled graph on up to 5 vertices, couplings from a menu of both signs, all spin configurations',
     'The tests compare a few lattices; graph shape, degrees and couplings are an open space.',
     ['src/CTL/models/Ising.py', F + 'graph.py'], [('IsingTNFromUndirectedGraph', 'src/CTL/models/Ising.py')],
     'exhaustive enumeration of graphs and coupling assignments against exhaustive summation over spin states', 'Floating-point comparison with relative tolerance 1e-9.')

prop('C16', 'Graphs and lattices have exactly the vertices and edges requested',
     'After any sequence of adding edges, a graph reports exactly those edges and neighbours, whenever asked. The lattice builders give exactly the '
     'edges of the named lattice for every size, and complete and other generated graphs exactly theirs.',
     ['histories', 'inputs'], 'all edge-insertion/query histories up to the depth bound on small vertex sets, all lattice sizes up to a bound',
     'Cached edge lists go stale only along histories; the tests build a few fixed graphs.',
     [F + 'graph.py', F + 'graphFuncs.py'], [('UndirectedGraph', F + 'graph.py'), ('lattice builders', F + 'graphFuncs.py')],
     'explicit-state exploration of insertion/query histories against a set model', 'Complete within the stated bounds only.')

prop('C17', 'Coarse graining is exact while nothing is truncated',
     'As long as the bond limit does not force truncation, every coarse-graining step (TRG on the square and triangular lattice, HOTRG, CTMRG growth and one TNR step of reflection-symmetric tensors) '
     'on real tensors with a positive partition function preserves the exact partition function of the finite lattice it represents, including all accumulated normalisation factors. '
     'A truncating step never exceeds the limit, replaces tensors by their best approximation of that dimension and reports the lost weight.',
     ['inputs', 'configurations', 'histories'], 'every input tensor from a small family, all step histories until the bond limit binds',
     'The tests compare one long run with a published value within a loose tolerance, which hides accounting errors.',
     [X + 'TRG.py', X + 'HOTRG.py', X + 'CTMRG.py'], [('SquareTRG', X + 'TRG.py'), ('HOTRG', X + 'HOTRG.py'), ('CTMRG', X + 'CTMRG.py')],
     'exhaustive enumeration of step histories on the real code against exact lattice sums', 'Floating-point comparison with tolerance 1e-8.')

prop('C18', 'Coarse-graining results do not depend on when or how they are queried',
     'Asking a renormalisation object for a result any number of times, in any order, at any point between steps, gives the same '
     'answers as a fresh object advanced straight to that step.',
     ['histories'], 'all histories of steps and queries up to the depth bound',
     'Lazy caches and archives make query order matter only along particular histories.',
     [X + 'CTMRG.py', X + 'HOTRG.py', X + 'TRG.py', X + 'impurity.py'], [('caches', X + 'CTMRG.py')],
     'explicit-state exploration of step/query histories', 'Floating-point comparison with tolerance 1e-9.')

prop('C19', 'Impurity networks measure the exact moments of local observables',
     'For impurity tensors given for every order asked, contracting an impurity network accounts for every placement of impurities up to the highest order exactly once, so measured moments equal the exact '
     'ones of the finite system as long as nothing is truncated.',
     ['inputs', 'histories'], 'all numbers of impurities, orders and steps within the bounds',
     'The tests compare two physical quantities within tolerance.',
     [X + 'impurity.py'], [('ImpurityTensorNetwork', X + 'impurity.py')],
     'exhaustive enumeration of orders and steps on the real code against exact sums', 'Floating-point comparison with tolerance 1e-8.')

prop('C20', 'Index, list and number utilities meet their definitions on all small inputs',
     'The list, index, tuple, diagonal and number helpers return what their documentation defines on every input of the bounded domain.',
     ['inputs'], 'all lists up to a length over a small alphabet, all small arrays',
     'Tests check single values.', [F + 'funcs.py', F + 'linalg.py'], [('helpers', F + 'funcs.py')],
     'exhaustive enumeration of a bounded input domain against independent definitions', 'Complete within the stated bounds only.')

prop('C21', 'The text network description builds exactly the described network',
     'Parsing a text description of a tensor network yields exactly the described tensors, legs, dimensions and links, for every description of the bounded grammar.',
     ['inputs'], 'all descriptions up to a size', 'Tests parse one description.',
     [C + 'tensorGraph.py'], [('createTensorListFromText', C + 'tensorGraph.py')],
     'exhaustive enumeration of descriptions against an independent reading', 'Complete within the stated bounds only.')

prop('C22', 'Generated names are unique in every history',
     'A string set never hands out or accepts the same name twice while it is in use, whatever the history of adding, removing and generating; refused requests change nothing.',
     ['histories'], 'all histories up to the depth bound, with an adversarial random source', 'Collisions need an adversarial random source; tests use a lucky one.',
     [F + 'stringSet.py', F + 'funcs.py'], [('StringSet', F + 'stringSet.py')],
     'explicit-state exploration of histories with the random source enumerated', 'Complete within the stated bounds only.')

prop('C23', 'The ready-made network templates compute their defining contraction',
     'Each ready-made network (square and triangle contractions, outward variants, environments, traces) computes exactly the contraction it is named for, '
     'for every assignment of dimensions and any leg order of its inputs.',
     ['inputs', 'configurations'], 'all dimension assignments from a menu and leg orders', 'Tests use one dimension assignment.',
     [C + 'contractExp.py', X + 'CTMRG.py'], [('make...FTN', C + 'contractExp.py')],
     'exhaustive enumeration of dimension assignments and leg orders against exact einsum', NP)

prop('C24', 'The numeric back end in use is the selected one everywhere',
     'After selecting a numeric back end, all later tensor operations use it, and selecting another or the default again takes effect in every later operation.',
     ['histories'], 'all selection/operation histories up to the depth bound', 'The tests select the default once.',
     [F + 'xplib.py'], [('XPLib', F + 'xplib.py')],
     'explicit-state exploration of selection/operation histories with recording back ends', 'Recording proxies stand for other back ends.')
