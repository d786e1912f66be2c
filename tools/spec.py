"""Source of properties.jsonl and MANIFEST.json (python3 tools/spec.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])],
                          'observe_at': observe or [], 'hook_needed': None},
              '_technique': technique, '_note': note})


T = 'src/CTL/tensor/'
C = 'src/CTL/tensor/contract/'
X = 'src/CTL/examples/'
F = 'src/CTL/funcs/'

NP = 'Trusts numpy as the reference; all data are integers small enough for exact float arithmetic; complete within the stated bounds only.'

prop('C01', 'Contracting two tensors yields their exact mathematical contraction',
     'Contracting two tensors, dense or diagonal in any combination, real or complex, sums exactly the shared bonds (or '
     'exactly the explicitly given ones, in whichever order their two legs were linked) and nothing else. The result has one '
     'leg per remaining leg of the operands, with the same label, dimension and outside connection, and its entries are the '
     'mathematical contraction; with no shared bond it is the outer product, with no remaining leg a scalar.',
     ['inputs', 'configurations'],
     'every pair of tensor kinds, ranks up to 3 (4 thorough), every partial pairing of legs, dimensions from {1,2,3}, link orientation, subset of explicit bonds, operand order, real/complex',
     'The tests contract a handful of fixed shapes; which legs are paired, in what order, with which kind of tensor and which bond orientation is a product space they only touch.',
     [C + 'contract.py', T + 'tensor.py', T + 'diagonalTensor.py'],
     [('contractTwoTensors', C + 'contract.py'), ('shareBonds', C + 'contract.py'), ('diagonalNDTensor', F + 'funcs.py')],
     'exhaustive enumeration of all two-tensor linkings within bounds, executed on the real code against a labelled-array model', NP,
     ['legs, labels and data of the result', 'toTensor(labels)', 'single()', 'a @ b'])

prop('C02', 'Contracting a tensor network gives its exact value in any order',
     'Contracting a list of linked tensors gives exactly the value of the network (the sum over all bonds of the product of all '
     'entries), with one correctly labelled leg per free leg. This holds for every pairwise contraction sequence, for every '
     'automatically chosen one (brute force, pruned, greedy, typical or real dimensions), in place or on copies, and for '
     'disconnected networks, several bonds between two tensors, diagonal tensors and colliding bond labels. Given only some tensors of a network, '
     'it gives the value of that part, whose bonds to the others are legs of the result, still linked when contracted in place.',
     ['inputs', 'configurations', 'histories'],
     'every multigraph on up to 4 tensors (5 thorough/auto sequences), every dense/diagonal assignment, all pairwise sequences, all automatic modes',
     'The tests contract a few fixed networks with one automatically chosen order each; independence of the order is a statement about all sequences.',
     [C + 'optimalContract.py', C + 'contract.py', C + 'tensorGraph.py'],
     [('contractAndCostWithSequence', C + 'optimalContract.py'), ('copyTensorList', C + 'optimalContract.py'), ('contractTensorList', C + 'optimalContract.py')],
     'exhaustive enumeration of small networks and of all contraction sequences on the real code against exact einsum', NP,
     ['labels and data of the contraction result'])

prop('C03', 'Copies share nothing: contraction and copying leave their inputs untouched',
     'Contracting on copies (the default), copying a tensor, a list of tensors or building a tensor from an array leaves every '
     'input exactly as it was: data, label of every axis, legs and connections. The copies reproduce data, labels and '
     'the connections among the copied tensors, and no later write to a copy, result or source array, or to a vector or matrix taken of a tensor, shows up on the other side.',
     ['inputs', 'histories'],
     'every small network and every non-destructive operation on it, followed by writes to each side',
     'Aliasing shows only when one side is modified afterwards; the tests check values of results, not what happened to the operands for all networks and kinds.',
     [C + 'optimalContract.py', T + 'tensor.py', T + 'diagonalTensor.py', 'src/CTL/tensornetwork/tensornetwork.py'],
     [('copyTensorList', C + 'optimalContract.py'), ('copy / toTensorLike', T + 'tensor.py'), ('generateData', T + 'tensor.py'), ('FiniteTensorNetwork.contract', 'src/CTL/tensornetwork/tensornetwork.py')],
     'exhaustive enumeration of small networks and operations, snapshot comparison before/after and mutation of each side', NP,
     ['Tensor.a, labels, legs and bonds of inputs before and after'])

prop('C04', 'The automatic contraction order is a cheapest one and costs are truthful',
     'For every network the automatically generated sequence contracts all tensors and has the least total cost over all pairwise '
     'orders, with brute-force or pruned search, under real or typical dimensions, and the reported optimal cost is that minimum (a step costs the product of all '
     'dimensions involved, the output size if one operand is diagonal, the common dimension if two diagonal operands share a bond; outer products of '
     'two diagonal tensors within one connected part are not considered). The cost reported after executing a sequence is the sum of '
     'the real costs of its steps. Edges added to a tensor graph after it was queried or searched count. The greedy order contracts connected pairs while there are any, a smallest result first.',
     ['inputs', 'configurations'],
     'every multigraph on up to 4 tensors (5 sparse), 0..2 bonds per pair, dense/diagonal assignments, dimension menus, three cost models',
     'Optimality quantifies over all orders; the tests compare two searches on three fixed networks.',
     [C + 'tensorGraph.py', C + 'optimalContract.py'],
     [('optimalContractSequence', C + 'tensorGraph.py'), ('contractCost', C + 'optimalContract.py'), ('generateGreedySequence', C + 'optimalContract.py')],
     'explicit-state exploration of all contraction trees of every small network, compared with both searches of the implementation',
     'The cost model of the reference is the documented one; complete within the stated bounds only.',
     ['sequences returned', 'optimalCostResult', 'cost returned by contractAndCostWithSequence'])

exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read())

DONE = [p['id'] for p in P if os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))]


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []
    for p in P:
        if p['id'] in DONE:
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['_technique'], 'level': 'model_checking', 'level_note': p['_note']})
    na = [{'property': p['id'], 'reason': p.get('_na', 'the check for this property is not built yet')} for p in P if p['id'] not in DONE]
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Checks import the working tree of /repo (pure Python, nothing to build) and explore it exhaustively within the bounds printed in the evidence. No hooks were added to /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print('%d properties, %d claimed' % (len(P), len(checks)))


main()
