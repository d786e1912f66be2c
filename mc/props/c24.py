"""C24: the numeric back end in use is the selected one.

Space: all histories of selections (two recording back ends and numpy) and operations up to a depth, over one operation per code path.
A recording back end wraps numpy; its arrays are of its own class and refuse to be handed to numpy functions called by anybody
else, as the arrays of a GPU library would.  After a selection
  - no other back end is asked for anything,
  - no numpy function is called behind the back of the selected one,
  - every array produced belongs to the selected one,
  - the values are those numpy gives.
"""
import itertools
import types

import numpy as np

import CTL
import CTL.funcs.xplib as xplib
import CTL.funcs.funcs as funcs
from CTL.funcs.decompose import SVDDecomposition
from CTL.funcs.graphFuncs import squareLatticePBC
from CTL.funcs.linalg import solveEnv
from CTL.tensor.tensor import Tensor
from CTL.tensor.diagonalTensor import DiagonalTensor
from CTL.tensor.tensorFunc import tensorSVDDecomposition
from CTL.tensor.contract.contract import contractTwoTensors, merge
from CTL.tensor.contract.contractExp import squareContractFTN, triangleTensorTrace
from CTL.tensor.contract.link import makeLink
from CTL.tensor.contract.optimalContract import contractTensorList
from CTL.models.Ising import squareIsingTensor, plaquetteIsingTensor, IsingTNFromUndirectedGraph
from CTL.examples.HOTRG import HOTRG
from CTL.examples.TRG import SquareTRG, TriangleTRG
from CTL.examples.CTMRG import CTMRG
from CTL.examples.MPS import createMPSFromTensor
from CTL.examples.Schimdt import SchimdtDecomposition

from mc.model import generic

PROPERTY = 'C24'
RULE = 'all histories of selections and operations up to the depth bound, each operation standing for one code path'
ASSUMPTIONS = ['recording proxies around numpy stand for other back ends']
CASE_CPU_S = 120.0


class Foreign(Exception):
    pass


DEPTH = [0]
#: functions no operator or method of an array reaches
NO_OPERATOR = {'exp', 'log', 'cosh', 'sinh', 'tanh', 'sin', 'cos', 'exp2', 'log2', 'log10', 'expm1', 'log1p', 'arctan', 'arcsin', 'arccos'}


class BackArray(np.ndarray):
    def __array_function__(self, func, types_, args, kwargs):
        if not DEPTH[0]:
            raise Foreign('numpy.%s was called directly' % func.__name__)
        return super().__array_function__(func, types_, args, kwargs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if not DEPTH[0] and ufunc.__name__ in NO_OPERATOR:
            raise Foreign('numpy.%s was called directly' % ufunc.__name__)
        own = type(self)
        inputs = [x.view(np.ndarray) if isinstance(x, BackArray) else x for x in inputs]
        out = kw.get('out')
        if out is not None:
            kw['out'] = tuple(x.view(np.ndarray) if isinstance(x, BackArray) else x for x in out)
        res = getattr(ufunc, method)(*inputs, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(res, own)


class PArray(BackArray):
    pass


class QArray(BackArray):
    pass


def wrap(x, cls):
    if isinstance(x, np.ndarray):
        return x.view(cls)
    if type(x) in (tuple, list):
        return type(x)(wrap(y, cls) for y in x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[wrap(y, cls) for y in x])
    return x


class Recorder:
    def __init__(self, cls, real=np, log=None, path='xp'):
        self.__dict__.update(_cls=cls, _real=real, _log=log if log is not None else [], _path=path)

    def __getattr__(self, name):
        if name == 'asnumpy':
            return lambda a: np.asarray(a).view(np.ndarray)
        v = getattr(self._real, name)
        self._log.append(name)
        if isinstance(v, types.ModuleType):
            return Recorder(self._cls, v, self._log, self._path + '.' + name)
        if isinstance(v, type) or not callable(v):
            return v
        cls, log = self._cls, self._log

        def call(*a, **k):
            log.append(name + '()')
            DEPTH[0] += 1
            try:
                return wrap(v(*a, **k), cls)
            finally:
                DEPTH[0] -= 1
        if isinstance(v, np.ufunc):
            for m in ('outer', 'reduce', 'accumulate', 'at'):
                def sub(*a, m=m, **k):
                    log.append(name + '.' + m + '()')
                    DEPTH[0] += 1
                    try:
                        return wrap(getattr(v, m)(*a, **k), cls)
                    finally:
                        DEPTH[0] -= 1
                setattr(call, m, sub)
        return call


BACK = {'P': Recorder(PArray), 'Q': Recorder(QArray), 'N': np}
CLS = {'P': PArray, 'Q': QArray, 'N': np.ndarray}


# ------------------------------------------------------------------------------------------------ operations
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def arr(shape, seed=0, cplx=False):
    return xplib.xp.array(generic(shape, seed, cplx))


def sym(n):
    a = generic((n, n), 2)
    return xplib.xp.array(a @ a.T)


def ten(labels, shape, seed=0, **k):
    return Tensor(data=arr(shape, seed), labels=list(labels), **k)


def dia(labels, n, seed=0):
    return DiagonalTensor(data=arr((n,), seed), labels=list(labels))


def pair(a, b, links):
    for x, y in links:
        makeLink(x, y, a, b)
    return a, b


@op
def create():
    return [ten('ab', (2, 3)), Tensor(data=arr((6,)), shape=(2, 3)), dia('abc', 2)]


@op
def createRandom():
    t, d = Tensor(shape=(2, 3)), DiagonalTensor(shape=(2, 2))
    ok = bool((t.a >= 0).all() and (t.a < 1).all() and t.a.std() > 0)
    return [ok, Same(t.a), Same(d.a)]


class Same:
    """An array whose class is judged but not its value."""

    def __init__(self, a):
        self.a = a


@op
def contract():
    return [contractTwoTensors(*pair(ten('ab', (2, 3)), ten('bc', (3, 2), 1), [('b', 'b')]))]


@op
def contractAll():
    a, b, c = ten('ab', (2, 3)), ten('bc', (3, 2), 1), ten('ca', (2, 2), 2)
    makeLink('b', 'b', a, b)
    makeLink('c', 'c', b, c)
    makeLink('a', 'a', c, a)
    return [contractTensorList([a, b, c])]


@op
def outer():
    return [contractTwoTensors(ten('a', (2,)), ten('b', (3,), 1), outProductWarning=False)]


@op
def diagonalDense():
    return [contractTwoTensors(*pair(dia('abc', 2), ten('xy', (2, 3), 1), [('a', 'x')])),
            contractTwoTensors(*pair(dia('abc', 2), ten('xy', (2, 2), 1), [('a', 'x'), ('b', 'y')])),
            contractTwoTensors(*pair(dia('ab', 2), ten('xy', (2, 2), 1), [('a', 'x'), ('b', 'y')])),
            contractTwoTensors(*pair(dia('ab', 2), ten('xyz', (2, 2, 2), 1), [('a', 'x'), ('b', 'y')]))]


@op
def diagonalDiagonal():
    return [contractTwoTensors(*pair(dia('ab', 2), dia('xyz', 2, 1), [('a', 'x')])),
            contractTwoTensors(*pair(dia('ab', 2), dia('xy', 2, 1), [('a', 'x'), ('b', 'y')])),
            contractTwoTensors(dia('ab', 2), dia('xy', 3, 1), outProductWarning=False)]


@op
def diagonalDenseOuter():
    return [contractTwoTensors(dia('ab', 2), ten('x', (3,), 1), outProductWarning=False)]


@op
def shaping():
    t = ten('abc', (2, 3, 2))
    u = t.copy()
    u.outProduct(['a', 'c'], 'd')
    v = t.copy()
    v.moveLabelsToFront(['c'])
    w = t.copy()
    w.reArrange(['b', 'c', 'a'])
    return [u, v, w, t.toMatrix(rows=['a'], cols=['c', 'b']), t.toVector(), t.toTensor(['c', 'a', 'b'])]


@op
def numbers():
    t = ten('abc', (2, 3, 2))
    d = dia('ab', 3)
    one = Tensor(data=arr(()))
    return [t.norm(), t.trace(rows=['a'], cols=['c']) if False else ten('ab', (3, 3)).trace(rows=['a'], cols=['b']), d.norm(), d.trace(), one.single()]


@op
def summing():
    out = []
    for weights in (None, arr((3,), 4)):
        t = ten('abc', (2, 3, 2))
        t.sumOutLeg(t.getLeg('b'), weights=weights)
        d = dia('abc', 3)
        d.sumOutLeg(d.getLeg('b'), weights=weights)
        out += [t, d]
    return out


@op
def diagonalShaping():
    d = dia('ab', 3)
    return [d.toMatrix(rows=['a'], cols=['b']), d.toTensor(['b', 'a']), d.copy(), d.toVector()]


@op
def merging():
    out = []
    for chi in (None, 2):
        a, b = pair(ten('axy', (2, 2, 3)), ten('byx', (3, 3, 2), 1), [('x', 'x'), ('y', 'y')])
        a, b = merge(a, b, chi=chi, renameWarning=False) if chi else merge(a, b, renameWarning=False)
        out += [Same(a.a), Same(b.a), contractTwoTensors(a, b)]
    return out


@op
def schmidt():
    a, b = pair(ten('axc', (2, 3, 2)), ten('bxd', (2, 3, 2), 1), [('x', 'x')])
    u, s, v = SchimdtDecomposition(a, b, chi=3)
    return [Same(u.a), s.a, Same(v.a), u.shape, v.shape]


@op
def svd():
    r = SVDDecomposition(arr((3, 4)), 2)
    t = tensorSVDDecomposition(ten('abc', (2, 3, 2)), rows=['a'], cols=['b', 'c'], chi=2)
    return [Same(x) for x in r if isinstance(x, np.ndarray)] + [Same(x.a) for x in (t.values() if isinstance(t, dict) else t) if hasattr(x, 'a')]


@op
def environment():
    p, e = solveEnv(sym(3), 2)
    return [Same(p), float(e)]


@op
def helpers():
    a = sym(3)
    return [funcs.ndEye(2, 3), funcs.diagonalNDTensor(arr((3,)), 2), funcs.randomArray((2, 2)).shape, funcs.transposeConjugate(a), funcs.aDaggerAProduct(a),
            funcs.aADaggerProduct(a), float(funcs.identityError(a)), float(funcs.symmetricError(a)), float(funcs.diagError(a)), float(funcs.matDiffError(a, a)),
            funcs.sumOnAxis(a, 0), funcs.sumOnAxis(a, 1, arr((3,))), funcs.normalizeInfinity(a), funcs.nonZeroElementN(a), funcs.partialInverse([2.0, 0.0], 1),
            Same(funcs.randomArray((2, 2)))]


@op
def ising():
    return [squareIsingTensor(0.4), squareIsingTensor(0.4, 'M', symmetryBroken=0.2), plaquetteIsingTensor(0.3), plaquetteIsingTensor([0.3, 0.4], diamondForm=True)]


@op
def isingNetwork():
    return [contractTensorList(IsingTNFromUndirectedGraph(squareLatticePBC(2, 2, weight=0.3)))]


SHARED = []


@op
def template():
    if not SHARED:
        SHARED.append(squareContractFTN())
    t = ten('uldr', (2, 2, 2, 2))
    return [SHARED[0].contract({k: t for k in ('ul', 'ur', 'dl', 'dr')})]


@op
def triangle():
    return [triangleTensorTrace(ten('123', (2, 2, 2)), ten('123', (2, 2, 2), 1))]


@op
def hotrg():
    rg = HOTRG(squareIsingTensor(0.4), chiH=2)
    for _ in range(3):
        rg.iterate()
    return [Same(rg.a.a)] + [float(x) for x in rg.logZDensity()]


@op
def trg():
    rg = SquareTRG(squareIsingTensor(0.4), chi=3)
    r2 = TriangleTRG(0.5, chi=3)
    for _ in range(2):
        rg.iterate()
        r2.iterate()
    return [Same(rg.a.a), Same(r2.b.a)] + [float(x) for x in rg.logZDensity()] + [float(x) for x in r2.logZDensity()]


@op
def ctmrg():
    c = CTMRG(plaquetteIsingTensor(0.3, diamondForm=True), chi=3)
    return [float(c.getZ(4)), float(c.getZ(5))]


@op
def mps():
    m = createMPSFromTensor(ten('abc', (2, 3, 2)), chi=20)
    m.swap(0, 1)
    m.canonicalize(1)
    return [m.toTensor().norm()] + [Same(m.getTensor(i).a) for i in range(3)]


# ------------------------------------------------------------------------------------------------ histories
def bounds(tier):
    return {'operations': len(OPS), 'selections': 3, 'depth': 3 if tier == 'thorough' else 2}


HEAVY = {'hotrg', 'trg', 'ctmrg', 'isingNetwork', 'mps'}


def cases(tier):
    yield {'h': [['N', None]]}
    for o in OPS:
        for s in itertools.product('PQN', repeat=3):
            yield {'h': [[x, o] for x in s]}
        for s in 'PQ':
            yield {'h': [[s, o]]}
            yield {'h': [['N', None], [s, o], ['N', o]]}
    light = [o for o in OPS if o not in HEAVY]
    for a, b in itertools.permutations(light, 2):
        for s in itertools.permutations('PQN', 2):
            yield {'h': [[s[0], a], [s[1], b]]}
        if tier == 'thorough':
            for c in light:
                if len({a, b, c}) == 3:
                    for s in ('PQP', 'PQN', 'NPQ'):
                        yield {'h': [[s[0], a], [s[1], b], [s[2], c]]}


REFERENCE = {}


def values(name):
    np.random.seed(3)
    return OPS[name]()


def plain(x):
    if hasattr(x, 'legs'):
        return x.a
    return x


def reference(name):
    if name not in REFERENCE:
        CTL.setXP(np)
        REFERENCE[name] = [None if isinstance(x, Same) else np.array(plain(x)) for x in values(name)]
    return REFERENCE[name]


def run_case(case, ctx):
    try:
        for _, name in case['h']:
            if name:
                reference(name)
        CTL.setXP(np)
        for k, (sel, name) in enumerate(case['h']):
            CTL.setXP(BACK[sel])
            ctx.check(xplib.xp is BACK[sel], 'the selected back end is not in use')
            for b in 'PQ':
                BACK[b]._log.clear()
            ctx.step()
            if name is None:
                continue
            where = 'after %r: ' % (case['h'][:k + 1],)
            try:
                got = values(name)
            except Foreign as e:
                ctx.fail(where + str(e))
            for b in 'PQ':
                ctx.check(b == sel or not BACK[b]._log, lambda: where + 'back end %s is asked for %r although %s is selected' % (b, BACK[b]._log[:5], sel))
            for want, g in zip(reference(name), got):
                a = g.a if isinstance(g, Same) else plain(g)
                if isinstance(a, np.ndarray):
                    ctx.check(type(a) is CLS[sel] or (sel == 'N' and not isinstance(a, BackArray)), lambda: where + 'an array of class %s results' % type(a).__name__)
                if want is not None:
                    a = np.array(np.asarray(a).view(np.ndarray) if isinstance(a, np.ndarray) else a)
                    ctx.check(a.shape == want.shape and np.allclose(a, want, rtol=1e-9, atol=1e-12), lambda: where + 'the value %r differs from numpy\'s %r' % (a, want))
            ctx.state([sel, name, case['h'][:k]])
            ctx.outcome(name)
        ctx.trace()
    finally:
        CTL.setXP(np)
        SHARED.clear()
