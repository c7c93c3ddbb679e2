"""C21  Another numpy-like library can do all the numerics: same results, on its own arrays."""
import warnings
import numpy as np
import model as M
import fakexp
from harness import Skip, Violation

ID = 'C21'
FACTOR = 3          # multiplies the case counts of both tiers
RULE = 'distinct (kind of computation, generated input) tuples, each run with numpy and with the stand-in library'
ASSUMPTIONS = ['lib/fakexp.py stands in for cupy (none is installed): arrays that refuse implicit conversion and numpy operands, 0-dimensional reductions']


class Out(list):
    """(name, value, must be an array of the library)"""

    def add(self, name, value, own=True):
        self.append((name, value, own))

    def tensor(self, name, t):
        self.add(name + ' labels', list(t.labels), False)
        self.add(name + ' shape', [int(x) for x in t.shape], False)
        if not t.tensorLikeFlag:
            self.add(name + ' data', t.a)
            self.add(name + ' dtype', str(t.a.dtype), False)


def plain(x):
    if isinstance(x, fakexp.Array):
        return x.get()
    return x


def run(fn, seed, lib, strict=False):
    import CTL
    out = Out()
    CTL.setXP(lib)
    fakexp.strict = strict and lib is not np
    try:
        np.random.seed(seed % 2**31)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            fn(np.random.default_rng(seed), lib, out)
    finally:
        fakexp.strict = False
        CTL.setXP(np)
    return out


def lockstep(fn):
    def wl(rng, mon):
        seed = int(rng.integers(2**31))
        mon.note(fn.__name__, seed)
        first = bool(rng.random() < 0.5)
        if first:
            a = run(fn, seed, np)
        n0 = sum(fakexp.calls.values())
        strict = bool(seed % 4)
        b = run(fn, seed, fakexp.xp, strict)
        used = sum(fakexp.calls.values()) - n0
        if not first:
            a = run(fn, seed, np)           # switching back works, too
            mon.event('switched_back')
        mon.event('library_calls', used)
        mon.event('strict' if strict else 'dispatching')
        mon.check(len(a) == len(b), lambda: '{} observations with numpy, {} with the other library'.format(len(a), len(b)), kind='observations')
        for (n1, x, own), (n2, y, _) in zip(a, b):
            if own:
                mon.check(not isinstance(x, fakexp.Array), lambda: n1 + ': array of the other library while numpy is set', kind='own_arrays')
                if isinstance(x, np.ndarray):
                    mon.check(isinstance(y, fakexp.Array), lambda: '{}: {} instead of an array of the library in use'.format(n1, type(y)), kind='own_arrays')
            x, y = plain(x), plain(y)
            if isinstance(x, (str, list, tuple, bool, type(None))) and not (isinstance(x, (list, tuple)) and x and isinstance(x[0], (float, complex, np.generic, np.ndarray))):
                mon.check(x == y, lambda: '{}: {!r} with numpy, {!r} with the other library'.format(n1, x, y), kind='same')
            else:
                try:
                    x, y = np.asarray(x), np.asarray(y if not isinstance(y, (list, tuple)) else [plain(v) for v in y])
                except Exception as e:
                    raise Violation('{}: {!r}'.format(n1, e))
                mon.equal(y, x, n1, tol=1e-9, kind='same_value')
    return wl


def arr(rng, lib, shape, kind=None):
    return lib.array(np.asarray(M.rdata(rng, shape, kind or M.pick_kind(rng))))


# ---------------------------------------------------------------- computations
def network(rng, lib, out):
    from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, generateOptimalSequence, contractAndCostWithSequence, copyTensorList
    s = M.gen_network(rng, int(rng.integers(1, 6)), p_diag=0.3, max_dim=3, out_cap=300, connected=bool(rng.random() < 0.8))
    M.label_network(rng, s)
    ts = M.build(rng, s, lib=lib)
    for i, t in enumerate(ts):
        out.tensor('tensor {}'.format(i), t)
    lab = [s.label[s.ends[e][0]] for e in s.free()]
    out.add('plan', [tuple(int(v) for v in x) for x in generateOptimalSequence(list(ts), typicalDim=None)], False)
    res, cost = contractAndCostWithSequence(list(ts), greedy=bool(rng.random() < 0.5))
    out.add('cost', int(cost), False)
    if not res.diagonalFlag:
        out.add('value', res.toTensor(lab))
    for t in (contractTensorList(list(ts)), contractWithSequence(copyTensorList(list(ts)), inplace=True)):
        out.add('value', t.toTensor(lab))
        out.add('norm', t.norm(), False)


def operations(rng, lib, out):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    r = int(rng.integers(1, 5))
    names = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))[:r]]
    k = M.pick_kind(rng)
    if rng.random() < 0.3:
        d = int(rng.integers(1, 4))
        t = DiagonalTensor(data=arr(rng, lib, (d,), k), labels=list(names), shape=(d,) * r)
    else:
        t = Tensor(data=arr(rng, lib, tuple(int(x) for x in rng.integers(1, 4, r)), k), labels=list(names))
    out.tensor('made', t)
    for _ in range(int(rng.integers(2, 7))):
        op = int(rng.integers(9))
        n = len(t.labels)
        lab = [t.labels[i] for i in rng.permutation(n)]
        if op == 0 and n:
            t.moveLabelsToFront(lab[:int(rng.integers(n + 1))])
        elif op == 1 and n:
            t.reArrange(lab)
        elif op == 2 and n:
            i = int(rng.integers(n + 1))
            out.add('matrix', t.toMatrix(rows=lab[:i], cols=lab[i:]))
        elif op == 3:
            out.add('vector', t.toVector())
        elif op == 4 and n:
            w = None
            if rng.random() < 0.5:
                w = arr(rng, lib, (t.shapeOfLabel(lab[0]),), 'real')
            t.sumOutLegByLabel(lab[0], weights=w)
        elif op == 5 and n >= 2 and not t.diagonalFlag:
            t.outProduct(lab[:2], 'm{}'.format(_))
        elif op == 6:
            t = t.copy()
        elif op == 7:
            out.add('norm', t.norm(), False)
        elif op == 8 and n == 2 and t.shape[0] == t.shape[1]:
            out.add('trace', t.trace(rows=[lab[0]], cols=[lab[1]]), False)
        out.tensor('after {}'.format(op), t)
    out.add('dense', t.toTensor(list(t.labels)))
    if not t.labels:
        out.add('single', t.single(), False)


def factories(rng, lib, out):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.tensorFactory import makeSquareTensor, makeTriangleTensor
    import CTL.funcs.funcs as F
    sh = tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(1, 4))))
    t = Tensor(shape=sh)
    out.add('random shape', list(t.shape), False)
    out.add('random data is an array of the library', isinstance(t.a, lib.ndarray), False)
    for dt in (lib.complex128, lib.float32, lib.complex64):
        out.tensor('random', Tensor(shape=sh, dtype=dt))
    dt = [lib.float64, lib.complex128, lib.int64][int(rng.integers(3))]
    out.tensor('unit', DiagonalTensor(shape=(d0 := int(rng.integers(1, 4)),) * 2, dtype=dt))
    out.tensor('unit scalar', DiagonalTensor(shape=(), dtype=dt))
    out.tensor('diagonal of', DiagonalTensor(data=arr(rng, lib, (d0, d0)), labels=['p', 'q']))
    out.tensor('scalar', DiagonalTensor(data=arr(rng, lib, ())))
    out.tensor('reshaped', Tensor(data=arr(rng, lib, (2, 3, d0)), shape=(3, 2 * d0)))
    d = int(rng.integers(1, 4))
    out.add('eye', F.ndEye(int(rng.integers(1, 4)), d))
    out.tensor('diagonal', DiagonalTensor(shape=(d, d)))
    out.tensor('square', makeSquareTensor(arr(rng, lib, (d, 2, d, 2), 'real')))
    out.tensor('triangle', makeTriangleTensor(arr(rng, lib, (d, d, 2), 'real')))
    out.add('ndEye', F.diagonalNDTensor(arr(rng, lib, (d,), 'real'), dim=int(rng.integers(1, 4))))
    out.add('nonzero', int(F.nonZeroElementN(arr(rng, lib, (5,), 'sparse'))), False)
    a, b = arr(rng, lib, (3, d), 'real'), arr(rng, lib, (d,), 'real')
    out.add('right product', F.rightDiagonalProduct(a, b))
    out.add('left product', F.leftDiagonalProduct(arr(rng, lib, (d, 2), 'complex'), b))


def helpers(rng, lib, out):
    import CTL.funcs.funcs as F
    m, n = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    k = ['real', 'complex'][int(rng.integers(2))]
    a, b, q = arr(rng, lib, (m, n), k), arr(rng, lib, (m, n), k), arr(rng, lib, (m, m), k)
    for name, f, x in [('identityError', F.identityError, (a,)), ('diagError', F.diagError, (q,)), ('symmetricError', F.symmetricError, (q,)),
                       ('transposeConjugate', F.transposeConjugate, (a,)), ('aDaggerA', F.aDaggerAProduct, (a,)), ('aADagger', F.aADaggerProduct, (a,)),
                       ('projectorError', F.projectorError, (a,)), ('difference', F.matDiffError, (a, b)), ('getDiffError', F.getDiffError, (a, b)),
                       ('normalised', F.normalizeInfinity, (a,)), ('partialInverse', F.partialInverse, (arr(rng, lib, (n,), 'real'), int(rng.integers(n + 1)))),
                       ('sum', F.sumOnAxis, (a, int(rng.integers(2)))), ('weighted sum', F.sumOnAxis, (a, 1, arr(rng, lib, (n,), 'real')))]:
        out.add(name, f(*x))
    out.add('identity', bool(F.checkIdentity(q)), False)
    out.add('equal', [bool(F.floatArrayEqual(a, a + (1e-9 if rng.random() < 0.5 else 1e-3))), bool(F.floatArrayEqual(a, b))], False)
    sh = tuple(int(x) for x in rng.integers(1, 4, 2))
    x = F.randomArray(sh)
    out.add('random array', [isinstance(x, lib.ndarray), tuple(x.shape)], False)
    for t1, t2 in [(lib.float32, lib.complex128), (lib.float64, lib.float32), (lib.complex64, lib.float32), (lib.float16, lib.float16)]:
        out.add('type', str(lib.dtype(F.priorDataType(lib.dtype(t1), lib.dtype(t2)))), False)


def decompositions(rng, lib, out):
    from CTL.funcs.decompose import SVDDecomposition
    from CTL.funcs.linalg import solveEnv
    from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
    from CTL.tensor.tensor import Tensor
    m, n = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    chi = int(rng.integers(1, 6))
    a = arr(rng, lib, (m, n), ['real', 'complex'][int(rng.integers(2))])
    u, v, e = SVDDecomposition(a, chi)
    out.add('product', u @ v.T)
    out.add('error', e, False)
    x = arr(rng, lib, (m, n), 'real')
    p, e = solveEnv(x @ x.T, chi)
    out.add('projector', p @ p.T)
    out.add('error', e, False)
    t = Tensor(data=arr(rng, lib, (m, n, 2), 'real'), labels=['a', 'b', 'c'])
    dec = tensorSVDDecomposition(t, rows=['a'], cols=['b', 'c'], chi=chi)
    out.add('s', dec['s'].a)
    out.add('error', dec['error'], False)
    out.add('isometric', bool(isIsometry(dec['u'], ['a'])), False)
    out.add('shape u', [int(z) for z in dec['u'].shape], False)


def merging(rng, lib, out):
    from CTL.tensor.contract.contract import merge, contractTwoTensors
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.tensor import Tensor
    from CTL.examples.Schimdt import SchimdtDecomposition
    d = [int(x) for x in rng.integers(1, 4, 4)]
    k = ['real', 'complex'][int(rng.integers(2))]
    a = Tensor(data=arr(rng, lib, (d[0], d[1], d[2]), k), labels=['x', 'p', 'q'])
    b = Tensor(data=arr(rng, lib, (d[1], d[2], d[3]), k), labels=['p', 'q', 'y'])
    makeLink('p', 'p', a, b)
    makeLink('q', 'q', a, b)
    out.add('before', contractTwoTensors(a, b).toTensor(['x', 'y']))
    chi = None if rng.random() < 0.5 else int(rng.integers(1, 5))
    a, b = merge(a, b, chi=chi, bondName='m')
    out.add('bond', int(a.shapeOfLabel('m')), False)
    out.add('merged', contractTwoTensors(a, b).toTensor(['x', 'y']))
    a = Tensor(data=arr(rng, lib, (d[0], d[1]), k), labels=['x', 'p'])
    b = Tensor(data=arr(rng, lib, (d[1], d[2]), k), labels=['p', 'y'])
    makeLink('p', 'p', a, b)
    ta, s, tb = SchimdtDecomposition(a, b, chi=5)
    out.add('coefficients', s.a)
    from CTL.tensor.contract.optimalContract import contractTensorList
    out.add('schmidt product', contractTensorList([ta, s, tb]).toTensor(['x', 'y']))


def ising(rng, lib, out):
    from CTL.funcs.graph import UndirectedGraph
    from CTL.models.Ising import (IsingTNFromUndirectedGraph, exactZFromGraphIsing, getIsingWeight, squareIsingTensor, plaquetteIsingTensor,
                                  infiniteIsingExactM, IsingEdgeMatrix, IsingSiteTensor)
    from CTL.tensor.contract.optimalContract import contractTensorList
    n = int(rng.integers(1, 6))
    g = UndirectedGraph(n)
    for _ in range(int(rng.integers(0, 8))):
        i, j = int(rng.integers(n)), int(rng.integers(n))
        g.addEdge(i, j, weight=float(rng.normal()))
    out.add('Z', exactZFromGraphIsing(g), False)
    out.add('weight', getIsingWeight(g, int(rng.integers(1 << n))), False)
    ts = IsingTNFromUndirectedGraph(g)
    for t in ts:
        out.tensor('site', t)
    out.add('network', contractTensorList(ts).single(), False)
    be = float(rng.random())
    out.tensor('square', squareIsingTensor(be, obs=[None, 'M', 'E'][int(rng.integers(3))], symmetryBroken=0.1))
    out.tensor('plaquette', plaquetteIsingTensor((be, -be)))
    out.add('magnetisation', infiniteIsingExactM(0.3 + 3 * be), False)
    out.add('edge', IsingEdgeMatrix(be))
    out.tensor('site', IsingSiteTensor(be, dim=3))


def renormalisation(rng, lib, out):
    from CTL.models.Ising import squareIsingTensor
    from CTL.examples.HOTRG import HOTRG
    from CTL.examples.TRG import SquareTRG, TriangleTRG
    from CTL.examples.CTMRG import CTMRG
    from CTL.examples.impurity import ImpurityTensorNetwork
    k = int(rng.integers(4))
    be = float(rng.uniform(0.1, 0.9))
    a = squareIsingTensor(be, symmetryBroken=0.05)
    if k == 0:
        h = HOTRG(a, chiH=4)
        for _ in range(2):
            h.iterate()
        out.add('hotrg', h.logZDensity())
        imp = ImpurityTensorNetwork([a, squareIsingTensor(be, obs='M', symmetryBroken=0.05)], 2)
        imp.setRG(h)
        for _ in range(2):
            imp.iterate()
        out.add('impurity', [plain(x) for y in imp.measureObservables() for x in y], False)
    elif k == 1:
        t = SquareTRG(squareIsingTensor(be), chi=4)
        for _ in range(2):
            t.iterate()
        out.add('trg', t.logZDensity(), False)
    elif k == 2:
        t = TriangleTRG(be, chi=4)
        t.iterate()
        out.add('triangle', [plain(x) for x in t.logZDensity()], False)
    else:
        c = CTMRG(squareIsingTensor(be), chi=4)
        out.add('ctmrg', [plain(c.getZ(L)) for L in (1, 3, 4, 2)], False)


def mps(rng, lib, out):
    from CTL.examples.MPS import makeRandomMPS, createMPSFromTensor, contractWithMPS
    from CTL.tensor.tensor import Tensor
    n = int(rng.integers(2, 5))
    dims = [int(x) for x in rng.integers(1, 3, n)]
    t = Tensor(data=arr(rng, lib, dims, 'real'), labels=[M.NAMES[i] for i in range(n)])
    lab = list(t.labels)
    m = createMPSFromTensor(t, chi=16)
    m.canonicalize(int(rng.integers(n)))
    x = m.toTensor()
    out.add('state', x.toTensor(sorted(x.labels)))
    m.moveTensor(0, int(rng.integers(n)))
    x = m.toTensor()
    out.add('moved', x.toTensor(sorted(x.labels)))


def networks_described(rng, lib, out):
    from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
    from CTL.tensor.tensor import Tensor
    f = FiniteTensorNetwork(['a', 'b', 'c'])
    f.addLink('a', 'r', 'b', 'l')
    f.addLink('b', 'r', 'c', 'l')
    f.addPostNameChange('a', 'l', 'L')
    f.addPostOutProduct(['b-u', 'c-r'], 'R')
    for _ in range(2):
        d = [int(x) for x in rng.integers(1, 4, 5)]
        res = f.contract({'a': Tensor(data=arr(rng, lib, (d[0], d[1])), labels=['l', 'r']),
                          'b': Tensor(data=arr(rng, lib, (d[1], d[2], d[3])), labels=['l', 'r', 'u']),
                          'c': Tensor(data=arr(rng, lib, (d[2], d[4])), labels=['l', 'r'])})
        out.tensor('result', res)
        out.add('value', res.toTensor(['L', 'R']))


WORKLOADS = [(f.__name__, lockstep(f), q, t) for f, q, t in [
    (network, 1200, 12000), (operations, 1500, 15000), (factories, 500, 4000), (decompositions, 800, 8000), (merging, 800, 8000),
    (ising, 500, 4000), (helpers, 400, 4000), (renormalisation, 120, 1000), (mps, 400, 4000), (networks_described, 400, 4000)]]
REQUIRED_OBS = ['network.library_calls', 'operations.library_calls', 'decompositions.library_calls', 'ising.library_calls', 'network.switched_back', 'network.own_arrays']
