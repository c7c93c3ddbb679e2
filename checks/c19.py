"""C19  Renormalisation (corner transfer matrix, TRG, HOTRG) is exact as long as nothing has to be truncated."""
import numpy as np
import model as M
from harness import Skip

ID = 'C19'
FACTOR = 2          # multiplies the case counts of both tiers
RULE = 'distinct (tensor, dimensions, bond limit, schedule) tuples'
ASSUMPTIONS = ['reference values are dense contractions of the lattice with numpy (row by row)', 'real tensors, as the algorithms are written for']


# ---------------------------------------------------------------- reference
def torus(grid):
    """value of a torus of tensors [u, l, d, r] given as rows of arrays"""
    total = None
    for row in grid:
        # row transfer tensor: u1..un -> d1..dn, with the horizontal loop closed
        t = None
        for a in row:
            # t: [l0, U.., D.., r]
            if t is None:
                t = np.transpose(a, (1, 0, 2, 3))        # l0 u d r
                t = t.reshape(t.shape[0], a.shape[0], a.shape[2], a.shape[3])
            else:
                x = np.tensordot(t, a, ((3,), (1,)))      # l0 U D u d r
                x = np.transpose(x, (0, 1, 3, 2, 4, 5))
                t = x.reshape(x.shape[0], x.shape[1] * x.shape[2], x.shape[3] * x.shape[4], x.shape[5])
        m = np.trace(t, axis1=0, axis2=3)
        total = m if total is None else total @ m
    return np.trace(total)


def openboard(grid):
    """value of a board of tensors [u, l, d, r] whose outer legs are summed over"""
    state = None
    for row in grid:
        t = None
        for a in row:
            if t is None:
                t = np.sum(a, axis=1)                     # u d r
            else:
                x = np.tensordot(t, a, ((2,), (1,)))      # U D u d r
                x = np.transpose(x, (0, 2, 1, 3, 4))
                t = x.reshape(x.shape[0] * x.shape[1], x.shape[2] * x.shape[3], x.shape[4])
        m = np.sum(t, axis=2)
        state = np.ones(m.shape[0]) @ m if state is None else state @ m
    return np.sum(state)


def make(rng, a, dof=None):
    """CTL tensor with the legs u, l, d, r of the array a, in a random order"""
    from CTL.tensor.tensor import Tensor
    p = rng.permutation(4)
    kw = {} if dof is None else {'degreeOfFreedom': dof}
    return Tensor(data=np.ascontiguousarray(np.transpose(a, p)), labels=['uldr'[i] for i in p], **kw)


def data(rng, shape, positive):
    k = int(rng.integers(4))
    if positive or k == 0:
        return rng.random(shape) + 0.05
    if k == 1:
        return rng.normal(size=shape)
    if k == 2:
        return rng.integers(-2, 3, size=shape).astype(float) + 0.1 * rng.normal(size=shape)
    return rng.random(shape) - 0.2


# ---------------------------------------------------------------- corner transfer matrix
def ctmrg(rng, mon):
    from CTL.examples.CTMRG import CTMRG
    dh = dv = int(rng.integers(1, 4))
    a = data(rng, (dv, dh, dv, dh), rng.random() < 0.4)
    # reflection symmetric, as the method assumes (one corner, two edges)
    a = a + np.transpose(a, (2, 1, 0, 3))
    a = a + np.transpose(a, (0, 3, 2, 1))
    big = max(dh, dv)
    maxL = 7 if big == 1 else (6 if big == 2 else 5)
    Ls = [int(rng.integers(1, maxL + 1)) for _ in range(int(rng.integers(1, 6)))]
    chi = big ** (max(max(Ls) // 2, 1)) + int(rng.integers(0, 4))
    mon.note('ctmrg', dh, dv, Ls, chi, a.tobytes())
    t = make(rng, a)
    before = np.array(t.a)
    c = CTMRG(t, chi=chi)
    for L in Ls:
        z = float(c.getZ(L))
        want = openboard([[a] * L] * L)
        sc = openboard([[np.abs(a)] * L] * L)
        corners = [c.getTensorAndScale('corner', i)[0] for i in range(len(c.records['corner']))] + [c.tensors['corner']]
        if any(x.shape[0] != dh ** (i + 1) or np.min(np.abs(x.a)) < 1e-6 * np.max(np.abs(x.a)) for i, x in enumerate(corners[:max(L // 2, 1) - 1])):
            raise Skip()        # a singular corner projects the edges onto its range, by design
        mon.trace('L', L, z, want)
        mon.equal(z, want, 'board of {0}x{0} tensors'.format(L), tol=1e-7, scale=sc, kind='odd' if L % 2 else 'even')
        if L == max(Ls) and L > 1:
            mon.event('largest')
    for e in c.errors:
        mon.check(np.isfinite(e) and abs(e) < 1e-6, lambda: 'truncation error {} reported without truncation'.format(e), kind='no_error')
    mon.equal(np.asarray(t.a), before, 'the given tensor was changed', kind='input_kept')
    if len(set(Ls)) < len(Ls):
        mon.event('repeated')
    if any(x > y for x, y in zip(Ls, Ls[1:])):
        mon.event('out_of_order')


def ctmrg_truncated(rng, mon):
    """bond limits are respected, and Ising boards stay accurate"""
    from CTL.examples.CTMRG import CTMRG
    from CTL.models.Ising import squareIsingTensor
    beta = float(rng.uniform(0.1, 1.0))
    chi = int(rng.integers(1, 5))
    L = int(rng.integers(2, 8))
    mon.note('ctmrg truncated', beta, chi, L)
    t = squareIsingTensor(beta)
    a = np.asarray(t.toTensor(['u', 'l', 'd', 'r']))
    c = CTMRG(t, chi=chi)
    z = float(c.getZ(L))
    for n in c.tensors:
        mon.check(max(x for x, l in zip(c.tensors[n].shape, c.tensors[n].labels)) <= max(chi, 2), lambda: 'bond of {} exceeds {}'.format(c.tensors[n], chi), kind='limit')
    mon.check(c.tensors['corner'].shape[0] <= chi and c.tensors['corner'].diagonalFlag, 'corner exceeds the limit', kind='limit')
    mon.check(len(c.errors) == max(1, L // 2), lambda: '{} errors for {} truncations'.format(len(c.errors), L // 2), kind='errors')
    for e in c.errors:
        mon.check(-1e-9 <= e <= 1 + 1e-9, lambda: 'error {}'.format(e), kind='errors')
    want = openboard([[a] * L] * L)
    # positive weights: truncated singular vectors can only lose weight that the errors account for
    rel = abs(z / want - 1)
    bound = 4 * L * sum(np.sqrt(max(e, 0)) for e in c.errors) + 1e-6
    mon.check(rel <= bound or chi < 2, lambda: 'board {}: {} observed, {} expected, errors {}'.format(L, z, want, c.errors), kind='accurate')
    mon.event('truncated' if max(c.errors) > 1e-12 else 'exact')


# ---------------------------------------------------------------- TRG on the square lattice
def square_trg(rng, mon):
    from CTL.examples.TRG import SquareTRG
    it = int(rng.integers(1, 3))
    if it == 1:
        dh, dv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    else:
        dh, dv = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    a = data(rng, (dv, dh, dv, dh), True)
    dof = [None, 1, 2, 5][int(rng.integers(4))]
    chi = (dh * dv) ** it + int(rng.integers(0, 3))
    mon.note('trg', it, dh, dv, dof, chi, a.tobytes())
    raw = bool(rng.random() < 0.2 and dof is None and dh == dv)
    if raw:
        from CTL.tensor.tensorFactory import makeSquareTensor
        arr = np.asarray(makeSquareTensor(np.array(a)).toTensor(['u', 'l', 'd', 'r']))
        t = np.array(a)
        a = arr
    else:
        t = make(rng, a, dof)
    trg = SquareTRG(t, chi=chi)
    for _ in range(it):
        trg.iterate()
    d = np.asarray(trg.logZDensity())
    n = 1 if dof is None else dof
    # one tensor; two tensors on the rotated torus; four tensors on the 2x2 torus
    want = [np.log(np.einsum('abab->', a)) / n, np.log(np.einsum('uldr,drul->', a, a)) / (2 * n)]
    if it == 2:
        want.append(np.log(torus([[a, a], [a, a]])) / (4 * n))
    mon.equal(d, np.array(want), 'free energy per site', tol=1e-8, scale=1 + np.max(np.abs(want)), kind='density')
    for e in trg.errors:
        mon.check(max(abs(x) for x in e) < 1e-6, lambda: 'error {} without truncation'.format(e), kind='no_error')
    mon.event('iterated{}'.format(it))


def trg_limit(rng, mon):
    """low-rank tensors: exact below the full bond dimension; limits are respected in general"""
    from CTL.examples.TRG import SquareTRG
    d = int(rng.integers(2, 4))
    r = int(rng.integers(1, 3))
    # A[u,l,d,r] = sum over a few product terms: both cuts have rank <= r
    a = sum(np.einsum('a,b,c,d->abcd', *[rng.random(d) + 0.1 for _ in range(4)]) for _ in range(r))
    low = bool(rng.random() < 0.6)
    chi = r if low else int(rng.integers(1, d * d))
    mon.note('trg limit', d, r, chi, low, a.tobytes())
    trg = SquareTRG(make(rng, a), chi=chi)
    trg.iterate()
    mon.check(max(trg.a.shape) <= chi, lambda: 'bond dimensions {} exceed {}'.format(trg.a.shape, chi), kind='limit')
    if low or chi >= r:
        want = np.log(np.einsum('uldr,drul->', a, a)) / 2
        mon.equal(np.asarray(trg.logZDensity())[1], want, 'free energy per site of a low-rank tensor', tol=1e-8, scale=1 + abs(want), kind='density')
        mon.event('low_rank')
    else:
        mon.event('truncated')
        e = max(abs(x) for x in trg.errors[0])
        mon.check(0 < e <= 1, lambda: 'error {}'.format(e), kind='error_reported')


# ---------------------------------------------------------------- TRG on the triangular lattice
def triangle_trg(rng, mon):
    from CTL.examples.TRG import TriangleTRG
    from CTL.tensor.contract.contractExp import triangleTensorTrace
    al = float([rng.random(), rng.random() * 3, 1.0, 0.0][int(rng.integers(4))])
    chi = int(rng.integers(4, 8))
    mon.note('triangle', al, chi)
    t = TriangleTRG(al, chi=chi)
    t.iterate()
    A = np.zeros((2, 2, 2))
    A[0, 0, 0] = 1
    A[0, 0, 1] = A[0, 1, 0] = A[1, 0, 0] = al
    I = np.einsum('xab,xcd->abcd', A, A)
    z0 = np.einsum('abc,abc->', A, A)
    z1 = np.einsum('psqt,rwps,qtrw->', I, I, I)
    n = [float(np.log(x) + np.log(y)) for x, y in zip(t.aNorms, t.bNorms)]
    tr = [float(np.asarray(triangleTensorTrace(t.aArchive[i], t.bArchive[i]).a)) for i in range(2)]
    mon.equal(np.exp(n[0]) * tr[0], z0, 'pair of triangles', tol=1e-9, kind='pair')
    mon.equal(np.exp(3 * n[0] + n[1]) * tr[1], z1, 'six triangles after one iteration', tol=1e-9, kind='six')
    mon.equal(t.logZDensity()[0], np.log(z0), 'free energy of one pair', tol=1e-9, kind='density')
    for i in range(2):
        mon.check(abs(np.linalg.norm(np.asarray(t.aArchive[i].a)) - 1) < 1e-9, 'archived tensor is not normalised', kind='normalised')
    mon.check(abs(t.errors[0]) < 1e-6, lambda: 'error {} without truncation'.format(t.errors[0]), kind='no_error')


# ---------------------------------------------------------------- HOTRG
def hotrg(rng, mon):
    from CTL.examples.HOTRG import HOTRG
    dh, dv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    it = int(rng.integers(1, 4)) if max(dh, dv) <= 2 else int(rng.integers(1, 3))
    if dh == dv == 2:
        it = min(it, 2 + (rng.random() < 0.1))
    a = data(rng, (dv, dh, dv, dh), True)
    dof = [None, 1, 2, 7][int(rng.integers(4))]
    chi = max(dh, dv) ** (2 ** it)
    chi = min(chi, 40)
    same = bool(rng.random() < 0.5)
    mon.note('hotrg', it, dh, dv, dof, chi, same, a.tobytes())
    h = HOTRG(make(rng, a, dof), chiH=chi) if same else HOTRG(make(rng, a, dof), chiH=chi, chiV=chi + 1)
    rows = cols = 1
    n = 1 if dof is None else dof
    want = [np.log(np.einsum('abab->', a)) / n]
    for i in range(it):
        h.iterate()
        if h.directChoices[-1] in 'lr':
            rows *= 2
        else:
            cols *= 2
        want.append(np.log(torus([[a] * cols] * rows)) / (n * rows * cols))
        mon.check(h.a.degreeOfFreedom == n * rows * cols, lambda: 'degrees of freedom {}'.format(h.a.degreeOfFreedom), kind='dof')
    if max(abs(e) for e in h.errors) > 1e-8:
        raise Skip()
    mon.equal(np.asarray(h.logZDensity()), np.array(want), 'free energy per site', tol=3e-4, scale=1 + np.max(np.abs(want)), kind='density')
    for i in range(it + 1):
        mon.check(abs(np.linalg.norm(np.asarray(h.aArchive[i].a)) - 1) < 1e-9, 'archived tensor is not normalised', kind='normalised')
    mon.event('iterated{}'.format(it))


def hotrg_limit(rng, mon):
    from CTL.examples.HOTRG import HOTRG
    dh, dv = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    a = data(rng, (dv, dh, dv, dh), True)
    ch, cv = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    it = int(rng.integers(1, 4))
    mon.note('hotrg limit', dh, dv, ch, cv, it, a.tobytes())
    h = HOTRG(make(rng, a), chiH=ch, chiV=cv)
    dims = {'h': dh, 'v': dv}
    for i in range(it):
        old = np.asarray(h.a.toTensor(['u', 'l', 'd', 'r']))
        h.iterate()
        c = h.directChoices[-1]
        nu, nl, nd, nr = h.a.shapeOfLabels(['u', 'l', 'd', 'r'])
        p = np.asarray(h.projectors[-1])
        mon.equal(p.T @ p, np.eye(p.shape[1]), 'projector is an isometry', tol=1e-8, kind='isometry')
        mon.check(nu == nd and nl == nr, 'dimensions of opposite legs differ', kind='square')
        if c in 'lr':
            mon.check(nl <= ch and nu == old.shape[0], lambda: 'limits {} {}: dimensions {}'.format(ch, cv, h.a.shape), kind='limit')
        else:
            mon.check(nu <= cv and nl == old.shape[1], lambda: 'limits {} {}: dimensions {}'.format(ch, cv, h.a.shape), kind='limit')
        # the four candidate projectors: the one with the smallest discarded weight was taken
        env = {}
        for d in 'udlr':
            if d in 'lr':
                m2 = np.einsum('uldr,dLeR->uelLrR', old, old)
                x = m2.reshape(m2.shape[0] * m2.shape[1], m2.shape[2] * m2.shape[3], -1)
                mat = np.einsum('xly,xmy->lm', x, x) if d == 'l' else None
                if d == 'r':
                    x = np.transpose(m2, (0, 1, 4, 5, 2, 3)).reshape(m2.shape[0] * m2.shape[1], m2.shape[4] * m2.shape[5], -1)
                    mat = np.einsum('xly,xmy->lm', x, x)
                lim = ch
            else:
                m2 = np.einsum('uldr,UrDR->uUldDR', old, old)  # u U l d D R
                if d == 'u':
                    x = m2.reshape(m2.shape[0] * m2.shape[1], -1)
                else:
                    x = np.transpose(m2, (3, 4, 0, 1, 2, 5)).reshape(m2.shape[3] * m2.shape[4], -1)
                mat = x @ x.T
                lim = cv
            w = np.linalg.eigvalsh(mat)[::-1]
            env[d] = float(1 - w[:lim].sum() / w.sum())
        mon.check(h.errors[-1] <= min(env.values()) + 1e-7, lambda: 'discarded weight {} taken, {} possible'.format(h.errors[-1], env), kind='best_direction')
        mon.check(abs(h.errors[-1] - env[c]) < 1e-7, lambda: 'reported error {} for direction {}, {} expected'.format(h.errors[-1], c, env), kind='error_true')
        if h.errors[-1] > 1e-9:
            mon.event('truncated')


def tnr(rng, mon):
    """Evenbly's TNR: exact when the limits suffice (two steps of the lattice are one of the new one);
    isometries and limits otherwise"""
    from CTL.examples.TNR import doTNR
    q = 2
    def bond(strength):
        # a positive symmetric matrix, as reflection symmetric models with ferromagnetic couplings have
        b = np.abs(rng.standard_normal()) * strength
        m = np.exp(b * np.array([[1.0, -1.0], [-1.0, 1.0]]))
        f = np.exp(rng.standard_normal(q) * 0.3)
        m = m * f[:, None] * f[None, :]
        w, v = np.linalg.eigh(m)
        return v @ np.diag(np.sqrt(np.maximum(w, 0))) @ v.T
    h, v = bond(0.5) , bond(0.5)
    a = np.einsum('sa,sb,sc,sd->abcd', h, v, h, v)           # l u r d
    exact = rng.random() < 0.5
    lim = [int(rng.integers(16, 40)) for _ in range(5)] if exact else [int(x) for x in rng.integers(1, 5, 5)]
    mon.note('tnr', exact, tuple(lim), a.tobytes())
    b = a.copy()
    A, qM, sM, uM, yM, vM, wM, norm, errs = doTNR(a, lim, disiter=100 if exact else 60, miniter=10, dispon=False)
    mon.check(np.array_equal(a, b), 'the given tensor was changed', kind='unchanged')
    mon.equal(np.linalg.norm(A), 1.0, 'norm of the new tensor', tol=1e-9, kind='normalised')
    for name, x, k in (('q', qM, lim[0]), ('v', vM, lim[3]), ('w', wM, lim[4])):
        m = x.reshape(-1, x.shape[2])
        mon.check(m.shape[1] <= max(k, 1), lambda: '{} has dimension {}, limit {}'.format(name, m.shape[1], k), kind='limit')
        mon.equal(m.T @ m, np.eye(m.shape[1]), name + ' is an isometry', tol=1e-8, kind='isometry')
    mon.check(A.shape == (vM.shape[2], wM.shape[2], vM.shape[2], wM.shape[2]), lambda: 'shape {}'.format(A.shape), kind='square')
    if exact:
        up = lambda t: np.transpose(t, (1, 0, 3, 2))          # l u r d -> u l d r
        want = torus([[up(a)] * 4] * 4)
        got = norm ** 4 * torus([[up(A)] * 2] * 2)
        mon.equal(got, want, 'four by four torus after one step', tol=1e-7, kind='tnr_exact', scale=abs(want))
        mon.check(max(abs(e) for e in errs) < 1e-7, lambda: 'errors {} although nothing is truncated'.format(errs), kind='error_true')
    else:
        mon.event('tnr_limited')


def known_density(rng, mon):
    from CTL.examples.TRG import TriangleTRG
    t = TriangleTRG(0.7, chi=16)
    t.iterate()
    A = np.zeros((2, 2, 2))
    A[0, 0, 0] = 1
    A[0, 0, 1] = A[0, 1, 0] = A[1, 0, 0] = 0.7
    I = np.einsum('xab,xcd->abcd', A, A)
    mon.equal(t.logZDensity()[1], np.log(np.einsum('psqt,rwps,qtrw->', I, I, I)) / 3, 'free energy density after one iteration')


def known_two(rng, mon):
    from CTL.examples.TRG import SquareTRG
    a, b = rng.random((2, 2, 2, 2)), rng.random((2, 2, 2, 2))
    SquareTRG(make(rng, a), make(rng, b), chi=16)


WORKLOADS = [
    ('ctmrg', ctmrg, 400, 4000),
    ('ctmrg_truncated', ctmrg_truncated, 150, 1500),
    ('square_trg', square_trg, 600, 6000),
    ('trg_limit', trg_limit, 600, 6000),
    ('triangle_trg', triangle_trg, 150, 1000),
    ('tnr', tnr, 60, 600),
    ('hotrg', hotrg, 300, 3000),
    ('hotrg_limit', hotrg_limit, 300, 3000),
]
REQUIRED_OBS = ['tnr.tnr_exact', 'tnr.tnr_limited', 'ctmrg.odd', 'ctmrg.even', 'ctmrg.repeated', 'ctmrg.out_of_order', 'square_trg.iterated1', 'square_trg.iterated2', 'trg_limit.low_rank',
                'trg_limit.truncated', 'hotrg.iterated1', 'hotrg.iterated2', 'hotrg_limit.truncated', 'ctmrg_truncated.truncated']
KNOWN = {'triangle-density': known_density, 'two-tensors': known_two}
