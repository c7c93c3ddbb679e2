"""C16  Matrix product states: reordering, moving the centre and truncating keep the state as they should."""
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C16'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (dimensions, history of operations) tuples'


def raw_chain(rng, n, phys, virt, kind):
    """tensors of an MPS with arbitrary leg orders and names"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.contract.link import makeLink
    ts = []
    for i in range(n):
        legs = ([('L', virt[i - 1])] if i else []) + [('P', phys[i])] + ([('R', virt[i])] if i < n - 1 else [])
        legs = [legs[j] for j in rng.permutation(len(legs))]
        a = M.rdata(rng, [d for _, d in legs], kind)
        a = a / max(np.linalg.norm(a), 1e-3)
        ts.append(Tensor(data=np.array(a), labels=[x for x, _ in legs]))
    for i in range(n - 1):
        makeLink('R', 'L', ts[i], ts[i + 1])
    return ts


def state(mps):
    """dense state with one axis per site, read through the labels"""
    n = mps.n
    cur = None
    for i in range(n):
        t = mps.getTensor(i).copy()
        lab = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
        a = np.array(t.toTensor(lab))
        if cur is None:
            cur = a
        else:
            cur = np.tensordot(cur, a, axes=(cur.ndim - 1, 0))
    return cur


def structure(mon, mps, n, msg):
    mon.check(mps.n == n, lambda: '{}: {} tensors, expected {}'.format(msg, mps.n, n), 'structure')
    ts = [mps.getTensor(i) for i in range(n)]
    M.check_links(mon, ts, msg)
    for i, t in enumerate(ts):
        want = (['l'] if i else []) + ['o'] + (['r'] if i < n - 1 else [])
        mon.check(sorted(t.labels) == sorted(want), lambda: '{}: legs of site {} are {}'.format(msg, i, t.labels), 'structure')
        if i < n - 1:
            mon.check(t.getLeg('r').anotherSide() is ts[i + 1].getLeg('l'), lambda: '{}: site {} is not bonded to the next one'.format(msg, i), 'structure')


def isometric(mps, c):
    worst = 0.0
    for i in range(mps.n):
        if i == c:
            continue
        t = mps.getTensor(i).copy()
        lab = (['l'] if i else []) + ['o'] + (['r'] if i < mps.n - 1 else [])
        inner = 'r' if i < c else 'l'
        other = [x for x in lab if x != inner]
        a = np.array(t.toTensor([inner] + other))
        a = a.reshape(a.shape[0], -1)
        worst = max(worst, np.linalg.norm(a @ a.conj().T - np.eye(a.shape[0])))
    return worst


def history(rng, mon):
    from CTL.examples.MPS import FreeBoundaryMPS, makeRandomMPS
    n = int(rng.integers(2, 7))
    dmax = 3 if n < 5 else 2
    phys = [int(rng.integers(1, dmax + 1)) for _ in range(n)]
    virt = [int(rng.integers(1, 4)) for _ in range(n - 1)]
    big = 64
    made = int(rng.integers(3))
    if made == 0 :
        mps = makeRandomMPS(n, list(virt), list(phys), chi=big)
        ts = [mps.getTensor(i) for i in range(n)]
    else:
        kind = str(rng.choice(['real', 'complex', 'pos']))
        ts = raw_chain(rng, n, phys, virt, kind)
        before = M.snapshot(ts)
        given = list(ts)
        mps = FreeBoundaryMPS(ts, chi=big, inplace=(made == 1))
        if made == 2:
            M.same_snapshot(mon, before, given, 'copying constructor')
            mon.check(not any(mps.hasTensor(t) for t in given), 'the copying constructor kept a given tensor', 'structure')
    mon.check(mps.chi == big, 'chi', 'structure')
    structure(mon, mps, n, 'new MPS')
    psi = state(mps)
    mon.check(psi.shape == tuple(phys), 'physical dimensions', 'structure')
    nrm = np.linalg.norm(psi)
    if nrm < 1e-7:
        raise Skip()
    hist = ['made{}'.format(made)]
    scale = float(np.prod([np.linalg.norm(np.array(mps.getTensor(i).a)) for i in range(n)]))
    centre = None
    for _ in range(int(rng.integers(1, 9))):
        op = int(rng.integers(8))
        if op == 0:
            c = int(rng.integers(n))
            mps.canonicalize(c)
            centre = c
            hist.append('canon{}'.format(c))
            mon.check(isometric(mps, c) < 1e-8, lambda: 'after {}: not isometric (deviation {})'.format(hist, isometric(mps, c)), 'canonical')
            mon.check(mps.activeIdx == c, 'centre is not recorded', 'canonical')
            mon.check(mps.checkCanonical() is True and mps.checkCanonical(c) is True, 'checkCanonical denies it', 'canonical')
        elif op == 1:
            i = int(rng.integers(n - 1))
            x, y = (i, i + 1) if rng.random() < 0.5 else (i + 1, i)
            mps.swap(x, y)
            psi = np.swapaxes(psi, i, i + 1)
            centre = None
            hist.append('swap{}{}'.format(x, y))
            mon.check(mps.activeIdx is None, 'the centre is still recorded after a swap', 'canonical')
        elif op == 2:
            i, j = int(rng.integers(n)), int(rng.integers(n))
            mps.moveTensor(i, j, warningFlag=False)
            psi = np.moveaxis(psi, i, j)
            if i != j:
                centre = None
            hist.append('move{}-{}'.format(i, j))
        elif op == 3:
            i, j = [int(x) for x in rng.choice(n, 2, replace=False)]
            r = mps.makeAdjacent(i, j)
            lo, hi = min(i, j), max(i, j)
            psi = np.moveaxis(psi, lo, hi - 1)
            if hi - lo > 1:
                centre = None
            mon.check(tuple(r) == (hi - 1, hi), lambda: 'makeAdjacent returned {}'.format(r), 'structure')
            hist.append('adj{}-{}'.format(i, j))
        elif op == 4:
            i = int(rng.integers(n))
            t = mps.getTensor(i)
            f = float(rng.choice([2.0, -1.5]))
            t.a = t.a * f
            mps.setTensor(i, t)
            psi = psi * f
            scale *= abs(f)
            centre = None
            mon.check(mps.activeIdx is None and mps.getTensor(i) is t and mps.hasTensor(t) and mps.tensorIndex(t) == i, 'setTensor', 'structure')
            hist.append('set')
        elif op == 5:
            c = int(rng.integers(n))
            mon.check(bool(mps.checkCanonical(c)) == bool(isometric(mps, c) < 1e-10) or 1e-11 < isometric(mps, c) < 1e-9, 'checkCanonical({}) says {} but deviation is {}'.format(c, mps.checkCanonical(c), isometric(mps, c)), 'canonical')
        elif op == 6:
            cp = mps.copyOfTensors()
            mon.check(len(cp) == n and not any(mps.hasTensor(t) for t in cp), 'copyOfTensors', 'structure')
            M.check_links(mon, cp, 'copy')
            m2 = FreeBoundaryMPS(cp, chi=big)
            mon.equal(state(m2), psi, 'copied MPS', scale=scale)
            for t in cp:
                t.a = t.a * 0
        else:
            d = mps.toTensor()
            mon.check(sorted(d.shape) == sorted(phys), 'shape of the dense state', 'structure')
            mon.equal(d.norm(), nrm_of(psi), 'norm of the dense state', scale=scale)
            if len(set(psi.shape)) == n:
                order = [d.shape.index(x) for x in psi.shape]
                mon.equal(np.transpose(np.array(d.a), order), psi, 'dense state', scale=scale)
                mon.event('dense_state')
        mon.note(' '.join(hist), phys, virt)
        structure(mon, mps, n, 'after ' + ' '.join(hist))
        mon.equal(state(mps), psi, 'state after ' + ' '.join(hist), scale=scale)
        for i in range(n - 1):
            mon.check(mps.getTensor(i).getLeg('r').dim <= big, 'bond above chi', 'chi')
    mon.note(' '.join(hist), phys, virt)


def nrm_of(a):
    return np.linalg.norm(a)


def truncation(rng, mon):
    """moving the centre with a small chi: every bond obeys it, and the error is that of the discarded weights"""
    from CTL.examples.MPS import FreeBoundaryMPS
    n = int(rng.integers(2, 6))
    phys = [int(rng.integers(2, 4)) for _ in range(n)]
    virt = [int(rng.integers(1, 4)) for _ in range(n - 1)]
    chi = int(rng.integers(max(virt), max(virt) + 2)) if rng.random() < 0.4 else max(virt)
    ts = raw_chain(rng, n, phys, virt, str(rng.choice(['real', 'complex', 'pos'])))
    mps = FreeBoundaryMPS(ts, chi=chi)
    mon.check(mps.chi == chi, lambda: 'chi {} instead of {}'.format(mps.chi, chi), 'chi')
    psi = state(mps)
    nrm = np.linalg.norm(psi)
    if nrm < 1e-6:
        raise Skip()
    c = int(rng.integers(n))
    mps.canonicalize(c)
    mon.equal(state(mps), psi, 'moving the centre without need to truncate', scale=nrm)
    mon.check(isometric(mps, c) < 1e-8, 'not canonical', 'canonical')
    # exchanging two sites next to the centre truncates optimally
    i = c if c < n - 1 and rng.random() < 0.5 else max(c - 1, 0)
    if n > 1:
        mps.canonicalize(i)
        new = np.swapaxes(psi, i, i + 1)
        mat = new.reshape(int(np.prod(new.shape[:i + 1])), -1)
        sv = np.linalg.svd(mat, compute_uv=False)
        mps.swap(i, i + 1)
        k = min(chi, int((sv > 1e-10).sum()))
        if ((sv > 1e-13) & (sv < 1e-8)).any():
            raise Skip()
        best = np.sqrt((sv[k:] ** 2).sum())
        d = np.linalg.norm(state(mps) - new)
        mon.check(abs(d - best) <= 1e-8 * (1 + nrm) * n, lambda: 'error {} after an exchange, the best is {}'.format(d, best), 'optimal')
        mon.check(mps.getTensor(i).getLeg('r').dim == k, lambda: 'bond {} expected {}'.format(mps.getTensor(i).getLeg('r').dim, k), 'chi')
        if k < len(sv) and sv[k] > 1e-8:
            mon.event('truncated')
    mon.note('n {} phys {} virt {} chi {} centre {}'.format(n, phys, virt, chi, c), float(nrm))


def refusals(rng, mon):
    from CTL.examples.MPS import FreeBoundaryMPS, makeRandomMPS
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.contract.link import makeLink
    n = int(rng.integers(2, 6))
    phys, virt = [2] * n, [int(rng.integers(1, 4)) for _ in range(n - 1)]
    k = int(rng.integers(5))
    mon.note('refusal {} n {}'.format(k, n), virt)
    if k == 0:
        mon.raises(ValueError, lambda: FreeBoundaryMPS([], chi=3), 'no tensors')
        ts = raw_chain(rng, n, phys, virt, 'real')
        ts[0], ts[-1] = ts[-1], ts[0]
        if n > 3:
            mon.raises(ValueError, lambda: FreeBoundaryMPS(ts, chi=3), 'tensors that do not form a chain')
    elif k == 1:
        a = Tensor(shape=(2, 2, 2), labels=['a', 'b', 'c'])
        b = Tensor(shape=(2, 2), labels=['a', 'b'])
        makeLink('a', 'a', a, b)
        mon.raises(ValueError, lambda: FreeBoundaryMPS([a, b], chi=3), 'an end with two free legs')
    elif k == 2:
        mps = FreeBoundaryMPS(raw_chain(rng, n, phys, virt, 'real'), chi=20)
        mon.raises(AssertionError, lambda: mps.checkCanonical(), 'no centre known')
        mon.raises(AssertionError, lambda: mps.canonicalize(n), 'centre outside')
        mon.raises(AssertionError, lambda: mps.canonicalize(-1), 'centre outside')
        mon.raises(AssertionError, lambda: mps.swap(0, 2), 'sites that are not neighbours')
        mon.raises(AssertionError, lambda: mps.swap(n - 1, n), 'site outside')
        mon.raises(AssertionError, lambda: mps.moveTensor(0, n), 'site outside')
        mon.raises(AssertionError, lambda: mps.makeAdjacent(0, 0), 'the same site twice')
        mon.raises(AssertionError, lambda: mps.setTensor(n, None), 'site outside')
        mon.check(mps.isIndex(n - 1) and not mps.isIndex(n) and not mps.isIndex(-1), 'isIndex', 'structure')
        structure(mon, mps, n, 'after refusals')
    elif k == 3:
        low = max(virt) - 1
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            mps = makeRandomMPS(n, virt[0], 3, chi=-1)
        mon.check(mps.chi == virt[0] and all(mps.getTensor(i).getLeg('o').dim == 3 for i in range(n)), 'random MPS of equal dimensions', 'structure')
        structure(mon, mps, n, 'random MPS')
        for i in range(n):
            mon.equal(mps.getTensor(i).norm(), 1.0, 'norm of a random tensor')
    else:
        mon.raises(AssertionError, lambda: makeRandomMPS(1, 2, 2), 'a single tensor')
        mon.raises(AssertionError, lambda: makeRandomMPS(n, [2] * n, 2), 'wrong number of dimensions')
        mon.raises(AssertionError, lambda: makeRandomMPS(n, 2, [2] * (n + 1)), 'wrong number of dimensions')


def known_chi(rng, mon):
    """without an explicit chi the largest bond should be taken"""
    from CTL.examples.MPS import FreeBoundaryMPS
    mps = FreeBoundaryMPS(raw_chain(rng, 3, [2, 2, 2], [2, 2], 'real'))
    mon.check(mps.chi == 2, 'chi {} for bonds of dimension 2'.format(mps.chi))


WORKLOADS = [('history', history, 2500, 40000), ('truncation', truncation, 2500, 30000), ('refusals', refusals, 600, 5000)]
REQUIRED_OBS = ['history.canonical', 'history.dense_state', 'truncation.truncated', 'refusals.rejection_observed']
KNOWN = {'chi-from-bonds': known_chi}
