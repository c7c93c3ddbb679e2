"""C13  Decompositions: isometries, singular values, best approximation, reported errors."""
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C13'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (matrix shape and spectrum kind, truncation, options) or (tensor, rows, columns, options) tuples'
ASSUMPTIONS = ['numpy.linalg.eigvalsh of the Gram matrix, independent of the SVD used by CTL, is right']


def spectrum(rng, k):
    """singular values of different characters"""
    r = int(rng.integers(7))
    if r == 6:
        s = 10.0 ** (-rng.random(k) * 13)
        s[0] = 1.0
    elif r == 0:
        s = rng.random(k) + 0.05
    elif r == 1:
        s = np.ones(k) * float(rng.choice([1.0, 3.0]))           # degenerate
    elif r == 2:
        s = 10.0 ** (-rng.random(k) * 6)
    elif r == 3:
        s = (rng.random(k) + 0.1) * (rng.random(k) < 0.6)         # rank deficient
        s[0] = 1.0
    elif r == 4:
        s = np.repeat(rng.random(k) + 0.1, 2)[:k]                 # pairs
    else:
        s = rng.random(k) * 1e3
    return np.sort(s)[::-1], r


def unitary(rng, n, cplx):
    a = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cplx else 0)
    return np.linalg.qr(a)[0]


def matrix(rng):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    k = min(n, m)
    s, r = spectrum(rng, k)
    cplx = bool(rng.random() < 0.4)
    a = (unitary(rng, n, cplx)[:, :k] * s) @ unitary(rng, m, cplx)[:k]
    return a, s, (n, m, r, cplx)


def exact_error(mon, err, want, s, kk, order):
    """as accurate as the singular values allow, also when next to nothing is discarded"""
    d = 200 * np.finfo(float).eps * s[0]
    unc = (((s[kk:] + d) ** order).sum() - (s[kk:] ** order).sum()) / (s ** order).sum()
    mon.check(abs(err - want) <= unc + 1e-9 * want, lambda: 'reported error {!r}, discarded weight {!r} (uncertainty {:.2g})'.format(err, want, unc), 'value_compared')


def svd(rng, mon):
    from CTL.funcs.decompose import SVDDecomposition
    a, s, sig = matrix(rng)
    k = len(s)
    chi = int(rng.integers(1, k + 4))
    order = int(rng.choice([1, 2, 2, 2, 4]))
    if rng.random() < 0.2:                # far from unit size, short of overflow
        e = float(rng.choice([-1, 1])) * (60 if order == 4 else 101)
        a, s = a * 10.0 ** e, s * 10.0 ** e
        mon.event('far_from_unit_size')
    mon.note('svd {} chi={} order={}'.format(sig, chi, order), s)
    a0 = a.copy()
    u, ss, vh, err = SVDDecomposition(a, chi, returnSV=True, errorOrder=order)
    kk = min(chi, k)
    sc = s[0]
    mon.check(u.shape == (a.shape[0], kk) and vh.shape == (kk, a.shape[1]) and np.shape(ss) == (kk,),
              lambda: 'shapes {} {} {} for {} chi {}'.format(u.shape, np.shape(ss), vh.shape, a.shape, chi), 'shape')
    mon.equal(u.conj().T @ u, np.eye(kk), 'left isometry')
    mon.equal(vh @ vh.conj().T, np.eye(kk), 'right isometry')
    mon.equal(ss, s[:kk], 'singular values', scale=sc)
    d = np.linalg.norm((u * ss) @ vh - a)
    mon.check(abs(d - np.sqrt((s[kk:] ** 2).sum())) <= 1e-9 * sc * k, lambda: 'approximation error {} but the best is {}'.format(d, np.sqrt((s[kk:] ** 2).sum())), 'optimal')
    want = 0.0 if chi >= k else (s[chi:] ** order).sum() / (s ** order).sum()
    exact_error(mon, err, want, s, kk, order)
    if chi < k and s[chi] > 0:
        mon.event('truncated')
    # default: the singular values are split evenly between two factors, a ~ left @ right^dagger
    l, r, err2 = SVDDecomposition(a, chi, errorOrder=order)
    exact_error(mon, err2, want, s, kk, order)
    mon.equal(l @ r.conj().T, (u * ss) @ vh, 'product of the two factors', scale=sc)
    mon.equal(l.conj().T @ l, np.diag(s[:kk]), 'weight of the left factor', scale=sc)
    mon.equal(r.conj().T @ r, np.diag(s[:kk]), 'weight of the right factor', scale=sc)
    mon.check(np.array_equal(a, a0), 'the matrix was changed', 'input_unchanged')


def env(rng, mon):
    from CTL.funcs.linalg import solveEnv
    n = int(rng.integers(1, 9))
    cplx = bool(rng.random() < 0.4)
    s, r = spectrum(rng, n)
    if rng.random() < 0.1:
        s = np.zeros(n)
    q = unitary(rng, n, cplx)
    a = (q * s) @ q.conj().T
    a = (a + a.conj().T) / 2
    chi = int(rng.integers(1, n + 3))
    thr = float(rng.choice([1e-10, 1e-8]))
    exist = int((s > max(thr, 1e-12 * s[0])).sum())
    if ((s > thr * 1e-3) & (s < thr * 1e3)).any() or (s[0] > 0 and thr < 1e-13 * s[0]):
        raise Skip()
    mon.note('environment n={} kind={} chi={} complex={}'.format(n, r, chi, cplx), s)
    p, err = (solveEnv(a, chi) if thr == 1e-10 and rng.random() < 0.7 else solveEnv(a, chi, threshold=thr))
    k = min(chi, exist)
    mon.check(p.shape == (n, k), lambda: 'projector of shape {}; {} eigenvalues above the threshold, chi {}'.format(p.shape, exist, chi), 'shape')
    if k == 0:
        mon.event('nothing_kept')
        return
    mon.equal(p.conj().T @ p, np.eye(k), 'isometry')
    mon.equal(p.conj().T @ a @ p, np.diag(s[:k]), 'kept eigenvalues, largest first', scale=s[0])
    mon.equal(err, 0.0 if chi > exist else 1 - s[:chi].sum() / s.sum(), 'reported error')
    if chi < exist:
        mon.event('truncated')
    else:
        mon.equal(p @ p.conj().T @ a, a, 'nothing is lost', scale=s[0])


def tensor_svd(rng, mon):
    from CTL.tensor.tensorFunc import tensorSVDDecomposition, isIsometry
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.contract.optimalContract import contractTensorList
    s = M.gen_network(rng, 1, p_diag=0.25, p_free=0.85, max_dim=4, max_rank=5, size_cap=700, kind=str(rng.choice(['real', 'complex', 'pos', 'sparse'])))
    a = M.build(rng, s)[0]
    if a.dim == 0:
        raise Skip()
    labels = [a.labels[i] for i in rng.permutation(a.dim)]
    k = int(rng.integers(0, len(labels) + 1))
    rows, cols = labels[:k], labels[k:]
    if not rows or not cols:
        raise Skip()                      # the name of the leg would be empty
    mode = int(rng.integers(3))
    kw = {}
    if mode != 1:
        kw['rows'] = list(rows)
    else:
        rows = [l for l in a.labels if l not in cols]
    if mode != 2:
        kw['cols'] = list(cols)
    else:
        cols = [l for l in a.labels if l not in rows]
    if rng.random() < 0.7:
        kw['chi'] = int(rng.integers(1, 20))
    if rng.random() < 0.4:
        kw['innerLabels'] = ('in1', 'in2')
    if rng.random() < 0.3:
        kw['preserveLegs'] = bool(rng.random() < 0.7)     # documented to be ignored: the tensor keeps its legs
    order = int(rng.choice([1, 2, 4]))
    if rng.random() < 0.5:
        kw['errorOrder'] = order
    else:
        order = 2
    mon.note('tensor svd of {} rows {} cols {} {}'.format(s.describe(), rows, cols, sorted(kw.items(), key=str)), s.sig())
    full = np.array(a.toTensor(list(rows) + list(cols)))
    n = int(np.prod(full.shape[:len(rows)]))
    mat = full.reshape(n, -1)
    sv = np.linalg.svd(mat, compute_uv=False)
    if sv[0] == 0:
        raise Skip()
    before = M.snapshot([a])
    d = tensorSVDDecomposition(a, **kw)
    M.same_snapshot(mon, before, [a], 'decomposition')
    u, ss, v = d['u'], d['s'], d['v']
    kk = min(kw.get('chi', 16), len(sv))
    rn, cn = '|'.join(rows), '|'.join(cols)
    i1, i2 = kw.get('innerLabels', ('inner:' + rn, 'inner:' + cn))
    mon.check(list(u.labels) == [rn, i1] and list(v.labels) == [i2, cn] and list(ss.labels) == [rn, cn],
              lambda: 'labels {} {} {}'.format(u.labels, ss.labels, v.labels), 'labels_compared')
    mon.check(tuple(u.shape) == (n, kk) and tuple(ss.shape) == (kk, kk) and tuple(v.shape) == (kk, mat.shape[1]),
              lambda: 'shapes {} {} {}'.format(u.shape, ss.shape, v.shape), 'shape_compared')
    mon.check(ss.diagonalFlag, 'singular values are not a diagonal tensor', 'labels_compared')
    mon.equal(np.array(ss.a), sv[:kk], 'singular values', scale=sv[0])
    want = 0.0 if kk == len(sv) else (sv[kk:] ** order).sum() / (sv ** order).sum()
    mon.equal(d['error'], want, 'reported error')
    mon.check(isIsometry(u, [rn]), 'u is not an isometry', 'isometry')
    mon.check(isIsometry(v, [cn]), 'v is not an isometry', 'isometry')
    makeLink(u.getLeg(i1), ss.getLeg(rn))
    makeLink(v.getLeg(i2), ss.getLeg(cn))
    prod = contractTensorList([u, ss, v])
    got = np.array(prod.toTensor([rn, cn]))
    best = np.sqrt((sv[kk:] ** 2).sum())
    dist = np.linalg.norm(got - mat)
    mon.check(abs(dist - best) <= 1e-8 * sv[0] * len(sv), lambda: 'u s v is {} away from the tensor, {} is the best'.format(dist, best), 'optimal')
    if kk < len(sv):
        mon.event('truncated')


def isometry(rng, mon):
    from CTL.tensor.tensorFunc import isIsometry
    from CTL.tensor.tensor import Tensor
    dims = [int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 5)))]
    k = int(rng.integers(0, len(dims) + 1))
    p, q = int(np.prod(dims[:k])), int(np.prod(dims[k:]))     # rows: remaining legs, columns: given labels
    cplx = bool(rng.random() < 0.5)
    if p > q:
        good = False
        mat = unitary(rng, p, cplx)[:, :q].copy()              # columns orthonormal, rows cannot be
    else:
        good = True
        mat = unitary(rng, q, cplx)[:p].copy()
    eps = 1e-10
    kw = {}
    change = float(rng.choice([0, 0, 1e-5, 1e-2, 1.0]))
    if good and change:
        mat = mat * (1 + change) if rng.random() < 0.5 else mat + change * (np.abs(mat) == np.abs(mat).max())
        good = bool(np.linalg.norm(mat @ mat.conj().T - np.eye(p)) < eps)
        if rng.random() < 0.4:
            eps = float(rng.choice([1e-3, 0.1, 3.0]))
            kw['eps'] = eps
            e = np.linalg.norm(mat @ mat.conj().T - np.eye(p))
            if 0.5 * eps < e < 2 * eps:
                raise Skip()
            good = bool(e < eps)
    labels = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))[:len(dims)]]
    perm = rng.permutation(len(dims))
    t = Tensor(data=np.transpose(mat.reshape(dims), perm), labels=[labels[i] for i in perm])
    given = [labels[k:][i] for i in rng.permutation(len(dims) - k)]
    mon.note('isometry {} over {} change {} eps {}'.format(dims, given, change, eps), labels, cplx)
    before = M.snapshot([t])
    r = isIsometry(t, list(given), **kw)
    mon.check(bool(r) == good, lambda: 'isIsometry says {} for deviation {} eps {}'.format(r, np.linalg.norm(mat @ mat.conj().T - np.eye(p)), eps), 'isometry_' + str(good))
    M.same_snapshot(mon, before, [t], 'isIsometry')
    like = t.toTensorLike()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        mon.check(isIsometry(like, list(given), warningFlag=True) is True, 'data-free tensor', 'datafree')
        mon.check(len(w) > 0, 'no warning for a data-free tensor', 'datafree')
    mon.raises(AssertionError, lambda: isIsometry(t, ['no such label']), 'unknown label')


WORKLOADS = [
    ('svd', svd, 6000, 100000),
    ('env', env, 4000, 60000),
    ('tensor_svd', tensor_svd, 5000, 80000),
    ('isometry', isometry, 5000, 80000),
]
REQUIRED_OBS = ['svd.truncated', 'env.truncated', 'env.nothing_kept', 'tensor_svd.truncated', 'isometry.isometry_True', 'isometry.isometry_False']
