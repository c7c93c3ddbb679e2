"""C15  Schmidt decomposition of two bonded tensors (and of vectors and matrices)."""
import numpy as np
import model as M
from harness import Skip

ID = 'C15'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (pair of tensors, truncation, mode, exchanged legs) tuples'


def pair(rng, mon):
    from CTL.examples.Schimdt import SchimdtDecomposition
    from CTL.tensor.contract.contract import contractTwoTensors
    from CTL.tensor.contract.optimalContract import contractTensorList
    from CTL.tensor.contract.contract import shareBonds
    like = bool(rng.random() < 0.2)
    n = int(rng.integers(2, 4))
    s = M.gen_network(rng, n, p_diag=0.15, p_free=0.55, max_dim=3, max_rank=5, size_cap=600, out_cap=1000, extra=int(rng.integers(0, 3)),
                      kind=str(rng.choice(['real', 'complex', 'pos', 'sparse'])), mixed_kind=False)
    ts = M.build(rng, s, like=like)
    a, b = ts[0], ts[1]
    rest = ts[2:]
    sh = [l for l in a.legs if l.bond is not None and l.anotherSide().tensor is b]
    if not sh:
        mon.raises(AssertionError, lambda: SchimdtDecomposition(a, b, chi=3), 'tensors without a common bond')
        mon.note(s.describe(), s.sig())
        return
    shared_b = [l.anotherSide() for l in sh]
    ra, rb = [l for l in a.legs if l not in sh], [l for l in b.legs if l not in shared_b]
    # exchange some legs of equal number
    k = int(rng.integers(0, 3))
    sw = ([], [])
    if k and len(ra) >= k and len(rb) >= k:
        sw = ([ra[i].name for i in rng.permutation(len(ra))[:k]], [rb[i].name for i in rng.permutation(len(rb))[:k]])
        # the exchanged legs must not collide with labels on the other side
        keepA = [l.name for l in a.legs if l.name not in sw[0]]
        keepB = [l.name for l in b.legs if l.name not in sw[1]]
        if set(sw[0]) & set(keepB) or set(sw[1]) & set(keepA):
            sw = ([], [])
    root = bool(rng.random() < 0.5)
    chi = int(rng.choice([1, 2, 3, 4, 1000]))
    mon.note('{} chi {} root {} exchange {}'.format(s.describe(), chi, root, sw), s.sig(), like)
    # model: matrix of the product between the new sides
    e0 = {l.name: s.tensors[0]['edges'][a.legs.index(l)] for l in ra}
    e1 = {l.name: s.tensors[1]['edges'][b.legs.index(l)] for l in rb}
    left = [(l.name, e0[l.name]) for l in ra if l.name not in sw[0]] + [(x, e1[x]) for x in sw[1]]
    right = [(l.name, e1[l.name]) for l in rb if l.name not in sw[1]] + [(x, e0[x]) for x in sw[0]]
    da, db = s.dense(0), s.dense(1)
    prod = M.contract_dense([da, s.tensors[0]['edges'], db, s.tensors[1]['edges']], [e for _, e in left + right])
    pl = int(np.prod([s.dims[e] for _, e in left]))
    mat = prod.reshape(pl, -1)
    sv = np.linalg.svd(mat, compute_uv=False)
    if sv[0] == 0 or ((sv > 1e-13) & (sv < 1e-8)).any():
        raise Skip()
    want = s.value()
    scale = float(np.prod([np.linalg.norm(s.dense(t)) for t in range(n)]))
    na, nb = [l.name for l in sh], [l.name for l in shared_b]
    before = M.snapshot(rest)
    # when the same pair is decomposed, the order of the two arguments only mirrors the result
    kw = {} if sw == ([], []) and rng.random() < 0.5 else {'swapLabels': sw}
    u, mid, v = SchimdtDecomposition(a, b, chi, squareRootSeparation=root, **kw)
    M.same_snapshot(mon, before, rest, 'decomposition')
    net = [u] + ([] if mid is None else [mid]) + [v] + rest
    M.check_links(mon, net, 'after decomposition')
    mon.check((mid is None) == root, 'diagonal tensor given back: {}'.format(mid), 'mode')
    kk = min(chi, int((sv > 1e-10).sum()))
    if like:
        kk = min(chi, mat.shape[0], mat.shape[1], int(np.prod([l.dim for l in sh])))
    lu = [l for l in u.legs if l.bond is not None and l.anotherSide().tensor in (mid, v)]
    lv = [l for l in v.legs if l.bond is not None and l.anotherSide().tensor in (mid, u)]
    mon.check(len(lu) == 1 and len(lv) == 1, 'not exactly one bond to each side', 'one_bond')
    mon.check(lu[0].name in na and lv[0].name in nb, lambda: 'new legs {} {} for bonds {} {}'.format(lu[0].name, lv[0].name, na, nb), 'labels_compared')
    mon.check(lu[0].dim == kk and lv[0].dim == kk, lambda: 'bond of dimension {}, expected {}'.format(lu[0].dim, kk), 'dimension')
    mon.check(sorted(l.name for l in u.legs if l is not lu[0]) == sorted(x for x, _ in left) and sorted(l.name for l in v.legs if l is not lv[0]) == sorted(x for x, _ in right),
              lambda: 'legs {} | {}; expected {} | {}'.format(u.labels, v.labels, left, right), 'labels_compared')
    if like:
        mon.check(u.tensorLikeFlag and v.tensorLikeFlag and u.a is None and v.a is None, 'data appeared', 'datafree')
        mon.event('datafree_pairs')
        return
    # matrices of both sides through the labels (labels are unique within a side unless the new leg collides)
    if len(set(u.labels)) != len(u.labels) or len(set(v.labels)) != len(v.labels):
        raise Skip()
    mu = np.array(u.copy().toTensor([x for x, _ in left] + [lu[0].name])).reshape(pl, kk)
    mv = np.array(v.copy().toTensor([lv[0].name] + [x for x, _ in right])).reshape(kk, mat.shape[1])
    if root:
        mon.equal(mu.conj().T @ mu, np.diag(sv[:kk]), 'left weight', scale=sv[0])
        mon.equal(mv @ mv.conj().T, np.diag(sv[:kk]), 'right weight', scale=sv[0])
        got = mu @ mv
    else:
        mon.check(mid.diagonalFlag and tuple(mid.shape) == (kk, kk), 'middle tensor {}'.format(mid), 'mode')
        mon.equal(mu.conj().T @ mu, np.eye(kk), 'left isometry')
        mon.equal(mv @ mv.conj().T, np.eye(kk), 'right isometry')
        mon.equal(np.array(mid.a), sv[:kk], 'Schmidt values', scale=sv[0])
        got = (mu * sv[:kk]) @ mv
    d, best = np.linalg.norm(got - mat), np.sqrt((sv[kk:] ** 2).sum())
    mon.check(abs(d - best) <= 1e-8 * sv[0] * len(sv), lambda: '{} away from the product, the best is {}'.format(d, best), 'optimal')
    if kk == int((sv > 1e-10).sum()):
        res = contractTensorList(net, outProductWarning=False)
        if len(set(s.free_labels())) == len(s.free_labels()):
            mon.equal(M.observe(mon, res, s.free_labels(), 'network'), want, 'network after decomposition', scale=scale)
        mon.event('exact')
    else:
        mon.event('truncated')
    if sw[0]:
        mon.event('exchanged')


def matrices(rng, mon):
    from CTL.examples.Schimdt import matrixSchimdtDecomposition
    d = int(rng.integers(1, 5))
    r = int(rng.integers(1, 5))
    one = bool(rng.random() < 0.4)
    s0 = 1 if one else int(rng.integers(1, 5))
    sh = (d * r,) if one else (s0, d * r)
    a = np.array(M.rdata(rng, sh, str(rng.choice(['real', 'complex', 'pos']))))
    if not one and s0 > 1 and rng.random() < 0.3:
        a[1] = a[0] * 2
    chi = None if rng.random() < 0.4 else int(rng.integers(1, 6))
    mon.note('matrix {} dim {} chi {}'.format(sh, d, chi), a.dtype.kind, float(a.flat[0].real))
    mat = a.reshape(s0 * d, r)
    sv = np.linalg.svd(mat, compute_uv=False)
    k = min(chi or 1000, int((sv > 1e-10).sum()))
    a0 = a.copy()
    u, v = matrixSchimdtDecomposition(a, d, chi) if chi is not None or rng.random() < 0.5 else matrixSchimdtDecomposition(a, dim=d)
    mon.check(np.array_equal(a, a0), 'the matrix was changed', 'input_unchanged')
    mon.check(u.shape == ((d, k) if one else (s0, d, k)) and v.shape == (k, r), lambda: 'shapes {} {}'.format(u.shape, v.shape), 'shape')
    mu = u.reshape(s0 * d, k)
    mon.equal(mu.conj().T @ mu, np.eye(k), 'isometry')
    mon.equal(v @ v.conj().T, np.diag(sv[:k] ** 2), 'weights', scale=sv[0] ** 2)
    dist, best = np.linalg.norm(mu @ v - mat), np.sqrt((sv[k:] ** 2).sum())
    mon.check(abs(dist - best) <= 1e-8 * sv[0] * len(sv), lambda: '{} away, best {}'.format(dist, best), 'optimal')
    mon.raises(AssertionError, lambda: matrixSchimdtDecomposition(a, d * r + 1, chi), 'dimension that does not divide')
    mon.raises(AssertionError, lambda: matrixSchimdtDecomposition(a, 0, chi), 'dimension 0')
    mon.raises(AssertionError, lambda: matrixSchimdtDecomposition(a.reshape((1, 1) + sh), d, chi), 'more than two axes')


WORKLOADS = [('pair', pair, 6000, 80000), ('matrices', matrices, 3000, 40000)]
REQUIRED_OBS = ['pair.truncated', 'pair.exact', 'pair.exchanged', 'pair.datafree_pairs']
