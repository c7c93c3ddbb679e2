"""C08  A diagonal tensor is indistinguishable (by value) from the dense tensor it stands for."""
import numpy as np
import model as M

ID = 'C08'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (network structure with diagonal tensors, or diagonal tensor and operations) tuples'


def densify(s):
    s2 = M.Spec()
    s2.dims, s2.ends, s2.label = s.dims, s.ends, s.label
    for t in range(s.n):
        s2.tensors.append({'diag': False, 'edges': s.tensors[t]['edges'], 'data': s.dense(t)})
    return s2


def networks(rng, mon):
    """the same network built with diagonal tensors and with their dense forms"""
    from CTL.tensor.contract.optimalContract import contractTensorList, contractAndCostWithSequence
    n = int(rng.integers(2, 6))
    s = M.gen_network(rng, n, units=0.1, p_diag=float(rng.choice([0.5, 0.8, 1.0])), p_free=0.35, max_dim=3, max_rank=5, out_cap=1500,
                      connected=bool(rng.random() < 0.7), extra=int(rng.integers(0, n + 1)), repeat=0.2)
    d = densify(s)
    ts, td = M.build(rng, s), M.build(rng, d)
    labels = s.free_labels()
    want = np.array(contractTensorList(td, outProductWarning=False).toTensor(list(labels)))
    ref = s.value()
    scale = np.max(s.value(absolute=True)) if ref.size else 1
    mon.note(s.describe(), s.sig())
    seqs = [None, M.random_sequence(rng, n)]
    for seq in seqs:
        res, cost = contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
        got = M.observe(mon, res, labels, 'diagonal network')
        mon.equal(got, want, 'diagonal vs dense ' + s.describe(), scale=scale)
        mon.equal(got, ref, 'diagonal vs reference ' + s.describe(), scale=scale)
        dres, dcost = contractAndCostWithSequence(td, seq=seq, outProductWarning=False)
        if seq is not None and all(s.tensors[t]['diag'] for t in range(n)):
            mon.check(cost <= dcost, lambda: 'diagonal contraction costs {} but dense costs {}'.format(cost, dcost), 'cost')


def stays_diagonal(rng, mon):
    """contracting linked diagonal tensors keeps the compact form"""
    n = int(rng.integers(2, 5))
    s = M.gen_network(rng, n, units=0.1, p_diag=1.0, p_free=0.4, max_dim=5, max_rank=4, extra=int(rng.integers(0, 3)), out_cap=3000)
    ts = M.build(rng, s)
    cur = ts[0]
    left = ts[1:]
    while left:
        k = [i for i, t in enumerate(left) if any(l.anotherSide() is not None and l.anotherSide() in cur.legs for l in t.legs)]
        t = left.pop(k[int(rng.integers(len(k)))])
        cur = cur @ t if rng.random() < 0.5 else t @ cur
        mon.check(cur.diagonalFlag, 'contraction of linked diagonal tensors is no longer diagonal', 'diagonal_kept')
        mon.check(cur.a.size <= max(s.dims + [1]), 'diagonal result stores {} numbers'.format(cur.a.size), 'diagonal_kept')
        M.check_links(mon, [cur] + left, 'diagonal chain')
    mon.note(s.describe(), s.sig())
    want = s.value()
    got = M.observe(mon, cur, s.free_labels(), 'diagonal chain')
    mon.equal(got, want, 'diagonal chain', scale=np.max(s.value(absolute=True)) if want.size else 1)


def operations(rng, mon):
    """operations on a diagonal tensor against the same on its dense form"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    r, d = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    wide = rng.random() < 0.12
    if wide:                            # long, or of many legs
        r, d = [(1, int(rng.integers(30, 600))), (2, int(rng.integers(5, 26))), (3, int(rng.integers(5, 9))), (4, 5), (int(rng.integers(5, 10)), 2)][int(rng.integers(5))]
    v = np.array(M.rdata(rng, (d,), M.pick_kind(rng)))
    if rng.random() < 0.12:             # very large or very small entries; large integers
        mon.unit = 2 ** int(rng.integers(10, 45)) if v.dtype.kind == 'i' else 10.0 ** int(rng.choice([-140, -14, -9, -5, 5, 9, 13, 140]))
        v = v * mon.unit
    labs = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))[:r]]
    full = M.dense_of_diag(v, r)
    form = int(rng.integers(3))
    if form == 0:
        D = DiagonalTensor(data=v, labels=list(labs))
        if r == 1:
            pass
    elif form == 1:
        off = full + (np.array(M.rdata(rng, full.shape, 'int')) * (full == 0) * (1 - M.dense_of_diag(np.ones(d), r))).astype(full.dtype)
        D = DiagonalTensor(data=off, labels=list(labs))          # off-diagonal entries are dropped
    else:
        D = DiagonalTensor(data=v, shape=(d,) * r, labels=list(labs))
    T = Tensor(data=full, labels=list(labs))
    hist = ['form{} r{} d{}'.format(form, r, d)]
    for _ in range(int(rng.integers(1, 6))):
        n = T.dim
        op = int(rng.integers(9))
        if op == 8 and n:                       # the stored vector is written to
            i = int(rng.integers(d))
            D.a[i] = 2 * mon.unit
            T.a[(i,) * n] = 2 * mon.unit
            hist.append('write')
        elif op == 0 and n:
            per = [T.labels[i] for i in rng.permutation(n)]
            mon.equal(D.toTensor(list(per)), T.toTensor(list(per)), 'toTensor')
            hist.append('toTensor')
        elif op == 1 and n:
            per = [D.labels[i] for i in rng.permutation(n)]
            k = int(rng.integers(0, n + 1))
            how = int(rng.integers(4))
            rc = [(per[:k], per[k:]), (None, per[k:]), (per[:k], None), (per[:k], per[k:])][how]
            if how:                             # as many legs on the same side of both, whatever their order in the tensors
                T.reArrange(list(D.labels))
            if how and how < 3 and rng.random() < 0.6:    # the side left out is deduced from the other
                kw = {x: y for x, y in zip(('rows', 'cols'), rc) if y is not None}
                mon.equal(D.toMatrix(**kw), T.toMatrix(**kw), 'toMatrix of one side')
                if how == 1:
                    from CTL.tensor.tensorFunc import isIsometry
                    mon.check(bool(isIsometry(D, list(rc[1]))) == bool(isIsometry(T, list(rc[1]))), 'isIsometry', 'isometry')
            elif how == 3:
                mon.equal(D.toMatrix(rows=[D.getLeg(x) for x in rc[0]], cols=[D.getLeg(x) for x in rc[1]]), T.toMatrix(rows=rc[0], cols=rc[1]), 'toMatrix by legs')
            else:
                mon.equal(D.toMatrix(rows=rc[0], cols=rc[1]), T.toMatrix(rows=rc[0], cols=rc[1]), 'toMatrix')
            hist.append('toMatrix')
        elif op == 2:
            mon.equal(D.norm(), T.norm(), 'norm')
        elif op == 3 and n:
            l = T.labels[int(rng.integers(n))]
            w = np.array(M.rdata(rng, (d,), M.pick_kind(rng))) if rng.random() < 0.6 else None
            D.sumOutLegByLabel(l, weights=w)
            T.sumOutLegByLabel(l, weights=w)
            hist.append('sum')
        elif op == 4 and n:
            # sum over all equal indices = full contraction with the identity
            e = np.einsum(np.asarray(T.toTensor(list(T.labels))), [0] * n, [])
            mon.equal(D.trace(), e, 'trace over the main diagonal')
            hist.append('trace')
        elif op == 5 and n:
            mon.raises(TypeError, lambda: D.outProduct(D.labels[:1], 'o'), 'combining legs of a diagonal tensor')
        elif op == 6 and n:
            l, nn = D.labels[0], 'q{}'.format(int(rng.integers(10 ** 6)))
            D.renameLabel(l, nn)
            T.renameLabel(l, nn)
        elif op == 7:
            D, T = D.copy(), T.copy()
        else:
            continue
        mon.check(sorted(D.labels) == sorted(T.labels), 'labels differ', 'labels_compared')
        mon.equal(D.copy().toTensor(list(T.labels)), T.a, 'after ' + ' '.join(hist))
    mon.note(' '.join(hist), labs, v.dtype.kind)
    if T.dim == 0:
        mon.equal(D.single(), T.single(), 'single')
        mon.event('scalar')


WORKLOADS = [
    ('networks', networks, 2500, 40000),
    ('stays_diagonal', stays_diagonal, 2500, 40000),
    ('operations', operations, 4000, 50000),
]
REQUIRED_OBS = ['stays_diagonal.diagonal_kept', 'operations.scalar']
