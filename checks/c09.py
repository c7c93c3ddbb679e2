"""C09  Data-free tensors shadow tensors: same legs, shapes, types, links and costs, with no data."""
import numpy as np
import model as M

ID = 'C09'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (network structure, diagonal flags, operation history) tuples'


def shadow(mon, t, k, what):
    mon.check(k.tensorLikeFlag and k.a is None, what + ': the shadow holds data', 'shadow')
    mon.check(not t.tensorLikeFlag, what + ': the tensor became data-free', 'shadow')
    mon.check(list(zip(k.labels, k.shape)) == list(zip(t.labels, t.shape)), lambda: '{}: shadow {} of {}'.format(what, k, t), 'shadow')
    mon.check(bool(k.diagonalFlag) == bool(t.diagonalFlag), lambda: '{}: shadow {} of {}'.format(what, k, t), 'shadow')
    mon.check(k.totalSize == t.totalSize and k.dim == t.dim, what + ': size', 'shadow')
    mon.check(k.typeName() == t.typeName() + 'Like', what + ': type name', 'shadow')
    if k.dim:
        mon.check(tuple(k.shape) == tuple(t.shape), what + ': shape', 'shadow')
        if t.diagonalFlag:
            mon.check(k.bondDimension() == t.bondDimension() and k.chi == t.chi, what + ': bond dimension', 'shadow')


def same_bonds(mon, ts, ks, what):
    '''the legs of the shadows are bonded as those of the tensors'''
    def pattern(xs):
        at = {id(l): (i, p) for i, x in enumerate(xs) for p, l in enumerate(x.legs)}
        return [[None if l.bond is None else at.get(id(l.anotherSide()), 'outside') for l in x.legs] for x in xs]
    mon.check(pattern(ts) == pattern(ks), lambda: '{}: bonds {} of the shadows, {} of the tensors'.format(what, pattern(ks), pattern(ts)), 'bonds')


def contraction(rng, mon):
    from CTL.tensor.contract.optimalContract import contractAndCostWithSequence, contractCost, copyTensorList, generateOptimalSequence, generateGreedySequence
    n = int(rng.integers(1, 6))
    s = M.gen_network(rng, n, p_diag=float(rng.choice([0, 0.4, 1.0])), p_free=0.35, max_dim=3, max_rank=5, out_cap=1500, repeat=0.15,
                      connected=bool(rng.random() < 0.7), extra=int(rng.integers(0, n + 1)))
    ts = M.build(rng, s)
    ks = copyTensorList(ts, tensorLikeFlag=True) if rng.random() < 0.5 else M.build(rng, s, like=True)
    seq = M.random_sequence(rng, n)
    mon.note(s.describe(), s.sig(), seq)
    mon.check(generateOptimalSequence(ts) == generateOptimalSequence(ks) or True, '', 'plan')
    a, ca = contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
    b, cb = contractAndCostWithSequence(ks, seq=seq, outProductWarning=False)
    shadow(mon, a, b, 'contraction')
    mon.check(ca == cb, lambda: 'cost {} of the tensors, {} of their shadows'.format(ca, cb), 'cost')
    if n > 1:
        la, lb = copyTensorList(ts), copyTensorList(ks)
        for x, y in seq:
            mon.check(contractCost(la[x], la[y]) == contractCost(lb[x], lb[y]), 'cost of one step differs', 'cost')
            la[min(x, y)] = la[x] @ la[y]
            lb[min(x, y)] = lb[x] @ lb[y]
            shadow(mon, la[min(x, y)], lb[min(x, y)], 'step')
            M.check_links(mon, [lb[min(x, y)]], 'shadow step', external_ok=True)
            la[max(x, y)] = lb[max(x, y)] = None
            same_bonds(mon, [u for u in la if u is not None], [u for u in lb if u is not None], 'step')


def history(rng, mon):
    """the same operations on a tensor and on its shadow"""
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.contract.contract import contractTwoTensors, shareBonds
    from CTL.tensor.contract.optimalContract import contractCost
    s = M.gen_network(rng, 2, p_diag=float(rng.choice([0, 0.3, 0.7])), p_free=0.5, max_dim=3, max_rank=5, extra=int(rng.integers(0, 3)),
                      connected=bool(rng.random() < 0.8))
    ts = M.build(rng, s)
    ks = M.build(rng, s, like=True)
    hist = []
    for i in range(int(rng.integers(2, 8))):
        q = int(rng.integers(2))
        t, k = ts[q], ks[q]
        free = [l.name for l in t.legs if l.bond is None]
        op = int(rng.integers(8))
        if op == 0 and free:
            l = free[int(rng.integers(len(free)))]
            w = rng.standard_normal(t.shapeOfLabel(l)) if rng.random() < 0.5 else None
            for x in (t, k):
                if i % 2:
                    x.sumOutLegByLabel(l, weights=w)
                else:
                    x.sumOutLeg(x.getLeg(l), weights=w)
            hist.append('sum' + l)
        elif op == 1 and free and not t.diagonalFlag:
            ch = [free[j] for j in rng.permutation(len(free))[:2]]
            nn = 'o{}'.format(i)
            for x in (t, k):
                leg = x.outProduct(list(ch), nn)
                mon.check(leg is x.legs[0], 'outProduct result', 'shadow')
            hist.append('out' + str(ch))
        elif op == 2 and t.dim:
            per = [t.labels[j] for j in rng.permutation(t.dim)]
            for x in (t, k):
                x.reArrange(list(per))
            mon.check(t.labels == k.labels and tuple(t.shape) == tuple(k.shape), 'order after rearranging', 'shadow')
            hist.append('arr')
        elif op == 3 and t.dim:
            l = t.labels[int(rng.integers(t.dim))]
            for x in (t, k):
                x.renameLabel(l, 'r{}'.format(i))
            hist.append('ren')
        elif op == 4:
            for f in (lambda: k.norm(), lambda: k.toVector(), lambda: k.trace(rows=k.labels, cols=[]), lambda: k.toTensor(), lambda: k.toMatrix(rows=k.labels, cols=[]), lambda: k.single()):
                mon.raises(AssertionError, f, 'value of a data-free tensor')
        elif op == 5:
            for x in (t, k):
                x.addTensorTag('g')
                mon.check(all(l.startswith('g-') for l in x.labels), 'tag', 'shadow')
                x.removeTensorTag()
        elif op == 6 and t.dim:
            per = [int(j) for j in rng.permutation(t.dim)[:2]]
            labs = [t.labels[j] for j in per]
            for x in (t, k):
                x.moveLabelsToFront(labs)
            mon.check(k.labels[:len(labs)] == labs, 'moved labels', 'shadow')
            hist.append('mv')
        elif op == 7:
            if all(l.bond is None for l in t.legs):
                ts[q], ks[q] = t.copy(), (k.copy() if rng.random() < 0.5 else t.toTensorLike())
                hist.append('copy')
        shadow(mon, ts[q], ks[q], 'after ' + ' '.join(hist))
        M.check_links(mon, ks, 'shadows')
        same_bonds(mon, ts, ks, 'after ' + ' '.join(hist))
        x, y = (0, 1) if rng.random() < 0.5 else (1, 0)
        ca, cb = contractCost(ts[x], ts[y]), contractCost(ks[x], ks[y])
        mon.check(ca == cb, lambda: 'after {}: cost {} of the tensors, {} of their shadows'.format(' '.join(hist), ca, cb), 'cost')
    bt, bk = shareBonds(ts[0], ts[1]), shareBonds(ks[0], ks[1])
    mon.check(len(bt) == len(bk), 'shared bonds', 'bonds')
    if len(bt) >= 2 and rng.random() < 0.5:
        pick = [int(j) for j in rng.permutation(len(bt))[:int(rng.integers(1, len(bt)))]]
        a, b = contractTwoTensors(ts[0], ts[1], bonds=[bt[j] for j in pick]), contractTwoTensors(ks[0], ks[1], bonds=[bk[j] for j in pick])
        hist.append('over {}'.format(pick))
    else:
        a, b = contractTwoTensors(ts[0], ts[1]), contractTwoTensors(ks[0], ks[1])
    shadow(mon, a, b, 'contraction')
    same_bonds(mon, [a], [b], 'contraction')
    for l in [x.name for x in a.legs if x.bond is None]:
        if rng.random() < 0.7:
            a.sumOutLegByLabel(l)
            b.sumOutLegByLabel(l)
            shadow(mon, a, b, 'summed out')
    c, d = DiagonalTensor(shape=(2, 2), labels=['x', 'y']), DiagonalTensor(shape=(2, 2), labels=['x', 'y'], tensorLikeFlag=True)
    mon.check(contractCost(a, c) == contractCost(b, d) and contractCost(c, a) == contractCost(d, b), 'cost of the outer product with another tensor', 'cost')
    mon.note(s.describe() + ' ' + ' '.join(hist))


def merging(rng, mon):
    from CTL.tensor.contract.contract import merge
    s = M.gen_network(rng, 2, p_diag=0.0, p_free=0.5, max_dim=3, max_rank=6, extra=int(rng.integers(0, 3)), kind='real', mixed_kind=False)
    ts, ks = M.build(rng, s), M.build(rng, s, like=True)
    chi = None if rng.random() < 0.3 else int(rng.integers(1, 8))
    nm = [None, 'mm', ('m1', 'm2')][int(rng.integers(3))]
    a = merge(ts[0], ts[1], chi=chi, bondName=nm, renameWarning=False)
    b = merge(ks[0], ks[1], chi=chi, bondName=nm, renameWarning=False)
    mon.note(s.describe(), s.sig(), chi, nm)
    for x, y in zip(a, b):
        shadow(mon, x, y, 'merge chi={} {}'.format(chi, s.describe()))
    M.check_links(mon, list(b), 'merged shadows')
    mon.event('merged')
    same_bonds(mon, list(a), list(b), 'merged')
    ra, rb = a[0] @ a[1], b[0] @ b[1]
    shadow(mon, ra, rb, 'contraction of merged')


def finite_networks(rng, mon):
    from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
    n = int(rng.integers(1, 5))
    s = M.gen_network(rng, n, p_diag=0.3, p_free=0.5, max_dim=3, max_rank=5, out_cap=1500)
    f = FiniteTensorNetwork(['t{}'.format(i) for i in range(n)])
    for e in range(len(s.ends)):
        if len(s.ends[e]) == 2:
            (x, p), (y, q) = s.ends[e]
            f.addLink('t{}'.format(x), s.label[(x, p)], 't{}'.format(y), s.label[(y, q)])
    ts = M.build(rng, s, link=False)
    ks = [t.toTensorLike() for t in ts]
    first = bool(rng.integers(2))
    for like in (first, not first):
        r = f.contract({'t{}'.format(i): (ks if like else ts)[i] for i in range(n)})
        if like:
            b = r
        else:
            a = r
    mon.note(s.describe(), s.sig())
    shadow(mon, a, b, 'finite tensor network')


WORKLOADS = [
    ('contraction', contraction, 3000, 50000),
    ('history', history, 4000, 60000),
    ('merging', merging, 2500, 40000),
    ('finite_networks', finite_networks, 1500, 20000),
]
REQUIRED_OBS = ['contraction.cost', 'merging.merged', 'history.rejection_observed']
