"""C14  Merging the bonds between two tensors keeps their product and truncates optimally."""
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C14'
FACTOR = 5          # multiplies the case counts of both tiers
RULE = 'distinct (network structure, merged pair, truncation, names) tuples'


def names_for(rng, la, lb, before_a, before_b):
    k = int(rng.integers(4))
    if k == 0:
        return None, '|'.join(before_a), '|'.join(before_b)
    if k == 1:
        return 'new', 'new', 'new'
    if k == 2:
        return ('ma', 'mb'), 'ma', 'mb'
    return ['m1', 'm2'], 'm1', 'm2'


def network(rng, mon):
    """merge a pair inside a larger network: the value and everything else of the network stay"""
    from CTL.tensor.contract.contract import merge, shareBonds
    from CTL.tensor.contract.link import mergeLink
    from CTL.tensor.contract.optimalContract import contractTensorList
    n = int(rng.integers(2, 6))
    s = M.gen_network(rng, n, p_diag=0.15, p_free=0.4, max_dim=3, max_rank=6, out_cap=800, size_cap=1500,
                      extra=int(rng.integers(1, n + 3)), kind=str(rng.choice(['real', 'complex', 'pos', 'int', 'sparse'])), mixed_kind=False)
    i, j = [int(x) for x in rng.choice(n, 2, replace=False)]
    if rng.random() < 0.3:
        # very small or very large entries: what counts as zero is relative
        power = int(rng.integers(-9, 8))
        for t in (i, j):
            s.tensors[t]['data'] = s.tensors[t]['data'] * 10.0 ** power
        mon.event('scaled')
    ts = M.build(rng, s)
    a, b = ts[i], ts[j]
    shared = [l for l in a.legs if l.bond is not None and l.anotherSide().tensor is b]
    na, nb = [l.name for l in shared], [l.anotherSide().name for l in shared]
    name, wa, wb = names_for(rng, a, b, na, nb)
    if len(shared) == 1 and name is None:
        wa, wb = na[0], nb[0]
    chi = None if rng.random() < 0.4 else int(rng.choice([1, 2, 3, 5, 1000]))
    use_link = chi is None and rng.random() < 0.5
    mon.note('{} merge {} {} over {} chi {} name {}'.format(s.describe(), i, j, len(shared), chi, name), s.sig())
    want = s.value()
    # the decomposition mixes all entries: round-off is relative to the norms, not to single entries
    scale = float(np.prod([np.linalg.norm(s.dense(t)) for t in range(n)]))
    rest = [ts[k] for k in range(n) if k not in (i, j)]
    before = M.snapshot(rest)
    if (len(shared) != 1 and (a.diagonalFlag or b.diagonalFlag)) and len(shared) > 1:
        both = M.snapshot([a, b])
        mon.raises(TypeError, lambda: mergeLink(a, b, bondName=name) if use_link else merge(a, b, chi=chi, bondName=name), 'combining legs of a diagonal tensor')
        M.same_snapshot(mon, before, rest, 'refused merge')
        M.same_snapshot(mon, both, [a, b], 'refused merge')
        mon.equal(M.observe(mon, contractTensorList(ts, outProductWarning=False), s.free_labels(), 'after a refused merge'), want, 'network after a refused merge', scale=scale)
        mon.event('refused')
        return
    remain_a = [l for l in a.legs if l not in shared]
    remain_b = [l for l in b.legs if l not in [x.anotherSide() for x in shared]]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if use_link:
            x, y = mergeLink(a, b, bondName=name)
        else:
            x, y = merge(a, b, chi=chi, bondName=name)
    if len(shared) <= 1:
        mon.check(any(issubclass(z.category, RuntimeWarning) for z in w), 'no warning though {} bonds are shared'.format(len(shared)), 'warned')
    else:
        mon.check(not any('merge' in str(z.message) for z in w), 'unexpected warning', 'not_warned')
    net = [x, y] + rest
    M.check_links(mon, net, 'after merging')
    sb = shareBonds(x, y)
    mon.check(len(sb) == min(1, len(shared)), lambda: '{} bonds after merging {}'.format(len(sb), len(shared)), 'one_bond')
    if not shared:
        mon.check(x is a and y is b, 'tensors without common bonds were changed', 'one_bond')
        mon.event('nothing_shared')
    else:
        lx = [l for l in x.legs if l.bond is sb[0]][0]
        ly = [l for l in y.legs if l.bond is sb[0]][0]
        mon.check(lx.name == wa and ly.name == wb, lambda: 'bond is named {} / {}, expected {} / {}'.format(lx.name, ly.name, wa, wb), 'named')
        dim = int(np.prod([l.dim for l in shared]))
        mon.check([id(l) for l in x.legs if l is not lx] == [id(l) for l in remain_a] and [id(l) for l in y.legs if l is not ly] == [id(l) for l in remain_b],
                  'the other legs changed', 'other_legs')
        # exact product of the pair, from the model
        ra = [e for e in s.tensors[i]['edges'] if not all(t in (i, j) for t, _ in s.ends[e]) or len(s.ends[e]) == 1]
        rb = [e for e in s.tensors[j]['edges'] if not all(t in (i, j) for t, _ in s.ends[e]) or len(s.ends[e]) == 1]
        da, db = s.dense(i), s.dense(j)
        da, db = [z.astype(float) if z.dtype.kind == 'i' else z for z in (da, db)]
        prod = M.contract_dense([da, s.tensors[i]['edges'], db, s.tensors[j]['edges']], ra + rb)
        pa = int(np.prod([s.dims[e] for e in ra]))
        mat = prod.reshape(pa, -1)
        sv = np.linalg.svd(mat, compute_uv=False)
        mx = np.moveaxis(np.array(x.copy().toTensor(None)), x.legs.index(lx), -1).reshape(pa, lx.dim)
        my = np.moveaxis(np.array(y.copy().toTensor(None)), y.legs.index(ly), 0).reshape(lx.dim, mat.shape[1])
        if chi is None:
            mon.check(lx.dim == dim, lambda: 'bond of dimension {}, expected {}'.format(lx.dim, dim), 'dimension')
            mon.equal(mx @ my, mat, 'product after merging', scale=scale if not want.size else np.abs(mat).max() + 1)
        else:
            if ((sv > 1e-13 * sv[0]) & (sv < 1e-8 * sv[0])).any():
                return
            size = np.linalg.norm(da) * np.linalg.norm(db)
            nothing = not M.contract_dense([abs(da), s.tensors[i]['edges'], abs(db), s.tensors[j]['edges']], ra + rb).any()
            if sv[0] <= 1e-6 * size and not nothing:
                return          # the product itself is (nearly) round-off: which values of it count is not determined
            k = min(chi, max(1, int((sv > 1e-10 * sv[0]).sum())))
            mon.check(lx.dim == k, lambda: 'bond of dimension {}, expected {} (chi {}, {} non zero singular values)'.format(lx.dim, k, chi, (sv > 1e-10 * sv[0]).sum()), 'dimension')
            best = np.sqrt((sv[k:] ** 2).sum())
            d = np.linalg.norm(mx @ my - mat)
            mon.check(abs(d - best) <= 1e-8 * sv[0] * len(sv) + 1e-300, lambda: 'truncated product is {} away, the best is {}'.format(d, best), 'optimal')
            if k:
                mon.equal(mx.conj().T @ mx, np.diag(sv[:k]), 'weight of the left tensor', scale=sv[0])
                mon.equal(my @ my.conj().T, np.diag(sv[:k]), 'weight of the right tensor', scale=sv[0])
            if sv[0] == 0:
                mon.event('vanishing_product')
            if k < len(sv) and sv[k] > 1e-10 * sv[0]:
                mon.event('truncated')
                M.same_snapshot(mon, before, rest, 'merge')
                return
        mon.event('merged_{}'.format(min(len(shared), 3)))
    M.same_snapshot(mon, before, rest, 'merge')
    res = contractTensorList(net, outProductWarning=False)
    labels = s.free_labels()
    # legs keep their names, so the result can be read as before
    mon.equal(M.observe(mon, res, labels, 'network'), want, 'network after merging', scale=scale)


def twice(rng, mon):
    """merging is idempotent, and truncating in steps equals truncating once"""
    from CTL.tensor.contract.contract import merge, contractTwoTensors
    s = M.gen_network(rng, 2, p_diag=0, p_free=0.6, max_dim=3, max_rank=6, size_cap=800, extra=int(rng.integers(1, 4)),
                      kind=str(rng.choice(['real', 'complex', 'pos'])), mixed_kind=False)
    chi1, chi2 = int(rng.integers(2, 9)), int(rng.integers(1, 6))
    mon.note(s.describe(), s.sig(), chi1, chi2)
    a, b = M.build(rng, s)
    x, y = merge(a, b, chi=chi1, bondName='m', renameWarning=False)
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter('always')
        x2, y2 = merge(x, y, chi=chi2, bondName='m', renameWarning=False)
    mon.check(not any('merge' in str(t.message) for t in told), 'a warning about a single bond though it was switched off', 'not_warned')
    c, d = M.build(rng, s)
    z, w = merge(c, d, chi=min(chi1, chi2), bondName='m', renameWarning=False)
    labels = s.free_labels()
    g1 = contractTwoTensors(x2, y2)
    g2 = contractTwoTensors(z, w)
    want = s.value()
    e = [e for e in s.free()]
    side0 = [i for i, f in enumerate(e) if s.ends[f][0][0] == 0]
    side1 = [i for i, f in enumerate(e) if s.ends[f][0][0] == 1]
    mat = np.transpose(want, side0 + side1).reshape(int(np.prod([want.shape[i] for i in side0] or [1])), -1)
    sv = np.linalg.svd(mat, compute_uv=False)
    k = min(chi1, chi2)
    if k < len(sv) and sv[k - 1] - sv[k] < 1e-3 * sv[0]:
        raise Skip()                       # the best approximation is not unique
    mon.equal(M.observe(mon, g1, labels, 'twice'), M.observe(mon, g2, labels, 'once'), 'truncating twice', tol=1e-7, scale=sv[0])


WORKLOADS = [
    ('network', network, 8000, 120000),
    ('twice', twice, 3000, 40000),
]
REQUIRED_OBS = ['network.refused', 'network.scaled', 'network.truncated', 'network.merged_1', 'network.merged_2', 'network.merged_3', 'network.nothing_shared', 'network.vanishing_product']
