"""C17  Networks contracted through matrix product states give the network's value when nothing has to be truncated."""
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C17'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (tensor or network structure, schedule, options) tuples'


def create(rng, mon):
    from CTL.examples.MPS import createMPSFromTensor
    from checks.c16 import state, structure, isometric
    s = M.gen_network(rng, 1, p_diag=0.2, p_free=0.85, max_dim=3, max_rank=6, size_cap=800, kind=str(rng.choice(['real', 'complex', 'pos', 'sparse'])))
    t = M.build(rng, s)[0]
    want = s.value()
    if t.dim == 0:
        mon.raises(AssertionError, lambda: createMPSFromTensor(t), 'tensor without legs')
        return
    if np.linalg.norm(want) < 1e-6:
        raise Skip()
    order = [s.free_labels().index(l) for l in t.labels]
    want = np.transpose(want, order)
    chi = 300 if rng.random() < 0.7 else int(rng.integers(1, 5))
    mon.note('{} chi {}'.format(s.describe(), chi), s.sig())
    n = t.dim
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        mps = createMPSFromTensor(t, chi=chi)
    if n == 1:
        mon.check(any(issubclass(x.category, RuntimeWarning) for x in w), 'no warning for a vector', 'warned')
    mon.check(mps.n == n and mps.chi == chi, 'chi or number of sites', 'structure')
    structure(mon, mps, n, 'MPS of a tensor')
    got = state(mps)
    mon.check(got.shape == want.shape, 'physical dimensions {} of {}'.format(got.shape, want.shape), 'structure')
    for i in range(n - 1):
        mon.check(mps.getTensor(i).getLeg('r').dim <= chi, 'bond above chi', 'structure')
    need = [int((np.linalg.svd(want.reshape(int(np.prod(want.shape[:i])), -1), compute_uv=False) > 1e-10).sum()) for i in range(1, n)]
    if n > 1:
        mon.check(isometric(mps, n - 1) < 1e-8, 'the sites before the last one are not isometric', 'canonical')
    if all(k <= chi for k in need):
        mon.equal(got, want, 'state', scale=np.linalg.norm(want))
        mon.event('exact')
    else:
        # each cut discards at most the weight beyond chi
        tot = 0.0
        big = 0.0
        for i in range(1, n):
            sv = np.linalg.svd(want.reshape(int(np.prod(want.shape[:i])), -1), compute_uv=False)
            tot += (sv[chi:] ** 2).sum()
            big = max(big, (sv[chi:] ** 2).sum())
        d = np.linalg.norm(got - want) ** 2
        mon.check(big - 1e-9 * np.linalg.norm(want) ** 2 <= d <= tot + 1e-9 * np.linalg.norm(want) ** 2, lambda: 'squared error {} outside [{}, {}]'.format(d, big, tot), 'truncation_error')


def closed(rng, mon, p_free=0.0):
    from CTL.examples.MPS import contractWithMPS
    n = int(rng.integers(2, 6))
    s = M.gen_network(rng, n, p_diag=0.0, p_free=p_free, max_dim=3, max_rank=4, size_cap=90, out_cap=300, extra=int(rng.integers(0, n + 1)),
                      kind=str(rng.choice(['real', 'pos', 'complex'])), mixed_kind=False)
    if p_free:
        # distinct dimensions identify the free legs of the result
        fd = [s.dims[e] for e in s.free()]
        if len(set(fd)) != len(fd):
            raise Skip()
    want = s.value()
    absv = float(np.prod([np.linalg.norm(s.dense(t)) for t in range(n)]))
    ts = M.build(rng, s)
    kw = {}
    mode = int(rng.integers(3))
    if mode == 1:
        kw['greedyFlag'] = False
        from CTL.tensor.contract.optimalContract import generateOptimalSequence
        if outer_products(s, generateOptimalSequence(ts)):
            raise Skip()                 # listed in known_findings.txt
    elif mode == 2:
        # a random schedule of connected contractions
        from itertools import combinations
        groups = {t: {t} for t in range(n)}
        seq = []
        while len(groups) > 1:
            c = [(a, b) for a, b in combinations(groups, 2)
                 if any(len(s.ends[e]) == 2 and {s.ends[e][0][0] in groups[a], s.ends[e][1][0] in groups[a]} == {True, False}
                        and (s.ends[e][0][0] in groups[b] or s.ends[e][1][0] in groups[b]) for e in range(len(s.ends)))]
            a, b = c[int(rng.integers(len(c)))]
            if rng.random() < 0.5:
                seq.append((a, b))
            else:
                seq.append((b, a))
            groups[min(a, b)] |= groups.pop(max(a, b))
        kw['seq'] = seq
    mon.note('{} {}'.format(s.describe(), kw), s.sig())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = contractWithMPS(ts, chi=400, **kw)
    fdims = [s.dims[e] for e in s.free()]
    mon.check(sorted(res.shape) == sorted(fdims), lambda: 'shape {} expected {}'.format(res.shape, fdims), 'shape_compared')
    if not fdims:
        mon.equal(res.single(), want, 'closed network ' + s.describe(), tol=1e-7, scale=absv)
        mon.event('closed_value')
    else:
        order = [list(res.shape).index(d) for d in fdims]
        mon.equal(np.transpose(np.array(res.toTensor(None)), order), want, 'open network ' + s.describe(), tol=1e-7, scale=absv)
        mon.event('open_value')


def outer_products(s, seq):
    groups = {t: {t} for t in range(s.n)}
    for a, b in seq:
        if not any(len({0 if t in groups[a] else 1 if t in groups[b] else 2 for t, _ in e} & {0, 1}) == 2 for e in s.ends):
            return True
        groups[min(a, b)] = groups[a] | groups.pop(max(a, b)) | groups[b if b < a else a]
    return False


def known_outer(rng, mon):
    """a star whose best plan first multiplies two vectors"""
    from CTL.examples.MPS import contractWithMPS
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.contract.link import makeLink
    c = Tensor(data=rng.random((2, 2, 2)), labels=['a', 'b', 'c'])
    vs = [Tensor(data=rng.random(2), labels=['x']) for _ in range(3)]
    want = np.einsum('abc,a,b,c->', np.array(c.a), *[np.array(v.a) for v in vs])
    for x, v in zip('abc', vs):
        makeLink(x, 'x', c, v)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = contractWithMPS([c] + vs, chi=100, greedyFlag=False)
    mon.equal(res.single(), want, 'star')


def opened(rng, mon):
    closed(rng, mon, p_free=0.25)


def merging(rng, mon):
    """merging the common bonds of two MPS keeps the value of the pair and leaves one bond"""
    from CTL.examples.MPS import createMPSFromTensor, mergeMPS, contractMPS, commonLegs, commonBonds
    s = M.gen_network(rng, 2, p_diag=0.0, p_free=0.3, max_dim=3, max_rank=5, size_cap=200, out_cap=300, extra=int(rng.integers(0, 4)),
                      kind=str(rng.choice(['real', 'pos', 'complex'])), mixed_kind=False)
    k = sum(1 for e in s.ends if len(e) == 2)
    ts = M.build(rng, s)
    want = s.value()
    absv = float(np.prod([np.linalg.norm(s.dense(t)) for t in range(2)]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        a, b = [createMPSFromTensor(t, chi=400) for t in ts]
        mon.note(s.describe(), s.sig())
        ia, ib = commonLegs(a, b)
        mon.check(len(ia) == len(ib) == len(commonBonds(a, b)) == k, 'common legs {} {} of {} bonds'.format(ia, ib, k), 'common')
        for x, y in zip(ia, ib):
            mon.check(a.getTensor(x).getLeg('o').anotherSide() is b.getTensor(y).getLeg('o'), 'common leg', 'common')
        na, nb = a.n, b.n
        mergeMPS(a, b)
        mon.check(len(commonBonds(a, b)) == min(k, 1), 'bonds left after merging', 'common')
        if k:
            mon.check(a.n == na - k + 1 and b.n == nb - k + 1, 'sites after merging {} bonds: {} -> {}, {} -> {}'.format(k, na, a.n, nb, b.n), 'common')
        M.check_links(mon, [a.getTensor(i) for i in range(a.n)] + [b.getTensor(i) for i in range(b.n)], 'after merging')
        if not k:
            mon.raises(AssertionError, lambda: contractMPS(a, b), 'MPS without a common bond')
            return
        res = contractMPS(a, b)
        val = res if a.n == 1 and b.n == 1 else res.toTensor()
    fdims = [s.dims[e] for e in s.free()]
    mon.check(sorted(val.shape) == sorted(fdims), 'shape {}'.format(val.shape), 'shape_compared')
    mon.equal(val.norm() if fdims else val.single(), np.linalg.norm(want) if fdims else want, 'pair ' + s.describe(), tol=1e-7, scale=absv)
    if len(set(fdims)) == len(fdims) and fdims:
        order = [list(val.shape).index(d) for d in fdims]
        mon.equal(np.transpose(np.array(val.toTensor(None)), order), want, 'pair ' + s.describe(), tol=1e-7, scale=absv)
    if k > 1:
        mon.event('merged')


WORKLOADS = [('create', create, 4000, 50000), ('closed', closed, 700, 10000), ('opened', opened, 1200, 15000), ('merging', merging, 1500, 20000)]
REQUIRED_OBS = ['create.exact', 'create.truncation_error', 'closed.closed_value', 'opened.open_value', 'merging.merged']
KNOWN = {'outer-product-plan': known_outer}
