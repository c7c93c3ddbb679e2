"""C22  Contraction is exact algebra: multilinear, gauge invariant, type and precision preserving."""
import numpy as np
import model as M
from harness import Skip

ID = 'C22'
FACTOR = 5          # multiplies the case counts of both tiers
RULE = 'distinct (network, data types, transformation) tuples'
ASSUMPTIONS = ['data type promotion is numpy\'s (np.result_type)', 'a transformed network is contracted with its own, separately chosen plan']
DT = ['f2', 'f4', 'f8', 'c8', 'c16', 'i8']
EPS = {'float16': 1e-3, 'float32': 1.2e-7, 'float64': 2.3e-16, 'complex64': 1.2e-7, 'complex128': 2.3e-16}


def contract(rng, ts, how=None):
    from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, contractAndCostWithSequence
    how = int(rng.integers(4)) if how is None else how
    if len(ts) > 7:
        how = 2
    if how == 0:
        return contractTensorList(ts, outProductWarning=False)
    if how == 1:
        return contractWithSequence(ts, seq=M.random_sequence(rng, len(ts)), outProductWarning=False)
    if how == 2:
        return contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)[0]
    return contractWithSequence(ts, bf=len(ts) <= 6, typicalDim=None, outProductWarning=False)


def value(rng, s, how=None, mon=None):
    ts = M.build(rng, s)
    r = contract(rng, ts, how)
    a = np.array(r.toTensor(s.free_labels()))
    return r, a


def retype(rng, s, names):
    for d in s.tensors:
        a = np.asarray(d['data'])
        k = np.dtype(names[int(rng.integers(len(names)))])
        if k.kind != 'c' and a.dtype.kind == 'c':
            a = a.real
        if k.kind == 'i':
            a = np.rint(a * 2)
        d['data'] = np.asarray(a).astype(k)


def types(rng, mon):
    """values keep numpy's promoted type and that type's precision"""
    n = int(rng.integers(1, 6))
    s = M.gen_network(rng, n, max_dim=3, p_diag=float(rng.choice([0, 0.3, 0.7])), repeat=0.2)
    retype(rng, s, [DT[int(i)] for i in rng.choice(len(DT), int(rng.integers(1, 4)), replace=False)])
    mon.note('types', s.sig())
    want_t = np.result_type(*[d['data'].dtype for d in s.tensors])
    r, a = value(rng, s)
    mon.check(r.a.dtype == want_t, lambda: 'contracting {} gives {} instead of {}'.format([str(d['data'].dtype) for d in s.tensors], r.a.dtype, want_t), 'type_compared')
    mon.check(np.dtype(r.dtype) == r.a.dtype, lambda: 'result says dtype {} but holds {}'.format(r.dtype, r.a.dtype), 'type_compared')
    mon.event('result_' + str(want_t))
    kinds = [np.dtype(d['data'].dtype) for d in s.tensors]
    for d in s.tensors:
        d['data'] = np.asarray(d['data']).astype('c16' if d['data'].dtype.kind == 'c' else 'f8')
    want = s.value()
    ab = s.value(absolute=True)
    if want_t.kind == 'i':
        mon.equal(a, want, 'integer network', tol=0, kind='exact_integer')
        return
    # low precision inputs were exactly representable in the reference; every step may round in the lowest type involved
    low = max(EPS.get(str(x), 0) for x in [want_t] + kinds)
    err = np.abs(np.asarray(a, dtype=want.dtype if want.dtype.kind == 'c' else None) - want)
    bound = low * 60 * (ab + np.max(ab, initial=0) * 1e-3) + 1e-300
    if low > 1e-4:
        if np.max(ab, initial=0) > 1000:
            raise Skip()
        bound = bound + 1e-3
    mon.check(bool(np.all(err <= bound)), lambda: 'precision lost: error {} with bound {} ({})'.format(np.max(err), np.max(bound), want_t), 'precision_compared')


def integers(rng, mon):
    """integer tensors with values beyond 2^53 products are exact (no detour through floats)"""
    n = int(rng.integers(2, 5))
    s = M.gen_network(rng, n, max_dim=3, p_diag=0.3, size_cap=300, out_cap=200)
    bits = 60 // n - 2
    for d in s.tensors:
        d['data'] = rng.integers(-(1 << bits), (1 << bits) + 1, np.shape(d['data'])).astype('i8')
    mon.note('integers', s.sig(), int(s.tensors[0]['data'].ravel()[0]))
    # exact reference with python integers
    ops = []
    ab = []
    for t in range(s.n):
        ops += [s.dense(t).astype(object), list(s.tensors[t]['edges'])]
        ab += [np.abs(s.dense(t)).astype(float), list(s.tensors[t]['edges'])]
    if np.max(M.contract_dense(ab, s.free()), initial=0) > 2.0 ** 61:
        raise Skip()
    want = exact(ops, s)
    r, a = value(rng, s)
    mon.check(a.dtype == np.dtype('i8'), lambda: 'integers became {}'.format(a.dtype), 'type_compared')
    mon.check(a.shape == want.shape and bool(np.all(a.astype(object) == want)),
              lambda: 'integer network is off: {} instead of {}'.format(a.ravel()[:6], want.ravel()[:6]), 'exact_integer')
    if np.max(np.abs(want.astype(float)), initial=0) > 2.0 ** 53:
        mon.event('beyond_double')


def exact(ops, s):
    """sum of products with python integers (small networks only)"""
    edges = range(len(s.dims))
    out = np.zeros([s.dims[e] for e in s.free()], dtype=object)
    total = 1
    for d in s.dims:
        total *= d
    if total > 30000:
        raise Skip()
    grids = np.indices(s.dims).reshape(len(s.dims), -1) if len(s.dims) else np.zeros((0, 1), dtype=int)
    prod = np.ones(grids.shape[1], dtype=object)
    for i in range(0, len(ops), 2):
        prod = prod * ops[i][tuple(grids[e] for e in ops[i + 1])]
    idx = tuple(grids[e] for e in s.free())
    if len(idx) == 0:
        return np.array(sum(prod.tolist()), dtype=object)
    np.add.at(out, idx, prod)
    return out


def clone(s):
    import copy
    return copy.deepcopy(s)


def net(rng, hi=9):
    n = int(rng.integers(2, hi + 1))
    return M.gen_network(rng, n, max_dim=3 if n < 7 else 2, p_diag=float(rng.choice([0, 0.25, 0.6])), p_free=0.25,
                         kind=['real', 'complex'][int(rng.integers(2))], extra=int(rng.integers(0, n + 1)))


def close(mon, a, b, s, msg, kind, tol=1e-10, extra=1.0, also=()):
    ab = max([np.max(x.value(absolute=True), initial=0) for x in (s,) + tuple(also)]) * extra
    mon.equal(a, b, msg, tol=tol, kind=kind, scale=max(ab, 1e-290))


def linear(rng, mon):
    """the value is linear in every tensor"""
    s = net(rng)
    k = int(rng.integers(s.n))
    s1, s2, s3 = clone(s), clone(s), clone(s)
    d = np.asarray(s.tensors[k]['data'])
    x, y = d, np.asarray(M.rdata(rng, d.shape, 'complex' if d.dtype.kind == 'c' else 'real'))
    al, be = float(rng.normal()), float(rng.normal())
    s2.tensors[k]['data'] = y
    s3.tensors[k]['data'] = al * x + be * y
    mon.note('linear', s.sig(), k)
    v1, v2, v3 = [value(rng, q)[1] for q in (s1, s2, s3)]
    close(mon, v3, al * v1 + be * v2, s, 'linearity in tensor {}'.format(k), 'linearity', extra=10, also=(s2, s3))
    mon.event('diagonal' if s.tensors[k]['diag'] else 'dense')


def conjugate(rng, mon):
    """conjugating all tensors conjugates the value; real networks stay real"""
    s = net(rng)
    for d in s.tensors:
        if rng.random() < 0.7:
            d['data'] = np.asarray(M.rdata(rng, np.shape(d['data']), 'complex'))
    c = clone(s)
    for d in c.tensors:
        d['data'] = np.conj(d['data'])
    mon.note('conjugate', s.sig())
    close(mon, value(rng, c)[1], np.conj(value(rng, s)[1]), s, 'conjugate network', 'conjugation')


def gauge(rng, mon):
    """X on one side of a bond and its inverse on the other change nothing"""
    s = net(rng)
    bonds = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2 and not any(s.tensors[t]['diag'] for t, _ in s.ends[e])]
    if not bonds:
        raise Skip()
    g = clone(s)
    m = int(rng.integers(1, len(bonds) + 1))
    grown = 1.0
    for e in [bonds[int(i)] for i in rng.choice(len(bonds), m, replace=False)]:
        n = s.dims[e]
        X = np.linalg.qr(rng.standard_normal((n, n)))[0] @ np.diag(rng.uniform(0.5, 2, n))
        (t1, p1), (t2, p2) = s.ends[e]
        a = np.asarray(g.tensors[t1]['data'])
        g.tensors[t1]['data'] = np.moveaxis(np.tensordot(a, X, ((p1,), (0,))), -1, p1)
        b = np.asarray(g.tensors[t2]['data'])
        g.tensors[t2]['data'] = np.moveaxis(np.tensordot(b, np.linalg.inv(X).T, ((p2,), (0,))), -1, p2)
        grown *= 8
    mon.note('gauge', s.sig(), m)
    close(mon, value(rng, g)[1], value(rng, s)[1], s, 'gauge transformation of {} bonds'.format(m), 'gauge', extra=grown, also=(g,))


def slicing(rng, mon):
    """cutting a bond and summing over its index gives the same value (also for large networks)"""
    n = int(rng.integers(2, 14))
    s = M.gen_network(rng, n, max_dim=3 if n < 6 else 2, p_diag=float(rng.choice([0, 0.3])), p_free=0.15,
                      kind=['real', 'complex'][int(rng.integers(2))], extra=int(rng.integers(0, n)))
    bonds = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2 and not any(s.tensors[t]['diag'] for t, _ in s.ends[e])]
    if not bonds:
        raise Skip()
    e = bonds[int(rng.integers(len(bonds)))]
    mon.note('slicing', s.sig(), e)
    whole = value(rng, s)[1]
    how = int(rng.integers(3))
    total = 0
    (t1, p1), (t2, p2) = s.ends[e]
    if how < 2:
        for k in range(s.dims[e]):
            q = clone(s)
            q.dims[e] = 1
            for t, p in s.ends[e]:
                a = np.asarray(s.tensors[t]['data'])
                q.tensors[t]['data'] = np.take(a, [k], axis=p)
            total = total + value(rng, q)[1]
        mon.event('bond_of_dim_one')
    else:
        # the bond is cut for real: two free legs, then the diagonal of the result is summed
        ts = M.build(rng, s)
        from CTL.tensor.contract.link import makeLink
        q = clone(s)
        q.ends[e] = [(t1, p1)]
        q.ends.append([(t2, p2)])
        q.dims.append(s.dims[e])
        es = list(q.tensors[t2]['edges'])
        es[p2] = len(q.dims) - 1
        q.tensors[t2]['edges'] = es
        q.label[(t1, p1)], q.label[(t2, p2)] = 'cut1', 'cut2'
        ts = M.build(rng, q)
        r = contract(rng, ts)
        a = np.array(r.toTensor([x for x in s.free_labels()] + ['cut1', 'cut2']))
        total = np.trace(a, axis1=-2, axis2=-1)
        mon.event('cut')
    close(mon, whole, total, s, 'summing over bond {}'.format(e), 'slicing')
    if n > 9:
        mon.event('large')


def scaling(rng, mon):
    """powers of two factor out exactly, also far away from one"""
    s = net(rng, 6)
    g = clone(s)
    tot = 0
    lim = 800 // s.n
    for d in g.tensors:
        k = int(rng.integers(-lim, lim + 1))
        d['data'] = np.asarray(d['data']) * 2.0 ** k
        tot += k
    mon.note('scaling', s.sig(), tot)
    how = int(rng.integers(4))
    st = rng.bit_generator.state
    a = value(rng, g, how)[1]
    rng.bit_generator.state = st
    b = value(rng, s, how)[1]
    close(mon, a * 2.0 ** (-tot // 2) * 2.0 ** (-tot - (-tot // 2)), b, s, 'scaling by 2**{}'.format(tot), 'scaling', tol=1e-12)
    mon.event('huge' if tot > 300 else 'tiny' if tot < -300 else 'moderate')


def relabel(rng, mon):
    """renaming bonds and permuting the legs of a tensor changes nothing but names and order"""
    s = net(rng)
    g = clone(s)
    for t in range(s.n):
        es = list(s.tensors[t]['edges'])
        perm = [int(i) for i in rng.permutation(len(es))]
        g.tensors[t]['edges'] = [es[i] for i in perm]
        if not s.tensors[t]['diag'] and len(es):
            g.tensors[t]['data'] = np.transpose(np.asarray(s.tensors[t]['data']), perm)
    g.ends = [[(t, g.tensors[t]['edges'].index(e)) for t, _ in s.ends[e]] for e in range(len(s.ends))]
    fl = {e: s.label[s.ends[e][0]] for e in s.free()}
    g.label = {}
    M.label_network(rng, g)
    for e in g.free():
        g.label[g.ends[e][0]] = fl[e]
    # the order of the tensors changes as well
    order = [int(i) for i in rng.permutation(s.n)]
    ts = M.build(rng, g)
    r = contract(rng, [ts[i] for i in order])
    mon.note('relabel', s.sig(), order)
    close(mon, np.array(r.toTensor(s.free_labels())), value(rng, s)[1], s, 'permuted network', 'permutation')


def views(rng, mon):
    """single tensor operations keep the type"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    from CTL.tensor.tensorFunc import tensorSVDDecomposition
    from CTL.tensor.contract.contract import merge
    dt = np.dtype(DT[1:5][int(rng.integers(4))])
    real = np.dtype('f4' if dt.itemsize // (2 if dt.kind == 'c' else 1) == 4 else 'f8')
    diag = rng.random() < 0.3
    r = int(rng.integers(2, 5))
    labels = [M.NAMES[int(i)] for i in rng.choice(len(M.NAMES), r, replace=False)]
    n = int(rng.integers(1, 4))
    sh = (n,) * r if diag else tuple(int(x) for x in rng.integers(1, 4, r))
    data = np.asarray(M.rdata(rng, (n,) if diag else sh, 'complex' if dt.kind == 'c' else 'real')).astype(dt)
    t = (DiagonalTensor if diag else Tensor)(data=data, labels=labels, shape=sh)
    mon.note('views', str(dt), sh, diag, labels)
    dense = M.dense_of_diag(data, r) if diag else data
    eps = EPS[str(real)] * 40
    k = int(rng.integers(1, r))
    rows = labels[:k]

    def has(x, want, what):
        mon.check(np.asarray(x).dtype == want, lambda: '{} of a {} tensor is {}'.format(what, dt, np.asarray(x).dtype), 'type_compared')
    has(t.toTensor(), dt, 'data')
    has(t.toMatrix(rows=rows, cols=None), dt, 'matrix')
    has(t.toVector(), dt, 'vector')
    has(t.norm(), real, 'norm')
    mon.equal(t.norm(), np.linalg.norm(dense.ravel()), 'norm', tol=eps)
    c = t.copy()
    has(c.a, dt, 'copy')
    mon.check(np.dtype(t.toTensorLike().dtype) == dt, lambda: 'data-free copy says {}'.format(t.toTensorLike().dtype), 'type_compared')
    c.sumOutLegByLabel(labels[0])
    has(c.a, dt, 'summed out leg')
    c = t.copy()
    w = np.asarray(M.rdata(rng, (sh[0],), 'real')).astype(real)
    c.sumOutLegByLabel(labels[0], weights=w)
    has(c.a, dt, 'weighted sum')
    mon.equal(np.array(c.toTensor()), np.tensordot(w, dense, ((0,), (0,))), 'weighted sum', tol=eps * 10, scale=np.sum(np.abs(dense)) * max(1, np.max(np.abs(w))))
    if not diag:
        q = tensorSVDDecomposition(t, rows=rows, cols=labels[k:], chi=int(rng.integers(1, 5)))
        has(q['u'].a, dt, 'u')
        has(q['v'].a, dt, 'v')
        has(q['s'].a, real, 'singular values')
    mon.event('diag' if diag else 'dense')


WORKLOADS = [('types', types, 1500, 20000), ('integers', integers, 1500, 15000), ('linear', linear, 800, 8000), ('conjugate', conjugate, 600, 6000),
             ('gauge', gauge, 800, 8000), ('slicing', slicing, 800, 8000), ('scaling', scaling, 800, 8000), ('relabel', relabel, 800, 8000),
             ('views', views, 1500, 10000)]
REQUIRED_OBS = ['types.result_float32', 'types.result_complex64', 'types.result_int64', 'types.precision_compared', 'integers.beyond_double',
                'slicing.cut', 'slicing.large', 'scaling.huge', 'scaling.tiny', 'linear.diagonal', 'views.diag']
