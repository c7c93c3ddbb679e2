"""C20  Impurity tensors measure averages over all positions, to any order."""
import itertools
import numpy as np
from harness import Skip
from checks.c19 import torus, make, data

ID = 'C20'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (tensors, orders, iterations) tuples'
ASSUMPTIONS = ['reference: dense contraction of the torus for every assignment of impurities to positions']


def average(arrs, order, rows, cols):
    """average over all `order`-tuples of positions: a position chosen m times holds the order-m tensor"""
    n = rows * cols
    total = 0.0
    count = {}
    for tup in itertools.product(range(n), repeat=order):
        key = tuple(tup.count(i) for i in range(n))
        count[key] = count.get(key, 0) + 1
    for key, c in count.items():
        total += c * torus([[arrs[key[r * cols + k]] for k in range(cols)] for r in range(rows)])
    return total / n ** order


def orders(rng, mon):
    from CTL.examples.HOTRG import HOTRG
    from CTL.examples.impurity import ImpurityTensorNetwork
    dh, dv = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    it = int(rng.integers(1, 4))
    if dh * dv == 4:
        it = min(it, 2)
    k = int(rng.integers(2, 5))
    if it == 3:
        k = min(k, 3)
    sh = (dv, dh, dv, dh)
    a = data(rng, sh, True) + 0.2
    arrs = [a] + [data(rng, sh, False) for _ in range(k - 1)]
    if rng.random() < 0.15:
        arrs = [a] * k          # impurities equal to the tensor itself: every average is 1
    dof = int(rng.integers(1, 4))
    given = k if rng.random() < 0.6 else int(rng.integers(1, k + 1))
    mon.note('orders', it, k, given, dh, dv, dof, b''.join(x.tobytes() for x in arrs))
    h = HOTRG(make(rng, a, dof), chiH=40)
    rows, cols = [1], [1]
    for _ in range(it):
        h.iterate()
        v = h.directChoices[-1] in 'lr'
        rows.append(rows[-1] * (2 if v else 1))
        cols.append(cols[-1] * (1 if v else 2))
    if any(p.shape[0] != p.shape[1] for p in h.projectors) and not all(x is a for x in arrs):
        # directions in which the pure network (nearly) vanishes are dropped by design: impurities may live there
        mon.event('projected')
        raise Skip()
    ts = [make(rng, x, dof) for x in arrs]
    before = [(list(t.labels), np.array(t.a)) for t in ts]
    n = ImpurityTensorNetwork(ts, given) if given != k or rng.random() < 0.5 else ImpurityTensorNetwork(ts)
    n.setRG(h)
    for _ in range(it):
        n.iterate()
    obs = n.measureObservables()
    mon.check(len(obs) == it + 1, lambda: '{} measurements for {} iterations'.format(len(obs), it), kind='measurements')
    for i in range(it + 1):
        mon.check(len(obs[i]) == given, lambda: '{} orders measured'.format(len(obs[i])), kind='orders')
        z = torus([[a] * cols[i]] * rows[i])
        if abs(z) < 1e-6:
            raise Skip()
        za = torus([[np.max([np.abs(x) for x in arrs], axis=0)] * cols[i]] * rows[i])
        for o in range(given):
            want = average(arrs, o, rows[i], cols[i]) / z
            mon.trace(i, o, obs[i][o], want)
            mon.equal(complex(obs[i][o]).real, want, 'order {} on {}x{}'.format(o, rows[i], cols[i]), tol=1e-3, scale=za / abs(z), kind='average')
            if o >= 2:
                mon.event('higher_order')
    for t, (l, x) in zip(ts, before):
        mon.check(list(t.labels) == l and np.array_equal(np.asarray(t.a), x), 'given impurity was changed', kind='inputs_kept')
    mon.event('iterated{}'.format(it))


def ising(rng, mon):
    """energy and magnetisation of small Ising tori against all spin configurations"""
    from CTL.examples.HOTRG import HOTRG
    from CTL.examples.impurity import ImpurityTensorNetwork
    from CTL.models.Ising import squareIsingTensor
    beta = float(rng.uniform(0.05, 0.8))
    h = float(rng.normal() * 0.2) if rng.random() < 0.6 else 0.0
    obs = 'ME'[int(rng.integers(2))]
    it = int(rng.integers(1, 3))
    mon.note('ising', beta, h, obs, it)
    rg = HOTRG(squareIsingTensor(beta, symmetryBroken=h), chiH=20)
    for _ in range(it):
        rg.iterate()
    imp = ImpurityTensorNetwork([squareIsingTensor(beta, symmetryBroken=h), squareIsingTensor(beta, obs=obs, symmetryBroken=h)], 2)
    imp.setRG(rg)
    for _ in range(it):
        imp.iterate()
    got = imp.measureObservables()
    rows = 2 ** sum(c in 'lr' for c in rg.directChoices)
    cols = 2 ** it // rows
    # spins: a horizontal and a vertical bond per tensor
    ns = 2 * rows * cols
    S = 2 * ((np.arange(1 << ns)[:, None] >> np.arange(ns)[None, :]) & 1) - 1
    U = lambda x, y: S[:, (x % rows) * cols + y % cols]
    L = lambda x, y: S[:, rows * cols + (x % rows) * cols + y % cols]
    logw = 0
    m0 = None
    for x in range(rows):
        for y in range(cols):
            u, d, l, r = U(x, y), U(x + 1, y), L(x, y), L(x, y + 1)
            e = u * l + l * d + d * r + r * u
            m = (u + d + l + r) / 2
            logw = logw + beta * e + h * m
            if m0 is None:
                m0 = m if obs == 'M' else -e
    w = np.exp(logw - logw.max())
    want = (w * m0).sum() / w.sum()
    mon.equal(float(got[it][1]), want, obs + ' on the torus', tol=2e-4, scale=4.0, kind='observable')
    mon.equal(float(got[it][0]), 1.0, 'order 0', tol=1e-6, kind='observable')
    mon.event(obs)


def use(rng, mon):
    from CTL.examples.impurity import ImpurityTensorNetwork
    from CTL.examples.HOTRG import HOTRG
    mon.note('use', int(rng.integers(1000)))
    a = data(rng, (2, 2, 2, 2), True)
    n = ImpurityTensorNetwork([make(rng, a, 1), make(rng, a, 1)], 2)
    mon.raises((AssertionError, ValueError), n.iterate, 'iterating without a renormalisation')
    h = HOTRG(make(rng, a, 1), chiH=4)
    n.setRG(h)
    mon.raises((AssertionError, ValueError, IndexError), n.iterate, 'iterating further than the renormalisation')


def known_orders(rng, mon):
    from CTL.examples.HOTRG import HOTRG
    from CTL.examples.impurity import ImpurityTensorNetwork
    a = data(rng, (2, 2, 2, 2), True)
    h = HOTRG(make(rng, a, 1), chiH=16)
    h.iterate()
    n = ImpurityTensorNetwork([make(rng, a, 1), make(rng, a, 1)], 3)
    n.setRG(h)
    n.iterate()


WORKLOADS = [('orders', orders, 400, 4000), ('ising', ising, 250, 2000), ('use', use, 50, 300)]
REQUIRED_OBS = ['orders.higher_order', 'orders.iterated1', 'orders.iterated2', 'orders.iterated3', 'ising.M', 'ising.E']
KNOWN = {'missing-orders': known_orders}
