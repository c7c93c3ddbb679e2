"""C18  Ising tensors and tensor networks have exactly the partition function of the spins they stand for."""
import numpy as np
import model as M
from harness import Skip

ID = 'C18'
FACTOR = 3          # multiplies the case counts of both tiers
RULE = 'distinct (graph or lattice, couplings, options) tuples'
ASSUMPTIONS = ['the reference sums Boltzmann weights over all spin configurations with its own edge lists (never CTL graphs)']


# ---------------------------------------------------------------- reference
def spins(n):
    """all configurations, shape (2^n, n), values -1/+1 (bit 0 -> -1)"""
    return 2 * ((np.arange(1 << n)[:, None] >> np.arange(n)[None, :]) & 1) - 1


def weights(n, edges):
    S = spins(n)
    E = np.zeros(1 << n)
    for i, j, w in edges:
        E += float(w) * S[:, i] * S[:, j]
    return np.exp(E)


def coupling(rng, flavour=None):
    f = int(rng.integers(6)) if flavour is None else flavour
    if f == 0:
        return float(rng.normal())
    if f == 1:
        return float(abs(rng.normal()) + 0.01)
    if f == 2:
        return 0.0
    if f == 3:
        return int(rng.integers(-2, 3))
    if f == 4:
        return [np.float64, np.int32, np.int64][int(rng.integers(3))](rng.integers(-2, 3))
    return float(rng.normal() * 2)


def contract(rng, ts):
    """value of a CTL network, through one of its own contraction routes"""
    from CTL.tensor.contract.optimalContract import (contractTensorList, generateOptimalSequence, generateGreedySequence,
                                                     contractWithSequence, contractAndCostWithSequence)
    r = int(rng.integers(5)) if len(ts) <= 8 else int(rng.integers(2))
    if r == 0:
        return contractAndCostWithSequence(list(ts), greedy=True)[0]
    if r == 1:
        return contractWithSequence(list(ts), seq=generateGreedySequence(list(ts)))
    if r == 2:
        return contractTensorList(list(ts))
    if r == 3:
        return contractWithSequence(list(ts), bf=bool(len(ts) <= 6 and rng.random() < 0.5), typicalDim=None)
    return contractWithSequence(list(ts), seq=generateOptimalSequence(list(ts), bf=bool(len(ts) <= 6 and rng.random() < 0.5), typicalDim=None))


def scalar(t, mon, msg):
    a = np.asarray(t.a if hasattr(t, 'a') else t)
    mon.check(a.size == 1 and len(t.labels) == 0, lambda: msg + ': not a scalar: {!r}'.format(t), kind='closed')
    return complex(a.reshape(()))


def compare(mon, got, want, msg, tot=None):
    mon.equal(np.array([got.real, got.imag]), np.array([want, 0.0]), msg, tol=1e-8, scale=tot if tot is not None else abs(want), kind='partition_function')


# ---------------------------------------------------------------- random graphs
def graphs(rng, mon):
    from CTL.funcs.graph import UndirectedGraph
    from CTL.models.Ising import IsingTNFromUndirectedGraph, exactZFromGraphIsing, getIsingWeight
    n = int(rng.integers(1, 9))
    m = int(rng.integers(0, min(14, 2 * n + 3)))
    fl = None if rng.random() < 0.5 else int(rng.integers(6))
    g = UndirectedGraph(n)
    edges = []

    def add():
        i, j = int(rng.integers(n)), int(rng.integers(n))
        if i == j and rng.random() < 0.5:
            j = int(rng.integers(n))
        # keep tensors small
        deg = [sum((a == v) + (b == v) for a, b, _ in edges) for v in (i, j)]
        if max(deg) >= 7:
            return
        w = coupling(rng, fl)
        g.addEdge(i, j, weight=w)
        edges.append((i, j, w))
        if i == j:
            mon.event('self_loop')
        if sum((a, b) in ((i, j), (j, i)) for a, b, _ in edges) > 1 and i != j:
            mon.event('parallel_edges')
    for _ in range(m):
        add()
    mon.note('graph', n, [(i, j, repr(w)) for i, j, w in edges])
    for round in range(1 + (rng.random() < 0.3)):
        if round:
            add()
            mon.event('edge_added_after_use')
        W = weights(n, edges)
        Z = W.sum()
        z = exactZFromGraphIsing(g)
        compare(mon, complex(z), Z, 'exact enumeration')
        for _ in range(3):
            S = int(rng.integers(1 << n))
            w = complex(getIsingWeight(g, S))
            # the order of bits is the caller's convention: flipping or reversing must be consistent
            rev = int(''.join(reversed(format(S, '0{}b'.format(n)))), 2)
            mon.check(abs(w - W[S]) < 1e-9 * W[S] or abs(w - W[rev]) < 1e-9 * W[rev],
                      lambda: 'Boltzmann weight of configuration {}: {} observed, {} expected'.format(S, w, W[S]), kind='boltzmann_weight')
        ts = IsingTNFromUndirectedGraph(g)
        mon.check(len(ts) == n, lambda: '{} tensors for {} spins'.format(len(ts), n), kind='one_tensor_per_spin')
        M.check_links(mon, ts, "network of the graph")
        deg = [sum((a == v) + (b == v) for a, b, _ in edges if a != b) for v in range(n)]
        mon.check([len(t.labels) for t in ts] == deg, lambda: 'degrees {} observed, {} expected'.format([len(t.labels) for t in ts], deg), kind='degrees')
        if any(d == 0 for d in deg):
            mon.event('isolated_spin')
        if any(float(w) < 0 for _, _, w in edges):
            mon.event('antiferromagnetic')
        # frustrated weights cancel a little: scale by the absolute network
        zt = scalar(contract(rng, ts), mon, 'network of the graph')
        tot = np.exp(sum(abs(float(w)) for _, _, w in edges)) * 2.0 ** n
        compare(mon, zt, Z, 'contracted network of the graph', tot=tot)
        # the edges stay as given
        got = sorted((sorted((e.vertices[0].index, e.vertices[1].index)), float(e.weight)) for e in g.getEdges())
        mon.check(got == sorted((sorted((i, j)), float(w)) for i, j, w in edges), 'edges of the graph changed', kind='graph_kept')


# ---------------------------------------------------------------- site tensors
def sites(rng, mon):
    from CTL.models.Ising import IsingEdgeMatrix, IsingSiteTensor
    d = int(rng.integers(0, 7))
    one = bool(rng.random() < 0.3)
    ws = [coupling(rng) for _ in range(d)]
    if one:
        w = coupling(rng)
        ws = [w] * d
    pool = list('abcdefgh')
    labels = None if rng.random() < 0.3 else [pool[i] for i in rng.permutation(8)[:d]]
    mon.note('site', d, [repr(w) for w in ws], labels, one)
    given = None if labels is None else list(labels)
    ms = []
    for w in ws:
        m = np.asarray(IsingEdgeMatrix(w))
        if rng.random() < 0.3:      # the matrix belongs to its user
            again, m = m, m.copy()
            again[...] = 5
            mon.event('result_changed')
        w = float(w)
        mon.equal(m @ m, np.array([[np.exp(w), np.exp(-w)], [np.exp(-w), np.exp(w)]]), 'edge matrix squared', tol=1e-10, kind='edge_matrix')
        mon.equal(m, m.T, 'edge matrix is symmetric', kind='edge_matrix')
        ms.append(m)
    if not one and d == 4 and rng.random() < 0.5:
        t = IsingSiteTensor(list(ws), labels=labels)
    elif rng.random() < 0.5 and not one:
        t = IsingSiteTensor(tuple(ws), dim=d, labels=labels)
    else:
        t = IsingSiteTensor(ws[0] if one and d else (0.3 if one else list(ws)), dim=d, labels=labels)
    mon.check(labels is None or labels == given, 'labels given were changed', kind='arguments_kept')
    want = np.zeros((2,) * d, complex)
    for s in range(2):
        x = np.array(1.0 + 0j)
        for m in ms:
            x = np.multiply.outer(x, m[s])
        want = want + x
    mon.check(list(t.labels) == (given if given is not None else list('abcdefghijklmnop')[:d]), lambda: 'labels {}'.format(t.labels), kind='labels')
    mon.equal(np.asarray(t.a), want, 'site tensor', tol=1e-10, scale=np.abs(want).max() + sum(abs(x).max() for x in ms), kind='site_tensor')
    if all(float(w) >= 0 for w in ws):
        mon.check(not np.iscomplexobj(np.asarray(t.a)), 'ferromagnetic site tensor is complex', kind='real_tensor')


# ---------------------------------------------------------------- lattices
def torus_edges(n, m, V, H):
    e = []
    for x in range(n):
        for y in range(m):
            e.append((x * m + y, x * m + (y + 1) % m, H))
            e.append((x * m + y, ((x + 1) % n) * m + y, V))
    return e


def open_edges(n, m, V, H):
    return [(x * m + y, x * m + y + 1, H) for x in range(n) for y in range(m - 1)] + \
           [(x * m + y, (x + 1) * m + y, V) for x in range(n - 1) for y in range(m)]


def diamond_edges(n, m, ttb, btt):
    """sites: tops/bottoms of the plaquettes first, then lefts/rights"""
    def U(x, y):
        return x * m + y

    def L(x, y):
        return (n + 1) * m + x * (m + 1) + y
    e = []
    for x in range(n):
        for y in range(m):
            e += [(L(x, y), U(x, y), btt), (L(x, y), U(x + 1, y), ttb), (L(x, y + 1), U(x, y), ttb), (L(x, y + 1), U(x + 1, y), btt)]
    return e


def graph_edges(g):
    return [(e.vertices[0].index, e.vertices[1].index, e.weight) for e in g.getEdges()]


def norm_edges(es):
    return sorted((min(i, j), max(i, j), float(w)) for i, j, w in es)


def lattices(rng, mon):
    from CTL.funcs.graphFuncs import squareLatticePBC, squareLatticeFBC, doubleSquareLatticeFBC, completeGraph
    from CTL.models.Ising import IsingTNFromUndirectedGraph, exactZFromGraphIsing
    kind = ['pbc', 'fbc', 'double', 'complete'][int(rng.integers(4))]
    n = int(rng.integers(1, 5))
    m = None if rng.random() < 0.25 else int(rng.integers(1, 5))
    mm = n if m is None else m
    single = bool(rng.random() < 0.3)
    V, H = coupling(rng), coupling(rng)
    if single:
        H = V
    w = V if single else ((V, H) if rng.random() < 0.5 else [V, H])
    kw = {'weight': w}
    if rng.random() < 0.05:
        kw, V, H = {}, 0.0, 0.0
    if kind == 'complete':
        n = int(rng.integers(1, 8))
        kw = {'weight': V} if kw else {}
        mon.note(kind, n, repr(kw))
        g = completeGraph(n, **kw)
        want = [(i, j, V) for i in range(n) for j in range(i)]
        nn = n
    else:
        f, ref = {'pbc': (squareLatticePBC, torus_edges), 'fbc': (squareLatticeFBC, open_edges), 'double': (doubleSquareLatticeFBC, diamond_edges)}[kind]
        mon.note(kind, n, m, repr(kw))
        g = f(n, **kw) if m is None else (f(n, m, **kw) if rng.random() < 0.5 else f(n=n, m=m, **kw))
        want = ref(n, mm, V, H)
        nn = n * mm if kind != 'double' else n * (mm + 1) + mm * (n + 1)
    if kind == 'complete':
        again = completeGraph(n, **kw)
    else:
        again = f(n, **kw) if m is None else f(n, m, **kw)
    again.addEdge(int(rng.integers(nn)), int(rng.integers(nn)), weight=0.5)
    mon.check(g.n == nn and len(g.v) == nn, lambda: '{} vertices, {} expected'.format(g.n, nn), kind='vertices')
    got = norm_edges(graph_edges(g))
    mon.check(got == norm_edges(want), lambda: 'edges of the {} lattice {}x{}: {} observed, {} expected'.format(kind, n, mm, got, norm_edges(want)), kind='edges')
    mon.event(kind)
    if nn > 12:
        return
    Z = weights(nn, want).sum()
    if kind == 'complete':
        from math import comb
        Zf = sum(comb(n, k) * np.exp(float(V) * ((n - 2 * k) ** 2 - n) / 2) for k in range(n + 1))
        mon.equal(Z, Zf, 'reference against the closed formula', tol=1e-9, scale=Z)
    zt = scalar(contract(rng, IsingTNFromUndirectedGraph(g)), mon, kind)
    tot = np.exp(sum(abs(float(w)) for _, _, w in want)) * 2.0 ** nn
    compare(mon, zt, Z, 'network of the {} lattice'.format(kind), tot=tot)
    compare(mon, complex(exactZFromGraphIsing(g)), Z, 'enumeration of the {} lattice'.format(kind))


# ---------------------------------------------------------------- plaquette tensors
def plaquettes(rng, mon):
    """n x m plaquette tensors (diamond orientation): the double square lattice; with measurements"""
    from CTL.models.Ising import squareIsingTensor, plaquetteIsingTensor
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.tensor import Tensor
    n, m = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)][int(rng.integers(6))]
    torus = bool(rng.random() < 0.4)
    square = bool(rng.random() < 0.5)
    beta = coupling(rng, int(rng.integers(2)))
    h = 0.0 if rng.random() < 0.5 else float(rng.normal() * 0.3)
    a, b = coupling(rng), coupling(rng)
    if rng.random() < 0.3:
        b = a
    obs = [None, 'M', 'E'][int(rng.integers(3))]
    mon.note('square' if square else 'plaquette', n, m, torus, beta if square else (repr(a), repr(b)), h, obs)
    where = (int(rng.integers(n)), int(rng.integers(m)))
    # sites
    if torus:
        ns = 2 * n * m

        def U(x, y):
            return (x % n) * m + y

        def L(x, y):
            return n * m + x * m + y % m
    else:
        ns = n * (m + 1) + m * (n + 1)

        def U(x, y):
            return x * m + y

        def L(x, y):
            return (n + 1) * m + x * (m + 1) + y
    S = spins(ns)
    logw = np.zeros(1 << ns)
    meas = np.ones(1 << ns)
    tot = 1.0
    for x in range(n):
        for y in range(m):
            u, d, l, r = U(x, y), U(x + 1, y), L(x, y), L(x, y + 1)
            pairs = [(r, d, a), (d, l, b), (l, u, a), (u, r, b)]
            for i, j, w in pairs:
                logw += (beta if square else float(w)) * S[:, i] * S[:, j]
                tot *= np.exp(abs(beta if square else float(w)))
            Mloc = 0.5 * (S[:, u] + S[:, d] + S[:, l] + S[:, r])
            if square:
                logw += h * Mloc
                tot *= np.exp(2 * abs(h))
                if (x, y) == where:
                    if obs == 'M':
                        meas = Mloc
                    elif obs == 'E':
                        meas = -sum(S[:, i] * S[:, j] for i, j, _ in pairs)
    want = (np.exp(logw) * meas).sum()
    ts = {}
    for x in range(n):
        for y in range(m):
            if square:
                kw = {}
                if (x, y) == where and obs:
                    kw['obs'] = obs
                if h:
                    kw['symmetryBroken'] = h
                t = squareIsingTensor(beta, **kw)
                mon.event('measured' if obs else 'partition')
            else:
                w = a if (isinstance(a, type(b)) and a == b and rng.random() < 0.7) else ((a, b) if rng.random() < 0.5 else [a, b])
                t = plaquetteIsingTensor(w, diamondForm=True)
            mon.check(sorted(t.labels) == ['d', 'l', 'r', 'u'], lambda: 'labels {}'.format(t.labels), kind='labels')
            mon.check(t.degreeOfFreedom == 2, lambda: 'degree of freedom {}'.format(t.degreeOfFreedom), kind='dof')
            ts[(x, y)] = t
    extra = []

    def close(t, label):
        e = Tensor(data=np.ones(2), labels=['e'])
        makeLink(label, 'e', t, e)
        extra.append(e)
    if torus and (n == 1 or m == 1):
        # links of a tensor with itself are not representable: put an identity in between
        for x in range(n):
            for y in range(m):
                for la, lb, other in (('d', 'u', ((x + 1) % n, y)), ('r', 'l', (x, (y + 1) % m))):
                    i = Tensor(data=np.eye(2), labels=['p', 'q'])
                    makeLink(la, 'p', ts[(x, y)], i)
                    makeLink('q', lb, i, ts[other])
                    extra.append(i)
        mon.event('torus')
    elif torus:
        for x in range(n):
            for y in range(m):
                makeLink('d', 'u', ts[(x, y)], ts[((x + 1) % n, y)])
                makeLink('r', 'l', ts[(x, y)], ts[(x, (y + 1) % m)])
        mon.event('torus')
    else:
        for x in range(n):
            for y in range(m):
                if x + 1 < n:
                    makeLink('d', 'u', ts[(x, y)], ts[(x + 1, y)])
                else:
                    close(ts[(x, y)], 'd')
                if y + 1 < m:
                    makeLink('r', 'l', ts[(x, y)], ts[(x, y + 1)])
                else:
                    close(ts[(x, y)], 'r')
                if x == 0:
                    close(ts[(x, y)], 'u')
                if y == 0:
                    close(ts[(x, y)], 'l')
        mon.event('open')
    z = scalar(contract(rng, list(ts.values()) + extra), mon, 'plaquettes')
    compare(mon, z, want, 'network of plaquettes', tot=tot * 2.0 ** ns * (4 if obs else 1))
    if not square and not torus:
        from CTL.funcs.graphFuncs import doubleSquareLatticeFBC
        from CTL.models.Ising import exactZFromGraphIsing
        g = doubleSquareLatticeFBC(n, m, weight=(b, a))
        compare(mon, complex(exactZFromGraphIsing(g)), want, 'double square lattice of the same couplings')


def elements(rng, mon):
    """every entry of a plaquette tensor is the weight (times the measured value) of the four spins of its index"""
    from CTL.models.Ising import squareIsingTensor, plaquetteIsingTensor, squareTensorMeasure
    k = int(rng.integers(3))
    a, b = coupling(rng), coupling(rng)
    h = 0.0 if rng.random() < 0.5 else float(rng.normal() * 0.3)
    obs = [None, 'M', 'E'][int(rng.integers(3))]
    if k == 0:
        t = squareIsingTensor(a, obs=obs, symmetryBroken=h)
        bonds = [('u', 'l', a), ('l', 'd', a), ('d', 'r', a), ('r', 'u', a)]
        labels = ['u', 'l', 'd', 'r']
        mon.note('entries of the square tensor', repr(a), h, obs)
    else:
        t = plaquetteIsingTensor((a, b) if k == 1 else [a, b], diamondForm=(k == 2))
        if k == 2:
            bonds = [('r', 'd', a), ('l', 'u', a), ('d', 'l', b), ('u', 'r', b)]
            labels = ['l', 'd', 'r', 'u']
        else:       # upright: the first coupling is the vertical one
            bonds = [('ru', 'rd', a), ('lu', 'ld', a), ('lu', 'ru', b), ('ld', 'rd', b)]
            labels = ['lu', 'ru', 'rd', 'ld']
        h, obs = 0.0, None
        mon.note('entries of a plaquette', k, repr(a), repr(b))
    mon.check(sorted(t.labels) == sorted(labels), lambda: 'labels {}'.format(t.labels), kind='labels')
    again = squareIsingTensor(a, obs=obs, symmetryBroken=h) if k == 0 else plaquetteIsingTensor([a, b], diamondForm=(k == 2))
    mon.equal(again.a, t.a, 'the same tensor made again', kind='repeat_compared')
    again.a[...] = 7                # belongs to its user
    order = [labels[int(i)] for i in rng.permutation(4)]
    got = np.asarray(t.toTensor(list(order)))
    for i in range(16):
        bits = [(i >> j) & 1 for j in range(4)]
        s = {x: 2 * y - 1 for x, y in zip(order, bits)}
        E = sum(-s[x] * s[y] for x, y, _ in bonds)
        m = sum(s.values()) / 2
        want = np.exp(sum(float(w) * s[x] * s[y] for x, y, w in bonds) + h * m)
        want *= {None: 1.0, 'M': m, 'E': E}[obs]
        mon.equal(got[tuple(bits)], want, 'entry {} of legs {}'.format(bits, order), kind='entries', scale=max(1, abs(want)), tol=1e-6 if np.float32 in (type(a), type(b)) else 1e-9)
        ring = tuple((s[x] + 1) // 2 for x in (['u', 'l', 'd', 'r'] if k != 1 else ['lu', 'ru', 'rd', 'ld']))
        mon.check(squareTensorMeasure(ring, 'E') == E and squareTensorMeasure(ring, 'M') == m and squareTensorMeasure(ring) == 1.0, 'measured value of spins {}'.format(ring), kind='entries')


def checkerboard(rng, mon):
    """plaquette tensors (upright orientation) on the black squares of a checkerboard: every bond of the board exactly once"""
    from CTL.models.Ising import plaquetteIsingTensor
    from CTL.tensor.contract.link import makeLink
    from CTL.tensor.tensor import Tensor
    n, m = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)][int(rng.integers(6))]
    par = int(rng.integers(2))
    black = [(x, y) for x in range(n) for y in range(m) if (x + y) % 2 == par]
    if not black:
        raise Skip()
    V, H = coupling(rng), coupling(rng)
    mon.note('checkerboard', n, m, par, repr(V), repr(H))
    sites = sorted({(x + i, y + j) for x, y in black for i in (0, 1) for j in (0, 1)})
    idx = {s: k for k, s in enumerate(sites)}
    edges = []
    for x, y in black:
        edges += [(idx[x, y], idx[x, y + 1], H), (idx[x + 1, y], idx[x + 1, y + 1], H), (idx[x, y], idx[x + 1, y], V), (idx[x, y + 1], idx[x + 1, y + 1], V)]
    want = weights(len(sites), edges).sum()
    pos = {'lu': (0, 0), 'ru': (0, 1), 'ld': (1, 0), 'rd': (1, 1)}
    ends = {}
    ts = []
    for x, y in black:
        t = plaquetteIsingTensor((V, H) if rng.random() < 0.5 else [V, H]) if not (V == H and rng.random() < 0.5) else plaquetteIsingTensor(V)
        mon.check(sorted(t.labels) == sorted(pos), lambda: 'labels {}'.format(t.labels), kind='labels')
        ts.append(t)
        for lab, (i, j) in pos.items():
            ends.setdefault((x + i, y + j), []).append((lab, t))
    for s, e in ends.items():
        if len(e) == 1:
            v = Tensor(data=np.ones(2), labels=['e'])
            makeLink(e[0][0], 'e', e[0][1], v)
            ts.append(v)
        else:
            makeLink(e[0][0], e[1][0], e[0][1], e[1][1])
    z = scalar(contract(rng, ts), mon, 'checkerboard')
    tot = np.exp(sum(abs(float(w)) for _, _, w in edges)) * 2.0 ** len(sites)
    compare(mon, z, want, 'checkerboard of plaquettes', tot=tot)
    mon.event('closed_board')


def magnetisation(rng, mon):
    from CTL.models.Ising import infiniteIsingExactM
    T = float(np.exp(rng.normal()))
    V = float(np.exp(rng.normal() * 0.5))
    tc = 2 / np.log(1 + np.sqrt(2))
    if rng.random() < 0.3:
        T = tc * V * (1 + float(rng.normal()) * 1e-3)
    mon.note('magnetisation', T, V)
    got = float(infiniteIsingExactM(T, V))
    x = np.sinh(2 * V / T)
    want = (1 - x ** -4) ** 0.125 if x > 1 else 0.0
    if abs(x - 1) < 1e-9:
        raise Skip()
    mon.equal(got, want, 'magnetisation', tol=1e-9, kind='magnetisation')
    mon.equal(float(infiniteIsingExactM(T / V)), want, 'only T/V matters', tol=1e-6, kind='magnetisation')
    mon.check(0 <= got < 1 + 1e-12, 'magnetisation outside [0, 1]', kind='magnetisation')
    mon.event('ordered' if x > 1 else 'disordered')


def refusals(rng, mon):
    from CTL.models.Ising import squareIsingTensor, plaquetteIsingTensor, IsingSiteTensor, IsingTNFromUndirectedGraph, exactZFromGraphIsing, getIsingWeight
    from CTL.funcs.graph import UndirectedGraph
    k = int(rng.integers(6))
    mon.note('refusal', k, int(rng.integers(50)))
    E = (ValueError, AssertionError)
    if k == 0:
        mon.raises(E, lambda: squareIsingTensor(0.3, obs=['X', 'm', 'Energy', 'e'][int(rng.integers(4))]), 'unknown observable')
    elif k == 1:
        mon.raises(E, lambda: plaquetteIsingTensor([0.1] * int(rng.choice([1, 3, 4]))), 'wrong number of couplings')
    elif k == 2:
        d = int(rng.integers(1, 6))
        mon.raises(E, lambda: IsingSiteTensor([0.2] * (d + int(rng.choice([-1, 1]))), dim=d), 'wrong number of couplings')
    elif k == 3:
        d = int(rng.integers(1, 6))
        mon.raises(E, lambda: IsingSiteTensor(0.2, dim=d, labels=list('abcdefgh')[:d + 1]), 'wrong number of labels')
    elif k == 4:
        for f in (IsingTNFromUndirectedGraph, exactZFromGraphIsing, lambda g: getIsingWeight(g, 0)):
            mon.raises(E, lambda: f([1, 2]), 'not a graph')
    else:
        n = int(rng.integers(1, 6))
        g = UndirectedGraph(n)
        mon.raises(E, lambda: g.addEdge(int(rng.choice([-1, n])), 0, weight=0.1), 'vertex out of range')
        mon.raises(E, lambda: g.addEdge(0, int(rng.choice([-1, n])), weight=0.1), 'vertex out of range')
        mon.check(g.getEdges() == [], 'refused edge was added', kind='unchanged')


WORKLOADS = [
    ('graphs', graphs, 3000, 30000),
    ('sites', sites, 3000, 30000),
    ('lattices', lattices, 1500, 15000),
    ('plaquettes', plaquettes, 1500, 15000),
    ('elements', elements, 1500, 10000),
    ('checkerboard', checkerboard, 800, 8000),
    ('magnetisation', magnetisation, 1500, 10000),
    ('refusals', refusals, 300, 2000),
]
REQUIRED_OBS = ['graphs.antiferromagnetic', 'graphs.isolated_spin', 'graphs.self_loop', 'graphs.parallel_edges', 'graphs.edge_added_after_use',
                'lattices.pbc', 'lattices.fbc', 'lattices.double', 'lattices.complete', 'plaquettes.torus', 'plaquettes.open', 'plaquettes.measured',
                'magnetisation.ordered', 'magnetisation.disordered']
