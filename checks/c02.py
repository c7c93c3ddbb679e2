"""C02  The value of a network does not depend on how its contraction is scheduled."""
import warnings
import numpy as np
import model as M

ID = 'C02'
FACTOR = 4          # multiplies the case counts of both tiers
RULE = 'distinct (network structure, dims, kinds, strategy or sequence) tuples with at least two tensors'


def read(mon, rng, s, res, msg, want, scale):
    labels = s.free_labels()
    perm = rng.permutation(len(labels))
    M.check_links(mon, [res], msg)
    got = M.observe(mon, res, [labels[i] for i in perm], msg, dims=[want.shape[i] for i in perm])
    mon.equal(got, np.transpose(want, perm) if want.ndim else want, msg + ' ' + s.describe(), scale=scale)


def strategies(rng, ts, n):
    """(name, thunk) list; every thunk contracts the list without changing it"""
    from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, contractAndCostWithSequence, \
        generateOptimalSequence, generateGreedySequence
    out = [
        ('default', lambda: contractTensorList(ts, outProductWarning=bool(rng.integers(2)))),
        ('typical', lambda: contractWithSequence(ts, typicalDim=int(rng.choice([2, 5, 10])))),
        ('realdims', lambda: contractWithSequence(ts, typicalDim=None)),
        ('greedy', lambda: contractAndCostWithSequence(ts, greedy=True)[0]),
        ('greedyseq', lambda: contractWithSequence(ts, seq=generateGreedySequence(ts))),
        ('random', lambda: contractWithSequence(ts, seq=M.random_sequence(rng, n))),
        ('random2', lambda: contractAndCostWithSequence(ts, seq=M.random_sequence(rng, n))[0]),
        ('cappingseq', lambda: contractWithSequence(ts, seq=generateOptimalSequence(ts, typicalDim=None))),
    ]
    if n <= 6:
        out += [('bf', lambda: contractWithSequence(ts, bf=True)),
                ('bfreal', lambda: contractWithSequence(ts, bf=True, typicalDim=None)),
                ('bfseq', lambda: contractWithSequence(ts, seq=generateOptimalSequence(ts, bf=True)))]
    return out


def network(rng, mon, connected=True, nmax=6, p_diag=None):
    from CTL.tensor.contract.optimalContract import contractWithSequence
    n = int(rng.integers(1, nmax + 1))
    s = M.gen_network(rng, n, units=0.1, p_diag=p_diag if p_diag is not None else [0.0, 0.3, 0.7, 1.0][int(rng.integers(4))],
                      p_free=float(rng.choice([0.0, 0.2, 0.4])), connected=connected, max_dim=int(rng.choice([2, 3])),
                      extra=None if connected else int(rng.integers(0, n + 1)), max_rank=5, out_cap=2000, repeat=0.2)
    ts = M.build(rng, s)
    want = s.value()
    scale = np.max(s.value(absolute=True)) if want.size else 1.0
    st = strategies(rng, ts, n)
    pick = [st[i] for i in rng.permutation(len(st))[:5]]
    if n > 1:
        mon.note(s.describe(), s.sig(), [p[0] for p in pick])
    for name, f in pick:
        mon.event('strategy_' + name)
        read(mon, rng, s, f(), name, want, scale)
    mon.event('tensors_%d' % n)
    # in place: consumes the list, same value; the result is element 0 too
    lst = list(ts)
    seq = M.random_sequence(rng, n)
    res = contractWithSequence(lst, seq=seq if rng.random() < 0.7 else None, inplace=True)
    mon.check(res is lst[0], 'in-place contraction: the result is not stored in the list', 'inplace_stored')
    read(mon, rng, s, res, 'inplace', want, scale)


def disconnected(rng, mon):
    network(rng, mon, connected=False, nmax=5)


def alldiag(rng, mon):
    network(rng, mon, connected=bool(rng.integers(2)), nmax=5, p_diag=float(rng.choice([0.8, 1.0])))


def sublist(rng, mon):
    """contracting part of a larger network: bonds to the outside are free legs of the result"""
    from CTL.tensor.contract.optimalContract import contractAndCostWithSequence
    n = int(rng.integers(3, 7))
    s = M.gen_network(rng, n, units=0.1, p_diag=0.3, p_free=0.2, max_dim=2, max_rank=4, extra=int(rng.integers(0, 3)))
    for t in range(n):
        for p in range(len(s.tensors[t]['edges'])):
            s.label[(t, p)] = 't{}p{}'.format(t, p)
    ts = M.build(rng, s)
    k = int(rng.integers(1, n))
    sub = sorted(int(x) for x in rng.choice(n, k, replace=False))
    s2 = M.Spec()
    new = {t: i for i, t in enumerate(sub)}
    emap = {}
    for t in sub:
        es = []
        for p, e in enumerate(s.tensors[t]['edges']):
            if e not in emap:
                emap[e] = len(s2.dims)
                s2.dims.append(s.dims[e])
                s2.ends.append([])
            es.append(emap[e])
            s2.ends[emap[e]].append((new[t], p))
            s2.label[(new[t], p)] = s.label[(t, p)]
        s2.tensors.append({'diag': s.tensors[t]['diag'], 'edges': es, 'data': s.tensors[t]['data']})
    want = s2.value()
    if want.size > 3000:
        from harness import Skip
        raise Skip()
    scale = np.max(s2.value(absolute=True)) if want.size else 1.0
    lst = [ts[t] for t in sub]
    before = M.snapshot(ts)
    mon.note(s.describe(), s.sig(), sub)
    for name, f in [strategies(rng, lst, k)[i] for i in (0, 3, 5)]:
        read(mon, rng, s2, f(), 'part ' + name, want, scale)
    M.same_snapshot(mon, before, ts, 'contracting part of a network')


def big(rng, mon):
    """rings, trees, ladders, grids with many tensors: greedy and default planning"""
    from CTL.tensor.contract.optimalContract import contractAndCostWithSequence, contractTensorList
    kind = int(rng.integers(4))
    s = M.Spec()
    pairs = []
    if kind == 0:
        n = int(rng.integers(8, 25))
        pairs = [(i, (i + 1) % n) for i in range(n)]
    elif kind == 1:
        n = int(rng.integers(8, 25))
        pairs = [(i, int(rng.integers(i))) for i in range(1, n)]
    elif kind == 2:
        m = int(rng.integers(3, 9))
        n = 2 * m
        pairs = [(2 * i, 2 * i + 1) for i in range(m)] + [(2 * i + k, 2 * i + 2 + k) for i in range(m - 1) for k in (0, 1)]
    else:
        a, b = int(rng.integers(3, 5)), int(rng.integers(3, 6))
        n = a * b
        pairs = [(i * b + j, i * b + j + 1) for i in range(a) for j in range(b - 1)] + [(i * b + j, i * b + b + j) for i in range(a - 1) for j in range(b)]
    per = rng.permutation(n)
    ends = [[int(per[x]), int(per[y])] for x, y in pairs]
    for _ in range(int(rng.integers(0, 4))):
        ends.append([int(rng.integers(n))])
    s.dims = [2] * len(ends)
    s.ends = [[] for _ in ends]
    for t in range(n):
        es = [e for e in range(len(ends)) for x in ends[e] if x == t]
        if len(es) > 9:
            from harness import Skip
            raise Skip()
        es = [es[i] for i in rng.permutation(len(es))]
        for p, e in enumerate(es):
            s.ends[e].append((t, p))
        dg = rng.random() < 0.3
        s.tensors.append({'diag': bool(dg), 'edges': es, 'data': rng.standard_normal((2,) if dg and es else (2,) * len(es))})
    M.label_network(rng, s, repeat=0.2)
    ts = M.build(rng, s)
    want = s.value()
    scale = np.max(s.value(absolute=True))
    mon.note('kind {} n {}'.format(kind, n), s.sig())
    read(mon, rng, s, contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)[0], 'greedy n={}'.format(n), want, scale)
    if n <= 10:
        read(mon, rng, s, contractTensorList(ts), 'default n={}'.format(n), want, scale)
    mon.event('big_networks')


def announced(rng, mon):
    """outer products are announced by a warning by default, and silent when switched off, in every form of the call"""
    from CTL.tensor.contract.optimalContract import contractTensorList, contractWithSequence, contractAndCostWithSequence
    n = int(rng.integers(1, 6))
    connected = bool(rng.random() < 0.5)
    s = M.gen_network(rng, n, units=0.1, p_diag=0.3, p_free=0.3, max_dim=2, max_rank=4, connected=connected, extra=int(rng.integers(0, n)), out_cap=800)
    ts = M.build(rng, s)
    # is the network in one piece?
    comp = list(range(n))
    for e in s.ends:
        if len(e) == 2:
            a, b = comp[e[0][0]], comp[e[1][0]]
            comp = [a if x == b else x for x in comp]
    pieces = len(set(comp))
    seq = M.random_sequence(rng, n)
    forms = {'list': lambda **k: contractTensorList(ts, **k), 'sequence': lambda **k: contractWithSequence(ts, seq=seq, **k),
             'bf': lambda **k: contractWithSequence(ts, bf=True, **k), 'real': lambda **k: contractWithSequence(ts, typicalDim=None, **k),
             'greedy': lambda **k: contractAndCostWithSequence(ts, greedy=True, **k)[0]}
    name = list(forms)[int(rng.integers(len(forms)))]
    kw = [{}, {'outProductWarning': True}, {'outProductWarning': False}][int(rng.integers(3))]
    mon.note(s.describe(), s.sig(), name, kw)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        res = forms[name](**kw)
    got = [x for x in ws if issubclass(x.category, RuntimeWarning)]
    what = '{} {} of {} pieces'.format(name, kw, pieces)
    if kw.get('outProductWarning') is False:
        mon.check(not got, lambda: '{}: warned although switched off: {}'.format(what, got[0].message), 'silent')
    elif pieces > 1:
        mon.check(len(got) >= pieces - 1, lambda: '{}: {} warnings'.format(what, len(got)), 'warned')
    elif name == 'greedy':
        mon.check(not got, lambda: '{}: linked tensors, but warned: {}'.format(what, got[0].message), 'silent')
    want = s.value()
    read(mon, rng, s, res, name, want, np.max(s.value(absolute=True)) if want.size else 1.0)


WORKLOADS = [
    ('announced', announced, 1500, 15000),
    ('network', network, 3500, 60000),
    ('disconnected', disconnected, 2000, 30000),
    ('alldiag', alldiag, 2000, 30000),
    ('sublist', sublist, 1500, 20000),
    ('big', big, 400, 6000),
]
REQUIRED_OBS = ['network.strategy_' + x for x in ('default', 'greedy', 'bf', 'random', 'realdims')] + ['network.tensors_1', 'big.big_networks', 'announced.warned', 'announced.silent']
