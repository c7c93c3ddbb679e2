"""C03  Contraction planning: valid sequences, true costs, minimal cost for the exact planners."""
import itertools
import numpy as np
import model as M
from harness import Skip

ID = 'C03'
FACTOR = 4          # multiplies the case counts of both tiers
RULE = 'distinct (network structure, dims, kinds, cost mode) tuples with at least three tensors'


class CostModel:
    """Our own cost model over sets of tensors (bit masks)."""

    def __init__(self, s, typical):
        self.s, self.typical = s, typical
        self.n = s.n
        self.touch = [set() for _ in range(s.n)]
        for e, ends in enumerate(s.ends):
            for t, _ in ends:
                self.touch[t].add(e)
        comp = list(range(self.n))
        for e in range(len(s.ends)):
            ts = [t for t, _ in s.ends[e]]
            if len(ts) == 2 and comp[ts[0]] != comp[ts[1]]:
                a, b = comp[ts[0]], comp[ts[1]]
                comp = [a if c == b else c for c in comp]
        self.comps = [sum(1 << i for i in range(self.n) if comp[i] == c) for c in set(comp)]
        self.open_cache, self.diag_cache = {}, {}

    def open(self, mask):
        if mask not in self.open_cache:
            r = set()
            for t in range(self.n):
                if mask >> t & 1:
                    r ^= self.touch[t]
            self.open_cache[mask] = frozenset(r)
        return self.open_cache[mask]

    def closed(self, mask):
        return all((mask & c) in (0, c) for c in self.comps)

    def diag(self, mask):
        """is the (sensibly built) product over mask stored diagonally"""
        if mask not in self.diag_cache:
            if not all(self.s.tensors[t]['diag'] for t in range(self.n) if mask >> t & 1):
                r = False
            else:
                parts = [mask & c for c in self.comps if mask & c]
                r = sum(1 for p in parts if self.open(p)) <= 1
            self.diag_cache[mask] = r
        return self.diag_cache[mask]

    def size(self, edges):
        if self.typical is None:
            return int(np.prod([self.s.dims[e] for e in edges] + [1], dtype=object))
        return self.typical ** len(edges)

    def pair(self, a, b):
        A, B = self.open(a), self.open(b)
        da, db = self.diag(a), self.diag(b)
        if da and db and ((A & B) or not A or not B):
            if self.typical is not None:
                return self.typical
            return max([self.s.dims[e] for e in A | B] + [1])
        if da or db:
            return self.size(A ^ B)
        return self.size(A | B)

    def banned(self, a, b):
        """an outer product of two non-scalar diagonal tensors (which would have to be stored
        densely) is only sensible when no bond leaves either side any more"""
        A, B = self.open(a), self.open(b)
        return self.diag(a) and self.diag(b) and not (A & B) and bool(A) and bool(B) and not (self.closed(a) and self.closed(b))

    def best(self):
        full = (1 << self.n) - 1
        memo = {1 << i: 0 for i in range(self.n)}
        for mask in sorted(range(1, full + 1), key=lambda m: bin(m).count('1')):
            if mask in memo:
                continue
            b = float('inf')
            sub = (mask - 1) & mask
            while sub:
                o = mask ^ sub
                if sub < o and not self.banned(sub, o):
                    c = memo[sub] + memo[o]
                    if c < b:
                        c += self.pair(sub, o)
                        b = min(b, c)
                sub = (sub - 1) & mask
            memo[mask] = b
        return memo[full]

    def of_sequence(self, seq):
        where = {i: 1 << i for i in range(self.n)}
        tot = 0
        for x, y in seq:
            tot += self.pair(where[x], where[y])
            m = where.pop(x) | where.pop(y)
            where[min(x, y)] = m
        return tot


def valid(mon, seq, n, msg):
    mon.check(len(seq) == n - 1, lambda: '{}: {} steps for {} tensors: {}'.format(msg, len(seq), n, seq), 'sequence_checked')
    alive = set(range(n))
    for st in seq:
        mon.check(len(st) == 2, lambda: '{}: step {}'.format(msg, st), 'step')
        x, y = st
        mon.check(x != y and x in alive and y in alive, lambda: '{}: step {} uses a consumed tensor in {}'.format(msg, st, seq), 'step')
        alive.discard(max(x, y))


def gen_struct(rng, n):
    """structure and dims only (tensors are tensor-like: no data, so large dims are free)"""
    s = M.Spec()
    diag = [bool(rng.random() < rng.choice([0.0, 0.3, 0.6])) for _ in range(n)]
    ends = []
    if rng.random() < 0.8:
        for i in range(1, n):
            ends.append([i, int(rng.integers(i))])
    if n > 1:
        for _ in range(int(rng.integers(0, n + 2))):
            ends.append([int(x) for x in rng.choice(n, 2, replace=False)])
    for t in range(n):
        for _ in range(int(rng.choice([0, 0, 1, 2]))):
            ends.append([t])
    par = list(range(len(ends)))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for t in range(n):
        if diag[t]:
            es = [e for e in range(len(ends)) if t in ends[e]]
            for e in es[1:]:
                par[find(e)] = find(es[0])
    pool = [[2, 3], [2, 3, 5, 7, 11], [1, 2, 4], [10], [1, 2, 100, 17], [10**6, 10**6 + 3, 2, 99991], [2**31, 3, 2**40 + 1]][int(rng.choice(7, p=[0.18] * 5 + [0.05] * 2))]
    cls = {}
    for e in range(len(ends)):
        cls.setdefault(find(e), int(pool[int(rng.integers(len(pool)))]))
    s.dims = [cls[find(e)] for e in range(len(ends))]
    s.ends = [[] for _ in ends]
    per = rng.permutation(n)
    for t in range(n):
        es = [e for e in range(len(ends)) for x in ends[e] if x == t]
        es = [es[i] for i in rng.permutation(len(es))]
        for p, e in enumerate(es):
            s.ends[e].append((t, p))
        s.tensors.append({'diag': diag[t], 'edges': es, 'data': np.zeros(0)})
    for t in range(n):
        for p in range(len(s.tensors[t]['edges'])):
            s.label[(t, p)] = 't{}p{}'.format(t, p)
    return s


def build_like(rng, s):
    from CTL.tensor.tensor import TensorLike
    from CTL.tensor.diagonalTensor import DiagonalTensor
    ts = []
    number = int                    # dimensions may also be given as numpy integers
    if rng.random() < 0.15:
        number = np.int32 if max(s.dims + [1]) < 2 ** 31 and rng.random() < 0.5 else np.int64
    for t in range(s.n):
        lab = [s.label[(t, p)] for p in range(len(s.tensors[t]['edges']))]
        shape = tuple(number(x) for x in s.shape(t))
        if s.tensors[t]['diag']:
            ts.append(DiagonalTensor(shape=shape, labels=lab, tensorLikeFlag=True) if lab else DiagonalTensor(shape=(), tensorLikeFlag=True))
        else:
            ts.append(TensorLike(shape=shape, labels=lab))
    M.link_all(rng, s, ts)
    return ts


def by_hand(rng, s):
    """the graph of the network written down edge by edge, the dimensions python or numpy integers"""
    from CTL.tensor.contract.tensorGraph import TensorGraph
    number = [int, np.int64, np.int32 if max(s.dims + [1]) < 2 ** 31 else np.int64][int(rng.integers(3))]
    g = TensorGraph(s.n, diagonalFlags=[bool(t['diag']) for t in s.tensors])
    for e in rng.permutation(len(s.ends)):
        w = number(s.dims[e])
        if len(s.ends[e]) == 1:
            g.addFreeEdge(s.ends[e][0][0], w)
        else:
            x, y = [int(i) for i in rng.permutation(2)]
            g.addEdge(s.ends[e][x][0], s.ends[e][y][0], w)
    return g


def executed(mon, s, ts, seq):
    """run the sequence on tensor-like objects; returns (returned cost, sum of per-step costs observed)"""
    from CTL.tensor.contract.optimalContract import contractAndCostWithSequence, contractCost, copyTensorList
    res, cost = contractAndCostWithSequence(ts, seq=seq, outProductWarning=False)
    mon.check(sorted(res.labels) == sorted(s.free_labels()), 'labels of the contracted tensor-like', 'executed')
    lst = copyTensorList(ts)
    tot = 0
    for x, y in seq:
        c, lev = contractCost(lst[x], lst[y])
        tot += c
        lst[min(x, y)] = lst[x] @ lst[y]
    mon.check(tot == cost, lambda: 'total cost {} but the steps cost {}'.format(cost, tot), 'cost_compared')
    return cost


def exact(rng, mon, nmax=6):
    from CTL.tensor.contract.optimalContract import generateOptimalSequence, makeTensorGraph
    s = gen_struct(rng, int(rng.integers(1, nmax + 1)))
    ts = build_like(rng, s)
    for typical in (None, int(rng.choice([2, 3, 10]))):
        cm = CostModel(s, typical)
        best = cm.best()
        if s.n >= 3:
            mon.note(s.describe(), s.sig()[1], [e for e in s.ends])
        for bf in (False, True):
            name = 'typicalDim={} bf={} {}'.format(typical, bf, s.describe())
            hand = rng.random() < 0.3
            g = by_hand(rng, s) if hand else makeTensorGraph(ts)
            given = typical
            if typical is not None and rng.random() < 0.3:
                given = [np.int64, np.int32, np.int16][int(rng.integers(3))](typical)
            seq = g.optimalContractSequence(bf=bf, typicalDim=given)
            if hand:
                mon.event('graph_by_hand')
            valid(mon, seq, s.n, name)
            mine = cm.of_sequence(seq)
            mon.check(mine <= best, lambda: '{}: sequence {} costs {}, a sequence of cost {} exists'.format(name, seq, mine, best), 'optimality_checked')
            rep = g.optimalCostResult()
            mon.check(rep == mine, lambda: '{}: reported cost {} but the sequence {} costs {}'.format(name, rep, seq, mine), 'cost_compared')
            seq2 = generateOptimalSequence(ts, bf=bf, typicalDim=typical)
            valid(mon, seq2, s.n, name)
            mon.check(cm.of_sequence(seq2) == mine, name + ': planning twice gives different costs', 'cost_compared')
            if typical is None:
                cost = executed(mon, s, ts, seq)
                mon.check(cost == mine, lambda: '{}: executing {} reports cost {}, model {}'.format(name, seq, cost, mine), 'cost_compared')
                from CTL.tensor.contract.optimalContract import contractAndCostWithSequence
                auto = contractAndCostWithSequence(ts, bf=bf, typicalDim=None, outProductWarning=False)[1]
                mon.check(auto == best, lambda: '{}: contracting without a given plan costs {}, a plan of cost {} exists'.format(name, auto, best), 'optimality_checked')


def larger(rng, mon):
    """capping only, up to 9 tensors"""
    from CTL.tensor.contract.optimalContract import makeTensorGraph
    s = gen_struct(rng, int(rng.integers(7, 9)))
    if len(s.ends) > 18:
        raise Skip()
    ts = build_like(rng, s)
    typical = None if rng.random() < 0.5 else 10
    cm = CostModel(s, typical)
    best = cm.best()
    g = by_hand(rng, s) if rng.random() < 0.3 else makeTensorGraph(ts)
    seq = g.optimalContractSequence(typicalDim=typical)
    valid(mon, seq, s.n, 'larger')
    mine = cm.of_sequence(seq)
    mon.note(s.describe(), s.sig()[1], [e for e in s.ends], typical)
    mon.check(mine <= best, lambda: 'sequence {} costs {}, {} exists: {}'.format(seq, mine, best, s.describe()), 'optimality_checked')
    mon.check(g.optimalCostResult() == mine, 'reported cost', 'cost_compared')


def greedy(rng, mon):
    from CTL.tensor.contract.optimalContract import generateGreedySequence, makeTensorGraph, contractAndCostWithSequence
    s = gen_struct(rng, int(rng.integers(1, 16)))
    ts = build_like(rng, s)
    g = makeTensorGraph(ts)
    seq = g.optimalContractSequence(greedy=True, typicalDim=None)
    valid(mon, seq, s.n, 'greedy')
    if s.n >= 3:
        mon.note(s.describe(), s.sig()[1], [e for e in s.ends])
    cost = executed(mon, s, ts, seq)
    mon.check(cost == g.greedyCost, lambda: 'greedy cost {} but executing it costs {}: {}'.format(g.greedyCost, cost, s.describe()), 'cost_compared')
    seq2 = generateGreedySequence(ts)
    valid(mon, seq2, s.n, 'greedy')
    res, c2 = contractAndCostWithSequence(ts, greedy=True, outProductWarning=False)
    mon.check(c2 == cost, lambda: 'greedy contraction reports cost {}, its sequence {}'.format(c2, cost), 'cost_compared')
    # linked tensors are contracted before any outer product is taken
    touch = {i: set() for i in range(s.n)}
    for e, ends in enumerate(s.ends):
        for t, _ in ends:
            touch[t] ^= {e}

    def size(a, b):
        return int(np.prod([s.dims[e] for e in touch[a] ^ touch[b]] + [1], dtype=object))
    for x, y in seq:
        pairs = [p for p in itertools.combinations(list(touch), 2) if touch[p[0]] & touch[p[1]]] or list(itertools.combinations(list(touch), 2))
        least = min(size(a, b) for a, b in pairs)
        mon.check(size(x, y) == least, lambda: 'greedy chose a result of size {}, one of size {} was possible: {} {}'.format(size(x, y), least, seq, s.describe()), 'smallest_first')
        if not (touch[x] & touch[y]):
            ok = all(not (touch[a] & touch[b]) for a, b in itertools.combinations(list(touch), 2))
            mon.check(ok, lambda: 'greedy took an outer product while linked tensors were left: {} {}'.format(seq, s.describe()), 'outer_last')
        m = touch.pop(x) ^ touch.pop(y)
        touch[min(x, y)] = m


def replanned(rng, mon):
    """one graph planned again and again, in different ways, with edges added in between and its cost asked at any time"""
    from CTL.tensor.contract.tensorGraph import TensorGraph
    s = gen_struct(rng, int(rng.integers(1, 6)))
    q = M.Spec()
    q.tensors = [{'diag': d['diag'], 'edges': [], 'data': None} for d in s.tensors]
    g = TensorGraph(s.n, diagonalFlags=[d['diag'] for d in s.tensors])
    todo = [int(e) for e in rng.permutation(len(s.ends))]
    planned, steps = None, []            # the dimension (None: real ones) and best cost of the last exact plan
    while todo or rng.random() < 0.5:
        for e in [todo.pop() for _ in range(min(len(todo), int(rng.integers(0, 4))))]:
            q.ends.append(s.ends[e])
            q.dims.append(s.dims[e])
            for v, _ in s.ends[e]:
                q.tensors[v]['edges'].append(len(q.ends) - 1)
            if len(s.ends[e]) == 2:
                g.addEdge(s.ends[e][0][0], s.ends[e][1][0], s.dims[e])
            else:
                g.addFreeEdge(s.ends[e][0][0], s.dims[e])
            planned = None
        what = str(rng.choice(['ask', 'bf', 'capping', 'greedy', 'edges']))
        typical = None if rng.random() < 0.5 else int(rng.choice([2, 3, 10]))
        steps.append((what, typical, len(todo)))
        if what == 'edges':
            mon.check(len(g.getEdges()) == len(q.ends), 'edges of the graph', 'edges_asked')
        elif what == 'greedy':
            valid(mon, g.optimalContractSequence(greedy=True, typicalDim=None), s.n, 'greedy again')
        elif what == 'ask':
            if planned is None:
                planned = CostModel(q, 10).best()          # the default plan
            mon.event('asked')
        else:
            cm = CostModel(q, typical)
            seq = g.optimalContractSequence(bf=what == 'bf', typicalDim=typical)
            valid(mon, seq, s.n, what + ' again')
            planned = cm.best()
            mon.check(cm.of_sequence(seq) == planned, lambda: 'plan {} costs {}, {} is possible: {} {}'.format(seq, cm.of_sequence(seq), planned, q.describe(), steps), 'optimality_checked')
        if what != 'greedy' and planned is not None:
            mon.check(g.optimalCostResult() == planned, lambda: 'cost {} is reported, it is {}: {} {}'.format(g.optimalCostResult(), planned, q.describe(), steps), 'cost_compared')
    mon.note('replanned', s.describe(), steps)


def pair_cost(rng, mon):
    """cost and order of one contraction"""
    from CTL.tensor.contract.optimalContract import contractCost
    s = gen_struct(rng, 2)
    ts = build_like(rng, s)
    cm = CostModel(s, None)
    lv = CostModel(s, 2)
    c, level = contractCost(ts[0], ts[1])
    c2, level2 = contractCost(ts[1], ts[0])
    mon.note(s.describe(), s.sig()[1], [e for e in s.ends])
    mon.check((c, level) == (c2, level2), 'cost depends on the argument order', 'cost_compared')
    mon.check(c == cm.pair(1, 2), lambda: 'cost {} expected {} for {}'.format(c, cm.pair(1, 2), s.describe()), 'cost_compared')
    mon.check(2 ** level == lv.pair(1, 2), lambda: 'cost order {} for {}'.format(level, s.describe()), 'cost_compared')


WORKLOADS = [
    ('exact', exact, 1500, 25000),
    ('larger', larger, 120, 2500),
    ('greedy', greedy, 2500, 40000),
    ('replanned', replanned, 1500, 20000),
    ('pair_cost', pair_cost, 5000, 50000),
]
REQUIRED_OBS = ['exact.optimality_checked', 'larger.optimality_checked', 'greedy.cost_compared', 'replanned.asked']
ASSUMPTIONS = ['cost model as documented: product of all dimensions involved for dense pairs, size of the result when one side is diagonal, bond dimension when both are']
