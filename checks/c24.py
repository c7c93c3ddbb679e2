"""C24  Graphs and textual network descriptions say exactly what was put into them."""
import contextlib
import io
import string
import numpy as np
import model as M
from harness import Skip

ID = 'C24'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct graphs / edit histories / texts'
ASSUMPTIONS = ['networkx is used to read the exported graph']


# ---------------------------------------------------------------- graphs
def graphs(rng, mon):
    """history of edges added to and queries of a directed and an undirected graph"""
    from CTL.funcs.graph import Graph, UndirectedGraph, GraphEdge
    n = int(rng.integers(0, 7))
    und = bool(rng.integers(2))
    g = UndirectedGraph(n) if und else Graph(n)
    mon.check(len(g.v) == n and g.n == n and [v.index for v in g.v] == list(range(n)), 'vertices', 'graph')
    edges = []
    log = []
    last = None
    for _ in range(int(rng.integers(1, 20))):
        op = int(rng.integers(4))
        if op <= 1:
            if n == 0:
                continue
            i, j = int(rng.integers(n)), int(rng.integers(n))
            w = [None, 0.5, -1, 'w', (1, 2), 0, 0.0, '', False, 10 ** 30][int(rng.integers(10))]
            kw = {} if w is None else {'weight': w}
            e = g.addEdge(i, j, **kw) if rng.random() < 0.5 else g.addEdge(idx1=i, idx2=j, **kw)
            edges.append((e, i, j, w))
            log.append((i, j, str(w)))
            mon.check(e.vertices[0] is g.v[i] and e.vertices[1] is g.v[j], lambda: 'edge {} joins {}'.format((i, j), e), 'edge')
            mon.check(e.weight == w and type(e.weight) is type(w), lambda: 'weight {} became {}'.format(w, e.weight), 'edge')
        elif op == 2:
            bad = int(rng.choice([-1, n, n + 3]))
            ok = int(rng.integers(n)) if n else 0
            a, b = (bad, ok) if rng.random() < 0.5 else (ok, bad)
            before = [list(v.edges) for v in g.v]
            mon.raises(AssertionError, lambda: g.addEdge(a, b), 'edge {} in a graph of {}'.format((a, b), n))
            mon.check([list(v.edges) for v in g.v] == before, 'refused edge changed the graph', 'refused')
        elif und:
            got = g.getEdges()
            mon.check(len(got) == len(edges) and set(map(id, got)) == {id(e) for e, _, _, _ in edges},
                      lambda: 'edges {} instead of {} after {}'.format(got, [x[1:] for x in edges], log), 'edges_compared')
            if last is not None and last[0] == len(edges):
                mon.check([id(x) for x in got] == last[1], 'repeated query differs', 'edges_compared')
            last = (len(edges), [id(x) for x in got])
            log.append('get')
        for v in range(n):
            want = [e for e, i, j, _ in edges for s in ((i, j) if und else (i,)) if s == v]
            mon.check([id(x) for x in g.v[v].edges] == [id(x) for x in want], lambda: 'edges of vertex {} after {}'.format(v, log), 'incidence')
            mon.check(g.v[v].degree == len(want), lambda: 'degree {}'.format(v), 'incidence')
    for e, i, j, _ in edges:
        mon.check(e.anotherSide(g.v[i]) is g.v[j], 'another side', 'edge')
        mon.check(e.anotherSide(g.v[j]) is g.v[i], 'another side', 'edge')
        for k in range(n):
            if k not in (i, j):
                mon.raises(ValueError, lambda: e.anotherSide(g.v[k]), 'another side of a foreign vertex')
                break
    if any(i == j for _, i, j, _ in edges):
        mon.event('self_loop')
    mon.note('graphs', n, und, log)


# ---------------------------------------------------------------- tensor graphs
def check_graph(mon, g, s, ts, names=True):
    """g must list exactly the bonds of s restricted to the given tensors"""
    mon.check(g.n == len(ts), 'vertex count', 'tensor_graph')
    es = g.getEdges()
    got = {}
    for e in es:
        vs = tuple(sorted(v.index for v in e.vertices if v is not None))
        got.setdefault(vs, []).append(e.weight)
    want = {}
    for e in range(len(s.ends)):
        vs = tuple(sorted(t for t, _ in s.ends[e]))
        want.setdefault(vs, []).append(s.dims[e])
    norm = lambda d: {k: sorted(v, key=str) for k, v in d.items()}
    mon.check(norm(got) == norm(want), lambda: 'tensor graph has edges {} but the network has {}'.format(norm(got), norm(want)), 'tensor_graph')
    idx = [e.index for e in es]
    mon.check(sorted(idx) == list(range(len(es))), lambda: 'edge indices {}'.format(idx), 'tensor_graph')
    mon.check(list(g.diagonalFlags) == [t.diagonalFlag for t in ts], 'diagonal flags', 'tensor_graph')
    mon.check([v.name for v in g.v] == [t.name for t in ts], 'names', 'tensor_graph')


def tensor_graph(rng, mon):
    from CTL.tensor.contract.optimalContract import makeTensorGraph
    n = int(rng.integers(1, 8))
    s = M.gen_network(rng, n, p_diag=0.3, connected=bool(rng.integers(2)), p_free=0.5)
    ts = M.build(rng, s)
    if rng.random() < 0.3:
        ts = [t for t in M.build(rng, s, like=True)]
    before = M.snapshot(ts)
    g = makeTensorGraph(ts)
    mon.note('tensor_graph', s.sig())
    check_graph(mon, g, s, ts)
    export(mon, g, s)
    M.same_snapshot(mon, before, ts, 'makeTensorGraph')


def export(mon, g, s):
    G = g.tensorNetworkGraph()
    n = g.n
    mon.check(sorted(G.nodes) == list(range(n)), lambda: 'exported nodes {}'.format(G.nodes), 'exported')
    mon.check([G.nodes[i]['name'] for i in range(n)] == [v.name for v in g.v], 'exported names', 'exported')
    pairs = {}
    for e in range(len(s.ends)):
        if len(s.ends[e]) == 2:
            pairs.setdefault(frozenset(t for t, _ in s.ends[e]), set()).add(s.dims[e])
    got = {frozenset((a, b)): d['weight'] for a, b, d in G.edges(data=True)}
    mon.check(set(got) == set(pairs), lambda: 'exported edges {} instead of {}'.format(list(got), list(pairs)), 'exported')
    for k, w in got.items():
        mon.check(w in pairs[k], lambda: 'exported weight {} of {}'.format(w, pairs[k]), 'exported')


def part(rng, mon):
    """graph of some of the tensors: bonds to the others are free edges"""
    from CTL.tensor.contract.optimalContract import makeTensorGraph
    n = int(rng.integers(2, 7))
    s = M.gen_network(rng, n, p_diag=0.3, connected=True, p_free=0.3)
    ts = M.build(rng, s)
    k = int(rng.integers(1, n))
    keep = [int(i) for i in rng.choice(n, k, replace=False)]
    g = makeTensorGraph([ts[i] for i in keep])
    pos = {t: i for i, t in enumerate(keep)}
    q = M.Spec()
    for e in range(len(s.ends)):
        ends = [(pos[t], p) for t, p in s.ends[e] if t in pos]
        if ends:
            q.ends.append(ends)
            q.dims.append(s.dims[e])
    mon.note('part', s.sig(), keep)
    check_graph(mon, g, q, [ts[i] for i in keep])


def by_hand(rng, mon):
    """a tensor graph built edge by edge, queried in between, plans like the network it describes"""
    from CTL.tensor.contract.tensorGraph import TensorGraph
    from CTL.tensor.contract.optimalContract import makeTensorGraph
    import checks.c03 as c03
    n = int(rng.integers(2, 6))
    s = M.gen_network(rng, n, p_diag=0.2, connected=True, p_free=0.4, max_dim=5)
    g = TensorGraph(n, diagonalFlags=[d['diag'] for d in s.tensors]) if rng.random() < 0.8 or any(d['diag'] for d in s.tensors) else TensorGraph(n)
    typical = None if rng.random() < 0.6 else int(rng.integers(2, 12))
    bf = bool(rng.integers(2))
    order = [int(i) for i in rng.permutation(len(s.ends))]
    cut = int(rng.integers(0, len(order) + 1))
    for k, e in enumerate(order):
        ends = s.ends[e]
        if len(ends) == 2:
            g.addEdge(ends[0][0], ends[1][0], s.dims[e])
        else:
            g.addFreeEdge(ends[0][0], s.dims[e])
            for bad in (-1, n, n + 2):
                mon.raises(Exception, lambda: g.addFreeEdge(bad, 2), 'free edge of a vertex that is not there')
        if k == cut:
            g.addEdgeIndex()
            if rng.random() < 0.3:
                g.getEdges()
            mon.event('queried_in_between')
    seq = g.optimalContractSequence(bf=bf, typicalDim=typical)
    mon.note('by_hand', s.sig(), order, cut, typical, bf)
    ref = makeTensorGraph(M.build(rng, s))
    ref.optimalContractSequence(bf=bf, typicalDim=typical)
    mon.check(g.optimalCostResult() == ref.optimalCostResult(), lambda: 'cost {} by hand, {} from tensors'.format(g.optimalCostResult(), ref.optimalCostResult()), 'cost_compared')
    mon.check(len(seq) == n - 1, 'plan length', 'cost_compared')


# ---------------------------------------------------------------- texts
def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def make_text(rng):
    """random network as text; -> (text, [(tensor name, [(label, dim or None)])])"""
    n = int(rng.integers(1, 7))
    single = list(string.ascii_lowercase)
    rng.shuffle(single)
    multi = ['up', 'left', 'xy', 'phys', 'mn', 'a1', 'b2', 'aa']
    rng.shuffle(multi)
    used = [[] for _ in range(n)]
    ne = int(rng.integers(0, 2 * n + 2))
    dims = {}
    for _ in range(ne):
        if not single or not multi:
            break
        lab = single.pop() if rng.random() < 0.7 else multi.pop()
        i = int(rng.integers(n))
        j = int(rng.integers(n))
        if i == j or rng.random() < 0.3:
            used[i].append(lab)
        else:
            used[i].append(lab)
            used[j].append(lab)
    for i in range(n):
        if not used[i]:
            if not single:
                used[i].append('zz{}'.format(i))
            else:
                used[i].append(single.pop())
    out, parts = [], []
    for lab in {l for u in used for l in u}:
        d = int(rng.integers(1, 10)) if rng.random() < 0.5 else int(rng.integers(10, 130))
        dims[lab] = d
    # every bond says its dimension on one side, on both, or nowhere
    said = {}
    for i in range(n):
        rng.shuffle(used[i])
        name = string.ascii_uppercase[int(rng.integers(26))]
        t = name
        legs = []
        for lab in used[i]:
            sides = sum(lab in u for u in used)
            k = said.setdefault(lab, [int(rng.integers(4)), 0])
            tell = (k[0] == 0) or (k[0] == 1 and k[1] == 0) or (k[0] == 2 and k[1] == 1 and sides == 2)
            k[1] += 1
            t += lab if len(lab) == 1 and rng.random() < 0.85 else '{' + lab + '}'
            d = None
            if tell:
                d = dims[lab]
                t += str(d) if d < 10 and rng.random() < 0.5 else '{' + str(d) + '}'
            legs.append((lab, d))
        parts.append(t)
        out.append((name, legs))
    return ''.join(parts), out


def texts(rng, mon):
    from CTL.tensor.contract.tensorGraph import createTensorListFromText, createTensorFromText
    from CTL.tensor.contract.optimalContract import makeTensorGraphFromText
    text, want = make_text(rng)
    ts = quiet(lambda: createTensorListFromText(text))
    mon.note(text, text)
    mon.check(len(ts) == len(want), lambda: '{} tensors in {}'.format(len(ts), text), 'text')
    full = {}
    where = {}
    for i, (name, legs) in enumerate(want):
        for p, (lab, d) in enumerate(legs):
            full[lab] = d if d is not None else full.get(lab)
            where.setdefault(lab, []).append((i, p))
    for i, (t, (name, legs)) in enumerate(zip(ts, want)):
        mon.check(t.tensorLikeFlag and not t.diagonalFlag and t.name == name, lambda: 'tensor {} of {} is {}'.format(i, text, t), 'text')
        mon.check(list(t.labels) == [l for l, _ in legs], lambda: 'labels {} of tensor {} in {}'.format(t.labels, i, text), 'text')
        mon.check(list(t.shape) == [full[l] for l, _ in legs], lambda: 'shape {} of tensor {} in {}'.format(t.shape, i, text), 'text')
        for p, leg in enumerate(t.legs):
            o = [x for x in where[leg.name] if x != (i, p)]
            if o:
                mon.check(leg.anotherSide() is ts[o[0][0]].legs[o[0][1]], lambda: 'leg {} of tensor {} in {} is not linked'.format(leg.name, i, text), 'text_link')
            else:
                mon.check(leg.bond is None, lambda: 'leg {} of tensor {} in {} is linked'.format(leg.name, i, text), 'text_link')
            mon.check(leg.tensor is t, 'owner', 'text_link')
    # the graph of the text
    g = quiet(lambda: makeTensorGraphFromText(text))
    s = M.Spec()
    for lab, ends in where.items():
        s.ends.append(ends)
        s.dims.append(full[lab])
    check_graph(mon, g, s, ts)
    export(mon, g, s)
    if any(v is None for v in full.values()):
        mon.event('unknown_dims')
        typical = int(rng.integers(2, 12))
    else:
        typical = None
    if len(ts) > 1 and len(ts) <= 6:
        # planned like a network of these dimensions
        seq = g.optimalContractSequence(bf=bool(rng.integers(2)), typicalDim=typical) if typical else g.optimalContractSequence(bf=True, typicalDim=None)
        mon.check(len(seq) == len(ts) - 1, 'plan length', 'text_plan')
        cost = g.optimalCostResult()
        free = [M.Spec()]
        q = free[0]
        q.ends, q.dims = s.ends, [d if d is not None else typical for d in s.dims]
        q.tensors = [{'diag': False, 'edges': [None] * len(l), 'data': None} for _, l in want]
        for e, ends in enumerate(q.ends):
            for t, p in ends:
                q.tensors[t]['edges'][p] = e
        best = best_cost(q, typical)
        mon.check(abs(cost - best) <= 1e-9 * max(1, best), lambda: 'cost {} planned for {}, {} is possible'.format(cost, text, best), 'text_plan')
    # single tensors
    name, legs = want[0]
    one = text[:next((i for i in range(1, len(text)) if text[i].isupper()), len(text))]
    t = quiet(lambda: createTensorFromText(one))
    mon.check(list(t.labels) == [l for l, _ in legs] and list(t.shape) == [d for _, d in legs], lambda: '{} read as {}'.format(one, t), 'text')


def best_cost(q, typical):
    """cheapest pairwise plan: product of all dims involved in a step"""
    n = q.n
    es = [frozenset(d['edges']) for d in q.tensors]
    dim = (lambda e: typical) if typical else (lambda e: q.dims[e])
    full = (1 << n) - 1

    def out(mask):
        r = set()
        for i in range(n):
            if mask >> i & 1:
                r ^= es[i]
        return r
    outs = {m: out(m) for m in range(1, full + 1)}
    best = {1 << i: 0 for i in range(n)}
    for m in sorted(range(1, full + 1), key=lambda x: bin(x).count('1')):
        if m in best:
            continue
        b = None
        sub = (m - 1) & m
        while sub:
            if sub > m ^ sub:
                c = best[sub] + best[m ^ sub] + int(np.prod([dim(e) for e in outs[sub] | outs[m ^ sub]], dtype=object))
                if b is None or c < b:
                    b = c
            sub = (sub - 1) & m
        best[m] = b
    return best[full]


def bad_texts(rng, mon):
    """texts that describe no network are refused"""
    from CTL.tensor.contract.tensorGraph import createTensorListFromText, createTensorFromText
    k = int(rng.integers(6))
    a = string.ascii_lowercase[int(rng.integers(26))]
    bad = ['A{0}B{0}C{0}'.format(a), 'ab', '', a + 'A' + a, 'A{0}3B{0}4'.format(a), 'A}}{0}'.format(a)][k]
    mon.note(bad, k)
    mon.raises(AssertionError, lambda: quiet(lambda: createTensorListFromText(bad)), 'text {!r}'.format(bad))
    if k in (1, 2):
        mon.raises(AssertionError, lambda: quiet(lambda: createTensorFromText(bad)), 'text {!r}'.format(bad))


WORKLOADS = [('graphs', graphs, 4000, 40000), ('tensor_graph', tensor_graph, 1500, 15000), ('part', part, 1500, 10000), ('by_hand', by_hand, 800, 8000),
             ('texts', texts, 1500, 15000), ('bad_texts', bad_texts, 300, 1000)]
REQUIRED_OBS = ['graphs.self_loop', 'graphs.edges_compared', 'graphs.rejection_observed', 'tensor_graph.exported', 'by_hand.queried_in_between',
                'texts.unknown_dims', 'texts.text_plan', 'bad_texts.rejection_observed']
