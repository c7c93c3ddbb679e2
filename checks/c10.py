"""C10  A finite tensor network is a reusable function of the tensors put into it."""
import warnings
import numpy as np
import model as M
import ftnmodel as F
from harness import Skip

ID = 'C10'
FACTOR = 5          # multiplies the case counts of both tiers
RULE = 'distinct (network structure, dimensions of every use, renamings, combined legs) tuples'


def ftn_names(rng, n):
    pool = ['a', 'b', 'A1', 'up', 'tensorL', 't', 'tt', '0', '1', 'x y', 'res2', 'é', 'left_up', 'b.c']
    return [pool[i] for i in rng.permutation(len(pool))[:n]]


def gen(rng, n, **kw):
    """structure + model + function giving new tensors for it"""
    s = M.gen_network(rng, n, p_free=0.45, max_dim=3, max_rank=5, out_cap=1500, connected=bool(rng.random() < 0.75),
                      extra=int(rng.integers(0, n + 1)), **kw)
    names = ftn_names(rng, n)
    m = F.Model(names)
    # leg names: unique within a tensor, repeated between tensors
    leg = {}
    for t in range(n):
        pool = [M.NAMES[i] for i in rng.permutation(len(M.NAMES))]
        for p in range(len(s.tensors[t]['edges'])):
            leg[(t, p)] = pool.pop()
    raw = dict(leg)
    return s, names, m, leg, raw


def fresh_dims(rng, s):
    """new dimensions (and data) for the same structure"""
    par = list(range(len(s.ends)))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for t in range(s.n):
        if s.tensors[t]['diag']:
            es = s.tensors[t]['edges']
            for e in es[1:]:
                par[find(e)] = find(es[0])
    cls = {}
    for e in range(len(s.ends)):
        cls.setdefault(find(e), int(rng.integers(1, 4)))
    s.dims = [cls[find(e)] for e in range(len(s.ends))]


def fresh_data(rng, s):
    k = M.pick_kind(rng)
    for t in range(s.n):
        sh = s.shape(t)
        s.tensors[t]['data'] = np.asarray(M.rdata(rng, sh[:1] if s.tensors[t]['diag'] else sh, k))
    if rng.random() < 0.1:
        M.in_units(rng, s)


def make_tensors(rng, s, names, raw, like=False):
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.diagonalTensor import DiagonalTensor
    ts, md = {}, {}
    for t in range(s.n):
        labels = [raw[(t, p)] for p in range(len(s.tensors[t]['edges']))]
        data = np.array(s.tensors[t]['data'])
        if s.tensors[t]['diag']:
            ts[names[t]] = DiagonalTensor(data=data, labels=list(labels), shape=s.shape(t))
        else:
            ts[names[t]] = Tensor(data=data, labels=list(labels))
        md[names[t]] = (list(labels), s.dense(t))
    return ts, md


def build_ftn(rng, s, names, m, leg, raw, real):
    from CTL.tensornetwork.tensornetwork import FiniteTensorNetwork
    k = int(rng.integers(0, s.n + 1))
    kw = {} if rng.random() < 0.3 and real else {'realCost': real}
    if not real and rng.random() < 0.5:
        kw['typicalDim'] = int(rng.integers(2, 20))
    f = FiniteTensorNetwork(list(names[:k]), **kw) if k or rng.random() < 0.5 else FiniteTensorNetwork(**kw)
    for x in names[k:]:
        f.addTensor(x)
    # renamings before the contraction
    for t in range(s.n):
        for p in range(len(s.tensors[t]['edges'])):
            if rng.random() < 0.15:
                new = 'pre{}'.format(len(m.pre))
                f.addPreNameChange(names[t], raw[(t, p)], new)
                m.pre.append((names[t], raw[(t, p)], new))
                leg[(t, p)] = new
        # names handed on from leg to leg, the same name being renamed several times
        ps = list(range(len(s.tensors[t]['edges'])))
        if len(ps) > 1 and rng.random() < 0.2:
            a, b = [int(i) for i in rng.permutation(len(ps))[:2]]
            name, other = leg[(t, a)], leg[(t, b)]
            steps = [(a, name, 'c{}'.format(len(m.pre))), (b, other, name)]
            if rng.random() < 0.6:
                steps.append((b, name, 'd{}'.format(len(m.pre))))
            for q, old, new in steps:
                f.addPreNameChange(names[t], old, new)
                m.pre.append((names[t], old, new))
                leg[(t, q)] = new
    es = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2]
    for i in rng.permutation(len(es)):
        (t1, p1), (t2, p2) = s.ends[es[i]]
        f.addLink(names[t1], leg[(t1, p1)], names[t2], leg[(t2, p2)])
        m.links.append(((names[t1], leg[(t1, p1)]), (names[t2], leg[(t2, p2)])))
    # combined legs
    free = [s.ends[e][0] for e in s.free()]
    free = [free[i] for i in rng.permutation(len(free))]
    alldiag = all(x['diag'] for x in s.tensors)
    anyn = 0
    while len(free) >= 2 and rng.random() < 0.4 and not alldiag:
        g = [free.pop() for _ in range(int(rng.integers(1, min(3, len(free)) + 1)))]
        group = [(names[t], leg[(t, p)]) for t, p in g]
        new = str(rng.choice(['out{}', 'out-{}', 'o-u-t{}'])).format(anyn)          # a dash separates the tensor, only the first one
        anyn += 1
        f.addPostOutProduct([x if rng.random() < 0.7 else x[0] + '-' + x[1] for x in group], new)
        m.out.append((group, new))
        if rng.random() < 0.3:
            f.addPostNameChange('res', new, new + 'x')
            m.post.append(('res', new, new + 'x'))
    for t, p in free:
        if rng.random() < 0.4:
            new = str(rng.choice(['post{}', 'post-{}', '-p{}-'])).format(len(m.post))
            f.addPostNameChange(names[t], leg[(t, p)], new)
            m.post.append((names[t], leg[(t, p)], new))
    return f


def change_in_place(rng, mon, ts, md):
    """the same tensor objects with other entries, or with their legs in another order"""
    how = []
    for x, t in ts.items():
        labels, dense = md[x]
        op = int(rng.integers(4))
        how.append(op)
        if op == 0 or t.a is None:
            continue
        if op == 1:
            t.a = np.asarray(t.a * 3)
            md[x] = (labels, dense * 3)
        elif op == 2 and np.ndim(t.a):
            t.a[...] = t.a * 2
            md[x] = (labels, dense * 2)
        elif len(labels) > 1 and not t.diagonalFlag:
            p = [int(i) for i in rng.permutation(len(labels))]
            t.moveLegsToFront([t.legs[i] for i in p])
            md[x] = ([labels[i] for i in p], np.transpose(dense, p))
    if any(how):
        mon.event('changed_in_place')


def reuse(rng, mon):
    from CTL.tensornetwork.tensordict import TensorDict
    n = int(rng.integers(1, 6) if rng.random() < 0.96 else rng.integers(6, 10))
    s, names, m, leg, raw = gen(rng, n, p_diag=float(rng.choice([0, 0, 0.3, 1.0])))
    real = bool(rng.random() < 0.6)
    f = build_ftn(rng, s, names, m, leg, raw, real)
    mon.check(f.tensorCount == n, 'tensorCount {} of {} tensors'.format(f.tensorCount, n), 'count')
    uses = []
    td = TensorDict()
    last = None
    for u in range(int(rng.integers(1, 5))):
        r = rng.random()
        if u == 0 or r < 0.8:
            if u and r < 0.5:
                fresh_dims(rng, s)
            if u:
                fresh_data(rng, s)
            ts, md = make_tensors(rng, s, names, raw)
        else:
            mon.event('same_tensors_again')
            if rng.random() < 0.7:
                change_in_place(rng, mon, ts, md)
        uses.append(tuple(s.dims))
        mon.note(s.describe(), s.sig(), m.pre, m.post, m.out, uses)
        before = M.snapshot(list(ts.values()))
        order = [names[i] for i in rng.permutation(n)]
        form = int(rng.integers(3))
        if form == 0:
            arg = {x: ts[x] for x in order}
        elif form == 1:
            arg = TensorDict({x: ts[x] for x in order})
        else:
            for x in order:
                td.setTensor(x, ts[x])
            mon.check(td.tensorCount == n and all(td.getTensor(x) is ts[x] for x in names), 'TensorDict', 'count')
            arg = td
        keys = list(arg.keys()) if form == 0 else None
        tags = bool(rng.random() < 0.4)
        if tags or rng.random() < 0.5:
            res = f.contract(arg, removeTensorTag=not tags)
        else:
            res = f.contract(arg)
        labels, val, scale = m.value(md)
        F.compare(mon, res, labels, val, scale, 'use {} of {}'.format(u, s.describe()), tags)
        M.same_snapshot(mon, before, list(ts.values()), 'finite tensor network')
        M.check_links(mon, [res], 'result')
        mon.check(all(l.bond is None for l in res.legs), 'a leg of the result is still bonded', 'invariant')
        if keys is not None:
            mon.check(list(arg.keys()) == keys and all(arg[x] is ts[x] for x in names), 'the given dict changed', 'input_unchanged')
        for t in ts.values():
            mon.check(all(l.bond is None for l in t.legs), 'a given tensor got linked', 'input_unchanged')
            if t.a is not None and not t.tensorLikeFlag and res.a is not None:
                mon.check(not np.shares_memory(res.a, t.a), 'result shares memory with a given tensor', 'input_unchanged')
        if u:
            mon.event('reused')
        # the plan in use is a valid plan for these tensors
        seq = f.optimalSeq
        mon.check(len(seq) == n - 1 if n else True, lambda: 'plan {} for {} tensors'.format(seq, n), 'plan')
        if not real:
            if last is not None:
                mon.check(list(seq) == last, lambda: 'the fixed plan changed from {} to {}'.format(last, seq), 'plan_kept')
            last = list(seq)


def dictionary(rng, mon):
    """the dictionary of tensors says what was put in last"""
    from CTL.tensornetwork.tensordict import TensorDict
    from CTL.tensor.tensor import Tensor
    real = {} if rng.random() < 0.5 else {'a': Tensor(shape=(2,), labels=['x'])}
    td = TensorDict(real) if rng.random() < 0.5 or real else TensorDict()
    want, hist = dict(real), []
    for _ in range(int(rng.integers(1, 15))):
        n = 'abcd'[int(rng.integers(4))]
        op = int(rng.integers(3))
        hist.append((op, n))
        if op == 0:
            t = Tensor(shape=(1,), labels=['y'])
            td.setTensor(n, t)
            want[n] = t
        elif op == 1 and n in want:
            td.deleteTensor(n)
            del want[n]
        elif op == 1:
            mon.raises((AssertionError, KeyError), lambda: td.deleteTensor(n), 'deleting an unknown tensor')
        elif n not in want:
            mon.raises((AssertionError, KeyError), lambda: td.getTensor(n), 'asking for an unknown tensor')
        mon.check(td.tensorCount == len(want) and all(td.getTensor(x) is t for x, t in want.items()), lambda: 'dictionary after {}'.format(hist), 'state_compared')
    other = TensorDict()
    mon.check(other.tensorCount == 0, 'a new dictionary is not empty', 'state_compared')
    mon.note('dictionary', hist)


def outer_steps(s, seq):
    have = [set(t['edges']) for t in s.tensors]
    k = 0
    for x, y in seq:
        k += not (have[x] & have[y])
        have[min(x, y)] = have[x] ^ have[y]
    return k


def replanning(rng, mon):
    """with real costs the plan in use is optimal for the current dimensions"""
    from checks.c03 import CostModel
    n = int(rng.integers(3, 6))
    s, names, m, leg, raw = gen(rng, n, p_diag=0.0)
    f = build_ftn(rng, s, names, m, leg, raw, True)
    hist = []
    for u in range(int(rng.integers(2, 5))):
        if u:
            # change the dimensions of a few bonds only (often a single one)
            if rng.random() < 0.85:
                for e in rng.permutation(len(s.ends))[:int(rng.integers(1, 3))]:
                    s.dims[e] = int(rng.choice([1, 2, 3, 5, 8]))
            if max(int(np.prod(s.shape(t), dtype=float)) for t in range(n)) > 4000 or np.prod([s.dims[e] for e in s.free()] + [1], dtype=float) > 4000:
                raise Skip()
            fresh_data(rng, s)
        hist.append(tuple(s.dims))
        mon.note(s.describe(), s.sig(), hist)
        ts, md = make_tensors(rng, s, names, raw)
        ts = {names[i]: ts[names[i]] for i in (rng.permutation(n) if rng.random() < 0.7 else range(n))}
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter('always')
            res = f.contract(ts, removeTensorTag=False)
        labels, val, scale = m.value(md)
        F.compare(mon, res, labels, val, scale, 'use {} of {}'.format(u, s.describe()), True)
        # steps without a common bond are reported: as many as the plan has, in whatever order the tensors are handed over
        outer = outer_steps(s, f.optimalSeq)
        other = len(said) - outer if u == 0 else other
        mon.check(len(said) == outer + other, lambda: '{} warnings for the plan {} with {} outer products, {} in use 0'.format(len(said), f.optimalSeq, outer, other), 'plan_executed')
        cm = CostModel(s, None)
        got = cm.of_sequence(f.optimalSeq)
        best = cm.best()
        mon.check(got == best, lambda: 'plan {} costs {} with dimensions {}; the best plan costs {}'.format(f.optimalSeq, got, s.dims, best), 'replanned')
        if u and hist[-1] != hist[-2]:
            mon.event('dims_changed')


def mismatch(rng, mon):
    """tensors that do not fit are refused"""
    n = int(rng.integers(1, 5))
    s, names, m, leg, raw = gen(rng, n, p_diag=0.2)
    f = build_ftn(rng, s, names, m, leg, raw, True)
    ts, md = make_tensors(rng, s, names, raw)
    mon.note(s.describe(), s.sig(), names)
    what = int(rng.integers(4))
    bad = dict(ts)
    if what == 0:
        del bad[names[int(rng.integers(n))]]
        mon.raises(AssertionError, lambda: f.contract(bad), 'missing tensor')
    elif what == 1:
        bad['additional'] = ts[names[0]].copy()
        mon.raises(AssertionError, lambda: f.contract(bad), 'additional tensor')
    elif what == 2:
        x = names[int(rng.integers(n))]
        bad['renamed'] = bad.pop(x)
        mon.raises(AssertionError, lambda: f.contract(bad), 'tensor of another name')
    else:
        es = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2]
        if not es:
            raise Skip()
        (t, p), _ = s.ends[es[int(rng.integers(len(es)))]]
        from CTL.tensor.tensor import Tensor
        sh = list(s.shape(t))
        sh[p] += int(rng.integers(1, 3))
        bad[names[t]] = Tensor(data=rng.standard_normal(sh), labels=[raw[(t, q)] for q in range(len(sh))])
        mon.raises(AssertionError, lambda: f.contract(bad), 'bond of different dimensions')
        mon.event('wrong_dimension')
    # and the network is still good for the right tensors
    res = f.contract(ts, removeTensorTag=False)
    labels, val, scale = m.value(md)
    F.compare(mon, res, labels, val, scale, 'after a refusal', True)


WORKLOADS = [
    ('reuse', reuse, 5000, 80000),
    ('replanning', replanning, 1500, 15000),
    ('dictionary', dictionary, 500, 3000),
    ('mismatch', mismatch, 1500, 15000),
]
REQUIRED_OBS = ['reuse.reused', 'reuse.same_tensors_again', 'reuse.changed_in_place', 'replanning.dims_changed', 'mismatch.wrong_dimension', 'reuse.plan_kept']
