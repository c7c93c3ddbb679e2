"""C01  Contracting two tensors gives the tensor contraction of their values."""
import warnings
import numpy as np
import model as M
from harness import Skip

ID = 'C01'
FACTOR = 6          # multiplies the case counts of both tiers
RULE = 'distinct (leg structure, dims, diagonal/dense kind, dtype, chosen bonds, call form) of a pair'


def call(rng, a, b, bonds=None):
    from CTL.tensor.contract.contract import contractTwoTensors
    k = int(rng.integers(3))
    if bonds is None:
        if k == 0:
            return a @ b, '@'
        if k == 1:
            return contractTwoTensors(a, b), 'fn'
        return contractTwoTensors(ta=b, tb=a), 'fn-swapped'
    if k == 0:
        return contractTwoTensors(b, a, bonds=bonds), 'bonds-swapped'
    return contractTwoTensors(a, b, bonds=bonds), 'bonds'


def finish(mon, rng, s, res, form, keep=()):
    labels = s.free_labels()
    want = s.value()
    scale = np.max(s.value(absolute=True)) if want.size else 1.0
    M.check_links(mon, [res], 'result of contraction')
    perm = rng.permutation(len(labels))
    labs = [labels[i] for i in perm]
    got = M.observe(mon, res, labs, 'pair contraction', dims=[want.shape[i] for i in perm])
    mon.equal(got, np.transpose(want, perm) if want.ndim else want, 'pair contraction ({}) {}'.format(form, s.describe()), scale=scale)
    if res.diagonalFlag:
        mon.event('diagonal_result')
    if np.iscomplexobj(want):
        mon.event('complex_result')
    if want.ndim == 0:
        mon.event('scalar_result')
        mon.equal(np.asarray(res.single()), want, 'single()', scale=scale)


def pair(rng, mon):
    s = M.gen_network(rng, 2, units=0.1, p_diag=[0.0, 0.4, 1.0][int(rng.integers(3))], extra=int(rng.integers(0, 4)),
                      p_free=float(rng.choice([0.0, 0.3, 0.6])), max_dim=int(rng.choice([2, 3, 5])), max_rank=6, repeat=0.2)
    ts = M.build(rng, s)
    res, form = call(rng, *ts)
    mon.note(s.describe(), s.sig(), form)
    finish(mon, rng, s, res, form)


def matrix_like(rng, mon):
    """few legs, large dims"""
    s = M.gen_network(rng, 2, units=0.1, p_diag=0.3, extra=int(rng.integers(0, 2)), p_free=0.4, max_rank=3,
                      max_dim=int(rng.choice([8, 16, 30])), size_cap=30000, out_cap=40000)
    ts = M.build(rng, s)
    res, form = call(rng, *ts)
    mon.note(s.describe(), s.sig(), form)
    finish(mon, rng, s, res, form)


def outer(rng, mon):
    """no shared bond: an outer product, announced by a warning unless disabled"""
    from CTL.tensor.contract.contract import contractTwoTensors
    s = M.gen_network(rng, 2, units=0.1, p_diag=0.5, extra=0, p_free=float(rng.choice([0.2, 0.5])), connected=False, max_rank=3)
    ts = M.build(rng, s)
    warn = bool(rng.integers(2))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        res = contractTwoTensors(ts[0], ts[1], outProductWarning=warn)
    got = [x for x in w if issubclass(x.category, RuntimeWarning)]
    mon.check((len(got) > 0) == warn, 'outer product warning: asked {} got {}'.format(warn, len(got)), 'warning_observed')
    mon.note(s.describe(), s.sig(), warn)
    finish(mon, rng, s, res, 'outer')


def partial(rng, mon):
    """contract over an explicit subset of the shared bonds, given in any order and direction"""
    s = M.gen_network(rng, 2, units=0.1, p_diag=[0.0, 0.4, 1.0][int(rng.integers(3))], extra=int(rng.integers(1, 4)), p_free=0.3, max_rank=5, max_dim=3)
    # labels unique over both tensors: bonds left alone appear twice in the result
    for t in range(2):
        for p in range(len(s.tensors[t]['edges'])):
            s.label[(t, p)] = 't{}p{}'.format(t, p)
    ts = M.build(rng, s)
    shared = [e for e in range(len(s.ends)) if len(s.ends[e]) == 2]
    k = int(rng.integers(1, len(shared) + 1))
    chosen = [shared[i] for i in rng.permutation(len(shared))[:k]]
    bonds = [ts[s.ends[e][int(rng.integers(2))][0]] for e in chosen]
    bonds = [ts[s.ends[e][0][0]].legs[s.ends[e][0][1]].bond for e in chosen]
    left = [(s.ends[e], e) for e in shared if e not in chosen]
    res, form = call(rng, ts[0], ts[1], bonds=bonds)
    mon.note(s.describe(), s.sig(), form, tuple(chosen))
    # reference: the chosen edges are summed, the others stay as two separate legs
    s2 = s
    for ends, e in left:
        s2.ends[e] = [ends[0]]
        s2.dims.append(s2.dims[e])
        s2.ends.append([ends[1]])
        s2.tensors[ends[1][0]]['edges'][ends[1][1]] = len(s2.dims) - 1
    finish(mon, rng, s2, res, form)
    for ends, e in left:
        la, lb = 't{}p{}'.format(*ends[0]), 't{}p{}'.format(*ends[1])
        mon.check(res.getLeg(la).anotherSide() is res.getLeg(lb), 'bond left out of the contraction no longer joins its legs', 'kept_bond')


def kept_links(rng, mon):
    """contracting a pair inside a network keeps the bonds of the other legs"""
    n = int(rng.integers(3, 5))
    s = M.gen_network(rng, n, units=0.1, p_diag=0.3, extra=int(rng.integers(0, 3)), p_free=0.3, max_rank=5, max_dim=3, repeat=0.2)
    ts = M.build(rng, s)
    a, b = [int(x) for x in rng.choice(n, 2, replace=False)]
    where = {}
    for t in (a, b):
        for p, leg in enumerate(ts[t].legs):
            e = s.tensors[t]['edges'][p]
            if {x[0] for x in s.ends[e]} != {a, b} and len(s.ends[e]) == 2:
                o = [x for x in s.ends[e] if x != (t, p)][0]
                where[(t, p)] = ts[o[0]].legs[o[1]]
    legs = [ts[t].legs[:] for t in range(n)]
    res, form = call(rng, ts[a], ts[b])
    mon.note(s.describe(), s.sig(), a, b)
    rest = [ts[i] for i in range(n) if i not in (a, b)]
    M.check_links(mon, [res] + rest, 'after contracting one pair of {}'.format(n))
    want = sorted(id(o) for o in where.values())
    got = sorted(id(l.anotherSide()) for l in res.legs if l.bond is not None)
    mon.check(want == got, 'legs of the result are not bonded to the same partners as before', 'partners')
    # finish the contraction by hand, in random order
    cur = [res] + rest
    while len(cur) > 1:
        i, j = [int(x) for x in rng.choice(len(cur), 2, replace=False)]
        r, _ = call(rng, cur[i], cur[j])
        cur = [c for k, c in enumerate(cur) if k not in (i, j)] + [r]
        M.check_links(mon, cur, 'during hand contraction')
    finish(mon, rng, s, cur[0], 'hand')


def mixed_types(rng, mon):
    """data-carrying and data-free tensors cannot be contracted together"""
    s = M.gen_network(rng, 2, units=0.1, p_diag=0.4, extra=int(rng.integers(0, 2)), p_free=0.4, max_rank=4)
    ts = M.build(rng, s, link=False)
    k = int(rng.integers(2))
    ts[k] = ts[k].toTensorLike()
    M.link_all(rng, s, ts)
    mon.note(s.describe(), s.sig(), k)
    mon.raises(TypeError, lambda: ts[0] @ ts[1], 'contraction of a tensor with a tensor-like')


def bad_links(rng, mon):
    """legs of different dimensions cannot be linked"""
    from CTL.tensor.tensor import Tensor
    from CTL.tensor.contract.link import makeLink
    d1, d2 = [int(x) for x in rng.choice(6, 2, replace=False) + 1]
    a, b = Tensor(shape=(d1, 2), labels=['a', 'b']), Tensor(shape=(3, d2), labels=['a', 'b'])
    mon.note('dims {} {}'.format(d1, d2))
    mon.raises(Exception, lambda: makeLink('a', 'b', a, b), 'link between legs of dims {} and {}'.format(d1, d2))
    mon.check(a.legs[0].bond is None and b.legs[1].bond is None, 'a rejected link left a bond behind', 'rejected_link_clean')
    # several links at once, some of which fit
    n = int(rng.integers(2, 5))
    dims = [int(x) for x in rng.integers(1, 5, n)]
    other = list(dims)
    other[int(rng.integers(n))] += 1
    labs = [M.NAMES[i] for i in rng.permutation(8)[:n]]
    a, b = Tensor(shape=tuple(dims), labels=labs), Tensor(shape=tuple(other), labels=labs)
    mon.raises(Exception, lambda: makeLink(labs, labs, a, b), 'links between legs of dims {} and {}'.format(dims, other))
    c = Tensor(shape=tuple(dims), labels=labs)
    mon.raises(Exception, lambda: makeLink(labs, labs[:-1], a, c), 'links between {} and {} legs'.format(n, n - 1))
    mon.check(all(l.bond is None for t in (a, b, c) for l in t.legs), 'a rejected link left a bond behind', 'rejected_link_clean')
    bonds = makeLink(labs, labs, a, c)
    mon.check(len(bonds) == n and all(x.bond is z and y.bond is z for x, y, z in zip(a.legs, c.legs, bonds)), 'links after a rejected one', 'links_made')
    mon.equal((a @ c).toTensor(), np.sum(a.a * c.a), 'value after a rejected link', scale=float(a.a.size))


WORKLOADS = [
    ('pair', pair, 6000, 120000),
    ('matrix_like', matrix_like, 1200, 20000),
    ('outer', outer, 2500, 40000),
    ('partial', partial, 2500, 50000),
    ('kept_links', kept_links, 2000, 40000),
    ('mixed_types', mixed_types, 300, 3000),
    ('bad_links', bad_links, 100, 1000),
]
REQUIRED_OBS = ['pair.diagonal_result', 'pair.complex_result', 'pair.scalar_result', 'partial.kept_bond', 'outer.warning_observed']
